// An independent model of JSON and of Current's JSON dialects: a strict RFC 8259 parser into a tree, and, per C++ type,
// a decoder of such a tree into a value, a generator of the values of that type, and equality.
#pragma once
#include <array>
#include <cerrno>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "enum.h"
#include "typesystem/serialization/json.h"
#include "typesystem/struct.h"
#include "typesystem/variant.h"
#include "typesystem/optional.h"

namespace jm {

// ------------------------------------------------------------------------------------------------ the tree
struct J {
  enum Kind { Null, True, False, Num, Str, Arr, Obj } k = Null;
  std::string s;  // The number token or the decoded string.
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  const J* Find(const std::string& key) const {
    for (const auto& e : o)
      if (e.first == key) return &e.second;
    return nullptr;
  }
};

enum class Verdict { Valid, Invalid, Unspecified };

struct Parser {
  const std::string& t;
  size_t i = 0;
  bool unspecified = false;
  explicit Parser(const std::string& text) : t(text) {}
  int Peek() const { return i < t.size() ? static_cast<unsigned char>(t[i]) : -1; }
  void Ws() {
    while (Peek() == ' ' || Peek() == '\n' || Peek() == '\r' || Peek() == '\t') ++i;
  }
  bool Lit(const char* w) {
    const size_t n = strlen(w);
    if (t.compare(i, n, w) == 0) {
      i += n;
      return true;
    }
    return false;
  }
  static bool Digit(int c) { return c >= '0' && c <= '9'; }
  static void Utf8(uint32_t c, std::string& out) {
    if (c < 0x80) {
      out += char(c);
    } else if (c < 0x800) {
      out += char(0xC0 | (c >> 6));
      out += char(0x80 | (c & 63));
    } else if (c < 0x10000) {
      out += char(0xE0 | (c >> 12));
      out += char(0x80 | ((c >> 6) & 63));
      out += char(0x80 | (c & 63));
    } else {
      out += char(0xF0 | (c >> 18));
      out += char(0x80 | ((c >> 12) & 63));
      out += char(0x80 | ((c >> 6) & 63));
      out += char(0x80 | (c & 63));
    }
  }
  bool Hex4(uint32_t& v) {
    v = 0;
    for (int n = 0; n < 4; ++n) {
      const int c = Peek();
      if (c < 0 || !isxdigit(c)) return false;
      v = v * 16 + (Digit(c) ? c - '0' : (c | 32) - 'a' + 10);
      ++i;
    }
    return true;
  }
  bool String(std::string& out) {
    if (Peek() != '"') return false;
    ++i;
    while (true) {
      const int c = Peek();
      if (c < 0x20) return false;  // The end, or a control character.
      ++i;
      if (c == '"') return true;
      if (c != '\\') {
        out += char(c);
        continue;
      }
      const int e = Peek();
      ++i;
      switch (e) {
        case '"': out += '"'; break;
        case '\\': out += '\\'; break;
        case '/': out += '/'; break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u': {
          uint32_t v;
          if (!Hex4(v)) return false;
          if (v >= 0xD800 && v < 0xDC00) {
            uint32_t w;
            if (!Lit("\\u")) return false;
            if (!Hex4(w)) return false;
            if (w < 0xDC00 || w > 0xDFFF) return false;
            v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
          } else if (v >= 0xDC00 && v < 0xE000) {
            unspecified = true;
          }
          Utf8(v, out);
          break;
        }
        default: return false;
      }
    }
  }
  bool Number(std::string& out) {
    const size_t b = i;
    if (Peek() == '-') ++i;
    if (Peek() == '0') {
      ++i;
    } else {
      if (!Digit(Peek())) return false;
      while (Digit(Peek())) ++i;
    }
    if (Peek() == '.') {
      ++i;
      if (!Digit(Peek())) return false;
      while (Digit(Peek())) ++i;
    }
    if (Peek() == 'e' || Peek() == 'E') {
      ++i;
      if (Peek() == '+' || Peek() == '-') ++i;
      if (!Digit(Peek())) return false;
      while (Digit(Peek())) ++i;
    }
    out = t.substr(b, i - b);
    // A zero with an excessive exponent, or a huge mantissa scaled down, may well be refused.
    const size_t e = out.find_first_of("eE");
    if (e != std::string::npos && out.size() - e > 4 && strtod(out.c_str(), nullptr) == 0) unspecified = true;
    // A magnitude beyond the range of `double` is not representable, the parser is free to refuse the whole text.
    if (std::isinf(strtod(out.c_str(), nullptr))) return false;
    return true;
  }
  bool ParseValue(J& v) {
    Ws();
    switch (Peek()) {
      case 'n': v.k = J::Null; return Lit("null");
      case 't': v.k = J::True; return Lit("true");
      case 'f': v.k = J::False; return Lit("false");
      case '"': v.k = J::Str; return String(v.s);
      case '[': {
        v.k = J::Arr;
        ++i;
        Ws();
        if (Peek() == ']') {
          ++i;
          return true;
        }
        while (true) {
          v.a.emplace_back();
          if (!ParseValue(v.a.back())) return false;
          Ws();
          const int c = Peek();
          ++i;
          if (c == ']') return true;
          if (c != ',') return false;
        }
      }
      case '{': {
        v.k = J::Obj;
        ++i;
        Ws();
        if (Peek() == '}') {
          ++i;
          return true;
        }
        while (true) {
          Ws();
          v.o.emplace_back();
          if (!String(v.o.back().first)) return false;
          Ws();
          if (Peek() != ':') return false;
          ++i;
          if (!ParseValue(v.o.back().second)) return false;
          Ws();
          const int c = Peek();
          ++i;
          if (c == '}') return true;
          if (c != ',') return false;
        }
      }
      default: v.k = J::Num; return Number(v.s);
    }
  }
};

inline Verdict Parse(const std::string& text, J& out) {
  Parser p(text);
  bool ok = p.ParseValue(out);
  if (ok) {
    p.Ws();
    ok = p.i == text.size();
  }
  return p.unspecified ? Verdict::Unspecified : ok ? Verdict::Valid : Verdict::Invalid;
}

inline void PrintString(const std::string& s, std::string& out) {
  out += '"';
  for (const char c : s) {
    if (c == '"' || c == '\\') {
      out += '\\';
      out += c;
    } else if (static_cast<unsigned char>(c) < 0x20) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\u%04x", c);
      out += buf;
    } else {
      out += c;
    }
  }
  out += '"';
}

inline void Print(const J& j, std::string& out) {
  switch (j.k) {
    case J::Null: out += "null"; break;
    case J::True: out += "true"; break;
    case J::False: out += "false"; break;
    case J::Num: out += j.s; break;
    case J::Str: PrintString(j.s, out); break;
    case J::Arr:
      out += '[';
      for (size_t i = 0; i < j.a.size(); ++i) {
        if (i) out += ',';
        Print(j.a[i], out);
      }
      out += ']';
      break;
    case J::Obj:
      out += '{';
      for (size_t i = 0; i < j.o.size(); ++i) {
        if (i) out += ',';
        PrintString(j.o[i].first, out);
        out += ':';
        Print(j.o[i].second, out);
      }
      out += '}';
      break;
  }
}

// ------------------------------------------------------------------------------------------------ the dialects
using FCur = current::serialization::json::JSONFormat::Current;
using FMin = current::serialization::json::JSONFormat::Minimalistic;
using FJS = current::serialization::json::JSONFormat::JavaScript;
using FFS = current::serialization::json::JSONFormat::NewtonsoftFSharp;
enum class Style { Current, Simple, FSharp };
template <class F>
struct StyleOf;
template <>
struct StyleOf<FCur> {
  static constexpr Style v = Style::Current;
  static constexpr const char* name = "Current";
};
template <>
struct StyleOf<FMin> {
  static constexpr Style v = Style::Simple;
  static constexpr const char* name = "Minimalistic";
};
template <>
struct StyleOf<FJS> {
  static constexpr Style v = Style::Simple;
  static constexpr const char* name = "JavaScript";
};
template <>
struct StyleOf<FFS> {
  static constexpr Style v = Style::FSharp;
  static constexpr const char* name = "NewtonsoftFSharp";
};

// ------------------------------------------------------------------------------------------------ types
// Tr<T>: Gen(w) - enumerates the values of the type, the wider `w` the more; Eq; Dec(tree or nullptr when missing, style, out).
template <class T, class = void>
struct Tr;
template <class S>
struct Fields {
  static constexpr bool is = false;
};

template <class T>
T Of(const std::vector<T>& values, int w) {
  const int n = static_cast<int>(values.size());
  return values[en::Choose(w >= 2 ? n : w == 1 ? std::min(n, 3) : std::min(n, 2))];
}

inline int SizeOf(int w) { return w < -1 ? 0 : en::Choose(w <= 0 ? 2 : w == 1 ? 3 : 4); }

inline bool IsIntToken(const std::string& s) { return s.find_first_of(".eE") == std::string::npos; }

template <class T>
struct Tr<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static constexpr bool ordered = true;
  static T Gen(int w) {
    using L = std::numeric_limits<T>;
    return Of<T>({T(1), L::max(), L::min(), T(0), T(L::max() - 1), T(L::min() + 1), T(-1), T(2), T(42), T(127), T(128),
                  T(255), T(256), T(32767), T(32768), T(65535), T(65536), T(2147483647), T(2147483648ll), T(4294967295ll),
                  T(4294967296ll), T(9007199254740993ll), T(9223372036854775807ll)},
                 w);
  }
  static bool Eq(const T& a, const T& b) { return a == b; }
  static bool Dec(const J* j, Style, T& out) {
    if (!j || j->k != J::Num || !IsIntToken(j->s)) return false;
    errno = 0;
    if (std::is_signed_v<T>) {
      const long long v = strtoll(j->s.c_str(), nullptr, 10);
      if (errno || v < static_cast<long long>(std::numeric_limits<T>::min()) ||
          v > static_cast<long long>(std::numeric_limits<T>::max()))
        return false;
      out = static_cast<T>(v);
    } else {
      if (j->s[0] == '-' && strtod(j->s.c_str(), nullptr) != 0) return false;
      const unsigned long long v = strtoull(j->s.c_str(), nullptr, 10);
      if (errno || v > static_cast<unsigned long long>(std::numeric_limits<T>::max())) return false;
      out = static_cast<T>(v);
    }
    return true;
  }
};

template <>
struct Tr<bool> {
  static constexpr bool ordered = true;
  static bool Gen(int) { return en::Flip(); }
  static bool Eq(bool a, bool b) { return a == b; }
  static bool Dec(const J* j, Style, bool& out) {
    if (!j || (j->k != J::True && j->k != J::False)) return false;
    out = j->k == J::True;
    return true;
  }
};

template <class T>
struct Tr<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static constexpr bool ordered = true;
  static T Gen(int w) {
    using L = std::numeric_limits<T>;
    return Of<T>({T(0.1), T(-2.5e10), T(0), T(-0.0), T(1), T(-1), T(1.0 / 3), L::max(), L::lowest(), L::min(), L::denorm_min(),
                  L::epsilon(), T(1e21), T(1e-7), T(123456789012345678.0), T(5e-324), T(9007199254740993.0), T(1e22), T(1e23)},
                 w);
  }
  static bool Eq(T a, T b) { return memcmp(&a, &b, sizeof(a)) == 0; }
  static bool Dec(const J* j, Style, T& out) {
    if (!j || j->k != J::Num) return false;
    const double d = strtod(j->s.c_str(), nullptr);
    if (std::is_same_v<T, float> && (d > std::numeric_limits<float>::max() || d < std::numeric_limits<float>::lowest()))
      return false;
    out = static_cast<T>(d);
    if (IsIntToken(j->s) && out == 0) out = 0;  // "-0" is an integer.
    return true;
  }
};

template <>
struct Tr<std::string> {
  static constexpr bool ordered = true;
  static std::string Gen(int w) {
    using S = std::string;
    return Of<S>({"a", S("\0\"", 2), "", "\\", "/", "\n\r\t\b\f", "\x01\x1f\x7f", "\xc3\xa9\xe2\x80\xa8\xf0\x9f\x98\x80", "\\u0041",
                  "T1", "Case", "$", S("a\0", 2), " ", "null", S(300, 'x'), "{\"a\":1}"},
                 w);
  }
  static bool Eq(const std::string& a, const std::string& b) { return a == b; }
  static bool Dec(const J* j, Style, std::string& out) {
    if (!j || j->k != J::Str) return false;
    out = j->s;
    return true;
  }
};

template <class D>
struct TrDuration {
  static constexpr bool ordered = true;
  static D Gen(int w) { return D(Tr<int64_t>::Gen(w)); }
  static bool Eq(D a, D b) { return a == b; }
  static bool Dec(const J* j, Style s, D& out) {
    int64_t v;
    if (!Tr<int64_t>::Dec(j, s, v)) return false;
    out = D(v);
    return true;
  }
};
template <>
struct Tr<std::chrono::microseconds> : TrDuration<std::chrono::microseconds> {};
template <>
struct Tr<std::chrono::milliseconds> : TrDuration<std::chrono::milliseconds> {};

inline bool DecTypeID(const J* j, uint64_t& out) {
  if (!j || j->k != J::Str || j->s.size() < 2 || j->s[0] != 'T') return false;
  for (size_t i = 1; i < j->s.size(); ++i)
    if (!isdigit(static_cast<unsigned char>(j->s[i]))) return false;
  errno = 0;
  out = strtoull(j->s.c_str() + 1, nullptr, 10);
  return !errno;
}

template <>
struct Tr<current::reflection::TypeID> {
  using T = current::reflection::TypeID;
  static constexpr bool ordered = true;
  static T Gen(int w) { return static_cast<T>(Tr<uint64_t>::Gen(w)); }
  static bool Eq(T a, T b) { return a == b; }
  static bool Dec(const J* j, Style, T& out) {
    uint64_t v;
    if (!DecTypeID(j, v)) return false;
    out = static_cast<T>(v);
    return true;
  }
};

template <class T>
struct Tr<T, std::enable_if_t<std::is_enum_v<T> && !std::is_same_v<T, current::reflection::TypeID>>> {
  using U = std::underlying_type_t<T>;
  static constexpr bool ordered = true;
  static T Gen(int w) { return static_cast<T>(Tr<U>::Gen(w)); }
  static bool Eq(T a, T b) { return a == b; }
  static bool Dec(const J* j, Style s, T& out) {
    U v;
    if (!Tr<U>::Dec(j, s, v)) return false;
    out = static_cast<T>(v);
    return true;
  }
};

template <class C, class E>
struct TrSequence {
  static constexpr bool ordered = Tr<E>::ordered;
  static bool Eq(const C& a, const C& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
      if (!Tr<E>::Eq(a[i], b[i])) return false;
    return true;
  }
  static bool DecInto(const J* j, Style s, C& out) {
    for (size_t i = 0; i < j->a.size(); ++i) {
      E e{};
      if (!Tr<E>::Dec(&j->a[i], s, e)) return false;
      out[i] = std::move(e);
    }
    return true;
  }
};
template <class E>
struct Tr<std::vector<E>> : TrSequence<std::vector<E>, E> {
  static std::vector<E> Gen(int w) {
    std::vector<E> v;
    for (int n = SizeOf(w); n; --n) v.push_back(Tr<E>::Gen(w - 1));
    return v;
  }
  static bool Dec(const J* j, Style s, std::vector<E>& out) {
    if (!j || j->k != J::Arr) return false;
    out.clear();
    out.resize(j->a.size());
    return Tr::DecInto(j, s, out);
  }
};
template <class E, size_t N>
struct Tr<std::array<E, N>> : TrSequence<std::array<E, N>, E> {
  static std::array<E, N> Gen(int w) {
    std::array<E, N> v{};
    for (size_t i = 0; i < N; ++i) v[i] = Tr<E>::Gen(w - 1);
    return v;
  }
  static bool Dec(const J* j, Style s, std::array<E, N>& out) {
    if (!j || j->k != J::Arr || j->a.size() != N) return false;
    return Tr::DecInto(j, s, out);
  }
};

template <class C, class E>
struct TrSet {
  static C Gen(int w) {
    C c;
    for (int n = SizeOf(std::min(w, 1)); n; --n) c.insert(Tr<E>::Gen(w - 1));
    return c;
  }
  static bool Eq(const C& a, const C& b) { return a == b; }
  static bool Dec(const J* j, Style s, C& out) {
    if (!j || j->k != J::Arr) return false;
    out.clear();
    for (const J& x : j->a) {
      E e{};
      if (!Tr<E>::Dec(&x, s, e)) return false;
      out.insert(std::move(e));
    }
    return true;
  }
};
template <class E>
struct Tr<std::set<E>> : TrSet<std::set<E>, E> {
  static constexpr bool ordered = true;
};
template <class E>
struct Tr<std::unordered_set<E>> : TrSet<std::unordered_set<E>, E> {
  static constexpr bool ordered = false;
};

template <class C, class K, class V>
struct TrMap {
  static C Gen(int w) {
    C c;
    for (int n = SizeOf(std::min(w, 1)); n; --n) {
      K k = Tr<K>::Gen(w - 1);
      c.emplace(std::move(k), Tr<V>::Gen(w - 1));
    }
    return c;
  }
  static bool Eq(const C& a, const C& b) {
    if (a.size() != b.size()) return false;
    for (const auto& e : a) {
      const auto cit = b.find(e.first);
      if (cit == b.end() || !Tr<V>::Eq(e.second, cit->second)) return false;
    }
    return true;
  }
  static bool Dec(const J* j, Style s, C& out) {
    out.clear();
    if (std::is_same_v<K, std::string>) {
      if (!j || j->k != J::Obj) return false;
      for (const auto& e : j->o) {
        J key;
        key.k = J::Str;
        key.s = e.first;
        K k{};
        V v{};
        if (!Tr<K>::Dec(&key, s, k) || !Tr<V>::Dec(&e.second, s, v)) return false;
        out.emplace(std::move(k), std::move(v));
      }
    } else {
      if (!j || j->k != J::Arr) return false;
      for (const J& e : j->a) {
        if (e.k != J::Arr || e.a.size() != 2) return false;
        K k{};
        V v{};
        if (!Tr<K>::Dec(&e.a[0], s, k) || !Tr<V>::Dec(&e.a[1], s, v)) return false;
        out.emplace(std::move(k), std::move(v));
      }
    }
    return true;
  }
};
template <class K, class V>
struct Tr<std::map<K, V>> : TrMap<std::map<K, V>, K, V> {
  static constexpr bool ordered = Tr<V>::ordered;
};
template <class K, class V>
struct Tr<std::unordered_map<K, V>> : TrMap<std::unordered_map<K, V>, K, V> {
  static constexpr bool ordered = false;
};

template <class A, class B>
struct Tr<std::pair<A, B>> {
  using T = std::pair<A, B>;
  static constexpr bool ordered = Tr<A>::ordered && Tr<B>::ordered;
  static T Gen(int w) {
    T t;
    t.first = Tr<A>::Gen(w - 1);
    t.second = Tr<B>::Gen(w - 1);
    return t;
  }
  static bool Eq(const T& a, const T& b) { return Tr<A>::Eq(a.first, b.first) && Tr<B>::Eq(a.second, b.second); }
  static bool Dec(const J* j, Style s, T& out) {
    if (!j) return false;
    if (s == Style::FSharp) {
      if (j->k != J::Obj || !j->Find("Item1") || !j->Find("Item2")) return false;
      return Tr<A>::Dec(j->Find("Item1"), s, out.first) && Tr<B>::Dec(j->Find("Item2"), s, out.second);
    }
    if (j->k != J::Arr || j->a.size() != 2) return false;
    return Tr<A>::Dec(&j->a[0], s, out.first) && Tr<B>::Dec(&j->a[1], s, out.second);
  }
};

template <class... TS>
struct Tr<std::tuple<TS...>> {
  using T = std::tuple<TS...>;
  static constexpr bool ordered = (Tr<TS>::ordered && ... && true);
  static T Gen(int w) {
    T t;
    std::apply([w](auto&... x) { ((x = Tr<std::decay_t<decltype(x)>>::Gen(w - 1)), ...); }, t);
    return t;
  }
  template <size_t... I>
  static bool EqImpl(const T& a, const T& b, std::index_sequence<I...>) {
    return (Tr<TS>::Eq(std::get<I>(a), std::get<I>(b)) && ... && true);
  }
  static bool Eq(const T& a, const T& b) { return EqImpl(a, b, std::index_sequence_for<TS...>()); }
  template <size_t... I>
  static bool DecImpl(const J* j, Style s, T& out, std::index_sequence<I...>) {
    return (Tr<TS>::Dec(&j->a[I], s, std::get<I>(out)) && ... && true);
  }
  static bool Dec(const J* j, Style s, T& out) {
    if (!j || j->k != J::Arr || j->a.size() != sizeof...(TS)) return false;
    return DecImpl(j, s, out, std::index_sequence_for<TS...>());
  }
};

template <class E>
struct Tr<Optional<E>> {
  using T = Optional<E>;
  static constexpr bool ordered = Tr<E>::ordered;
  static T Gen(int w) {
    T t;
    if (en::Flip()) t = Tr<E>::Gen(w - 1);
    return t;
  }
  static bool Eq(const T& a, const T& b) {
    if (Exists(a) != Exists(b)) return false;
    return !Exists(a) || Tr<E>::Eq(Value(a), Value(b));
  }
  static bool Dec(const J* j, Style s, T& out) {
    out = nullptr;
    if (!j || j->k == J::Null) return true;
    E e{};
    if (s == Style::FSharp) {
      if (j->k != J::Obj) return false;
      const J* c = j->Find("Case");
      if (!c || c->k != J::Str) return false;
      if (c->s == "None") return true;
      const J* f = j->Find("Fields");
      if (c->s != "Some" || !f || f->k != J::Arr || f->a.size() != 1) return false;
      if (!Tr<E>::Dec(&f->a[0], s, e)) return false;
    } else {
      if (!Tr<E>::Dec(j, s, e)) return false;
    }
    out = std::move(e);
    return true;
  }
};

template <class NAME, class... TS>
struct Tr<current::VariantImpl<NAME, current::metaprogramming::TypeListImpl<TS...>>> {
  using T = current::VariantImpl<NAME, current::metaprogramming::TypeListImpl<TS...>>;
  static constexpr bool ordered = (Tr<TS>::ordered && ... && true);
  template <class X>
  static void GenCase(T& t, int w) {
    t = Tr<X>::Gen(w);
  }
  static T Gen(int w) {
    using gen_t = void (*)(T&, int);
    static const std::vector<gen_t> gens = {&GenCase<TS>...};
    T t;
    en::Pick(gens)(t, w - 1);
    return t;
  }
  template <class X>
  static bool EqCase(const T& a, const T& b) {
    if (Exists<X>(a) != Exists<X>(b)) return false;
    return !Exists<X>(a) || Tr<X>::Eq(Value<X>(a), Value<X>(b));
  }
  static bool Eq(const T& a, const T& b) { return Exists(a) == Exists(b) && (EqCase<TS>(a, b) && ...); }
  template <class X>
  static std::string Name() {
    return current::reflection::CurrentTypeName<X, current::reflection::NameFormat::Z>();
  }
  template <class X>
  static bool DecCase(const J* j, Style s, const std::string& name, uint64_t id, T& out, bool& found) {
    if (found) return true;
    const J* body = nullptr;
    X x;
    if (s == Style::Current) {
      static const uint64_t type_id =
          static_cast<uint64_t>(Value<current::reflection::ReflectedTypeBase>(current::reflection::Reflector().ReflectType<X>()).type_id);
      if (id != type_id) return true;
      body = j->Find(Name<X>());
    } else {
      if (name != Name<X>()) return true;
      if (s == Style::Simple) {
        body = j->Find(name);
      } else {
        const J* f = j->Find("Fields");
        if (!f) {
          if (!(IS_EMPTY_CURRENT_STRUCT(X))) return false;
          out = std::move(x);
          found = true;
          return true;
        }
        if (f->k != J::Arr || f->a.size() != 1) return false;
        body = &f->a[0];
      }
    }
    if (!body || !Tr<X>::Dec(body, s, x)) return false;
    out = std::move(x);
    found = true;
    return true;
  }
  static bool Dec(const J* j, Style s, T& out) {
    if (!j || j->k == J::Null) {
      out = T();
      return s == Style::Simple;  // There, an empty variant is denoted by its absence.
    }
    if (j->k != J::Obj) return false;
    std::string name;
    uint64_t id = 0;
    if (s == Style::Current) {
      if (!DecTypeID(j->Find(""), id)) return false;
    } else if (s == Style::Simple) {
      bool any = false;
      for (const auto& e : j->o) {
        if (e.first != "" && e.first != "$") {
          if (any) return false;
          any = true;
          name = e.first;
        }
      }
      if (!any) return false;
    } else {
      const J* c = j->Find("Case");
      if (!c || c->k != J::Str) return false;
      name = c->s;
    }
    bool found = false;
    return (DecCase<TS>(j, s, name, id, out, found) && ...) && found;
  }
};

template <class S>
struct Tr<S, std::enable_if_t<Fields<S>::is>> {
  using super = typename Fields<S>::super;
  static constexpr bool ordered = Fields<S>::ordered;
  static void GenInto(S& s, int w) {
    if constexpr (!std::is_same_v<super, void>) Tr<super>::GenInto(static_cast<super&>(s), w);
    Fields<S>::Each([w](const char*, auto& f) { f = Tr<std::decay_t<decltype(f)>>::Gen(w - 1); }, s);
  }
  static S Gen(int w) {
    S s;
    GenInto(s, w);
    return s;
  }
  static bool Eq(const S& a, const S& b) {
    bool ok = true;
    if constexpr (!std::is_same_v<super, void>) ok = Tr<super>::Eq(static_cast<const super&>(a), static_cast<const super&>(b));
    Fields<S>::Each([&ok](const char*, const auto& x, const auto& y) { ok = ok && Tr<std::decay_t<decltype(x)>>::Eq(x, y); }, a, b);
    return ok;
  }
  static bool Dec(const J* j, Style st, S& s) {
    if (!j || j->k != J::Obj) return false;
    bool ok = true;
    if constexpr (!std::is_same_v<super, void>) ok = Tr<super>::Dec(j, st, static_cast<super&>(s));
    Fields<S>::Each(
        [&](const char* name, auto& f) { ok = ok && Tr<std::decay_t<decltype(f)>>::Dec(j->Find(name), st, f); }, s);
    return ok;
  }
};

#define JM_FIELDS(S, SUPER, ORDERED, ...)                     \
  template <>                                                 \
  struct Fields<S> {                                          \
    static constexpr bool is = true;                          \
    static constexpr bool ordered = ORDERED;                  \
    using super = SUPER;                                      \
    template <class F, class... O>                            \
    static void Each(F&& f, O&&... o) {                       \
      static_cast<void>(f);                                   \
      (static_cast<void>(o), ...);                            \
      __VA_ARGS__                                             \
    }                                                         \
  }
#define JM_F(x) f(#x, o.x...);

}  // namespace jm
