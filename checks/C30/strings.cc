// C30: string and encoding utilities against their definitions, on every short input.
#include "bricks/strings/strings.h"
#include "bricks/strings/group_by_lines.h"
#include "bricks/util/base64.h"
#include "bricks/util/crc32.h"
#include "bricks/util/sha256.h"

#include <cstring>
#include <list>
#include <map>
#include <set>

#include "enum.h"

using namespace current::strings;
using std::string;
using strings_t = std::vector<string>;

namespace {

string Show(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof(b), "\\x%02x", c); r += b; }
  }
  return r + '"';
}
string Show(const strings_t& v) {
  string r = "[";
  for (const auto& s : v) r += Show(s) + " ";
  return r + "]";
}
template <class T>
void Same(const T& a, const T& b, const char* sig, const string& on) {
  if (!(a == b)) en::Violation(sig, "on " + on + ": got " + Show(a) + ", want " + Show(b));
}
void Sure(bool b, const char* sig, const string& on) {
  if (!b) en::Violation(sig, "on " + on);
}

string AnyString(const string& alphabet, int max_length) {
  string s;
  const int n = en::Choose(max_length + 1);
  for (int i = 0; i < n; ++i) s += alphabet[en::Choose(static_cast<int>(alphabet.size()))];
  en::Note(Show(s));
  return s;
}

template <class P>
strings_t ModelSplit(const string& s, P is_separator, EmptyFields e) {
  strings_t v(1);
  for (char c : s) {
    if (is_separator(c)) v.emplace_back(); else v.back() += c;
  }
  if (e == EmptyFields::Skip) {
    strings_t w;
    for (auto& x : v) if (!x.empty()) w.push_back(x);
    return w;
  }
  return v;
}

// Every way to call Split with this separator.
template <class SEP, class P>
void CheckSplit(const string& s, SEP&& sep, P pred, const char* what) {
  for (EmptyFields e : {EmptyFields::Skip, EmptyFields::Keep}) {
    const strings_t want = ModelSplit(s, pred, e);
    const string on = Show(s) + " by " + what + (e == EmptyFields::Skip ? ", skip" : ", keep");
    en::Evaluations(1);
    {
      const string c = s;
      Same(Split(c, sep, EmptyFields(e)), want, "split", on);
      strings_t got;
      const size_t n = Split(c, sep, [&](const string& x) { got.push_back(x); }, e);
      Same(got, want, "split-callback", on);
      Sure(n == want.size(), "split-count", on);
      got.clear();
      Split(c, sep, [&](string&& x) { got.push_back(std::move(x)); }, e);
      Same(got, want, "split-callback-rvalue", on);
      got.clear();
      for (Chunk x : SplitIntoChunks(c, sep, e)) got.push_back(x);
      Same(got, want, "split-into-chunks", on);
      Same(c, s, "split-changes-the-source", on);
    }
    {
      string m = s;
      strings_t got;
      const size_t n = Split(m, sep, [&](Chunk x) { Sure(x.c_str()[x.length()] == '\0', "split-chunk-terminator", on); got.push_back(x); }, e);
      Same(got, want, "split-in-place", on);
      Sure(n == want.size(), "split-count", on);
      Same(m, s, "split-changes-the-source", on);
      got.clear();
      Split(Chunk(m), sep, [&](Chunk x) { got.push_back(x); }, e);
      Same(got, want, "split-chunk", on);
      Same(m, s, "split-changes-the-source", on);
      Same(Split(m, sep, EmptyFields(e)), want, "split-mutable", on);
      if (s.find('\0') == string::npos) {
        got.clear();
        Split(&m[0], sep, [&](Chunk x) { got.push_back(x); }, e);
        Same(got, want, "split-char-pointer", on);
        got.clear();
        Split(static_cast<const char*>(m.c_str()), sep, [&](const string& x) { got.push_back(x); }, e);
        Same(got, want, "split-const-char-pointer", on);
        got.clear();
        for (Chunk x : SplitIntoChunks(&m[0], sep, e)) got.push_back(x);
        Same(got, want, "split-into-chunks", on);
        Same(m, s, "split-changes-the-source", on);
      }
    }
  }
}

bool Space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

}  // namespace

static const string kAlphabet = string("a,; \n") + string(1, '\0') + "\xff\r";

EN_SCENARIO(split) {
  const string s = AnyString(kAlphabet, static_cast<int>(en::Param("split_length", 4)));
  CheckSplit(s, ',', [](char c) { return c == ','; }, "','");
  CheckSplit(s, '\0', [](char c) { return c == '\0'; }, "'\\0'");
  CheckSplit(s, '\xff', [](char c) { return c == '\xff'; }, "'\\xff'");
  CheckSplit(s, ",;", [](char c) { return c == ',' || c == ';'; }, "\",;\"");
  CheckSplit(s, "\xff", [](char c) { return c == '\xff'; }, "\"\\xff\"");
  string set = ",a";
  CheckSplit(s, set, [](char c) { return c == ',' || c == 'a'; }, "string(\",a\")");
  CheckSplit(s, ByWhitespace::UseIsSpace, Space, "whitespace");
  CheckSplit(s, ByLines::Use0Aor0D, [](char c) { return c == '\n' || c == '\r'; }, "lines");
  const auto keep = [](char c) { return c == 'a' || c == '\0'; };
  CheckSplit(s, keep, [&](char c) { return !keep(c); }, "predicate");
  Same(Split<ByWhitespace>(s), ModelSplit(s, Space, EmptyFields::Skip), "split-default-separator", Show(s));
  Same(Split<ByLines>(s), ModelSplit(s, [](char c) { return c == '\n' || c == '\r'; }, EmptyFields::Skip), "split-default-separator", Show(s));
  // Joining what was split gives the original back.
  Same(Join(Split(s, ',', EmptyFields::Keep), ','), s, "join-of-split", Show(s));
  Same(Join(Split(s, ' ', EmptyFields::Keep), " "), s, "join-of-split", Show(s));
}

EN_SCENARIO(key_value) {
  const string s = AnyString("k=: v", static_cast<int>(en::Param("kv_length", 6)));
  const auto eq = [](char c) { return c == '='; };
  const auto model = [&](char field_separator, bool space) {
    std::vector<strings_t> r;
    for (const auto& f : ModelSplit(s, [&](char c) { return space ? Space(c) : c == field_separator; }, EmptyFields::Skip)) r.push_back(ModelSplit(f, eq, EmptyFields::Skip));
    return r;
  };
  for (bool space : {false, true}) {
    const auto m = model(':', space);
    strings_t want;
    int bad = 0;  // The first malformed pair: 1 has no value, 2 has several.
    for (const auto& kv : m) {
      if (kv.size() == 2) {
        want.push_back(kv[0]);
        want.push_back(kv[1]);
      } else if (!bad) {
        bad = kv.size() < 2 ? 1 : 2;
      }
    }
    const auto flat = [](const std::vector<std::pair<string, string>>& v) {
      strings_t r;
      for (const auto& p : v) { r.push_back(p.first); r.push_back(p.second); }
      return r;
    };
    Same(flat(space ? SplitIntoKeyValuePairs(s, '=') : SplitIntoKeyValuePairs(s, '=', ':')), want, "key-value", Show(s));
    Same(flat(space ? SplitIntoKeyValuePairs(s, "=") : SplitIntoKeyValuePairs(s, "=", ":")), want, "key-value", Show(s));
    int got = 0;
    try {
      const auto v = space ? SplitIntoKeyValuePairs(s, '=', KeyValueParsing::Throw) : SplitIntoKeyValuePairs(s, '=', ':', KeyValueParsing::Throw);
      Same(flat(v), want, "key-value", Show(s));
    } catch (const KeyValueNoValueException&) {
      got = 1;
    } catch (const KeyValueMultipleValuesException&) {
      got = 2;
    }
    Sure(got == bad, "key-value-exception", Show(s));
  }
}

EN_SCENARIO(join) {
  const int n = en::Choose(4);
  strings_t v;
  static const strings_t items = {"", "a", "bc", string("\0", 1), "\xff", "x y"};
  for (int i = 0; i < n; ++i) v.push_back(en::Pick(items));
  for (const string& sep : {string(","), string(", "), string(""), string("\n")}) {
    string want;
    for (int i = 0; i < n; ++i) want += (i ? sep : "") + v[i];
    string mutable_separator = sep;
    Same(Join(v, mutable_separator), want, "join", Show(v));
    Same(Join(std::list<string>(v.begin(), v.end()), mutable_separator), want, "join-list", Show(v));
    if (sep == ",") Same(Join(v, ','), want, "join-char", Show(v));
    if (sep == ", ") Same(Join(v, ", "), want, "join-literal", Show(v));
    if (sep == "") Same(Join(v, ""), want, "join-literal", Show(v));
  }
  if (n) Same(Split(Join(v, ','), ',', EmptyFields::Keep), v, "split-of-join", Show(v));
  strings_t nonempty;
  for (const auto& s : v) if (!s.empty()) nonempty.push_back(s);
  Same(Split(Join(v, ','), ','), nonempty, "split-of-join", Show(v));
  std::set<string> set(v.begin(), v.end());
  Same(Join(set, ','), Join(strings_t(set.begin(), set.end()), ','), "join-set", Show(v));
  std::vector<int> ints;
  string want;
  for (int i = 0; i < n; ++i) { ints.push_back(static_cast<int>(v[i].size()) - 1); want += (i ? ":" : "") + std::to_string(ints[i]); }
  Same(Join(ints, ':'), want, "join-numbers", Show(v));
}

namespace {
void CheckGroup(const string& s, int cuts, int throw_at) {
  strings_t pieces(1);
  for (size_t i = 0; i < s.size(); ++i) {
    pieces.back() += s[i];
    if (i + 1 < s.size() && (cuts >> i & 1)) pieces.emplace_back();
  }
  strings_t lines(1);
  for (char c : s) if (c == '\n') lines.emplace_back(); else lines.back() += c;
  const string tail = lines.back();
  lines.pop_back();
  strings_t want = lines;
  if (!tail.empty()) want.push_back(tail);
  strings_t cwant;
  for (const auto& l : want) cwant.push_back(l.c_str());
  const bool nul = s.find('\0') != string::npos;
  const string on = Show(pieces);
  en::Evaluations(1);
  for (bool as_string : {true, false}) {
    if (!as_string && nul) continue;
    const auto feed = [&](auto& g) {
      for (const auto& p : pieces) if (as_string) g.Feed(p); else g.Feed(p.c_str());
    };
    if (throw_at < 0) {
      strings_t got;
      {
        StatefulGroupByLines g([&](string&& l) { got.push_back(l); });
        feed(g);
        Same(got, lines, "lines-too-early-or-late", on);
      }
      Same(got, want, "lines", on);
      got.clear();
      {
        auto g = CreateStatefulGroupByLines([&](const string& l) { got.push_back(l); });
        feed(g);
      }
      Same(got, want, "lines", on);
      got.clear();
      {
        auto g = CreateStatefulGroupByLines([&](const char* l) { got.push_back(l); });
        feed(g);
      }
      Same(got, cwant, "lines-c-string", on);
    }
    struct Oops {};
    strings_t got;
    bool signalled = false;
    auto& handler = current::Singleton<ExceptionFriendlyStatefulGroupByLinesDoneNotCalledHandler>();
    handler.InjectHandler([&] { signalled = true; });
    bool thrown = false;
    {
      auto g = CreateExceptionFriendlyStatefulGroupByLines([&](string&& l) {
        got.push_back(l);
        if (static_cast<int>(got.size()) == throw_at + 1) throw Oops();
      });
      for (const auto& p : pieces) {
        try {
          if (as_string) g.Feed(p); else g.Feed(p.c_str());
        } catch (const Oops&) {
          Sure(!thrown, "exception-twice", on);
          thrown = true;
        }
      }
      strings_t partial = lines;
      if (throw_at >= 0 && throw_at < static_cast<int>(lines.size())) partial.resize(throw_at + 1);
      Same(got, partial, "lines-before-done", on);
      Sure(thrown == (throw_at >= 0 && throw_at < static_cast<int>(lines.size())), "exception-lost", on);
      Sure(!g.DebugWasDoneCalled(), "done", on);
      bool done_threw = false;
      try {
        g.Done();
      } catch (const Oops&) {
        done_threw = true;
      }
      if (thrown) {
        Same(got, partial, "lines-after-exception", on);
      } else {
        Same(got, want, "lines-after-done", on);
        Sure(done_threw == (throw_at >= 0 && throw_at + 1 == static_cast<int>(want.size())), "exception-in-done", on);
      }
      try {
        g.Done();
        Sure(false, "done-twice", on);
      } catch (const GroupByLinesDoneCalledTwice&) {
      }
      try {
        g.Feed(as_string ? string("x") : string("y"));
        Sure(false, "feed-after-done", on);
      } catch (const GroupByLinesFeedCaledAfterDone&) {
      }
    }
    Sure(!signalled, "done-not-called-signal", on);
    {
      auto g = CreateExceptionFriendlyStatefulGroupByLines([](string&&) {});
      feed(g);
    }
    Sure(signalled, "done-not-called-signal", on);
    handler.ResetHandler();
  }
}
}  // namespace

EN_SCENARIO(lines) {
  const string s = AnyString(string("a\n\r") + string(1, '\0'), static_cast<int>(en::Param("lines_length", 5)));
  for (int cuts = 0; cuts < (s.size() < 2 ? 1 : 1 << (s.size() - 1)); ++cuts) {
    for (int throw_at = -1; throw_at < 3; ++throw_at) CheckGroup(s, cuts, throw_at);
  }
}

namespace {
string ModelBase64(const string& s, bool url) {
  const string map = string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") + (url ? "-_" : "+/");
  string bits, r;
  for (unsigned char c : s) for (int b = 7; b >= 0; --b) bits += '0' + (c >> b & 1);
  while (bits.size() % 6) bits += '0';
  for (size_t i = 0; i < bits.size(); i += 6) r += map[strtol(bits.substr(i, 6).c_str(), nullptr, 2)];
  while (r.size() % 4) r += '=';
  return r;
}
void CheckBase64(const string& s) {
  const string e = ModelBase64(s, false), u = ModelBase64(s, true);
  const string on = Show(s);
  Same(current::Base64Encode(s), e, "base64-encode", on);
  Same(current::Base64Encode(s.data(), s.size()), e, "base64-encode", on);
  Same(current::Base64Encode(reinterpret_cast<const uint8_t*>(s.data()), s.size()), e, "base64-encode", on);
  Same(current::Base64URLEncode(s), u, "base64url-encode", on);
  Same(current::Base64URLEncode(s.data(), s.size()), u, "base64url-encode", on);
  Same(current::Base64Decode(e), s, "base64-decode", on);
  Same(current::Base64Decode(e.data(), e.size()), s, "base64-decode", on);
  Same(current::Base64URLDecode(u), s, "base64url-decode", on);
  string placeholder = "some old contents";
  Same(static_cast<string>(current::Base64EncodeInto(Chunk(s), placeholder)), e, "base64-encode-into", on);
  string placeholder2 = "some old contents";
  Same(static_cast<string>(current::Base64DecodeInto(Chunk(e), placeholder2)), s, "base64-decode-into", on);
  // The padding is optional.
  string bare = e;
  while (!bare.empty() && bare.back() == '=') bare.pop_back();
  Same(current::Base64Decode(bare), s, "base64-decode-unpadded", on);
  en::Evaluations(1);
}
}  // namespace

EN_SCENARIO(base64_bytes) {
  const int a = en::Choose(257);
  if (a == 256) {
    CheckBase64("");
    return;
  }
  CheckBase64(string(1, static_cast<char>(a)));
  for (int b = 0; b < 256; ++b) CheckBase64(string(1, static_cast<char>(a)) + static_cast<char>(b));
}

EN_SCENARIO(base64_long) {
  CheckBase64(AnyString(string("A\xff\x5a") + string(1, '\0'), static_cast<int>(en::Param("base64_length", 6))));
}

EN_SCENARIO(base64_triples) {
  const int a = en::Choose(256), b = en::Choose(256);
  const int step = static_cast<int>(en::Param("base64_step", 37));
  for (int c = (a + b) % step; c < 256; c += step) {
    const string s = {static_cast<char>(a), static_cast<char>(b), static_cast<char>(c)};
    Same(current::Base64Decode(current::Base64Encode(s)), s, "base64-round-trip", Show(s));
    Same(current::Base64URLEncode(s), ModelBase64(s, true), "base64url-encode", Show(s));
    Same(current::Base64URLDecode(ModelBase64(s, true)), s, "base64url-decode", Show(s));
    en::Evaluations(1);
  }
}

EN_SCENARIO(base64_malformed) {
  const string s = AnyString(string("Qz+-/_=!\xff") + string(1, '\0'), static_cast<int>(en::Param("base64_malformed", 4)));
  for (bool url : {false, true}) {
    const size_t pad = s.find('=');
    const string payload = s.substr(0, pad);
    const string map = string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") + (url ? "-_" : "+/");
    bool valid = true;
    string bits;
    for (char c : payload) {
      const size_t i = map.find(c);
      if (i == string::npos) { valid = false; break; }
      for (int b = 5; b >= 0; --b) bits += '0' + (i >> b & 1);
    }
    string want;
    for (size_t i = 0; i + 8 <= bits.size(); i += 8) want += static_cast<char>(strtol(bits.substr(i, 8).c_str(), nullptr, 2));
    try {
      const string got = url ? current::Base64URLDecode(s) : current::Base64Decode(s);
      Sure(valid, "base64-accepts-invalid", Show(s));
      Same(got, want, "base64-decode", Show(s));
    } catch (const current::Base64DecodeException&) {
      Sure(!valid, "base64-refuses-valid", Show(s));
    }
  }
}

namespace {
uint32_t ModelCRC32(const string& s) {
  uint32_t crc = ~0u;
  for (unsigned char c : s) {
    crc ^= c;
    for (int k = 0; k < 8; ++k) crc = (crc & 1) ? (crc >> 1) ^ 0xEDB88320u : crc >> 1;
  }
  return ~crc;
}
// FIPS 180-4, with the constants derived from their definition.
string ModelSHA256(const string& message) {
  static std::vector<uint32_t> K, H0;
  if (K.empty()) {
    for (int p = 2; K.size() < 64; ++p) {
      bool prime = true;
      for (int q = 2; q * q <= p; ++q) prime = prime && p % q;
      if (!prime) continue;
      const auto frac = [](long double x) { return static_cast<uint32_t>((x - floorl(x)) * 4294967296.0L); };
      if (H0.size() < 8) H0.push_back(frac(sqrtl(p)));
      K.push_back(frac(cbrtl(p)));
    }
  }
  const auto ror = [](uint32_t x, int n) { return x >> n | x << (32 - n); };
  string m = message + '\x80';
  while (m.size() % 64 != 56) m += '\0';
  for (int i = 7; i >= 0; --i) m += static_cast<char>((static_cast<uint64_t>(message.size()) * 8) >> (8 * i));
  std::vector<uint32_t> H = H0;
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64];
    for (int t = 0; t < 16; ++t) w[t] = static_cast<uint8_t>(m[o + 4 * t]) << 24 | static_cast<uint8_t>(m[o + 4 * t + 1]) << 16 | static_cast<uint8_t>(m[o + 4 * t + 2]) << 8 | static_cast<uint8_t>(m[o + 4 * t + 3]);
    for (int t = 16; t < 64; ++t) w[t] = (ror(w[t - 2], 17) ^ ror(w[t - 2], 19) ^ w[t - 2] >> 10) + w[t - 7] + (ror(w[t - 15], 7) ^ ror(w[t - 15], 18) ^ w[t - 15] >> 3) + w[t - 16];
    std::vector<uint32_t> v = H;
    for (int t = 0; t < 64; ++t) {
      const uint32_t t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[t] + w[t];
      const uint32_t t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      v = {t1 + t2, v[0], v[1], v[2], v[3] + t1, v[4], v[5], v[6]};
    }
    for (int i = 0; i < 8; ++i) H[i] += v[i];
  }
  string r;
  for (uint32_t h : H) {
    char b[9];
    snprintf(b, sizeof(b), "%08x", h);
    r += b;
  }
  return r;
}
void CheckHashes(const string& s) {
  const uint32_t crc = ModelCRC32(s);
  Sure(current::CRC32(s) == crc, "crc32", Show(s));
  if (s.find('\0') == string::npos) Sure(current::CRC32(s.c_str()) == crc, "crc32", Show(s));
  for (size_t i = 0; i <= s.size(); i += (s.size() > 16 ? 7 : 1)) {
    const uint32_t first = current::CRC32(0, s.data(), i);
    Sure(current::CRC32(first, s.data() + i, s.size() - i) == crc, "crc32-incremental", Show(s));
  }
  Same(current::SHA256(s), ModelSHA256(s), "sha256", Show(s));
  en::Evaluations(1);
}
}  // namespace

EN_SCENARIO(hashes_short) {
  const int a = en::Choose(256);
  if (!a) CheckHashes("");
  CheckHashes(string(1, static_cast<char>(a)));
  for (int b = 0; b < 256; b += en::Thorough() ? 1 : 5) CheckHashes(string(1, static_cast<char>(a)) + static_cast<char>((b + a) & 255));
}

EN_SCENARIO(hashes_long) {
  // Every length around the block boundaries, with each of several contents.
  const int n = en::Choose(300), kind = en::Choose(4);
  string s;
  for (int i = 0; i < n; ++i) s += static_cast<char>(kind == 0 ? 0 : kind == 1 ? 255 : kind == 2 ? i : i * 167 + 13);
  CheckHashes(s);
}

namespace {
enum class E8 : int8_t {};
enum class EU8 : uint8_t {};
enum class E16 : int16_t {};
enum class EU16 : uint16_t {};
enum class E32 : int32_t {};
enum class EU32 : uint32_t {};
enum class E64 : int64_t {};
enum class EU64 : uint64_t {};

template <class T>
void CheckNumber(T x) {
  string want;
  if (x < 0) {
    want = "-" + std::to_string(0 - static_cast<uint64_t>(x));
  } else {
    want = std::to_string(static_cast<uint64_t>(x));
  }
  Same(current::ToString(x), want, "to-string", want);
  Sure(current::FromString<T>(want) == x, "from-string", want);
  Sure(current::FromString<T>(want.c_str()) == x, "from-string", want);
  T y = 42;
  const T& ref = current::FromString(want, y);
  Sure(y == x && &ref == &y, "from-string-reference", want);
  en::Evaluations(1);
}
template <class E>
void CheckEnum(std::underlying_type_t<E> x) {
  CheckNumber(x);
  const string s = current::ToString(x);
  Same(current::ToString(static_cast<E>(x)), s, "enum-to-string", s);
  Sure(current::FromString<E>(s) == static_cast<E>(x), "enum-from-string", s);
}
template <class E>
void Wide() {
  using T = std::underlying_type_t<E>;
  // All the values within a distance from every power of two, and from zero.
  for (int b = 0; b < static_cast<int>(sizeof(T)) * 8; ++b) {
    for (int d = -10; d <= 10; ++d) {
      const uint64_t u = (1ull << b) + d;
      CheckEnum<E>(static_cast<T>(u));
      CheckEnum<E>(static_cast<T>(0 - u));
    }
  }
  for (uint64_t p = 1; p < 10000000000000000000ull; p *= 10) {
    for (int d = -1; d <= 1; ++d) {
      CheckEnum<E>(static_cast<T>(p + d));
      CheckEnum<E>(static_cast<T>(0 - p + d));
    }
  }
}
template <class T>
void Unparsable() {
  for (const char* s : {"", " ", "x", "-", "-x", "+", "?12"}) {
    Sure(current::FromString<T>(s) == T(), "unparsable-number", s);
    T y = static_cast<T>(42);
    current::FromString(string(s), y);
    Sure(y == T(), "unparsable-number", s);
  }
}
template <class T>
void CheckFixed(T x) {
  const string s = PackToString(x);
  Sure(s.size() == static_cast<size_t>(FixedSizeSerializer<T>::size_in_bytes), "fixed-size", s);
  string want = std::to_string(x);
  want = string(s.size() - want.size(), '0') + want;
  Same(s, want, "fixed-size-contents", want);
  T y = 42;
  Sure(UnpackFromString(s, y) == x && y == x, "fixed-size-round-trip", s);
  if (x) Sure(PackToString(static_cast<T>(x - 1)) < s, "fixed-size-order", s);
  Same(PackToString(std::numeric_limits<T>::max()), std::to_string(std::numeric_limits<T>::max()), "fixed-size-max", s);
  en::Evaluations(1);
}
template <class T>
void FixedWide() {
  for (int b = 0; b < static_cast<int>(sizeof(T)) * 8; ++b) for (int d = -10; d <= 10; ++d) CheckFixed<T>(static_cast<T>((1ull << b) + d));
  for (uint64_t p = 1; p < 10000000000000000000ull; p *= 10) for (int d = -1; d <= 1; ++d) CheckFixed<T>(static_cast<T>(p + d));
}
}  // namespace

EN_SCENARIO(numbers_8bit) {
  const int x = en::Choose(256);
  CheckEnum<E8>(static_cast<int8_t>(x));
  CheckEnum<EU8>(static_cast<uint8_t>(x));
  const char c = static_cast<char>(x);
  Same(current::ToString(c), string(1, c), "char-to-string", Show(string(1, c)));
}
EN_SCENARIO(numbers_16bit) {
  const int hi = en::Choose(256);
  for (int lo = 0; lo < 256; lo += en::Thorough() ? 1 : 3) {
    const int x = hi * 256 + ((lo + hi) & 255);
    CheckEnum<E16>(static_cast<int16_t>(x));
    CheckEnum<EU16>(static_cast<uint16_t>(x));
    CheckFixed<uint16_t>(static_cast<uint16_t>(x));
  }
}
EN_SCENARIO(numbers_wide) {
  switch (en::Choose(13)) {
    case 0: return Wide<E32>();
    case 1: return Wide<EU32>();
    case 2: return Wide<E64>();
    case 3: return Wide<EU64>();
    case 4: return FixedWide<uint32_t>();
    case 5: return FixedWide<uint64_t>();
    case 6: Unparsable<int8_t>(); Unparsable<uint8_t>(); Unparsable<E8>(); Unparsable<EU8>(); break;
    case 7: Unparsable<int16_t>(); Unparsable<uint16_t>(); Unparsable<E16>(); Unparsable<EU16>(); break;
    case 8: Unparsable<int32_t>(); Unparsable<uint32_t>(); Unparsable<E32>(); Unparsable<EU32>(); break;
    case 9: Unparsable<int64_t>(); Unparsable<uint64_t>(); Unparsable<E64>(); Unparsable<EU64>(); Unparsable<double>(); Unparsable<float>(); break;
    case 10:
      Same(current::ToString(true), string("true"), "bool", "true");
      Same(current::ToString(false), string("false"), "bool", "false");
      for (const char* s : {"", "0", "false", "False", "FALSE"}) Sure(!current::FromString<bool>(s), "bool", s);
      for (const char* s : {"1", "true", "True", "TRUE", "yes", "2"}) Sure(current::FromString<bool>(s), "bool", s);
      break;
    case 11:
      for (int64_t x : {INT64_C(0), INT64_C(1), INT64_C(-1), INT64_C(1234567890123456), INT64_MAX, INT64_MIN}) {
        using ms = std::chrono::milliseconds;
        using us = std::chrono::microseconds;
        Same(current::ToString(ms(x)), std::to_string(x), "milliseconds", std::to_string(x));
        Same(current::ToString(us(x)), std::to_string(x), "microseconds", std::to_string(x));
        Sure(current::FromString<ms>(std::to_string(x)) == ms(x), "milliseconds", std::to_string(x));
        Sure(current::FromString<us>(std::to_string(x)) == us(x), "microseconds", std::to_string(x));
      }
      break;
    case 12:
      // Numbers with a short decimal representation survive.
      for (int i = -2000; i <= 2000; ++i) {
        const double d = i / 8.0;
        Sure(current::FromString<double>(current::ToString(d)) == d, "double", std::to_string(d));
        Sure(current::FromString<float>(current::ToString(static_cast<float>(d))) == static_cast<float>(d), "float", std::to_string(d));
        en::Evaluations(1);
      }
      break;
  }
}

EN_SCENARIO(trim_and_case) {
  const string s = AnyString(string(" aZ\t\n") + string(1, '\0') + "\xff\x80", static_cast<int>(en::Param("trim_length", 4)));
  size_t b = 0, e = s.size();
  while (b < e && Space(s[b])) ++b;
  while (e > b && Space(s[e - 1])) --e;
  const string want = s.substr(b, e - b);
  Same(Trim(s), want, "trim", Show(s));
  Same(Trim(s.data(), s.size()), want, "trim", Show(s));
  string lower = s, upper = s, cpp, md;
  for (char& c : lower) if (c >= 'A' && c <= 'Z') c += 32;
  for (char& c : upper) if (c >= 'a' && c <= 'z') c -= 32;
  Same(ToLower(s), lower, "to-lower", Show(s));
  Same(ToUpper(s), upper, "to-upper", Show(s));
  if (s.find('\0') == string::npos) {
    Same(Trim(s.c_str()), want, "trim", Show(s));
    Same(ToLower(s.c_str()), lower, "to-lower", Show(s));
    Same(ToUpper(s.c_str()), upper, "to-upper", Show(s));
    Same(current::ToString(s.c_str()), s, "to-string", Show(s));
    Same(string(ConstCharPtr(s)), s, "const-char-ptr", Show(s));
  }
  Same(current::ToString(s), s, "to-string", Show(s));
  Same(current::ToString(Chunk(s)), s, "to-string", Show(s));
  Same(current::FromString<string>(s), s, "from-string", Show(s));
}

EN_SCENARIO(escaping) {
  const string s = AnyString("a\n\t\"|\xff'", static_cast<int>(en::Param("escape_length", 4)));
  string cpp, md;
  for (char c : s) {
    cpp += c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '"' ? "\\\"" : string(1, c);
    md += c == '\n' ? "<br>" : c == '|' ? "&#124;" : string(1, c);
  }
  Same(EscapeForCPlusPlus(s), cpp, "escape-cpp", Show(s));
  Same(EscapeForMarkdown(s), md, "escape-markdown", Show(s));
}

EN_SCENARIO(utf8_length) {
  static const strings_t cps = {"a", "\xd0\xbf", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " "};
  const int n = en::Choose(6);
  string s;
  for (int i = 0; i < n; ++i) s += en::Pick(cps);
  Sure(UTF8StringLength(s) == static_cast<size_t>(n), "utf8-length", Show(s));
  Sure(UTF8StringLength(s.c_str()) == static_cast<size_t>(n), "utf8-length", Show(s));
}

EN_SCENARIO(chunks) {
  const string alphabet = string("ab\xff") + string(1, '\0');
  const int n = static_cast<int>(en::Param("chunk_length", 3));
  const string s = AnyString(alphabet, n), t = AnyString(alphabet, n);
  const string on = Show(s) + " " + Show(t);
  const Chunk a(s), b(t);
  Sure(a.length() == s.size() && a.empty() == s.empty() && a.c_str() == s.data() && string(a.begin(), a.end()) == s, "chunk", on);
  Same(static_cast<string>(a), s, "chunk", on);
  Same(static_cast<string>(Chunk(s.data(), s.size())), s, "chunk", on);
  Same(static_cast<string>(Chunk(s.data(), s.data() + s.size())), s, "chunk", on);
  for (size_t i = 0; i < s.size(); ++i) Sure(a[i] == s[i], "chunk-index", on);
  const int c = s.compare(t), d = a.LexicographicalCompare(b);
  Sure((c < 0) == (d < 0) && (c > 0) == (d > 0), "chunk-compare", on);
  Sure(Chunk::LexicographicalComparator()(a, b) == (s < t), "chunk-less", on);
  Sure(Chunk::EqualityComparator()(a, b) == (s == t), "chunk-equal", on);
  Sure((a == t) == (s == t) && (a != t) == (s != t), "chunk-equal", on);
  if (s == t) Sure(Chunk::HashFunction()(a) == Chunk::HashFunction()(b), "chunk-hash", on);
  const bool prefix = s.compare(0, t.size(), t) == 0;
  Sure(a.HasPrefix(b) == prefix, "chunk-prefix", on);
  Chunk rest("untouched");
  Sure(a.ExpungePrefix(b, rest) == prefix, "chunk-expunge", on);
  Same(static_cast<string>(rest), prefix ? s.substr(t.size()) : string("untouched"), "chunk-expunge", on);
  Chunk self = a;
  Sure(self.ExpungePrefix(b, self) == prefix, "chunk-expunge", on);
  Same(static_cast<string>(self), prefix ? s.substr(t.size()) : s, "chunk-expunge", on);
  // Equal contents share the entry of the database.
  ChunkDB db;
  UniqueChunk ua, ub, u;
  Sure(!db.Find(a, u), "chunk-db", on);
  ua = db.FromConstChunk(a);
  Sure(db.Find(b, u) == (s == t), "chunk-db", on);
  ub = db.FromConstChunk(b);
  Sure(db.Find(a, u) && u == ua && db.Find(b, u) && u == ub, "chunk-db", on);
  Same(static_cast<string>(ua), s, "chunk-db", on);
  Same(static_cast<string>(ub), t, "chunk-db", on);
  if (s == t) Sure(ua == ub && !(ua != ub), "chunk-db-unique", on);
  self.clear();
  Sure(self.empty() && self.length() == 0, "chunk-clear", on);
}

EN_SCENARIO(edit_distance) {
  const int n = static_cast<int>(en::Param("distance_length", 4));
  const string a = AnyString("abc", n), b = AnyString("ab", n);
  std::vector<std::vector<size_t>> d(a.size() + 1, std::vector<size_t>(b.size() + 1));
  for (size_t i = 0; i <= a.size(); ++i) {
    for (size_t j = 0; j <= b.size(); ++j) {
      d[i][j] = !i ? j : !j ? i : std::min(std::min(d[i - 1][j], d[i][j - 1]) + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]));
    }
  }
  const size_t want = d[a.size()][b.size()];
  const string on = Show(a) + " " + Show(b);
  Sure(SlowEditDistance(a, b) == want && SlowEditDistance(b, a) == want, "edit-distance", on);
  for (size_t k = 0; k < 8; ++k) {
    const size_t f = FastEditDistance(a, b, k);
    if (want <= k) Sure(f == want, "fast-edit-distance", on); else Sure(f > k, "fast-edit-distance-too-low", on);
  }
}

EN_SCENARIO(rounding) {
  // Decimal numbers of up to three digits and every exponent: exactly what a reader expects, for any number of digits kept.
  const int digits = en::Choose(1000), exponent = en::Choose(25) - 14;
  if (digits == 0) {
    for (int n = 1; n <= 15; ++n) Same(RoundDoubleToString(0.0, n), string("0"), "rounding-zero", "0");
    return;
  }
  string text = std::to_string(digits) + "e" + std::to_string(exponent);
  const double value = strtod(text.c_str(), nullptr);
  for (int n = 1; n <= 7; ++n) {
    // What is to be kept, rounded half away from zero; skip the ties, which the binary representation decides.
    string ds = std::to_string(digits);
    int e = exponent + static_cast<int>(ds.size());  // value = 0.ds * 10^e
    if (static_cast<int>(ds.size()) > n) {
      const string cut = ds.substr(n);
      if (cut == "5" || cut == "50") continue;
      long kept = atol(ds.substr(0, n).c_str()) + (cut[0] >= '5');
      const string k = std::to_string(kept);
      e += static_cast<int>(k.size()) - n;
      ds = k;
    }
    while (ds.size() > 1 && ds.back() == '0') ds.pop_back();
    string want;
    if (e <= 0) {
      want = "0." + string(-e, '0') + ds;
    } else if (static_cast<int>(ds.size()) <= e) {
      want = ds + string(e - ds.size(), '0');
    } else {
      want = ds.substr(0, e) + "." + ds.substr(e);
    }
    Same(RoundDoubleToString(value, n), want, "rounding", text + " to " + std::to_string(n));
    Same(RoundDoubleToString(-value, n), "-" + want, "rounding", "-" + text + " to " + std::to_string(n));
    Same(RoundDoubleToString(value, n, true), "+" + want, "rounding", text + " to " + std::to_string(n) + " with the sign");
    en::Evaluations(1);
  }
}

EN_SCENARIO(printf_lengths) {
  static const std::vector<int> lengths = {0, 1, 2, 100, 65533, 65534, 65535, 65536, 65537, 131072, 1048574, 1048575, 1048576, 1048577, 2000000};
  const int n = en::Pick(lengths);
  const string s(n, 'x');
  const string got = Printf("%s", s.c_str());
  Sure(got == s.substr(0, std::min(n, 1024 * 1024 - 1)), "printf", std::to_string(n));
  Same(Printf("%d-%s-%05.2lf", n, "a", 3.14159), std::to_string(n) + "-a-03.14", "printf", std::to_string(n));
}

EN_SCENARIO(intervals) {
  const int days = en::Choose(4), h = en::Choose(24), m = en::Choose(60);
  for (int s = 0; s < 60; ++s) {
    const int64_t seconds = ((days * 24LL + h) * 60 + m) * 60 + s;
    for (int64_t us : {INT64_C(0), INT64_C(1), INT64_C(500000), INT64_C(999999)}) {
      string want = std::to_string(s) + "s";
      if (seconds >= 60) want = std::to_string(m) + "m " + want;
      if (seconds >= 3600) want = std::to_string(h) + "h " + want;
      if (seconds >= 86400) want = std::to_string(days) + "d " + want;
      const std::chrono::microseconds t(seconds * 1000000 + us);
      Same(TimeIntervalAsHumanReadableString(t), want, "interval", std::to_string(t.count()));
      if (t.count() >= 50000) {
        Same(TimeIntervalAsHumanReadableString(-t), "-" + want, "interval", std::to_string(-t.count()));
        Same(TimeDifferenceAsHumanReadableString(t), want + " into the future", "interval", std::to_string(t.count()));
        Same(TimeDifferenceAsHumanReadableString(-t), want + " ago", "interval", std::to_string(-t.count()));
      } else {
        Same(TimeDifferenceAsHumanReadableString(t), string("just now"), "interval", std::to_string(t.count()));
      }
      en::Evaluations(1);
    }
  }
}
