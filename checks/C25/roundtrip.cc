// C25: every value of every type of the family, in every dialect: JSON(), the model's reading of it, ParseJSON(), JSON() again.
#include <cstring>

#include "common/json_types.h"

using namespace jm;

#ifndef PART
#define PART 0
#endif

namespace {

template <class F, class T>
void RoundTrip(const T& v) {
  const std::string name = StyleOf<F>::name;
  const std::string text = JSON<F>(v);
  J tree;
  if (Parse(text, tree) != Verdict::Valid) en::Violation("invalid-json", name + ": " + text);
  T expected{};
  if (!Tr<T>::Dec(&tree, StyleOf<F>::v, expected) || !Tr<T>::Eq(v, expected)) {
    en::Violation("encoded-value", name + ": the text does not denote the value: " + text);
  }
  T back{};
  try {
    ParseJSON<T, F>(text.c_str(), back);
  } catch (const current::Exception& e) {
    en::Violation("own-text-rejected", name + ": " + text + " : " + e.what());
  }
  if (!Tr<T>::Eq(v, back)) en::Violation("round-trip", name + ": " + text + " parsed back as " + JSON<F>(back));
  if (Tr<T>::ordered) {
    const std::string again = JSON<F>(back);
    if (again != text) en::Violation("text-changed", name + ": " + text + " became " + again);
  }
  en::Transition();
}

template <class T>
void All(int w) {
  const T v = Tr<T>::Gen(en::Thorough() ? w + 1 : w);
  en::Note(JSON<FCur>(v));
  RoundTrip<FCur>(v);
  RoundTrip<FMin>(v);
  RoundTrip<FJS>(v);
  RoundTrip<FFS>(v);
  en::Evaluations(3);
}

template <class E>
void Containers(int w) {
  switch (en::Choose(9)) {
    case 0: return All<std::vector<E>>(w);
    case 1: return All<std::map<std::string, E>>(w);
    case 2: return All<std::map<int32_t, E>>(w);
    case 3: return All<std::pair<E, int32_t>>(w);
    case 4: return All<std::pair<std::string, E>>(w);
    case 5: return All<std::tuple<E, bool, E>>(w);
    case 6: return All<std::array<E, 2>>(w);
    case 7: return All<std::unordered_map<std::string, E>>(w);
    default: return All<std::unordered_map<uint64_t, E>>(w);
  }
}

}  // namespace

#if PART == 0
EN_SCENARIO(primitives) {
  switch (en::Choose(18)) {
    case 0: return All<bool>(2);
    case 1: return All<uint8_t>(2);
    case 2: return All<uint16_t>(2);
    case 3: return All<uint32_t>(2);
    case 4: return All<uint64_t>(2);
    case 5: return All<int8_t>(2);
    case 6: return All<int16_t>(2);
    case 7: return All<int32_t>(2);
    case 8: return All<int64_t>(2);
    case 9: return All<char>(2);
    case 10: return All<float>(2);
    case 11: return All<double>(2);
    case 12: return All<std::string>(2);
    case 13: return All<std::chrono::microseconds>(2);
    case 14: return All<std::chrono::milliseconds>(2);
    case 15: return All<current::reflection::TypeID>(2);
    case 16:
      switch (en::Choose(4)) {
        case 0: return All<ESmall>(2);
        case 1: return All<EShort>(2);
        case 2: return All<EBig>(2);
        default: return All<ESigned>(2);
      }
    default: return All<Prims>(2);
  }
}

// All 8- and 16-bit integers.
EN_SCENARIO(small_integers) {
  const int v = en::Choose(65536);
  RoundTrip<FCur>(static_cast<uint16_t>(v));
  RoundTrip<FCur>(static_cast<int16_t>(v));
  RoundTrip<FCur>(static_cast<uint8_t>(v));
  RoundTrip<FCur>(static_cast<int8_t>(v));
  RoundTrip<FCur>(static_cast<char>(v));
}

// All strings of one and two bytes, and all the three character ones over the special characters.
EN_SCENARIO(strings) {
  static const std::vector<std::string> chars = {std::string("\0", 1), "\"", "\\", "/", "u", "\n", "\x1f", "\x7f", "\xc3\xa9", "\xe2\x80\xa8",
                                                 "\xf0\x9f\x98\x80", "a", "'", "<"};
  std::string s;
  const int mode = en::Choose(3);
  if (mode == 0) {
    s = std::string(1, static_cast<char>(en::Choose(256)));
  } else if (mode == 1) {
    s = en::Pick(chars) + en::Pick(chars) + en::Pick(chars) + (en::Thorough() ? en::Pick(chars) : "");
  } else {
    const int first = en::Choose(256);
    for (int second = 0; second < 256; ++second) {
      s = std::string(1, static_cast<char>(first)) + static_cast<char>(second);
      RoundTrip<FCur>(s);
    }
    en::Evaluations(255);
    return;
  }
  en::Note(s);
  RoundTrip<FCur>(s);
  std::map<std::string, std::string> m;
  m[s] = s;
  m["x"] = "y";
  RoundTrip<FCur>(m);
  RoundTrip<FMin>(m);
  RoundTrip<FFS>(m);
}

// Every exponent of a double, with mantissas of every shape.
EN_SCENARIO(doubles) {
  const uint64_t exponent = en::Choose(2047);
  const int n = en::Thorough() ? 2000 : 200;
  for (int i = 0; i < n; ++i) {
    uint64_t mantissa = 0;
    if (i < 52) {
      mantissa = uint64_t(1) << i;
    } else if (i < 104) {
      mantissa = (uint64_t(1) << (i - 52)) - 1;
    } else if (i == 104) {
      mantissa = 0x000FFFFFFFFFFFFFull;
    } else {
      mantissa = (0x9E3779B97F4A7C15ull * (i + 1) * (exponent + 1)) & 0x000FFFFFFFFFFFFFull;
    }
    const uint64_t bits = (uint64_t(i & 1) << 63) | (exponent << 52) | mantissa;
    double d;
    memcpy(&d, &bits, 8);
    RoundTrip<FCur>(d);
  }
  en::Evaluations(n - 1);
}
EN_SCENARIO(decimals) {
  // All the decimals of up to four digits, at every power of ten.
  const int power = en::Choose(40) - 20;
  for (int i = 0; i < 10000; ++i) {
    const double d = strtod((std::to_string(i) + "e" + std::to_string(power)).c_str(), nullptr);
    RoundTrip<FCur>(d);
    if (i % 10 == 0) RoundTrip<FCur>(static_cast<float>(d));
  }
  en::Evaluations(9999);
}
EN_SCENARIO(floats) {
  const uint32_t exponent = en::Choose(255);
  const int n = en::Thorough() ? 20000 : 1000;
  for (int i = 0; i < n; ++i) {
    const uint32_t mantissa = i < 23 ? 1u << i : i < 46 ? (1u << (i - 23)) - 1 : (0x9E3779B9u * (i + 1)) & 0x007FFFFF;
    const uint32_t bits = (uint32_t(i & 1) << 31) | (exponent << 23) | mantissa;
    float f;
    memcpy(&f, &bits, 4);
    RoundTrip<FCur>(f);
  }
  en::Evaluations(n - 1);
}
#elif PART == 1
EN_SCENARIO(structs) {
  switch (en::Choose(7)) {
    case 0: return All<Empty>(2);
    case 1: return All<Leaf>(3);
    case 2: return All<Derived>(2);
    case 3: return All<DerivedEmpty>(2);
    case 4: return All<std::vector<Derived>>(1);
    case 5: return All<Tree>(2);
    default: return All<Prims>(2);
  }
}
EN_SCENARIO(sets) {
  switch (en::Choose(6)) {
    case 0: return All<std::set<int32_t>>(3);
    case 1: return All<std::set<std::string>>(3);
    case 2: return All<std::unordered_set<std::string>>(3);
    case 3: return All<std::unordered_set<uint64_t>>(3);
    case 4: return All<std::set<std::pair<int32_t, std::string>>>(2);
    default: return All<std::set<ESmall>>(2);
  }
}
EN_SCENARIO(maps) {
  switch (en::Choose(5)) {
    case 0: return All<std::map<uint64_t, std::string>>(2);
    case 1: return All<std::map<std::string, std::map<std::string, int32_t>>>(2);
    case 2: return All<std::map<std::pair<int32_t, bool>, std::vector<std::string>>>(1);
    case 3: return All<std::map<ESmall, double>>(2);
    default: return All<std::map<std::string, std::vector<bool>>>(2);
  }
}
EN_SCENARIO(conts) { All<Conts>(0); }
EN_SCENARIO(uconts) { All<UConts>(0); }
EN_SCENARIO(of_ints) { Containers<int64_t>(2); }
EN_SCENARIO(of_strings) { Containers<std::string>(2); }
EN_SCENARIO(of_vectors) { Containers<std::vector<std::string>>(1); }
#elif PART == 2
EN_SCENARIO(optionals) {
  switch (en::Choose(5)) {
    case 0: return All<Optional<int64_t>>(3);
    case 1: return All<Optional<std::string>>(3);
    case 2: return All<Optional<Leaf>>(3);
    case 3: return All<Optional<std::vector<Optional<int32_t>>>>(2);
    default: return All<std::vector<Optional<bool>>>(2);
  }
}
EN_SCENARIO(variants) {
  switch (en::Choose(5)) {
    case 0: return All<Var>(2);
    case 1: return All<InnerVar>(3);
    case 2: return All<VarOfVar>(3);
    case 3: return All<Optional<Var>>(2);
    default: return All<std::vector<VarOfVar>>(1);
  }
}
// An empty variant is not denoted by anything in the `Simple` styles, and can not be parsed in the others.
EN_SCENARIO(empty_variants) {
  Rich r;
  r.o = Tr<Optional<std::string>>::Gen(2);
  r.l = Tr<std::vector<Leaf>>::Gen(1);
  if (en::Flip()) r.ov = Tr<Var>::Gen(1);
  RoundTrip<FMin>(r);
  RoundTrip<FJS>(r);
  Rich back;
  bool threw = false;
  try {
    ParseJSON<Rich>(JSON(r), back);
  } catch (const JSONUninitializedVariantObjectException&) {
    threw = true;
  }
  EN_CHECK(threw, "empty-variant-accepted");
}
EN_SCENARIO(of_structs) { Containers<Leaf>(2); }
EN_SCENARIO(of_optionals) { Containers<Optional<int32_t>>(2); }
EN_SCENARIO(of_variants) { Containers<InnerVar>(2); }
EN_SCENARIO(rich) { All<Rich>(1); }
#else
template <class F, class T>
void ParseInto(const T& before, const T& after) {
  const std::string text = JSON<F>(after);
  T result = before;
  try {
    ParseJSON<T, F>(text, result);
  } catch (const current::Exception& e) {
    en::Violation("parse-into-rejected", std::string(StyleOf<F>::name) + " " + text + " : " + e.what());
  }
  if (!Tr<T>::Eq(after, result)) {
    en::Violation("parse-into",
                  std::string(StyleOf<F>::name) + ": parsing " + text + " over " + JSON(before) + " gave " + JSON(result));
  }
  en::Transition();
}
// Patching: exactly the fields the text mentions change.
template <class T>
void Patching(const T& before, const T& after, uint64_t mask) {
  J tree;
  if (Parse(JSON(after), tree) != Verdict::Valid) en::Skip();
  J part = tree;
  part.o.clear();
  T expected = before;
  size_t i = 0;
  for (const auto& e : tree.o) {
    if ((mask >> i) & 1) part.o.push_back(e);
    ++i;
  }
  Fields<T>::Each(
      [&part](const char* name, auto& x, const auto& y) {
        if (part.Find(name)) x = y;
      },
      expected,
      after);
  std::string text;
  Print(part, text);
  T result = before;
  en::Note("patch " + JSON(before) + " with " + text);
  try {
    if (en::Flip()) {
      PatchObjectWithJSON(result, text);
    } else {
      PatchObjectWithJSON(result, text.c_str());
    }
  } catch (const current::Exception& e) {
    en::Violation("patch-rejected", text + " : " + e.what());
  }
  if (!Tr<T>::Eq(expected, result)) en::Violation("patch", "expected " + JSON(expected) + ", got " + JSON(result));
  en::Transition();
  if (part.o.size() == tree.o.size()) {
    // Parsing into an object that holds something else leaves nothing of it.
    ParseInto<FCur>(before, after);
    ParseInto<FMin>(before, after);
    ParseInto<FJS>(before, after);
    ParseInto<FFS>(before, after);
  }
}
template <class T>
void PatchBody(int fields, int w) {
  const uint64_t mask = en::Choose(1 << fields);
  const T before = Tr<T>::Gen(w);
  const T after = Tr<T>::Gen(w);
  Patching(before, after, mask);
}
CURRENT_STRUCT(PatchA) {
  CURRENT_FIELD(v, std::vector<int32_t>);
  CURRENT_FIELD(s, std::set<int32_t>);
  CURRENT_FIELD(m, (std::map<int32_t, int32_t>));
};
CURRENT_STRUCT(PatchB) {
  CURRENT_FIELD(ms, (std::map<std::string, int32_t>));
  CURRENT_FIELD(p, (std::pair<int32_t, bool>));
  CURRENT_FIELD(a, (std::array<bool, 1>));
};
CURRENT_STRUCT(PatchC) {
  CURRENT_FIELD(us, std::unordered_set<int32_t>);
  CURRENT_FIELD(um, (std::unordered_map<int32_t, int32_t>));
  CURRENT_FIELD(t, (std::tuple<int32_t, bool>));
};
CURRENT_STRUCT(PatchD) {
  CURRENT_FIELD(ums, (std::unordered_map<std::string, int32_t>));
  CURRENT_FIELD(vb, std::vector<bool>);
  CURRENT_FIELD(d, double, 0);
};
CURRENT_STRUCT(PatchE) {
  CURRENT_FIELD(v, Var);
  CURRENT_FIELD(o, Optional<int32_t>);
  CURRENT_FIELD(i, int32_t, 0);
};
namespace jm {
JM_FIELDS(PatchA, void, true, JM_F(v) JM_F(s) JM_F(m));
JM_FIELDS(PatchB, void, true, JM_F(ms) JM_F(p) JM_F(a));
JM_FIELDS(PatchC, void, false, JM_F(us) JM_F(um) JM_F(t));
JM_FIELDS(PatchD, void, false, JM_F(ums) JM_F(vb) JM_F(d));
JM_FIELDS(PatchE, void, true, JM_F(v) JM_F(o) JM_F(i));
}  // namespace jm
EN_SCENARIO(patch_prims) { PatchBody<Prims>(5, 1); }
EN_SCENARIO(patch_leaf) { PatchBody<Leaf>(2, 2); }
EN_SCENARIO(patch_a) { PatchBody<PatchA>(3, 0); }
EN_SCENARIO(patch_b) { PatchBody<PatchB>(3, 1); }
EN_SCENARIO(patch_c) { PatchBody<PatchC>(3, 0); }
EN_SCENARIO(patch_d) { PatchBody<PatchD>(3, 1); }
EN_SCENARIO(patch_e) { PatchBody<PatchE>(3, 1); }
// Incomplete structs inside: those in place are patched, those the patch adds have defaults for what it does not mention.
CURRENT_STRUCT(Nested) {
  CURRENT_FIELD(l, Leaf);
  CURRENT_FIELD(o, Optional<Leaf>);
  CURRENT_FIELD(v, std::vector<Leaf>);
  CURRENT_FIELD(m, (std::map<std::string, Leaf>));
  CURRENT_FIELD(um, (std::unordered_map<std::string, Leaf>));
  CURRENT_FIELD(mi, (std::map<int32_t, Leaf>));
  CURRENT_FIELD(umi, (std::unordered_map<int32_t, Leaf>));
  CURRENT_FIELD(p, (std::pair<Leaf, Leaf>));
  CURRENT_FIELD(mo, (std::map<std::string, Optional<Leaf>>));
  CURRENT_FIELD(mv, (std::map<std::string, std::vector<Leaf>>));
};
namespace jm {
JM_FIELDS(Nested, void, false, JM_F(l) JM_F(o) JM_F(v) JM_F(m) JM_F(um) JM_F(mi) JM_F(umi) JM_F(p) JM_F(mo) JM_F(mv));
}  // namespace jm
struct PartialLeaf {
  int mask;
  PartialLeaf() : mask(en::Choose(4)) {}
  std::string Text(int k) const {
    std::string s = "{";
    if (mask & 1) s += "\"i\":" + std::to_string(k);
    if (mask == 3) s += ",";
    if (mask & 2) s += "\"s\":\"" + std::to_string(k) + "\"";
    return s + "}";
  }
  void Apply(Leaf& l, int k) const {
    if (mask & 1) l.i = k;
    if (mask & 2) l.s = std::to_string(k);
  }
};
EN_SCENARIO(patch_nested) {
  const int field = en::Choose(10);
  const int n = field < 2 ? 1 : field == 7 ? 2 : en::Choose(4);
  std::vector<PartialLeaf> leaves(n);
  Nested before;
  Leaf old;
  old.i = 5;
  old.s = "old";
  const bool full = en::Flip();
  if (full) {
    // All but what is of the type to be patched in place or not, depending on the container.
    before.l = old;
    before.m["0"] = before.m["9"] = before.um["0"] = before.um["9"] = old;
    before.mi[0] = before.mi[9] = before.umi[0] = before.umi[9] = old;
    before.p.first = before.p.second = old;
    before.mo["0"] = old;
    before.mv["0"] = {old, old};
    if (field != 1) before.o = old;
    if (field != 2) before.v = {old, old};
  }
  Nested expected = before;
  std::string text;
  const auto leaf = [&](int k) {
    Leaf l;
    leaves[k].Apply(l, k);
    return l;
  };
  const auto object = [&](const char* name, auto&& body) {
    text = std::string("{\"") + name + "\":{";
    for (int k = 0; k < n; ++k) text += (k ? ",\"" : "\"") + std::to_string(k) + "\":" + body(k);
    text += "}}";
  };
  const auto array = [&](const char* name, auto&& body) {
    text = std::string("{\"") + name + "\":[";
    for (int k = 0; k < n; ++k) text += (k ? "," : "") + body(k);
    text += "]}";
  };
  const auto bare = [&](int k) { return leaves[k].Text(k); };
  const auto keyed = [&](int k) { return "[" + std::to_string(k) + "," + leaves[k].Text(k) + "]"; };
  const auto boxed = [&](int k) { return "[" + leaves[k].Text(k) + "," + leaves[k].Text(k + 10) + "]"; };
  const auto fill = [&](auto& m, auto&& key) {
    m.clear();
    for (int k = 0; k < n; ++k) m[key(k)] = leaf(k);
  };
  const auto str = [](int k) { return std::to_string(k); };
  const auto num = [](int k) { return k; };
  switch (field) {
    case 0:
      text = "{\"l\":" + bare(0) + "}";
      leaves[0].Apply(expected.l, 0);
      break;
    case 1:
      text = "{\"o\":" + bare(0) + "}";
      expected.o = leaf(0);
      break;
    case 2:
      array("v", bare);
      expected.v.clear();
      for (int k = 0; k < n; ++k) expected.v.push_back(leaf(k));
      break;
    case 3: object("m", bare), fill(expected.m, str); break;
    case 4: object("um", bare), fill(expected.um, str); break;
    case 5: array("mi", keyed), fill(expected.mi, num); break;
    case 6: array("umi", keyed), fill(expected.umi, num); break;
    case 7:
      array("p", bare);
      leaves[0].Apply(expected.p.first, 0);
      leaves[1].Apply(expected.p.second, 1);
      break;
    case 8:
      object("mo", bare);
      fill(expected.mo, str);
      break;
    default:
      object("mv", boxed);
      expected.mv.clear();
      for (int k = 0; k < n; ++k) {
        Leaf second;
        leaves[k].Apply(second, k + 10);
        expected.mv[std::to_string(k)] = {leaf(k), second};
      }
  }
  Nested result = before;
  en::Note("patch " + JSON(before) + " with " + text);
  try {
    PatchObjectWithJSON(result, text);
  } catch (const current::Exception& e) {
    en::Violation("patch-rejected", text + " : " + e.what());
  }
  if (!Tr<Nested>::Eq(expected, result)) {
    en::Violation("patch-nested", "patching " + JSON(before) + " with " + text + " gave " + JSON(result));
  }
  en::Transition();
}
// All the entry points agree.
EN_SCENARIO(entry_points) {
  const Rich r = Tr<Rich>::Gen(0);
  const auto check = [&](auto format) {
    using F = decltype(format);
    const std::string text = JSON<F>(r);
    const current::strings::Chunk chunk(text.c_str(), text.length());
    std::vector<Rich> all;
    try {
      all.push_back(ParseJSON<Rich, F>(text));
      all.push_back(ParseJSON<Rich, F>(text.c_str()));
      all.push_back(ParseJSON<Rich, F>(chunk));
      all.resize(6);
      ParseJSON<Rich, F>(text, all[3]);
      ParseJSON<Rich, F>(text.c_str(), all[4]);
      ParseJSON<Rich, F>(chunk, all[5]);
    } catch (const current::Exception& e) {
      en::Violation("entry-point-rejects", std::string(StyleOf<F>::name) + " " + text + " : " + e.what());
    }
    const auto a = TryParseJSON<Rich, F>(text), b = TryParseJSON<Rich, F>(text.c_str()), c = TryParseJSON<Rich, F>(chunk);
    EN_CHECK(Exists(a) && Exists(b) && Exists(c), "try-parse");
    all.push_back(Value(a));
    all.push_back(Value(b));
    all.push_back(Value(c));
    for (const auto& x : all) EN_CHECK((Tr<Rich>::Eq(x, r)), "entry-points-differ");
  };
  check(FCur());
  check(FMin());
  check(FJS());
  check(FFS());
}
#endif
