// C38: the schemas of the natural language query engine: every schema of a family of compositions by every short query,
// against an evaluator of lists which knows nothing but the meaning of the operators.
#include "bricks/strings/join.h"
#include "nlp/nlp.h"

#include "enum.h"

#include <functional>
#include <map>
#include <memory>

#include "nlp/nlp_schema_begin.inl"

NLPSchema(C38, QueryTerm) {
  CURRENT_STRUCT(Color) {
    CURRENT_FIELD(s, std::string);
    CURRENT_CONSTRUCTOR(Color)(std::string s = "") : s(std::move(s)) {}
  };
  CURRENT_STRUCT(Fruit) {
    CURRENT_FIELD(s, std::string);
    CURRENT_CONSTRUCTOR(Fruit)(std::string s = "") : s(std::move(s)) {}
  };
  CURRENT_STRUCT(Made) {
    CURRENT_FIELD(s, std::string);
  };
  CURRENT_STRUCT(QueryTerm, AnnotatedQueryTerm) {
    CURRENT_FIELD(color, Optional<Color>);
    CURRENT_FIELD(fruit, Optional<Fruit>);
    CURRENT_FIELD(length, uint32_t, 0);
  };
  CustomAnnotation(output.length = static_cast<uint32_t>(original_term.length()));
  DictionaryAnnotation(color, {"red", {"R"}}, {"black", {"B"}}, {"orange", {"O"}});
  DictionaryAnnotation(fruit, {"apple", {"a"}}, {"orange", {"o"}});
  Keyword(and_);
  Keyword(not_);
}

namespace {
UseNLPSchema(C38);
using std::string;

// What there is in a query: terms, as the schema sees them.
struct T {
  const char* text;
  const char* color;
  const char* fruit;
  const char* keyword;
};
const T kTerms[] = {{"red", "R", nullptr, nullptr}, {"Black", "B", nullptr, nullptr}, {"ORANGE", "O", "o", nullptr},
                    {"apple", nullptr, "a", nullptr}, {"and_", nullptr, nullptr, "and_"}, {"Not_", nullptr, nullptr, "not_"},
                    {"none", nullptr, nullptr, nullptr}};
constexpr int kTermsCount = sizeof(kTerms) / sizeof(kTerms[0]);
using Query = std::vector<const T*>;

// The meaning of a schema: the list of what it emits for a part of a query. An item is a tuple of strings; a unit is {"U"}.
using Item = std::vector<string>;
using List = std::vector<Item>;
struct Meaning {
  bool unit;
  std::function<List(const Query&, size_t, size_t)> eval;
};
const Item kUnit = {"U"};
List JustOne(const List& l) { return l.empty() ? List() : List{kUnit}; }
Item Cat(Item a, const Item& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
Meaning MOr(const Meaning& a, const Meaning& b) {
  const bool unit = a.unit && b.unit;
  return {unit, [=](const Query& q, size_t i, size_t j) {
            List r = a.eval(q, i, j);
            for (auto& e : b.eval(q, i, j)) r.push_back(e);
            return unit ? JustOne(r) : r;
          }};
}
Meaning MAnd(const Meaning& a, const Meaning& b) {
  return {false, [=](const Query& q, size_t i, size_t j) {
            List r;
            for (auto& x : a.eval(q, i, j))
              for (auto& y : b.eval(q, i, j)) r.push_back(Cat(x, y));
            return r;
          }};
}
Meaning MSeq(const Meaning& a, const Meaning& b, bool right_first) {
  const bool unit = a.unit && b.unit;
  return {unit, [=](const Query& q, size_t i, size_t j) {
            List r;
            for (size_t k = i; k <= j; ++k) {
              const List x = a.eval(q, i, k), y = b.eval(q, k, j);
              if (a.unit && !x.empty()) r.insert(r.end(), y.begin(), y.end());
              else if (b.unit && !y.empty()) r.insert(r.end(), x.begin(), x.end());
              else if (a.unit || b.unit) continue;
              else if (!right_first) { for (auto& e : x) for (auto& f : y) r.push_back(Cat(e, f)); }
              else { for (auto& f : y) for (auto& e : x) r.push_back(Cat(e, f)); }
            }
            return unit ? JustOne(r) : r;
          }};
}
Meaning MVoid(const Meaning& a) {
  return {true, [=](const Query& q, size_t i, size_t j) { return JustOne(a.eval(q, i, j)); }};
}

// What the real schemas emit, in the same form.
void Put(Item& r, const Unit&) { r.push_back("U"); }
void Put(Item& r, const Color& x) { r.push_back(x.s); }
void Put(Item& r, const Fruit& x) { r.push_back(x.s); }
void Put(Item& r, const Made& x) { r.push_back(x.s); }
template <typename X>
std::enable_if_t<IS_CURRENT_VARIANT(X)> Put(Item& r, const X& v);
template <typename... TS>
void Put(Item& r, const std::tuple<TS...>& t) { std::apply([&](const auto&... x) { (Put(r, x), ...); }, t); }
template <typename X>
std::enable_if_t<IS_CURRENT_VARIANT(X)> Put(Item& r, const X& v) {
  v.Call([&](const auto& x) { Put(r, x); });
}
template <typename X>
string Flat(const X& x) {
  Item i;
  Put(i, x);
  return current::strings::Join(i, '.');
}

string Show(const Item& i) { return current::strings::Join(i, '.'); }
string Show(const List& l) {
  string r;
  for (auto& e : l) r += (r.empty() ? "" : ", ") + Show(e);
  return "[" + r + "]";
}

template <class B>
struct Schema {
  B block;
  Meaning meaning;
};
template <class B>
Schema<B> Make(const B& b, Meaning m) { return {b, std::move(m)}; }

template <class X>
struct IsTuple : std::false_type {};
template <class... TS>
struct IsTuple<std::tuple<TS...>> : std::true_type {};
template <class B>
using emitted = typename B::emitted_t;
// A variant can not be made of tuples, or of the variants of the same type.
template <class A, class B>
constexpr bool kCanOr = (std::is_same_v<emitted<A>, emitted<B>> || (!IsTuple<emitted<A>>::value && !IsTuple<emitted<B>>::value));

// Judge a schema on all the queries.
struct Judge {
  std::vector<std::pair<string, Query>> queries;
  size_t schemas = 0;
  template <class B>
  void operator()(const Schema<B>& s) {
    ++schemas;
    for (const auto& q : queries) {
      const auto what = [&]() { return "schema " + s.block.DebugInfo() + " on \"" + q.first + "\""; };
      const List want = s.meaning.eval(q.second, 0, q.second.size());
      List got;
      for (const auto& e : current::nlp::MatchQueryIntoVector(s.block, q.first)) {
        got.emplace_back();
        Put(got.back(), e);
      }
      if (got != want) en::Violation("matches", what() + ": " + Show(got) + " instead of " + Show(want));
      const auto just = current::nlp::JustMatchQuery(s.block, q.first);
      if (Exists(just) != !want.empty() || (Exists(just) && Flat(Value(just)) != Show(want[0]))) {
        en::Violation("just-match", what() + ": " + (Exists(just) ? Flat(Value(just)) : "nothing") + " instead of the first of " + Show(want));
      }
      en::Transition();
    }
  }
};

const auto kColor = [](const Query& q, size_t i, size_t j) { return j == i + 1 && q[i]->color ? List{{q[i]->color}} : List(); };
const auto kFruit = [](const Query& q, size_t i, size_t j) { return j == i + 1 && q[i]->fruit ? List{{q[i]->fruit}} : List(); };
auto KeywordMeaning(const string& k) {
  return Meaning{true, [k](const Query& q, size_t i, size_t j) { return j == i + 1 && q[i]->keyword && q[i]->keyword == k ? List{kUnit} : List(); }};
}

Meaning Mapped(const Meaning& a, const string& prefix) {
  return {false, [=](const Query& q, size_t i, size_t j) {
            List r;
            for (auto& e : a.eval(q, i, j)) r.push_back({prefix + Show(e)});
            return r;
          }};
}
Meaning Filtered(const Meaning& a, const string& but) {
  return {a.unit, [=](const Query& q, size_t i, size_t j) {
            List r;
            for (auto& e : a.eval(q, i, j)) if (Show(e).find(but) == string::npos) r.push_back(e);
            return r;
          }};
}

const auto s_color = Make(color, {false, kColor});
const auto s_fruit = Make(fruit, {false, kFruit});
const auto s_and = Make(and_, KeywordMeaning("and_"));
const auto s_not = Make(not_, KeywordMeaning("not_"));
const auto s_none = Make(None, {true, [](const Query&, size_t i, size_t j) { return i == j ? List{kUnit} : List(); }});

// NOTE: The functions are different while their types are the same; the schemas are also of the same types then.
template <class B>
auto DoMap(const Schema<B>& s, const string& prefix) {
  return Make(s.block.template MapHelper<Made>([prefix](const emitted<B>& in, Made& out) { out.s = prefix + Flat(in); }), Mapped(s.meaning, prefix));
}
template <class B>
auto DoFilter(const Schema<B>& s, const string& but) {
  return Make(s.block.FilterHelper([but](const emitted<B>& in) { return Flat(in).find(but) == string::npos; }), Filtered(s.meaning, but));
}

// All the unary compositions.
template <class B, class F>
void Unary(const Schema<B>& s, F&& f) {
  f(s);
  f(Make(s.block.UnitHelper(), MVoid(s.meaning)));
  f(DoMap(s, "x"));
  f(DoMap(s, "y"));
  f(DoFilter(s, "R"));
  f(DoFilter(s, "o"));
}
// All the binary ones.
template <class A, class B, class F>
void Binary(const Schema<A>& a, const Schema<B>& b, F&& f) {
  f(Make(a.block >> b.block, MSeq(a.meaning, b.meaning, false)));
  f(Make(a.block << b.block, MSeq(a.meaning, b.meaning, true)));
  f(Make(a.block & b.block, MAnd(a.meaning, b.meaning)));
  if constexpr (kCanOr<A, B>) f(Make(a.block | b.block, MOr(a.meaning, b.meaning)));
}
template <class F>
void Leaves(F&& f) {
  f(s_color);
  f(s_fruit);
  f(s_and);
  f(s_none);
}
template <class F>
void FewLeaves(F&& f) {
  f(s_color);
  f(s_and);
}

Query Ask(int max, string& text) {
  Query q;
  static const char* const between[] = {" ", "  ", "\t", "\n"};
  const int n = en::Choose(max + 1);
  for (int i = 0; i < n; ++i) {
    q.push_back(&kTerms[en::Choose(kTermsCount)]);
    text += string(i ? between[i % 4] : "") + q.back()->text;
  }
  return q;
}
}  // namespace

// Every term of a query is annotated, in order, as it is and normalized.
EN_SCENARIO(annotations) {
  string text = en::Pick(std::vector<string>{"", " ", "\n \t"});
  const Query q = Ask(3, text);
  text += en::Pick(std::vector<string>{"", " "});
  en::Note("\"" + text + "\"");
  const auto a = current::nlp::AnnotateQuery<QueryTerm>(text);
  EN_CHECK_EQ(a.original_query, text, "original-query");
  EN_CHECK_EQ(a.annotated_terms.size(), q.size(), "terms");
  for (size_t i = 0; i < q.size(); ++i) {
    const auto& t = a.annotated_terms[i];
    EN_CHECK_EQ(t.original_term, q[i]->text, "original-term");
    EN_CHECK_EQ(t.normalized_term, current::strings::ToLower(string(q[i]->text)), "normalized-term");
    EN_CHECK_EQ(t.length, strlen(q[i]->text), "custom-annotation");
    EN_CHECK_EQ((Exists(t.color) ? Value(t.color).s : ""), (q[i]->color ? q[i]->color : ""), "dictionary-annotation");
    EN_CHECK_EQ((Exists(t.fruit) ? Value(t.fruit).s : ""), (q[i]->fruit ? q[i]->fruit : ""), "dictionary-annotation");
  }
}

// The leaves, what single operators make of these, and what operators make of these in turn.
EN_SCENARIO(flat, (en::Opts{40})) {
  string text;
  const Query q = Ask(static_cast<int>(en::Param("terms", 4)), text);
  Judge judge;
  judge.queries.emplace_back(text, q);
  en::Note(text);
  Leaves([&](const auto& a) {
    Unary(a, judge);
    Leaves([&](const auto& b) { Binary(a, b, [&](const auto& c) { Unary(c, judge); }); });
  });
  en::Evaluations(judge.schemas);
}

EN_SCENARIO(deep, (en::Opts{60})) {
  string text;
  const Query q = Ask(static_cast<int>(en::Param("deep_terms", 4)), text);
  Judge judge;
  judge.queries.emplace_back(text, q);
  en::Note(text);
  FewLeaves([&](const auto& a) {
    Leaves([&](const auto& b) {
      Binary(a, b, [&](const auto& ab) {
        FewLeaves([&](const auto& c) {
          Binary(ab, c, judge);
          Binary(c, ab, judge);
        });
      });
    });
  });
  // Mapped and filtered parts of the same types in the same schema.
  const auto x = DoMap(s_color, "x"), y = DoMap(s_color, "y");
  Binary(x, y, judge);
  Binary(y, x, judge);
  const auto no_r = DoFilter(s_color, "R"), no_b = DoFilter(s_color, "B");
  Binary(no_r, no_b, judge);
  Binary(no_b, no_r, judge);
  Binary(DoMap(no_r, "x"), DoMap(no_b, "x"), judge);
  Binary(Make(s_color.block.UnitHelper(), MVoid(s_color.meaning)), Make(s_color.block.UnitHelper(), MVoid(s_color.meaning)), judge);
  // As the macros of the schemas have it.
  judge(Make(Maybe(s_not.block), MOr(s_none.meaning, s_not.meaning)));
  judge(Make(GreedyMaybe(s_color.block), MOr(s_color.meaning, s_none.meaning)));
  judge(Make(Maybe(s_color.block) >> s_fruit.block, MSeq(MOr(s_none.meaning, s_color.meaning), s_fruit.meaning, false)));
  judge(Make(Maybe(s_not.block) >> s_color.block >> Maybe(s_and.block) >> s_fruit.block, MSeq(MSeq(MSeq(MOr(s_none.meaning, s_not.meaning), s_color.meaning, false), MOr(s_none.meaning, s_and.meaning), false), s_fruit.meaning, false)));
  judge(Make(Map(s_color.block, Made, output.s = "x" + input.s), Mapped(s_color.meaning, "x")));
  judge(Make(Map(s_color.block, Made, output.s = "z" + input.s), Mapped(s_color.meaning, "z")));
  judge(Make(Filter(s_color.block, input.s != "R"), Filtered(s_color.meaning, "R")));
  judge(Make(Filter(s_color.block, input.s != "B"), Filtered(s_color.meaning, "B")));
  en::Evaluations(judge.schemas);
}

#include "nlp/nlp_schema_end.inl"
