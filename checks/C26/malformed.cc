// C26: every truncation, every single-byte edit over a token alphabet, and every structural edit of the serializations of small values:
// the real parser accepts a text exactly if the model decoder does, with the same value, and refuses the rest with the documented exception.
#include <sys/resource.h>

#include "common/json_types.h"

using namespace jm;

#ifndef PART
#define PART 0
#endif

namespace {

uint64_t tried = 0;

template <class F, class T>
void Try(const std::string& text, const char* how) {
  ++tried;
  const std::string name = std::string(StyleOf<F>::name) + ", " + how + ": ";
  J tree;
  const Verdict verdict = Parse(text, tree);
  T expected{}, actual{};
  const bool valid = verdict == Verdict::Valid && Tr<T>::Dec(&tree, StyleOf<F>::v, expected);
  bool accepted = false;
  try {
    ParseJSON<T, F>(text, actual);
    accepted = true;
  } catch (const TypeSystemParseJSONException& e) {
    if (!*e.what()) en::Violation("no-message", name + text);
  } catch (const std::exception& e) {
    en::Violation("undocumented-exception", name + text + " : " + e.what());
  }
  if (verdict == Verdict::Unspecified) return;
  if (accepted && !valid) en::Violation("made-up-value", name + text + " accepted as " + JSON<F>(actual));
  if (!accepted && valid) en::Violation("valid-text-rejected", name + text);
  if (accepted && !Tr<T>::Eq(expected, actual)) en::Violation("wrong-value", name + text + " read as " + JSON<F>(actual));
  // Without an `std::string` there is no way to tell of what follows a zero byte, and thus there is nothing to expect from it.
  const bool ok = Exists(TryParseJSON<T, F>(text));
  if (ok != accepted) en::Violation("try-parse-differs", name + text);
}

std::vector<J> Replacements() {
  std::vector<J> v;
  for (const char* t :
       {"null", "true", "0", "-1", "128", "-129", "255", "256", "-32769", "32768", "65536", "2147483648", "-2147483649", "4294967296", "9223372036854775808",
        "-9223372036854775809", "18446744073709551616", "1.5", "1e2", "1e39", "-1e39", "1e308", "\"\"", "\"T\"", "\"T1\"", "\"T1x\"", "\"Tx\"", "\"T18446744073709551616\"", "\"Leaf\"",
        "\"Some\"", "\"None\"", "[]", "[0]", "[0,0]", "[[]]", "[[0,true]]", "[[0]]", "[null]", "{}", "{\"\":0}", "{\"Leaf\":{}}", "{\"Case\":\"Empty\"}", "{\"Item1\":0}",
        "{\"Case\":\"Some\",\"Fields\":[0]}"}) {
    J j;
    if (Parse(t, j) != Verdict::Valid) abort();
    v.push_back(j);
  }
  return v;
}

// All the ways to edit one place of a tree: `f` is called with the tree edited.
template <class FN>
void EditEverywhere(J& root, J& at, const std::vector<J>& replacements, FN f) {
  const J saved = at;
  for (const J& r : replacements) {
    at = r;
    f("replace");
  }
  at = saved;
  if (saved.k == J::Arr) {
    for (size_t i = 0; i < saved.a.size(); ++i) {
      at.a.erase(at.a.begin() + i);
      f("drop an element");
      at = saved;
      at.a.insert(at.a.begin() + i, saved.a[i]);
      f("double an element");
      at = saved;
    }
    at.a.emplace_back();
    f("add a null");
    at = saved;
  } else if (saved.k == J::Obj) {
    for (size_t i = 0; i < saved.o.size(); ++i) {
      at.o.erase(at.o.begin() + i);
      f("drop a member");
      at = saved;
      at.o[i].first += "x";
      f("rename a member");
      at = saved;
      at.o[i].first += std::string("\0x", 2);
      f("rename a member with a zero byte");
      at = saved;
      std::swap(at.o[i], at.o[0]);
      f("swap members");
      at = saved;
    }
    at.o.emplace_back("extra", J());
    f("add a member");
    at = saved;
    at.o.emplace(at.o.begin(), "Leaf", J());
    f("add a case");
    at = saved;
  } else if (saved.k == J::Str) {
    at.s += std::string("\0", 1);
    f("append a zero byte");
    at = saved;
    at.s += "x";
    f("append a letter");
    at = saved;
  }
  for (J& x : at.a) EditEverywhere(root, x, replacements, f);
  for (auto& x : at.o) EditEverywhere(root, x.second, replacements, f);
}

template <class F, class T>
void Structural(const std::string& text, bool twice) {
  static const std::vector<J> replacements = Replacements();
  static const std::vector<J> few = {replacements[0], replacements[2], replacements[22], replacements[31], replacements[38]};
  J tree;
  if (Parse(text, tree) != Verdict::Valid) en::Violation("invalid-json", text);
  EditEverywhere(tree, tree, replacements, [&](const char* how) {
    std::string t;
    Print(tree, t);
    Try<F, T>(t, how);
    if (twice) {
      J again = tree;
      EditEverywhere(again, again, few, [&](const char* how2) {
        std::string t2;
        Print(again, t2);
        Try<F, T>(t2, how2);
      });
    }
  });
}

template <class F, class T>
void Textual(const std::string& text) {
  static const std::string alphabet = std::string("\0", 1) + "{}[]\",:01-.eE+tnulfa\\ /\x01\x80TA$";
  for (size_t i = 0; i < text.size(); ++i) {
    Try<F, T>(text.substr(0, i), "prefix");
    Try<F, T>(text.substr(i + 1), "suffix");
    Try<F, T>(text.substr(0, i) + text.substr(i + 1), "delete");
    Try<F, T>(text.substr(0, i) + text[i] + text.substr(i), "double");
    for (const char c : alphabet) {
      Try<F, T>(text.substr(0, i) + c + text.substr(i + 1), "replace");
      Try<F, T>(text.substr(0, i) + c + text.substr(i), "insert");
    }
  }
  for (const char c : alphabet) Try<F, T>(text + c, "append");
  Try<F, T>(text + text, "twice");
  Try<F, T>(" \r\n\t" + text + " \r\n\t", "whitespace");
}

template <class T>
void Body(int w) {
  const int format = en::Choose(4);
  const T v = Tr<T>::Gen(w);
  tried = 0;
  const auto run = [&](auto f) {
    using F = decltype(f);
    const std::string text = JSON<F>(v);
    en::Note(std::string(StyleOf<F>::name) + " " + text);
    Try<F, T>(text, "itself");
    Structural<F, T>(text, en::Thorough() && text.length() < 150);
    Textual<F, T>(text);
  };
  if (format == 0) run(FCur());
  if (format == 1) run(FMin());
  if (format == 2) run(FJS());
  if (format == 3) run(FFS());
  en::Evaluations(tried);
}

}  // namespace

#if PART == 0
EN_SCENARIO(prims) { Body<Prims>(en::Thorough() ? 1 : 0); }
EN_SCENARIO(numbers) {
  switch (en::Choose(14)) {
    case 0: return Body<uint8_t>(2);
    case 1: return Body<uint16_t>(2);
    case 2: return Body<uint32_t>(2);
    case 3: return Body<uint64_t>(2);
    case 4: return Body<int8_t>(2);
    case 5: return Body<int16_t>(2);
    case 6: return Body<int32_t>(2);
    case 7: return Body<int64_t>(2);
    case 8: return Body<char>(2);
    case 9: return Body<float>(2);
    case 10: return Body<double>(2);
    case 11: return Body<std::chrono::milliseconds>(2);
    case 12: return Body<ESmall>(2);
    default: return Body<bool>(2);
  }
}
EN_SCENARIO(enums) {
  switch (en::Choose(3)) {
    case 0: return Body<EShort>(2);
    case 1: return Body<EBig>(2);
    default: return Body<ESigned>(2);
  }
}
EN_SCENARIO(strings) {
  switch (en::Choose(2)) {
    case 0: return Body<std::string>(2);
    default: return Body<current::reflection::TypeID>(2);
  }
}
EN_SCENARIO(leaf) { Body<Leaf>(2); }
EN_SCENARIO(derived) { Body<Derived>(1); }
// Texts of any nesting.
EN_SCENARIO(nesting) {
  const int depth = en::Pick(std::vector<int>{10, 100, 1000, 10000, 100000, 1000000, 5000000});
  const int shape = en::Choose(5);
  std::string open, close;
  const char* o[] = {"[", "{\"c\":[", "{\"n\":1,\"c\":[", "[[],", "{\"a\":"};
  const char* c[] = {"]", "]}", "]}", "]", "}"};
  for (int i = 0; i < depth; ++i) open += o[shape], close += c[shape];
  const std::string text = open + (shape == 4 ? "0" : "") + (en::Flip() ? close : "");
  en::Note(std::to_string(depth) + " x " + o[shape]);
  const auto try_one = [&](auto x) {
    bool accepted = false;
    try {
      ParseJSON(text, x);
      accepted = true;
    } catch (const TypeSystemParseJSONException&) {
    } catch (const std::exception& e) {
      en::Violation("undocumented-exception", std::string(e.what()).substr(0, 100));
    }
    return accepted;
  };
  try_one(int());
  try_one(std::vector<int>());
  try_one(std::vector<std::vector<std::vector<int>>>());
  try_one(Leaf());
  Optional<int> o_;
  try_one(o_);
  std::map<std::string, std::string> m;
  try_one(m);
  Tree t;
  if (!text.empty()) try_one(t);
}
#elif PART == 1
EN_SCENARIO(conts) {
  switch (en::Choose(8)) {
    case 0: return Body<std::vector<int32_t>>(1);
    case 1: return Body<std::set<std::string>>(1);
    case 2: return Body<std::map<int32_t, bool>>(1);
    case 3: return Body<std::map<std::string, uint8_t>>(1);
    case 4: return Body<std::pair<int32_t, bool>>(1);
    case 5: return Body<std::tuple<int32_t, bool, std::string>>(1);
    case 6: return Body<std::array<int32_t, 2>>(1);
    default: return Body<std::vector<bool>>(1);
  }
}
EN_SCENARIO(uconts) {
  switch (en::Choose(4)) {
    case 0: return Body<std::unordered_set<int32_t>>(1);
    case 1: return Body<std::unordered_map<std::string, bool>>(1);
    case 2: return Body<std::unordered_map<int32_t, std::string>>(1);
    default: return Body<std::vector<std::pair<std::string, std::array<bool, 1>>>>(1);
  }
}
EN_SCENARIO(whole_conts) { Body<Conts>(-1); }
EN_SCENARIO(whole_uconts) { Body<UConts>(-1); }
EN_SCENARIO(tree) { Body<Tree>(0); }
#else
EN_SCENARIO(optionals) {
  switch (en::Choose(4)) {
    case 0: return Body<Optional<int32_t>>(1);
    case 1: return Body<Optional<std::string>>(1);
    case 2: return Body<std::vector<Optional<bool>>>(1);
    default: return Body<Optional<Leaf>>(1);
  }
}
EN_SCENARIO(variants) {
  switch (en::Choose(4)) {
    case 0: return Body<Var>(en::Thorough() ? 1 : 0);
    case 1: return Body<InnerVar>(en::Thorough() ? 1 : 0);
    case 2: return Body<VarOfVar>(en::Thorough() ? 1 : 0);
    default: return Body<Optional<InnerVar>>(en::Thorough() ? 1 : 0);
  }
}
EN_SCENARIO(in_containers) {
  switch (en::Choose(3)) {
    case 0: return Body<std::vector<InnerVar>>(0);
    case 1: return Body<std::map<std::string, InnerVar>>(0);
    default: return Body<std::pair<InnerVar, Optional<int32_t>>>(0);
  }
}
CURRENT_STRUCT(Rich2) {
  CURRENT_FIELD(v, InnerVar);
  CURRENT_FIELD(ov, Optional<InnerVar>);
  CURRENT_FIELD(o, Optional<int32_t>);
};
namespace jm {
JM_FIELDS(Rich2, void, true, JM_F(v) JM_F(ov) JM_F(o));
}
EN_SCENARIO(rich2) { Body<Rich2>(0); }
EN_SCENARIO(rich) {
  if (!en::Thorough()) en::Skip();
  Body<Rich>(0);
}
#endif
