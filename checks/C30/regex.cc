// C30: named groups of regular expressions: every expression composed of a few pieces, against the plain expression and the
// names of the groups known by construction.
#include "bricks/strings/regex.h"
#include "bricks/exception.h"

#include <map>
#include <regex>

#include "enum.h"

using std::string;

namespace {
void Sure(bool b, const char* sig, const string& on) {
  if (!b) en::Violation(sig, on);
}
struct Piece {
  const char* named;
  const char* plain;
  std::vector<string> groups;  // The names of the groups, in order; empty if unnamed.
};
const std::vector<Piece>& Pieces() {
  static const std::vector<Piece> v = {
      {"a", "a", {}},
      {"(a|b)", "(a|b)", {""}},
      {"(?<x>a+)", "(a+)", {"x"}},
      {"(?<y_2>b*)", "(b*)", {"y_2"}},
      {"(?:b)", "(?:b)", {}},
      {"(?=a)", "(?=a)", {}},
      {"(?!b)", "(?!b)", {}},
      {"\\(", "\\(", {}},
      {"\\\\(b)", "\\\\(b)", {""}},
      {"(?<z>(?<w>a)?\\)?)", "((a)?\\)?)", {"z", "w"}},
      {"(?<q>\\((b)?)?", "(\\((b)?)?", {"q", ""}},
      {"((?<v>a)|\\\\)", "((a)|\\\\)", {"", "v"}},
  };
  return v;
}
const std::vector<string>& Inputs() {
  static const std::vector<string> v = []() {
    std::vector<string> r = {""};
    size_t from = 0;
    for (int l = 0; l < 4; ++l) {
      const size_t to = r.size();
      for (; from < to; ++from)
        for (char c : {'a', 'b', '(', ')', '\\'}) r.push_back(r[from] + c);
    }
    return r;
  }();
  return v;
}
}  // namespace

EN_SCENARIO(named_groups) {
  const int n = en::Choose(static_cast<int>(en::Param("regex_pieces", 3))) + 1;
  string named, plain;
  std::vector<string> groups;
  std::vector<bool> used(Pieces().size());
  for (int i = 0; i < n; ++i) {
    const int k = en::Choose(static_cast<int>(Pieces().size()));
    if (used[k] && !Pieces()[k].groups.empty()) en::Skip();  // Names are not repeated.
    used[k] = true;
    named += Pieces()[k].named;
    plain += Pieces()[k].plain;
    for (const auto& g : Pieces()[k].groups) groups.push_back(g);
  }
  en::Note(named);
  std::map<string, size_t> index;
  for (size_t i = 0; i < groups.size(); ++i)
    if (!groups[i].empty()) index[groups[i]] = i + 1;
  const current::strings::NamedRegexCapturer re(named);
  const std::regex reference(plain);
  Sure(re.TotalCaptures() == groups.size() && re.NamedCaptures() == index.size(), "captures",
       std::to_string(re.TotalCaptures()) + " and " + std::to_string(re.NamedCaptures()));
  Sure(re.GetTransformedRegexBody() == plain, "plain", re.GetTransformedRegexBody());
  Sure(re.GetTransformedRegexCaptureGroupNames() == groups, "names", "");
  int64_t evaluations = 0;
  for (const string& s : Inputs()) {
    const string on = named + " on `" + s + "`";
    std::smatch m;
    const bool matches = std::regex_match(s, m, reference);
    Sure(re.Test(s) == matches, "test", on);
    auto first = re.Match(s);
    auto got = std::move(first);  // The result of a match outlives what it was made of.
    Sure(got.empty() == !matches, "match", on);
    if (matches) {
      Sure(got.size() == m.size() && got.length() == static_cast<size_t>(m.length()) && got.position() == 0u, "match-whole", on);
      for (const auto& g : index) {
        Sure(got[g.first] == m[g.second].str(), "group", on + " " + g.first + ": " + got[g.first]);
        Sure(got.Has(g.first) == (m[g.second].length() > 0), "group-has", on);
      }
    }
    Sure(!got.Has("none") && got["none"].empty(), "no-such-group", on);
    // All the matches.
    auto it = std::sregex_iterator(s.begin(), s.end(), reference);
    for (const auto& e : re.Iterate(s)) {
      Sure(it != std::sregex_iterator(), "iterate-more", on);
      Sure(e.str() == it->str() && e.position() == static_cast<size_t>(it->position()) && e.length() == static_cast<size_t>(it->length()), "iterate", on);
      for (const auto& g : index) {
        Sure(e[g.first] == (*it)[g.second].str(), "iterate-group", on);
        Sure(e.Has(g.first) == ((*it)[g.second].length() > 0), "iterate-has", on);
      }
      ++it;
    }
    Sure(it == std::sregex_iterator(), "iterate-less", on);
    // And over a part of the string.
    if (s.size() > 1) {
      std::vector<string> a, b;
      for (const auto& e : re.Iterate(s.begin() + 1, s.end())) a.push_back(e.str());
      for (auto i = std::sregex_iterator(s.begin() + 1, s.end(), reference); i != std::sregex_iterator(); ++i) b.push_back(i->str());
      Sure(a == b, "iterate-part", on);
    }
    std::vector<string> a, b;
    for (const auto& e : current::strings::IterateByRegexMatches(reference, s.c_str())) a.push_back(e.str());
    for (auto i = std::sregex_iterator(s.begin(), s.end(), reference); i != std::sregex_iterator(); ++i) b.push_back(i->str());
    Sure(a == b, "iterate-plain", on);
    ++evaluations;
  }
  en::Evaluations(evaluations);
}
