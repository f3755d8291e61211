// C31: compact TSV, CSV, JSON schema inference and operational transformations, on every small input, against
// independent definitions.
#include "compact_tsv/compact_tsv.h"
#include "utils/csv/csv.h"
#include "utils/json_schema/infer.h"
#include "utils/operational_transformation/ot.h"

#include <cstring>
#include <map>
#include <memory>
#include <set>

#include "enum.h"

using std::string;
using row_t = std::vector<string>;
using table_t = std::vector<row_t>;

namespace {

string Show(const string& s) {
  if (s.size() > 100) return "<" + std::to_string(s.size()) + " bytes>";
  string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof(b), "\\x%02x", c); r += b; }
  }
  return r + '"';
}
string Show(const row_t& v) {
  string r = "[";
  for (size_t i = 0; i < v.size() && i < 8; ++i) r += Show(v[i]) + " ";
  return r + (v.size() > 8 ? "...]" : "]");
}
string Show(const table_t& t) {
  string r;
  for (size_t i = 0; i < t.size() && i < 8; ++i) r += Show(t[i]) + " ";
  return r;
}
void Sure(bool b, const char* sig, const string& on) {
  if (!b) en::Violation(sig, on);
}

// ---- Compact TSV ----

void CheckTSV(const table_t& t, size_t declared_dim) {
  CompactTSV tsv(declared_dim);
  for (const auto& r : t) tsv(r);
  tsv.Finalize();
  const string packed = tsv.GetPackedString();
  table_t got;
  size_t n = CompactTSV::Unpack([&](const std::vector<string>& r) { got.push_back(r); }, packed);
  Sure(n == t.size() && got == t, "tsv-strings", "packed " + Show(t) + ", unpacked " + Show(got));
  got.clear();
  n = CompactTSV::Unpack(
      [&](const std::vector<std::pair<const char*, size_t>>& r) {
        row_t x;
        for (const auto& e : r) x.emplace_back(e.first, e.second);
        got.push_back(x);
      },
      packed);
  Sure(n == t.size() && got == t, "tsv-pairs", "packed " + Show(t) + ", unpacked " + Show(got));
  got.clear();
  n = CompactTSV::Unpack(
      [&](const std::vector<current::strings::UniqueChunk>& r) {
        row_t x;
        for (const auto& e : r) x.emplace_back(e.c_str(), e.length());
        got.push_back(x);
      },
      packed);
  Sure(n == t.size() && got == t, "tsv-chunks", "packed " + Show(t) + ", unpacked " + Show(got));
  got.clear();
  n = CompactTSV::Unpack(
      [&](const std::vector<const char*>& r) {
        row_t x;
        for (const auto& e : r) x.emplace_back(e);
        got.push_back(x);
      },
      packed);
  table_t upto_zero = t;
  for (auto& r : upto_zero)
    for (auto& s : r) s = s.c_str();
  Sure(n == t.size() && got == upto_zero, "tsv-pchars", "packed " + Show(t) + ", unpacked " + Show(got));
  got.clear();
  const std::vector<uint8_t> bytes(packed.begin(), packed.end());
  n = CompactTSV::Unpack([&](const std::vector<string>& r) { got.push_back(r); }, bytes);
  Sure(n == t.size() && got == t, "tsv-bytes", "packed " + Show(t) + ", unpacked " + Show(got));
}

EN_SCENARIO(tsv) {
  static const std::vector<string> cells = {"", "a", "b", string("\0", 1), "\xff", string("a\0b", 3), "\xfe"};
  const int dim = 1 + en::Choose(3);
  const int max_rows = dim == 1 ? static_cast<int>(en::Param("tsv_rows1", 4)) : dim == 2 ? static_cast<int>(en::Param("tsv_rows2", 2)) : static_cast<int>(en::Param("tsv_rows3", 1));
  const int rows = en::Choose(max_rows + 1);
  table_t t;
  for (int i = 0; i < rows; ++i) {
    row_t r;
    for (int j = 0; j < dim; ++j) r.push_back(en::Pick(cells));
    t.push_back(r);
  }
  CheckTSV(t, en::Flip() ? dim : 0);
}

EN_SCENARIO(tsv_repeats) {  // Fewer cells, more rows: which columns change from one row to the next.
  const int dim = 2 + en::Choose(2);
  const int rows = 1 + en::Choose(static_cast<int>(en::Param("tsv_repeat_rows", 4)));
  table_t t;
  for (int i = 0; i < rows; ++i) {
    row_t r;
    for (int j = 0; j < dim; ++j) r.push_back(en::Flip() ? "x" : "");
    t.push_back(r);
  }
  CheckTSV(t, 0);
}

EN_SCENARIO(tsv_sizes) {
  static const std::vector<size_t> dims = {1, 2, 127, 128, 129, 252, 253, 254};
  static const std::vector<size_t> lengths = {0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535};
  const size_t dim = en::Pick(dims);
  const size_t length = en::Pick(lengths);
  const int mode = en::Choose(4);
  table_t t;
  switch (mode) {
    case 0:  // All the cells the same.
      t.assign(3, row_t(dim, string(length, 'x')));
      break;
    case 1:  // All the cells different.
      for (int i = 0; i < 2; ++i) {
        row_t r;
        for (size_t j = 0; j < dim; ++j) {
          string s(length, 'x');
          const string id = std::to_string(i * 1000 + j);
          if (length >= id.size()) s.replace(length - id.size(), id.size(), id); else s = id;
          r.push_back(s);
        }
        t.push_back(r);
      }
      t.push_back(t[0]);
      break;
    case 2:  // Only the last column changes.
    case 3:  // Only the first column changes.
      for (int i = 0; i < 3; ++i) {
        row_t r(dim, "c");
        r[mode == 2 ? dim - 1 : 0] = string(length, static_cast<char>('x' + i % 2));
        t.push_back(r);
      }
      break;
  }
  CheckTSV(t, 0);
}

EN_SCENARIO(tsv_large, (en::Opts{120})) {  // Offsets beyond 2^16 and 2^24; strings stored before and after these.
  const int columns = en::Flip() ? 254 : 3;
  table_t t;
  for (int i = 0; i < (columns == 3 ? 90 : 2); ++i) {
    row_t r;
    for (int j = 0; j < columns; ++j) {
      string s(65535, static_cast<char>('a' + j % 20));
      const string id = std::to_string(i * 1000 + j);
      s.replace(j, id.size(), id);
      r.push_back(s);
    }
    t.push_back(r);
  }
  t.push_back(t[0]);
  t.push_back(t[1]);
  CheckTSV(t, 0);
}

// ---- CSV ----

struct CSVModel {
  bool bad = false;
  row_t header;
  table_t data;
};
CSVModel ReadCSV(const string& text) {
  CSVModel m;
  table_t rows;
  bool first = true;
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p);
    string line = text.substr(p, e == string::npos ? string::npos : e - p);
    p = e == string::npos ? text.size() : e + 1;
    if (!line.empty() && line.back() == '\r') line.pop_back();
    if (first && line.empty()) m.bad = true;
    first = false;
    row_t r(1);
    for (char c : line) {
      if (c == ',') r.emplace_back(); else r.back() += c;
    }
    rows.push_back(r);
  }
  if (first) m.bad = true;
  if (m.bad) return m;
  m.header = rows[0];
  m.data.assign(rows.begin() + 1, rows.end());
  for (const auto& r : m.data)
    if (r.size() != m.header.size()) m.bad = true;
  return m;
}

void WriteFile(const string& fn, const string& s) {
  FILE* f = fopen(fn.c_str(), "wb");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}

void CheckCSVOfStrings(const string& text) {
  const string fn = en::TmpDir() + "/t.csv";
  WriteFile(fn, text);
  const CSVModel want = ReadCSV(text);
  bool bad = false;
  current::CSV<string> got;
  try {
    got = current::CSV<string>::ReadFile(fn);
  } catch (const current::CSVFileFormatException&) {
    bad = true;
  }
  if (bad != want.bad) {
    en::Violation(bad ? "csv-rejected" : "csv-accepted", Show(text) + (bad ? " is rejected" : " is accepted: " + Show(got.header) + ", " + Show(got.data)));
  }
  if (!bad && (got.header != want.header || got.data != want.data)) {
    en::Violation("csv-fields", Show(text) + " parses as " + Show(got.header) + ", " + Show(got.data));
  }
}

EN_SCENARIO(csv_text) {
  static const string alphabet = "a,\n\r ";
  const int n = en::Choose(static_cast<int>(en::Param("csv_length", 6)) + 1);
  string s;
  for (int i = 0; i < n; ++i) s += en::Pick(alphabet);
  CheckCSVOfStrings(s);
}

EN_SCENARIO(csv_tables) {  // Tables put together from fields, in every line ending.
  static const std::vector<string> cells = {"a", "", " b c ", "\"q", "'", "\xd0\x81", "\t", string("z\0z", 3), "long enough to not be stored within the string object itself"};
  const int columns = 1 + en::Choose(3);
  const int rows = en::Choose(columns == 3 ? 2 : 3);
  const string eol = en::Flip() ? "\r\n" : "\n";
  const bool final_eol = en::Flip();
  row_t header;
  for (int j = 0; j < columns; ++j) header.push_back(j == 1 ? "" : "h" + std::to_string(j));
  table_t t;
  string text;
  auto add = [&](const row_t& r) {
    if (!text.empty()) text += eol;
    for (size_t j = 0; j < r.size(); ++j) text += (j ? "," : "") + r[j];
  };
  add(header);
  for (int i = 0; i < rows; ++i) {
    row_t r;
    for (int j = 0; j < columns; ++j) r.push_back(en::Pick(cells));
    t.push_back(r);
    add(r);
  }
  if (final_eol) text += eol;
  if (!final_eol && rows > 0 && columns == 1 && t.back()[0].empty()) en::Skip();  // Then it is not a line.
  CheckCSVOfStrings(text);
  const CSVModel m = ReadCSV(text);
  Sure(!m.bad && m.header == header && m.data == t, "harness", "the model of CSV is wrong on " + Show(text));
}

template <class T>
void CSVNumbers(const std::vector<std::pair<string, T>>& numbers) {
  const int columns = 1 + en::Choose(3);
  const int rows = 1 + en::Choose(columns == 1 ? 2 : 1);
  string text = "A";
  for (int j = 1; j < columns; ++j) text += ",B";
  std::vector<std::vector<T>> want;
  for (int i = 0; i < rows; ++i) {
    std::vector<T> r;
    for (int j = 0; j < columns; ++j) {
      const auto& x = en::Pick(numbers);
      text += (j ? "," : "\n") + x.first;
      r.push_back(x.second);
    }
    want.push_back(r);
  }
  const string fn = en::TmpDir() + "/n.csv";
  WriteFile(fn, text);
  const auto got = current::CSV<T>::ReadFile(fn);
  Sure(got.data == want, "csv-numbers", Show(text) + " is parsed into other numbers");
}
EN_SCENARIO(csv_doubles) {
  CSVNumbers<double>({{"0", 0}, {"-1", -1}, {"1.5", 1.5}, {" 2 ", 2}, {"20e-1", 2}, {"1e300", 1e300}, {"-0.1", -0.1}, {"\t3", 3}, {"123456789012345678", 123456789012345678.0}});
}
EN_SCENARIO(csv_integers) {
  CSVNumbers<int64_t>({{"0", 0}, {"-1", -1}, {"1", 1}, {" 2 ", 2}, {"9223372036854775807", INT64_MAX}, {"-9223372036854775808", INT64_MIN}, {"007", 7}});
}
EN_SCENARIO(csv_numbers_and_gaps) {  // A missing number is never made up from its neighbours.
  string text = "A,B,C\n";
  int gaps = 0;
  for (int j = 0; j < 4; ++j) {
    const int k = en::Choose(3);
    if (k == 2) break;
    if (j) text += ",";
    if (k == 0) ++gaps; else text += std::to_string(j + 1);
  }
  const string fn = en::TmpDir() + "/g.csv";
  WriteFile(fn, text);
  const CSVModel m = ReadCSV(text);
  try {
    const auto got = current::CSV<int>::ReadFile(fn);
    Sure(!m.bad, "csv-accepted", Show(text) + " is accepted");
    for (size_t i = 0; i < m.data.size(); ++i) {
      for (size_t j = 0; j < 3; ++j) {
        if (!m.data[i][j].empty()) Sure(got.data.at(i).at(j) == std::stoi(m.data[i][j]), "csv-shifted", Show(text) + " is parsed with its fields shifted");
      }
    }
  } catch (const current::CSVException&) {
    Sure(m.bad || gaps, "csv-rejected", Show(text) + " is rejected");
  }
}

// ---- Schema inference ----

struct J {
  enum K { Null, Bool, Num, Str, Arr, Obj } k = Null;
  string text;  // of a number, string or boolean
  std::vector<std::pair<string, J>> members;  // of objects, in the order written
  std::vector<J> elements;
  string Text() const {
    switch (k) {
      case Null: return "null";
      case Bool: case Num: case Str: return text;
      case Arr: {
        string r = "[";
        for (size_t i = 0; i < elements.size(); ++i) r += (i ? "," : "") + elements[i].Text();
        return r + "]";
      }
      default: {
        string r = "{";
        for (size_t i = 0; i < members.size(); ++i) r += string(i ? "," : "") + "\"" + members[i].first + "\":" + members[i].second.Text();
        return r + "}";
      }
    }
  }
  bool EmptyArray() const { return k == Arr && elements.empty(); }
};

const std::vector<std::pair<J::K, string>> leaves = {{J::Null, "null"}, {J::Num, "1"}, {J::Num, "-1"}, {J::Num, "0.5"}, {J::Num, "1400000000000000"}, {J::Str, "\"x\""}, {J::Bool, "true"}, {J::Arr, ""}};

J GenValue(int& budget, int depth, const std::vector<string>& keys, bool all_leaves) {
  --budget;
  J j;
  const int n_leaves = all_leaves ? static_cast<int>(leaves.size()) : 3;
  const bool composite = depth > 0;
  const int c = en::Choose(n_leaves + (composite ? 2 : 0));
  if (c < n_leaves) {
    static const int few[] = {1, 0, 7};
    const auto& l = leaves[all_leaves ? c : few[c]];
    j.k = l.first;
    j.text = l.second;
  } else if (c == n_leaves) {
    j.k = J::Obj;
    for (const auto& k : keys) {
      if (budget > 0 && en::Flip()) j.members.emplace_back(k, GenValue(budget, depth - 1, keys, all_leaves));
    }
    if (j.members.size() == 2 && en::Flip()) std::swap(j.members[0], j.members[1]);
  } else {
    if (budget <= 0) en::Skip();  // The empty array is a leaf.
    j.k = J::Arr;
    do {
      j.elements.push_back(GenValue(budget, depth - 1, keys, all_leaves));
    } while (budget > 0 && en::Flip());
  }
  return j;
}

// The reference: what the samples look like at one place.
struct Place {
  size_t unset = 0;  // Null, missing, or -- for a field -- an empty array.
  size_t counts[6] = {0, 0, 0, 0, 0, 0};
  size_t trues = 0;
  bool all_integer = true, all_nonnegative = true, all_microseconds = true;
  std::map<string, Place> fields;
  std::map<string, size_t> distinct_strings;
  std::shared_ptr<Place> element;
  int Kinds() const {
    int r = 0;
    for (int k = 1; k < 6; ++k) r += counts[k] != 0;
    return r;
  }
  bool Conflict() const {
    if (Kinds() > 1) return true;
    for (const auto& f : fields)
      if (f.second.Conflict()) return true;
    return element && element->Conflict();
  }
};
bool OnlyEmptyArrays(const J& j) {  // Some array inside has no elements other than empty arrays: rejected as such.
  if (j.k == J::Arr) {
    bool all = true;
    for (const auto& e : j.elements)
      if (!e.EmptyArray()) all = false;
    if (all) return true;
    for (const auto& e : j.elements)
      if (!e.EmptyArray() && OnlyEmptyArrays(e)) return true;
  }
  if (j.k == J::Obj) {
    for (const auto& m : j.members)
      if (!m.second.EmptyArray() && OnlyEmptyArrays(m.second)) return true;
  }
  return false;
}
void Collect(Place& p, const std::vector<const J*>& values) {  // nullptr is "unset"
  std::vector<const J*> objects, elements;
  bool arrays = false;
  for (const J* v : values) {
    if (!v || v->k == J::Null) { ++p.unset; continue; }
    ++p.counts[v->k];
    if (v->k == J::Bool && v->text == "true") ++p.trues;
    if (v->k == J::Str) ++p.distinct_strings[v->text];
    if (v->k == J::Num) {
      const double d = strtod(v->text.c_str(), nullptr);
      if (v->text.find('.') != string::npos) p.all_integer = false;
      if (d < 0) p.all_nonnegative = false;
      if (d < 315561600e6 || d >= 8835984000e6) p.all_microseconds = false;
    }
    if (v->k == J::Obj) objects.push_back(v);
    if (v->k == J::Arr) {
      arrays = true;
      for (const auto& e : v->elements)
        if (!e.EmptyArray()) elements.push_back(&e);
    }
  }
  std::set<string> keys;
  for (const J* o : objects)
    for (const auto& m : o->members)
      if (!m.second.EmptyArray()) keys.insert(m.first);
  for (const auto& k : keys) {
    std::vector<const J*> inner;
    for (const J* o : objects) {
      const J* x = nullptr;
      for (const auto& m : o->members)
        if (m.first == k && !m.second.EmptyArray()) x = &m.second;
      inner.push_back(x);
    }
    Collect(p.fields[k], inner);
  }
  if (arrays) {
    p.element = std::make_shared<Place>();
    Collect(*p.element, elements);
  }
}

// The schema, read back from its text.
struct Structs {
  std::map<string, std::vector<std::pair<string, string>>> s;
  std::vector<string> order;
  string top;
};
string Trim(string s) {
  while (!s.empty() && s.back() == ' ') s.pop_back();
  while (!s.empty() && s[0] == ' ') s = s.substr(1);
  return s;
}
Structs ParseSchemaText(const string& text) {
  Structs r;
  std::istringstream is(text);
  string line, current;
  std::set<string> known;
  auto starts = [&](const char* p) { return line.compare(0, strlen(p), p) == 0; };
  auto check_type = [&](const string& t, auto&& self) -> void {
    for (const string& c : {string("Optional<"), string("std::vector<")}) {
      if (t.compare(0, c.size(), c) == 0) {
        Sure(t.back() == '>', "schema-syntax", "type " + t + " in:\n" + text);
        self(t.substr(c.size(), t.size() - c.size() - 1), self);
        return;
      }
    }
    static const std::set<string> primitive = {"std::string", "uint64_t", "int64_t", "double", "bool", "std::chrono::microseconds"};
    Sure(primitive.count(t) || known.count(t), "schema-undeclared", "type '" + t + "' is not declared in:\n" + text);
  };
  while (std::getline(is, line)) {
    const size_t comment = line.find("//");
    if (comment != string::npos) line = line.substr(0, comment);
    while (!line.empty() && line.back() == ' ') line.pop_back();
    if (line.empty()) continue;
    if (starts("CURRENT_STRUCT(")) {
      current = line.substr(15, line.find(')') - 15);
      Sure(!r.s.count(current), "schema-duplicate-struct", current + " is declared twice in:\n" + text);
      r.s[current];
      r.order.push_back(current);
    } else if (starts("};")) {
      known.insert(current);
      current = "";
    } else if (starts("  CURRENT_FIELD(")) {
      const size_t c = line.find(", ");
      const string name = line.substr(16, c - 16);
      const string type = line.substr(c + 2, line.size() - c - 4);
      Sure(line.substr(line.size() - 2) == ");", "schema-syntax", line);
      check_type(type, check_type);
      r.s[current].emplace_back(name, type);
    } else if (starts("using ")) {
      const size_t c = line.find(" = ");
      Sure(c != string::npos && line.back() == ';', "schema-syntax", line + " in:\n" + text);
      r.top = line.substr(c + 3, line.size() - c - 4);
      check_type(r.top, check_type);
    } else {
      en::Violation("schema-syntax", line + " in:\n" + text);
    }
  }
  return r;
}

// Returns whether `v` is described by type `t`. Empty arrays are documented as ignored.
bool Describes(const Structs& s, const string& t, const J& v, string& why) {
  if (v.EmptyArray()) return true;
  auto starts = [&](const string& p) { return t.compare(0, p.size(), p) == 0; };
  if (starts("Optional<")) return v.k == J::Null || Describes(s, t.substr(9, t.size() - 10), v, why);
  bool ok;
  if (starts("std::vector<")) {
    ok = v.k == J::Arr;
    if (ok) {
      for (const auto& e : v.elements)
        if (!Describes(s, t.substr(12, t.size() - 13), e, why)) return false;
    }
  } else if (t == "std::string") {
    ok = v.k == J::Str;
  } else if (t == "bool") {
    ok = v.k == J::Bool;
  } else if (t == "double") {
    ok = v.k == J::Num;
  } else if (t == "int64_t" || t == "std::chrono::microseconds") {
    ok = v.k == J::Num && v.text.find('.') == string::npos;
  } else if (t == "uint64_t") {
    ok = v.k == J::Num && v.text.find('.') == string::npos && v.text[0] != '-';
  } else {
    ok = v.k == J::Obj;
    if (ok) {
      for (const auto& f : s.s.at(t)) {
        const J* x = nullptr;
        for (const auto& m : v.members)
          if (m.first == f.first) x = &m.second;
        if (!x) {
          if (f.second.compare(0, 9, "Optional<") != 0) {
            why = "no field " + f.first + " in " + v.Text();
            return false;
          }
        } else if (!Describes(s, f.second, *x, why)) {
          return false;
        }
      }
      for (const auto& m : v.members) {  // A field which carries information is part of the schema.
        bool found = false;
        for (const auto& f : s.s.at(t)) found |= f.first == m.first;
        std::function<bool(const J&)> nothing = [&](const J& j) {
          if (j.k == J::Null) return true;
          if (j.k != J::Arr) return false;
          for (const auto& e : j.elements)
            if (!nothing(e)) return false;
          return true;
        };
        if (!found && !nothing(m.second)) {
          why = "field " + m.first + " of " + v.Text() + " is not in the schema";
          return false;
        }
      }
    }
  }
  if (!ok) why = v.Text() + " is not " + t;
  return ok;
}

// The type that has to be inferred; empty if the samples tell nothing.
string WantType(const Place& p, const Structs& s, const string& actual);
bool SameStruct(const Place& p, const Structs& s, const string& name) {
  if (!s.s.count(name)) return false;
  std::map<string, string> fields(s.s.at(name).begin(), s.s.at(name).end());
  if (fields.size() != s.s.at(name).size()) return false;
  for (const auto& f : p.fields) {
    const string actual = fields.count(f.first) ? fields[f.first] : "";
    if (WantType(f.second, s, actual) != actual) return false;
  }
  for (const auto& f : fields)
    if (!p.fields.count(f.first)) return false;
  return true;
}
string Inner(const string& t, const string& wrap) {
  return t.compare(0, wrap.size(), wrap) == 0 && t.size() > wrap.size() ? t.substr(wrap.size(), t.size() - wrap.size() - 1) : "?";
}
string WantType(const Place& p, const Structs& s, const string& actual) {
  if (!p.Kinds()) return "";
  const string a = p.unset ? Inner(actual, "Optional<") : actual;
  string r;
  if (p.counts[J::Str]) r = "std::string";
  else if (p.counts[J::Bool]) r = "bool";
  else if (p.counts[J::Num]) r = !p.all_integer ? "double" : p.all_microseconds ? "std::chrono::microseconds" : p.all_nonnegative ? "uint64_t" : "int64_t";
  else if (p.counts[J::Arr]) {
    const string inner = WantType(*p.element, s, Inner(a, "std::vector<"));
    if (inner.empty()) return "";
    r = "std::vector<" + inner + ">";
  } else r = SameStruct(p, s, a) ? a : "!";
  return p.unset ? "Optional<" + r + ">" : r;
}

void DescribeCounts(const Place& p, const string& path, std::map<string, std::pair<string, string>>& out) {
  static const char* names[] = {"Null", "Bool", "?", "String", "Array", "Object"};
  if (!p.Kinds()) {
    out[path] = {"Null", ""};
    return;
  }
  size_t set = 0;
  string name;
  for (int k = 1; k < 6; ++k) {
    set += p.counts[k];
    if (p.counts[k]) name = k == J::Num ? (p.all_integer ? "Integer" : "Double") : names[k];
  }
  out[path] = {name, std::to_string(set) + (p.unset ? "\tsome unset" : "\t0")};
  for (const auto& f : p.fields) DescribeCounts(f.second, path + "." + f.first, out);
  if (p.element) DescribeCounts(*p.element, path + "[]", out);
}

void CheckInference(const std::vector<J>& samples) {
  string file, all;
  for (const auto& j : samples) file += j.Text() + "\n";
  en::Note(file);
  const string fn = en::TmpDir() + "/samples.json";
  WriteFile(fn, file);
  Place place;
  std::vector<const J*> pointers;
  bool empty_arrays = false;
  for (const auto& j : samples) {
    pointers.push_back(&j);
    empty_arrays |= OnlyEmptyArrays(j);
  }
  Collect(place, pointers);
  string text, counts;
  try {
    text = current::utils::JSONSchemaAsCurrentStructs(fn);
  } catch (const current::utils::InferSchemaIncompatibleTypesBase&) {
    Sure(place.Conflict(), "inference-rejects", "compatible samples are rejected as incompatible");
    return;
  } catch (const current::utils::InferSchemaInputException&) {
    Sure(empty_arrays || WantType(place, Structs(), "?").empty(), "inference-rejects", "the samples are rejected");
    return;
  }
  Sure(!empty_arrays, "inference-accepts-empty", "arrays of nothing are accepted:\n" + text);
  Sure(!place.Conflict(), "inference-accepts-conflict", "incompatible samples are accepted:\n" + text);
  const Structs s = ParseSchemaText(text);
  for (const auto& j : samples) {
    string why;
    Sure(Describes(s, s.top, j, why), "inference-unsound", "sample " + j.Text() + " is not described: " + why + " by:\n" + text);
  }
  Sure(s.top == WantType(place, s, s.top), "inference-imprecise", "got:\n" + text);
  const string described = current::utils::DescribeSchema(fn);
  std::map<string, std::pair<string, string>> want, got;
  DescribeCounts(place, "Schema", want);
  std::istringstream is(described);
  string line;
  std::getline(is, line);
  while (std::getline(is, line)) {
    std::vector<string> f(1);
    for (char c : line) {
      if (c == '\t') f.emplace_back(); else f.back() += c;
    }
    Sure(f.size() >= 3 && !got.count(f[0]), "described-syntax", described);
    // Only whether there are unset values: how many of them is frozen by the golden files to a number which depends on
    // the order of samples.
    got[f[0]] = {f[1], f[1] == "Null" ? "" : f[2] + (f.at(3) == "0" ? "\t0" : "\tsome unset")};
  }
  if (got != want) {
    string w;
    for (const auto& e : want) w += "\n" + e.first + "\t" + e.second.first + "\t" + e.second.second;
    en::Violation("described-counts", "described as:\n" + described + "want:" + w);
  }
}

EN_SCENARIO(infer_leaves) {
  std::vector<J> samples;
  const int n = 1 + en::Choose(static_cast<int>(en::Param("infer_samples", 3)));
  for (int i = 0; i < n; ++i) {
    int one = 1;
    J leaf = GenValue(one, 0, {}, true);
    samples.push_back(leaf);
  }
  switch (en::Choose(4)) {
    case 0: break;
    case 1:
      for (auto& j : samples) { J o; o.k = J::Obj; o.members.emplace_back("a", j); j = o; }
      break;
    case 2:
      for (auto& j : samples) { J o; o.k = J::Arr; o.elements.push_back(j); j = o; }
      break;
    case 3: {
      J o; o.k = J::Arr; o.elements = samples; samples = {o};
      break;
    }
  }
  CheckInference(samples);
}

EN_SCENARIO(infer_trees) {
  std::vector<J> samples;
  int budget = static_cast<int>(en::Param("infer_nodes", 5));
  const int max_samples = static_cast<int>(en::Param("infer_samples", 3));
  do {
    samples.push_back(GenValue(budget, 3, {"a", "b"}, false));
  } while (static_cast<int>(samples.size()) < max_samples && budget > 0 && en::Flip());
  CheckInference(samples);
}

EN_SCENARIO(infer_objects) {  // Every way two fields can be set, null, missing or empty in a few samples, at a depth.
  const int n = 1 + en::Choose(static_cast<int>(en::Param("infer_objects", 3)));
  std::vector<J> samples;
  static const std::vector<std::pair<J::K, string>> v = {{J::Num, "1"}, {J::Null, ""}, {J::Arr, ""}};
  for (int i = 0; i < n; ++i) {
    J o;
    o.k = J::Obj;
    for (const char* name : {"a", "b"}) {
      const int c = en::Choose(4);
      if (c < 3) {
        J x;
        x.k = v[c].first;
        x.text = v[c].second;
        o.members.emplace_back(name, x);
      }
    }
    samples.push_back(o);
  }
  const int wrap = en::Choose(3);
  if (wrap == 1) {
    J a;
    a.k = J::Arr;
    a.elements = samples;
    samples = {a};
  } else if (wrap == 2) {
    for (auto& j : samples) {
      J o;
      o.k = J::Obj;
      o.members.emplace_back("z", j);
      j = o;
    }
  }
  CheckInference(samples);
}

EN_SCENARIO(infer_names) {  // Names of the generated structures do not clash.
  static const std::vector<string> keys = {"a", "b", "a_b", "a_Element", "_Element", "b_Element", "_b", "Object"};
  J root;
  root.k = J::Obj;
  std::set<string> used;
  const int n = 1 + en::Choose(static_cast<int>(en::Param("infer_names", 2)));
  for (int i = 0; i < n; ++i) {
    const string k = en::Pick(keys);
    if (!used.insert(k).second) en::Skip();
    J inner, leaf;
    leaf.k = J::Num;
    leaf.text = std::to_string(i);
    inner.k = J::Obj;
    switch (en::Choose(4)) {
      case 0:
        inner.members.emplace_back("x" + std::to_string(i), leaf);
        break;
      case 1: {
        J e;
        e.k = J::Obj;
        e.members.emplace_back("x" + std::to_string(i), leaf);
        inner.k = J::Arr;
        inner.elements.push_back(e);
        break;
      }
      default: {
        J e;
        e.k = J::Obj;
        e.members.emplace_back("x" + std::to_string(i), leaf);
        inner.members.emplace_back(en::Flip() ? "b" : "Element", e);
        break;
      }
    }
    root.members.emplace_back(k, inner);
  }
  CheckInference({root});
}

EN_SCENARIO(infer_invalid) {
  static const std::vector<string> files = {"{", "{}\nx\n", "{\"a-b\":1}", "{\"\":1}", "{\"1\":1}", "{\"null\":1}", "[1,]", "{\"a\":1,}", "\n", "{} {}"};
  const string fn = en::TmpDir() + "/bad.json";
  const string& f = en::Pick(files);
  WriteFile(fn, f);
  bool thrown = false;
  try {
    current::utils::JSONSchemaAsCurrentStructs(fn);
  } catch (const current::utils::InferSchemaException&) {
    thrown = true;
  }
  Sure(thrown, "inference-accepts-invalid", Show(f) + " is accepted");
}

// ---- Operational transformations ----

struct Op {
  string json;
  std::vector<string> insert;  // code points
  long retain = 0;             // negative: delete
  bool invalid = false;
};
struct Snapshots {
  struct S { int64_t us; std::wstring text; };
  std::vector<S>* out;
  int stop_after;
  bool ProcessSnapshot(std::chrono::microseconds us, const std::deque<wchar_t>& rope) {
    out->push_back({us.count(), std::wstring(rope.begin(), rope.end())});
    return static_cast<int>(out->size()) != stop_after;
  }
  std::pair<string, bool> GenerateOutput(const std::deque<wchar_t>& rope, bool early) { return {current::utils::ot::AsUTF8String(rope), early}; }
};

string Flat(const std::vector<string>& v) {
  string r;
  for (const auto& s : v) r += s;
  return r;
}

void CheckOT(const std::vector<std::pair<int, std::vector<Op>>>& history) {
  string json = "{";
  std::vector<string> text;
  std::vector<std::pair<int64_t, string>> want;
  bool bad = false;
  for (size_t i = 0; i < history.size(); ++i) {
    json += string(i ? "," : "") + "\"A" + std::to_string(i) + "\":{\"t\":" + std::to_string(history[i].first) + ",\"o\":[";
    size_t caret = 0;
    bool first = true;
    for (const auto& op : history[i].second) {
      json += (first ? "" : ",") + op.json;
      first = false;
      if (bad) continue;
      if (op.invalid) { bad = true; continue; }
      if (!op.insert.empty()) {
        text.insert(text.begin() + caret, op.insert.begin(), op.insert.end());
        caret += op.insert.size();
      } else if (op.retain > 0) {
        if (static_cast<size_t>(op.retain) > text.size() - caret) bad = true; else caret += op.retain;
      } else if (op.retain < 0) {
        if (static_cast<size_t>(-op.retain) > text.size() - caret) bad = true; else text.erase(text.begin() + caret, text.begin() + caret - op.retain);
      }
    }
    json += "]}";
    if (!bad) want.emplace_back(static_cast<int64_t>(history[i].first) * 1000, Flat(text));
  }
  json += "}";
  string got;
  bool thrown = false;
  try {
    got = current::utils::ot::OT(json);
  } catch (const current::utils::ot::OTParseException&) {
    thrown = true;
  }
  Sure(thrown == bad, bad ? "ot-accepts-invalid" : "ot-rejects", json + (bad ? " is accepted" : " is rejected"));
  if (!bad && got != Flat(text)) en::Violation("ot-text", json + " gives " + Show(got) + ", want " + Show(Flat(text)));
  for (int stop = 0; stop <= static_cast<int>(history.size()); ++stop) {
    std::vector<Snapshots::S> snapshots;
    std::pair<string, bool> r;
    try {
      r = current::utils::ot::OT(json, Snapshots{&snapshots, stop});
    } catch (const current::utils::ot::OTParseException&) {
      Sure(bad, "ot-rejects", json + " is rejected");
      continue;
    }
    const size_t n = stop ? std::min<size_t>(stop, want.size()) : want.size();
    bool same = snapshots.size() == n;
    for (size_t i = 0; same && i < n; ++i) same = snapshots[i].us == want[i].first && current::utils::ot::AsUTF8String(std::deque<wchar_t>(snapshots[i].text.begin(), snapshots[i].text.end())) == want[i].second;
    if (!same) en::Violation("ot-snapshots", json + ": wrong snapshots");
    const bool early = stop != 0 && static_cast<size_t>(stop) == n;
    if (r.second != early || r.first != (n ? want[n - 1].second : "")) en::Violation("ot-snapshots", json + ": wrong final output");
  }
}

const std::vector<Op> ops = {{"\"a\"", {"a"}}, {"\"\\u00e9b\"", {"\xc3\xa9", "b"}}, {"1", {}, 1}, {"2", {}, 2}, {"-1", {}, -1}, {"-2", {}, -2}, {"\"\"", {}, 0}, {"\"\\ud83d\\ude00\"", {"\xf0\x9f\x98\x80"}}, {"\"\\u0000\"", {string("\0", 1)}}};
const std::vector<Op> bad_ops = {{"1.5", {}, 0, true}, {"3000000000", {}, 3000000000l, true}, {"-3000000000", {}, 0, true}, {"2147483647", {}, 2147483647l}, {"-2147483648", {}, -2147483648l}, {"18446744073709551615", {}, 0, true}, {"null", {}, 0, true}, {"true", {}, 0, true}, {"[]", {}, 0, true}, {"{}", {}, 0, true}, {"1e400", {}, 0, true}, {"-0.5", {}, 0, true}, {"\"\xff\"", {}, 0, true}, {"\"\xc3\"", {}, 0, true}, {"\"\\ud83d\"", {}, 0, true}};

EN_SCENARIO(ot_histories) {
  const int revisions = 1 + en::Choose(2);
  std::vector<std::pair<int, std::vector<Op>>> h;
  for (int i = 0; i < revisions; ++i) {
    std::vector<Op> l;
    const int n = en::Choose(static_cast<int>(en::Param("ot_ops", 2)) + (revisions == 1 ? 2 : 1));
    for (int k = 0; k < n; ++k) l.push_back(en::Pick(ops));
    h.emplace_back(100 + i, l);
  }
  CheckOT(h);
}

EN_SCENARIO(ot_edits) {  // A text, then edits over it.
  const int n = en::Choose(static_cast<int>(en::Param("ot_edits", 4)) + 1);
  std::vector<Op> l;
  for (int k = 0; k < n; ++k) l.push_back(ops[en::Choose(6)]);
  CheckOT({{1, {{"\"x\\u044fz\"", {"x", "\xd1\x8f", "z"}}}}, {0, l}, {2000000000, {{"1", {}, 1}, {"\"!\"", {"!"}}}}});
}

EN_SCENARIO(ot_bad_elements) {
  std::vector<Op> l;
  const int before = en::Choose(2);
  if (before) l.push_back(en::Pick(ops));
  l.push_back(en::Pick(bad_ops));
  if (en::Flip()) l.push_back(en::Pick(ops));
  CheckOT({{1, {{"\"xyz\"", {"x", "y", "z"}}}}, {2, l}});
}

EN_SCENARIO(ot_malformed) {
  static const std::vector<string> bad = {"", "x", "[]", "null", "1", "{", "{\"A\":1}", "{\"A\":{}}", "{\"A\":{\"t\":1}}", "{\"A\":{\"o\":[]}}", "{\"A\":{\"t\":\"1\",\"o\":[]}}", "{\"A\":{\"t\":1.5,\"o\":[]}}", "{\"A\":{\"t\":-1,\"o\":[]}}", "{\"A\":{\"t\":1,\"o\":{}}}", "{\"A\":{\"t\":1,\"o\":1}}", "{\"A\":{\"t\":1,\"o\":[]},\"B\":[]}", "{\"A\":{\"t\":1,\"o\":[]}", "{\"A\":{\"t\":null,\"o\":[]}}"};
  const string& s = en::Pick(bad);
  bool thrown = false;
  try {
    current::utils::ot::OT(s);
  } catch (const current::utils::ot::OTParseException&) {
    thrown = true;
  }
  Sure(thrown, "ot-accepts-invalid", s + " is accepted");
  Sure(current::utils::ot::OT("{}") == "" && current::utils::ot::OT("{\"A\":{\"t\":1,\"o\":[]}}") == "", "ot-text", "the empty history");
}

}  // namespace
