// C36: documents the code composes denote exactly what they were composed of: the universal JSON value, graphs in the
// DOT language, Nginx configs, and HTML. Every small document, read back by independent parsers written here.
#include "blocks/html/html.h"
#include "blocks/json/json.h"
#include "bricks/dot/graphviz.h"
#include "utils/nginx/config.h"

#include <cmath>
#include <condition_variable>
#include <map>
#include <thread>

#include "enum.h"

using std::string;
namespace j = current::json;

namespace {
void Sure(bool b, const char* sig, const string& on) {
  if (!b) en::Violation(sig, on);
}

// ---- JSON: the model. ----
struct M {
  char kind = 'n';  // (n)ull, (t)rue, (f)alse, (d)ouble, (s)tring, (a)rray, (o)bject.
  double d = 0;
  string s;
  std::vector<M> v;
  std::vector<string> keys;
  bool operator==(const M& r) const {
    return kind == r.kind && (kind != 'd' || d == r.d) && (kind != 's' || s == r.s) && v == r.v && keys == r.keys;
  }
};

string Quote(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32) { snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + '"';
}

// An independent reader of JSON.
struct Reader {
  const string& t;
  size_t i = 0;
  bool ok = true;
  explicit Reader(const string& t) : t(t) {}
  char Peek() { return i < t.size() ? t[i] : 0; }
  bool Eat(const string& w) {
    if (t.compare(i, w.size(), w)) return ok = false;
    i += w.size();
    return true;
  }
  string Str() {
    string r;
    if (!Eat("\"")) return r;
    while (ok && i < t.size() && t[i] != '"') {
      if (t[i] != '\\') { r += t[i++]; continue; }
      ++i;
      const char c = Peek();
      ++i;
      switch (c) {
        case 'n': r += '\n'; break;
        case 't': r += '\t'; break;
        case 'r': r += '\r'; break;
        case 'b': r += '\b'; break;
        case 'f': r += '\f'; break;
        case 'u': {
          if (i + 4 > t.size()) { ok = false; break; }
          const int u = static_cast<int>(std::strtol(t.substr(i, 4).c_str(), nullptr, 16));
          i += 4;
          if (u < 128) r += static_cast<char>(u); else ok = false;
          break;
        }
        case '"': case '\\': case '/': r += c; break;
        default: ok = false;
      }
    }
    Eat("\"");
    return r;
  }
  M Value() {
    M m;
    const char c = Peek();
    if (c == '"') { m.kind = 's'; m.s = Str(); }
    else if (c == '{') {
      m.kind = 'o';
      ++i;
      while (ok && Peek() != '}') {
        if (!m.v.empty()) Eat(",");
        m.keys.push_back(Str());
        Eat(":");
        if (ok) m.v.push_back(Value());
      }
      Eat("}");
    } else if (c == '[') {
      m.kind = 'a';
      ++i;
      while (ok && Peek() != ']') {
        if (!m.v.empty()) Eat(",");
        if (ok) m.v.push_back(Value());
      }
      Eat("]");
    } else if (c == 'n') { m.kind = 'n'; Eat("null"); }
    else if (c == 't') { m.kind = 't'; Eat("true"); }
    else if (c == 'f') { m.kind = 'f'; Eat("false"); }
    else {
      m.kind = 'd';
      size_t e = i;
      while (e < t.size() && strchr("+-.0123456789eE", t[e])) ++e;
      const string n = t.substr(i, e - i);
      char* end = nullptr;
      m.d = std::strtod(n.c_str(), &end);
      if (n.empty() || *end) ok = false;
      i = e;
    }
    return m;
  }
  M All() {
    M m = Value();
    if (i != t.size()) ok = false;
    return m;
  }
};

const std::vector<string>& Strings() {
  static const std::vector<string> v = {"a", "", "\"\\/", string("\0\n\x1f", 3), "\xd0\x96", "bb"};
  return v;
}
const std::vector<std::pair<string, double>>& Numbers() {
  static const std::vector<std::pair<string, double>> v = {
      {"0", 0}, {"-1", -1}, {"1.5", 1.5}, {"9007199254740992", 9007199254740992.0}, {"18446744073709551615", 18446744073709551616.0},
      {"-9223372036854775808", -9223372036854775808.0}, {"1e300", 1e300}, {"-1e300", -1e300}, {"1e-7", 1e-7}, {"-0.25", -0.25},
      {"1e19", 1e19}, {"-1e19", -1e19}, {"0.1", 0.1}, {"123456.789012", 123456.789012}};
  return v;
}

// A value of at most `budget` nodes, as the model, as a text, and as built by hand.
M AnyValue(int& budget, int depth, string& text) {
  M m;
  --budget;
  const int kind = en::Choose(budget > 0 && depth > 0 ? 7 : 5);
  switch (kind) {
    case 0: m.kind = 'n'; text += "null"; break;
    case 1: m.kind = 't'; text += "true"; break;
    case 2: m.kind = 'f'; text += "false"; break;
    case 3: {
      const auto& n = Numbers()[depth > 1 ? en::Choose(static_cast<int>(Numbers().size())) : 2];
      m.kind = 'd';
      m.d = n.second;
      text += n.first;
      break;
    }
    case 4:
      m.kind = 's';
      m.s = Strings()[depth > 1 ? en::Choose(static_cast<int>(Strings().size())) : 2];
      text += Quote(m.s);
      break;
    case 5:
    case 6: {
      m.kind = kind == 5 ? 'a' : 'o';
      text += kind == 5 ? '[' : '{';
      const int n = en::Choose(budget + 1);
      budget -= n;
      for (int i = 0; i < n; ++i) {
        ++budget;
        if (i) text += ',';
        string key;
        if (kind == 6) {
          key = Strings()[en::Choose(3)];
          text += Quote(key) + ":";
        }
        M x = AnyValue(budget, depth - 1, text);
        if (kind == 6) {
          for (size_t k = 0; k < m.keys.size(); ++k)
            if (m.keys[k] == key) {  // Given anew: the last value is the one, as per `push_back`.
              m.keys.erase(m.keys.begin() + k);
              m.v.erase(m.v.begin() + k);
              break;
            }
          m.keys.push_back(key);
        }
        m.v.push_back(x);
      }
      text += kind == 5 ? ']' : '}';
      break;
    }
  }
  return m;
}
j::JSONValue Build(const M& m) {
  switch (m.kind) {
    case 't': return j::JSONBoolean(true);
    case 'f': return j::JSONBoolean(false);
    case 'd': return j::JSONNumber(m.d);
    case 's': return j::JSONString(m.s);
    case 'a': {
      j::JSONArray a;
      for (const auto& e : m.v) a.push_back(Build(e));
      return a;
    }
    case 'o': {
      j::JSONObject o;
      for (size_t i = 0; i < m.v.size(); ++i) o.push_back(m.keys[i], Build(m.v[i]));
      return o;
    }
    default: return j::JSONNull();
  }
}
// What the value says of itself.
M Read(const j::JSONValue& v) {
  M m;
  if (Exists<j::JSONNull>(v)) m.kind = 'n';
  else if (Exists<j::JSONBoolean>(v)) m.kind = Value<j::JSONBoolean>(v) ? 't' : 'f';
  else if (Exists<j::JSONNumber>(v)) { m.kind = 'd'; m.d = Value<j::JSONNumber>(v); }
  else if (Exists<j::JSONString>(v)) { m.kind = 's'; m.s = static_cast<string>(Value<j::JSONString>(v)); }
  else if (Exists<j::JSONArray>(v)) {
    m.kind = 'a';
    const auto& a = Value<j::JSONArray>(v);
    for (const auto& e : a) m.v.push_back(Read(e));
    Sure(a.size() == m.v.size() && a.empty() == m.v.empty(), "array-size", "");
    for (size_t i = 0; i < a.size(); ++i) Sure(Read(a[i]) == m.v[i], "array-at", "");
    Sure(Exists<j::JSONNull>(a[a.size()]), "array-beyond", "");
  } else {
    m.kind = 'o';
    const auto& o = Value<j::JSONObject>(v);
    for (const auto& e : o) { m.keys.push_back(e.key); m.v.push_back(Read(e.value)); }
    Sure(o.size() == m.v.size() && o.empty() == m.v.empty(), "object-size", std::to_string(o.size()));
    for (size_t i = 0; i < m.keys.size(); ++i) Sure(o.HasKey(m.keys[i]) && Read(o[m.keys[i]]) == m.v[i], "object-at", m.keys[i]);
    Sure(!o.HasKey("none") && Exists<j::JSONNull>(o["none"]), "object-beyond", "");
  }
  return m;
}
}  // namespace

EN_SCENARIO(universal_json) {
  int budget = static_cast<int>(en::Param("json_nodes", 4));
  string text;
  const M m = AnyValue(budget, 3, text);
  en::Note(text);
  try {
    const auto parsed = j::ParseJSONUniversally(text);
    Sure(Read(parsed) == m, "parsed", j::AsJSON(parsed));
    const auto built = Build(m);
    Sure(Read(built) == m, "built", j::AsJSON(built));
    for (const auto& v : {parsed, built}) {
      const string out = j::AsJSON(v);
      Reader r(out);
      const M back = r.All();
      Sure(r.ok, "composed-malformed", out);
      Sure(back == m, "composed", out);
      Sure(j::AsJSON(j::ParseJSONUniversally(out)) == out, "composed-again", out);
    }
  } catch (const current::Exception& e) {
    en::Violation("json-throws", string(e.what()) + " on " + text);
  }
}

EN_SCENARIO(malformed_json) {
  static const std::vector<string> pieces = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", " ", "tru", "\""};
  const int n = en::Choose(static_cast<int>(en::Param("json_pieces", 5)) + 1);
  string text, squeezed;
  for (int i = 0; i < n; ++i) {
    const string& p = pieces[en::Choose(static_cast<int>(pieces.size()))];
    text += p;
  }
  // The reader above knows no spaces.
  bool in_string = false;
  for (char c : text) {
    if (c == '"') in_string = !in_string;
    if (c != ' ' || in_string) squeezed += c;
    else squeezed += '\x01';
  }
  string stripped;
  for (size_t i = 0; i < squeezed.size(); ++i) {
    if (squeezed[i] != '\x01') { stripped += squeezed[i]; continue; }
    // A space within a number separates two tokens: never valid here, as two values never follow one another.
    if (i && i + 1 < squeezed.size() && isdigit(squeezed[i - 1])) {
      size_t k = i;
      while (k < squeezed.size() && squeezed[k] == '\x01') ++k;
      if (k < squeezed.size() && isdigit(squeezed[k])) stripped += '?';
    }
  }
  Reader r(stripped);
  const M m = r.All();
  bool valid = r.ok && !stripped.empty();
  // Leading zeros are not possible with these pieces; a lone comma before `]` or `}` is what the reader must refuse.
  bool parsed = true;
  M got;
  try {
    got = Read(j::ParseJSONUniversally(text));
  } catch (const current::Exception&) {
    parsed = false;
  }
  en::Note(text);
  Sure(parsed == valid, parsed ? "accepted-malformed" : "refused-valid", text);
  static_cast<void>(m);
}

EN_SCENARIO(json_object_edits) {
  const int n = en::Choose(static_cast<int>(en::Param("object_edits", 4)) + 1);
  j::JSONObject o;
  std::vector<std::pair<string, int>> model;
  for (int i = 0; i < n; ++i) {
    const string key = Strings()[en::Choose(3)];
    const bool erase = en::Flip();
    const auto it = std::find_if(model.begin(), model.end(), [&](const std::pair<string, int>& e) { return e.first == key; });
    if (it != model.end()) model.erase(it);
    if (erase) {
      o.erase(key);
    } else {
      o.push_back(key, j::JSONNumber(i));
      model.emplace_back(key, i);
    }
    en::Note((erase ? "-" : "+") + key + " ");
    const M got = Read(o);
    string expected = "{";
    Sure(got.keys.size() == model.size(), "edit-size", j::AsJSON(o));
    for (size_t k = 0; k < model.size(); ++k) {
      Sure(got.keys[k] == model[k].first && got.v[k].d == model[k].second, "edit", j::AsJSON(o));
      expected += (k ? "," : "") + Quote(model[k].first) + ":" + std::to_string(model[k].second);
    }
    Sure(j::AsJSON(o) == expected + "}", "edit-json", j::AsJSON(o));
    en::State(expected);
    en::Transition();
  }
}

// ---- DOT ----
namespace {
struct Dot {
  bool ok = true, directed = false;
  string title, error;
  std::map<string, string> params;
  std::vector<std::pair<string, std::map<string, string>>> nodes;  // In the order of declaration.
  std::vector<std::pair<string, string>> edges;
  struct Cluster {
    string id;
    std::vector<string> nodes;
    std::map<string, string> params, graph;
  };
  std::vector<Cluster> clusters;
};
struct DotReader {
  const string& t;
  size_t i = 0;
  Dot d;
  std::vector<std::pair<char, string>> tokens;  // (i)d, (q)uoted, (h)tml, (p)unctuation.
  explicit DotReader(const string& t) : t(t) {
    while (i < t.size()) {
      if (isspace(t[i])) { ++i; continue; }
      if (isalnum(t[i]) || t[i] == '_') {
        string s;
        while (i < t.size() && (isalnum(t[i]) || t[i] == '_')) s += t[i++];
        tokens.emplace_back('i', s);
      } else if (t[i] == '"') {
        string s;
        ++i;
        while (i < t.size() && t[i] != '"') {
          if (t[i] == '\\') ++i;
          s += t[i++];
        }
        ++i;
        tokens.emplace_back('q', s);
      } else if (t[i] == '<') {
        string s;
        int depth = 0;
        do {
          if (t[i] == '<') ++depth;
          if (t[i] == '>') --depth;
          s += t[i++];
        } while (depth && i < t.size());
        tokens.emplace_back('h', s.substr(1, s.size() - 2));
      } else if (t[i] == '-') {
        tokens.emplace_back('p', t.substr(i, 2));
        i += 2;
      } else {
        tokens.emplace_back('p', string(1, t[i++]));
      }
    }
    i = 0;
    tokens.emplace_back('e', "");
  }
  const std::pair<char, string>& T() { return tokens[std::min(i, tokens.size() - 1)]; }
  void Eat(const string& p) {
    if (T().second != p || (T().first != 'p' && T().first != 'i')) { d.ok = false; d.error += "expected " + p + " got " + T().second + "; "; i = tokens.size(); }
    else ++i;
  }
  string Val() {
    const string s = (T().first == 'h' ? "<>" : "") + T().second;
    if (T().first != 'q' && T().first != 'h') d.ok = false;
    ++i;
    return s;
  }
  void Attrs(std::map<string, string>& m) {
    Eat("[");
    while (d.ok && T().second != "]") {
      const string k = T().second;
      ++i;
      Eat("=");
      if (m.count(k)) d.ok = false;
      m[k] = Val();
    }
    Eat("]");
  }
  Dot Read() {
    d.directed = T().second == "digraph";
    if (!d.directed && T().second != "graph") d.ok = false;
    ++i;
    if (T().first == 'q') { d.title = T().second; ++i; }
    Eat("{");
    while (d.ok && T().second != "}") {
      const string id = T().second;
      if (T().first != 'i') d.ok = false;
      ++i;
      if (id == "subgraph") {
        Dot::Cluster c;
        c.id = T().second;
        ++i;
        Eat("{");
        while (d.ok && T().second != "}") {
          const string x = T().second;
          ++i;
          if (x == "graph") Attrs(c.graph);
          else if (T().second == "=") { ++i; c.params[x] = Val(); }
          else c.nodes.push_back(x);
          Eat(";");
        }
        Eat("}");
        d.clusters.push_back(c);
        continue;
      }
      if (T().second == "=") { ++i; d.params[id] = Val(); }
      else if (T().second == "[") { d.nodes.emplace_back(id, std::map<string, string>()); Attrs(d.nodes.back().second); }
      else if (T().second == "->" || T().second == "--") {
        if ((T().second == "->") != d.directed) d.ok = false;
        ++i;
        d.edges.emplace_back(id, T().second);
        ++i;
      } else d.ok = false;
      Eat(";");
    }
    Eat("}");
    if (T().first != 'e') d.ok = false;
    return d;
  }
};
const std::vector<string>& Labels() {
  static const std::vector<string> v = {"a", "", "\"", "\\", "x\"];\ny\\"};
  return v;
}
string Show(const std::map<string, string>& m) {
  string r;
  for (const auto& e : m) r += e.first + "=" + e.second + " ";
  return r;
}

template <class G>
void DotCase(bool directed) {
  namespace gv = current::graphviz;
  const int n = en::Choose(static_cast<int>(en::Param("dot_nodes", 3)) + 1);
  G g;
  std::vector<gv::Node> nodes;
  std::vector<std::map<string, string>> want_nodes;
  string title;
  if (en::Flip()) { title = Labels()[4]; g.Title(title); }
  std::map<string, string> want_params;
  if (en::Flip()) { g.RankDirLR(); want_params["rankdir"] = "LR"; g["empty"] = nullptr; }
  for (int i = 0; i < n; ++i) {
    const string label = i == 0 || en::Thorough() ? Labels()[en::Choose(static_cast<int>(Labels().size()))] : Labels()[4 - i];
    gv::Node x(label);
    std::map<string, string> w;
    w["label"] = label;
    const int form = en::Choose(i == 0 ? 3 : 1);
    if (form == 1) { x.Shape("box").Set("x", Labels()[3]); w["shape"] = "box"; w["x"] = Labels()[3]; }
    if (form == 2) { x = gv::Node("<b>" + string("hi") + "</b>"); x.BodyAsHTML(); w["label"] = "<><b>hi</b>"; }
    nodes.push_back(x);
    want_nodes.push_back(w);
  }
  // The order of adding is not the order of making.
  std::vector<int> order;
  for (int i = 0; i < n; ++i) order.push_back(i);
  if (n > 1 && en::Flip()) std::reverse(order.begin(), order.end());
  for (int i : order) g += nodes[i];
  std::vector<std::pair<int, int>> want_edges;
  const int edges = n ? en::Choose(static_cast<int>(en::Param("dot_edges", 2)) + 1) : 0;
  for (int i = 0; i < edges; ++i) {
    const int a = en::Choose(n), b = en::Choose(n);
    g += gv::Edge(nodes[a], nodes[b]);
    want_edges.emplace_back(a, b);
  }
  struct WantGroup { std::vector<int> nodes; std::map<string, string> params, graph; };
  std::vector<WantGroup> want_groups;
  const int groups = en::Choose(3);
  for (int i = 0; i < groups; ++i) {
    gv::Group x;
    WantGroup w;
    const int mask = n ? en::Choose(1 << std::min(n, 2)) : 0;
    for (int k = 0; k < n; ++k)
      if (mask & (1 << k)) { x += nodes[k]; w.nodes.push_back(k); }
    if (i == 0) { x.Label(Labels()[4]).FontSize("12"); w.params["label"] = Labels()[4]; w.params["fontsize"] = "12"; }
    if (i == 1) { x.GraphStyle("dashed").Color(Labels()[2]); w.graph["style"] = "dashed"; w.graph["color"] = Labels()[2]; }
    g += x;
    want_groups.push_back(w);
  }
  const string text = g.AsDOT();
  en::Note(text);
  DotReader reader(text);
  const Dot d = reader.Read();
  Sure(d.ok, "dot-malformed", d.error + text);
  Sure(d.directed == directed && d.title == title && d.params == want_params, "dot-head", text);
  Sure(d.nodes.size() == nodes.size(), "dot-nodes", text);
  std::map<string, int> by_id;
  for (int i = 0; i < n; ++i) {
    Sure(!by_id.count(d.nodes[i].first), "dot-node-twice", text);
    by_id[d.nodes[i].first] = order[i];
    Sure(d.nodes[i].second == want_nodes[order[i]], "dot-node", Show(d.nodes[i].second) + " in " + text);
  }
  Sure(d.edges.size() == want_edges.size(), "dot-edges", text);
  for (size_t i = 0; i < want_edges.size(); ++i)
    Sure(by_id.count(d.edges[i].first) && by_id.count(d.edges[i].second) && by_id[d.edges[i].first] == want_edges[i].first &&
             by_id[d.edges[i].second] == want_edges[i].second, "dot-edge", text);
  Sure(d.clusters.size() == want_groups.size(), "dot-groups", text);
  for (size_t i = 0; i < want_groups.size(); ++i) {
    for (size_t k = 0; k < i; ++k) Sure(d.clusters[i].id != d.clusters[k].id, "dot-group-twice", text);
    Sure(d.clusters[i].id.compare(0, 7, "cluster") == 0, "dot-group-name", text);
    Sure(d.clusters[i].params == want_groups[i].params && d.clusters[i].graph == want_groups[i].graph, "dot-group-params", text);
    std::vector<int> got;
    for (const auto& s : d.clusters[i].nodes) got.push_back(by_id.count(s) ? by_id[s] : -1);
    Sure(got == want_groups[i].nodes, "dot-group", text);
  }
  Sure(g.AsDOT() == text, "dot-again", g.AsDOT());
}
}  // namespace

EN_SCENARIO(dot_graph) { DotCase<current::graphviz::Graph>(false); }
EN_SCENARIO(dot_digraph) { DotCase<current::graphviz::DiGraph>(true); }

// ---- Nginx ----
namespace {
namespace nc = current::nginx::config;
struct N {
  string name, params;
  bool block = false;
  std::vector<N> v;
  bool operator==(const N& r) const { return name == r.name && params == r.params && block == r.block && v == r.v; }
};
// An independent reader, which also holds the layout to account: one directive per line, two spaces per level.
bool ReadNginx(const std::vector<string>& lines, size_t& i, size_t level, std::vector<N>& out) {
  while (i < lines.size()) {
    const string& l = lines[i];
    size_t spaces = 0;
    while (spaces < l.size() && l[spaces] == ' ') ++spaces;
    const string rest = l.substr(spaces);
    if (rest == "}") return level > 0 && spaces == 2 * (level - 1);
    if (spaces != 2 * level || rest.empty()) return false;
    ++i;
    N n;
    string body;
    if (rest.back() == ';') body = rest.substr(0, rest.size() - 1);
    else if (rest.size() > 2 && rest.substr(rest.size() - 2) == " {") { n.block = true; body = rest.substr(0, rest.size() - 2); }
    else return false;
    const size_t sp = body.find(' ');
    n.name = body.substr(0, sp);
    if (sp != string::npos) n.params = body.substr(sp + 1);
    if (n.block) {
      if (!ReadNginx(lines, i, level + 1, n.v)) return false;
      if (i >= lines.size()) return false;
      ++i;  // The closing brace.
    }
    out.push_back(n);
  }
  return level == 0;
}
std::vector<string> Lines(const string& s, bool& ok) {
  std::vector<string> r;
  string l;
  for (char c : s) {
    if (c == '\n') { r.push_back(l); l.clear(); } else l += c;
  }
  ok = l.empty();
  return r;
}
std::vector<N> ReadNginx(const string& s) {
  bool ok = true;
  const auto lines = Lines(s, ok);
  std::vector<N> r;
  size_t i = 0;
  if (!ok || !ReadNginx(lines, i, 0, r) || i != lines.size()) en::Violation("nginx-malformed", s);
  return r;
}
nc::BlockDirective AnyBlock(int& budget, int depth, N& model) {
  static const char* const names[] = {"a", "bb"};
  model.block = true;
  model.name = names[en::Choose(2)];
  model.params = en::Flip() ? "x /y" : "";
  nc::BlockDirective block = model.params.empty() ? nc::BlockDirective(model.name) : nc::BlockDirective(model.name, model.params, {});
  while (budget > 0 && en::Flip()) {
    --budget;
    N sub;
    if (depth > 0 && en::Flip()) {
      auto b = AnyBlock(budget, depth - 1, sub);
      if (en::Flip()) block.Add(b); else block.Create(std::move(b));
    } else {
      sub.name = "listen";
      sub.params = en::Flip() ? "80 default" : "";
      block.Add(nc::SimpleDirective(sub.name, sub.params));
    }
    model.v.push_back(sub);
  }
  return block;
}
N Simple(const string& name, const string& params) {
  N n;
  n.name = name;
  n.params = params;
  return n;
}
}  // namespace

EN_SCENARIO(nginx_blocks) {
  int budget = static_cast<int>(en::Param("nginx_nodes", 4));
  N model;
  const auto block = AnyBlock(budget, 2, model);
  const string text = nc::ConfigPrinter::AsString(block);
  en::Note(text);
  Sure(ReadNginx(text) == std::vector<N>({model}), "nginx-block", text);
  nc::FullConfig config;
  config.Add(nc::SimpleDirective("user", "me")).Add(block);
  N http;
  http.block = true;
  http.name = "http";
  const string full = nc::ConfigPrinter::AsString(config);
  Sure(ReadNginx(full) == std::vector<N>({Simple("user", "me"), model, http}), "nginx-full", full);
}

EN_SCENARIO(nginx_servers) {
  // Servers and their locations, created in any order, with the references to all of them kept.
  const int steps = static_cast<int>(en::Param("nginx_steps", 5));
  nc::FullConfig config;
  N http;
  http.block = true;
  http.name = "http";
  std::vector<nc::ServerDirective*> servers;
  std::vector<uint16_t> ports;
  struct Location { nc::LocationDirective* p; size_t server, index; };
  std::vector<Location> locations;
  const int n = en::Choose(steps + 1);
  for (int i = 0; i < n; ++i) {
    const int what = en::Choose(servers.empty() ? 1 : locations.empty() ? 3 : 4);
    if (what == 0) {
      const uint16_t port = static_cast<uint16_t>(80 + en::Choose(3));
      const bool used = std::find(ports.begin(), ports.end(), port) != ports.end();
      bool thrown = false;
      try {
        servers.push_back(&config.http.CreateServer(port));
      } catch (const current::nginx::PortAlreadyUsedException&) {
        thrown = true;
      }
      Sure(thrown == used, "nginx-port", std::to_string(port));
      if (!used) {
        ports.push_back(port);
        N s;
        s.block = true;
        s.name = "server";
        s.v.push_back(Simple("listen", std::to_string(port)));
        http.v.push_back(s);
      }
    } else if (what == 3) {
      const auto& l = locations[en::Choose(static_cast<int>(locations.size()))];
      l.p->Add(nc::SimpleDirective("more", std::to_string(i)));
      http.v[l.server].v[l.index].v.push_back(Simple("more", std::to_string(i)));
    } else {
      const int s = en::Choose(static_cast<int>(servers.size()));
      N l;
      l.block = true;
      l.name = "location";
      l.params = "/" + std::to_string(i);
      if (what == 1) {
        locations.push_back({&servers[s]->CreateLocation(l.params), static_cast<size_t>(s), http.v[s].v.size()});
      } else {
        const string to = "http://127.0.0.1:" + std::to_string(i);
        locations.push_back({&servers[s]->CreateProxyPassLocation(l.params, to), static_cast<size_t>(s), http.v[s].v.size()});
        l.v = {Simple("proxy_pass", to), Simple("proxy_set_header", "X-Real-IP $remote_addr"),
               Simple("proxy_set_header", "X-Forwarded-For $proxy_add_x_forwarded_for"), Simple("proxy_pass_request_headers", "on")};
      }
      http.v[s].v.push_back(l);
    }
    const string text = nc::ConfigPrinter::AsString(config);
    Sure(ReadNginx(text) == std::vector<N>({http}), "nginx-servers", text);
    en::State(text);
    en::Transition();
  }
  en::Note(nc::ConfigPrinter::AsString(config));
}

// ---- HTML ----
namespace {
struct Oops {};
string g_expected;
int g_budget, g_throw_at, g_at;
void Step() {
  if (++g_at == g_throw_at) throw Oops();
}
struct Close {
  string tag;
  explicit Close(const string& tag) : tag(tag) {}
  ~Close() { g_expected += "</" + tag + ">"; }
};
void Page(int depth) {
  while (g_budget > 0 && en::Flip()) {
    --g_budget;
    Step();
    switch (en::Choose(depth > 0 ? 7 : 3)) {
      case 0: {
        g_expected += "text 1";
        HTML(_) << "text " << 1;
        break;
      }
      case 1: {
        g_expected += "<br>";
        HTML(br);
        break;
      }
      case 2: {
        g_expected += "<input type='submit' value='5'>";
        HTML(input, value(5).type("submit"));
        break;
      }
      case 3: {
        g_expected += "<b>";
        Close c("b");
        HTML(b);
        Page(depth - 1);
        break;
      }
      case 4: {
        g_expected += "<a href='/x'>";
        Close c("a");
        HTML(a, href("/x"));
        Page(depth - 1);
        break;
      }
      case 5: {
        g_expected += "<table border='1'>";
        Close c("table");
        HTML(table, border(1));
        {
          g_expected += "<tr>";
          Close c2("tr");
          HTML(tr);
          {
            g_expected += "<td align='left' colspan='2'>";
            Close c3("td");
            HTML(td, colspan(2).align("left"));
            Page(depth - 1);
          }
        }
        break;
      }
      case 6: {
        bool thrown = false;
        std::ostringstream other;
        try {
          const auto scope = current::html::HTMLGeneratorOStreamScope(other);
        } catch (const current::html::HTMLGenerationIntersectingScopesException&) {
          thrown = true;
        }
        Sure(thrown, "html-scopes-intersect", "");
        break;
      }
    }
    Step();
  }
}
bool NoScope() {
  try {
    HTML(b);
  } catch (const current::html::HTMLGenerationNoActiveScopeException& e) {
    return string(e.tag) == "b";
  }
  return false;
}
}  // namespace

EN_SCENARIO(html_pages) {
  g_expected.clear();
  g_at = 0;
  g_throw_at = en::Choose(4);  // Nothing is thrown, or at this step.
  Sure(NoScope(), "html-no-scope", "before");
  std::ostringstream os;
  try {
    const auto scope = current::html::HTMLGeneratorOStreamScope(os);
    g_budget = static_cast<int>(en::Param("html_nodes", 4));
    Page(2);
  } catch (const Oops&) {
  }
  if (g_throw_at && g_at < g_throw_at) en::Skip();
  en::Note(g_expected);
  Sure(os.str() == g_expected, "html", os.str() + " vs. " + g_expected);
  Sure(NoScope(), "html-no-scope", "after");
}

EN_SCENARIO(html_threads) {
  // The scopes of two threads do not meet, in whatever order they start, output, and end.
  std::ostringstream os1, os2;
  std::unique_ptr<current::html::HTMLGeneratorOStreamScope> mine;
  int n1 = 0, n2 = 0;
  const int steps = 5;
  // One long-lived other thread, commanded step by step.
  std::mutex m;
  std::condition_variable cv;
  int command = -1;
  bool other_has = false;
  string failure;
  std::thread other([&]() {
    std::unique_ptr<current::html::HTMLGeneratorOStreamScope> scope;
    for (;;) {
      std::unique_lock<std::mutex> l(m);
      cv.wait(l, [&]() { return command >= 0; });
      if (command == 3) { scope = nullptr; command = -1; cv.notify_all(); return; }
      if (command == 0) { scope = std::make_unique<current::html::HTMLGeneratorOStreamScope>(os2); other_has = true; }
      if (command == 1) { scope = nullptr; other_has = false; }
      if (command == 2) {
        if (other_has) {
          HTML(b);
          HTML(_) << "y";
        }
        else if (!NoScope()) failure = "the other thread has a scope";
      }
      command = -1;
      cv.notify_all();
    }
  });
  const auto tell = [&](int c) {
    std::unique_lock<std::mutex> l(m);
    command = c;
    cv.notify_all();
    cv.wait(l, [&]() { return command < 0; });
  };
  try {
    for (int i = 0; i < steps; ++i) {
      const int what = en::Choose(4);
      if (what == 0) { if (mine) mine = nullptr; else mine = std::make_unique<current::html::HTMLGeneratorOStreamScope>(os1); }
      if (what == 1) tell(other_has ? 1 : 0);
      if (what == 2) {
        if (mine) {
          ++n1;
          HTML(b);
          HTML(_) << "x";
        }
        else Sure(NoScope(), "html-no-scope", "this thread");
      }
      if (what == 3) { tell(2); if (other_has) ++n2; }
    }
  } catch (...) {
    tell(3);
    other.join();
    throw;
  }
  tell(3);
  other.join();
  mine = nullptr;
  Sure(failure.empty(), "html-no-scope", failure);
  string e1, e2;
  for (int i = 0; i < n1; ++i) e1 += "<b>x</b>";
  for (int i = 0; i < n2; ++i) e2 += "<b>y</b>";
  Sure(os1.str() == e1 && os2.str() == e2, "html-threads", os1.str() + " and " + os2.str());
}
