// C24: URL components, whole URLs, redirects, and objects filled from query parameters, against an independent model of URLs.
#include "blocks/url/url.h"
#include "common/json_model.h"

using current::url::FillObjectMode;

namespace {

int Hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

std::string ModelDecode(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '+') {
      r += ' ';
    } else if (s[i] == '%' && i + 2 < s.size() && Hex(s[i + 1]) >= 0 && Hex(s[i + 2]) >= 0) {
      r += static_cast<char>(Hex(s[i + 1]) * 16 + Hex(s[i + 2]));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

void CheckComponent(const std::string& s) {
  const std::string e = URL::EncodeURIComponent(s);
  for (size_t i = 0; i < e.size(); ++i) {
    const char c = e[i];
    const bool plain = isalnum(static_cast<unsigned char>(c)) || (c && strchr("-_.~!'()*", c));
    const bool escape = c == '%' && i + 2 < e.size() && Hex(e[i + 1]) >= 0 && Hex(e[i + 2]) >= 0;
    if (!plain && !escape) en::Violation("unsafe-encoding", "`" + e + "`");
  }
  EN_CHECK_EQ(ModelDecode(e), s, "encoded-component");
  EN_CHECK_EQ(URL::DecodeURIComponent(e), s, "component-round-trip");
}

const std::vector<std::string>& Specials() {
  static const std::vector<std::string> v = {std::string("\0", 1), "a", "%", "+", " ", "&", "=", "?", "#", "/", ":", "@", "\xc3", "\xff", "4", "\n", "\"", "\x80", "\x7f", "*", "-"};
  return v;
}

struct Parts {
  std::string scheme, user, pass, host;
  int port = 0;
  std::string path = "/";
  std::vector<std::pair<std::string, std::string>> params;
  std::string fragment;
};

const std::vector<std::string> kSchemes = {"http", "", "https", "meh"};
const std::vector<std::pair<std::string, std::string>> kUsers = {{"", ""}, {"u", ""}, {"u", "p"}, {"u.x", "p:q"}};
const std::vector<std::string> kHosts = {"h.name", "127.0.0.1", "h", ""};
const std::vector<int> kPorts = {0, 80, 443, 1, 8080, 65535};
const std::vector<std::string> kPaths = {"/", "/a", "/a/b.c", "/a//b", "/a/", "/a:b", "/x://y/z", "/a@b:1", "/%20+", "/:1", "/@", "/http://other:81/q"};
const std::vector<std::vector<std::pair<std::string, std::string>>> kParams = {
    {},
    {{"a", "b"}},
    {{"a", ""}},
    {{"", "v"}},
    {{"", ""}},
    {{"k", "1"}, {"k", "2"}},
    {{"a&b=c", "x=y&z?#"}, {"url", "http://u:p@h:1/?x#y"}},
    {{"\xd0\xbf", "\xff +%41"}, {std::string("\0", 1), std::string("\0z", 2)}},
};
const std::vector<std::string> kFragments = {"", "f", "f?x=1#y", "/", "a://b:1@/", "%20+"};

std::string DefaultScheme(const std::string& scheme, int port) { return !scheme.empty() ? scheme : port == 443 ? "https" : "http"; }
int DefaultPort(const std::string& scheme) { return scheme == "http" ? 80 : scheme == "https" ? 443 : 0; }

std::map<std::string, std::string> FirstWins(const std::vector<std::pair<std::string, std::string>>& v) {
  std::map<std::string, std::string> m;
  for (const auto& e : v) m.insert(e);
  return m;
}

void CheckParams(const URL& u, const Parts& p) {
  EN_CHECK(u.parameters_vector == p.params, "parameters");
  EN_CHECK(u.AllQueryParameters() == FirstWins(p.params), "parameters-map");
  for (const auto& e : FirstWins(p.params)) {
    EN_CHECK(u.query.has(e.first), "has-parameter");
    EN_CHECK_EQ(u.query[e.first], e.second, "parameter");
    EN_CHECK_EQ(u.query.get(e.first, "dflt"), e.second, "parameter-get");
  }
  EN_CHECK(!u.query.has("absent"), "absent-parameter");
  EN_CHECK_EQ(u.query["absent"], "", "absent-parameter");
  EN_CHECK_EQ(u.query.get("absent", "dflt"), "dflt", "absent-parameter");
}

Parts AnyParts() {
  Parts p;
  p.scheme = en::Pick(kSchemes);
  const auto& up = en::Pick(kUsers);
  p.user = up.first;
  p.pass = up.second;
  p.host = en::Pick(kHosts);
  p.port = en::Pick(kPorts);
  p.path = en::Pick(kPaths);
  p.params = en::Pick(kParams);
  p.fragment = en::Pick(kFragments);
  return p;
}

std::string Encode(const std::string& s) {
  std::string r;
  for (const char c : s) {
    if (isalnum(static_cast<unsigned char>(c))) {
      r += c;
    } else {
      char b[8];
      snprintf(b, sizeof(b), "%%%02x", static_cast<unsigned char>(c));
      r += b;
    }
  }
  return r;
}

std::string TextOfTail(const Parts& p) {
  std::string t;
  for (size_t i = 0; i < p.params.size(); ++i) t += (i ? "&" : "?") + Encode(p.params[i].first) + "=" + Encode(p.params[i].second);
  if (!p.fragment.empty()) t += "#" + p.fragment;
  return t;
}

// A fresh text of the URL, in one of the forms the documentation lists.
std::string TextOf(const Parts& p, bool no_path) {
  std::string t;
  if (!p.scheme.empty()) {
    t = p.scheme + "://";
  } else if (!p.host.empty() && en::Flip()) {
    t = "//";
  }
  if (!p.user.empty()) t += p.user + (p.pass.empty() ? "" : ":" + p.pass) + "@";
  t += p.host;
  if (p.port) t += ":" + std::to_string(p.port);
  if (!no_path) t += p.path;
  return t + TextOfTail(p);
}

}  // namespace

EN_SCENARIO(components) {
  std::string s;
  switch (en::Choose(4)) {
    case 0:
      break;
    case 1:
      s = en::Pick(Specials()) + en::Pick(Specials()) + en::Pick(Specials()) + (en::Thorough() ? en::Pick(Specials()) : "");
      break;
    default: {
      const int first = en::Choose(256);
      CheckComponent(std::string(1, static_cast<char>(first)));
      for (int second = 0; second < 256; ++second) CheckComponent(std::string(1, static_cast<char>(first)) + static_cast<char>(second));
      en::Evaluations(256);
      return;
    }
  }
  CheckComponent(s);
}

EN_SCENARIO(decoding) {
  static const std::vector<std::string> v = {"%", "+", "a", "F", "2", "G", " ", "\xff", "x", "-"};
  std::string s;
  for (int n = en::Choose(en::Thorough() ? 7 : 6); n; --n) s += en::Pick(v);
  EN_CHECK_EQ(URL::DecodeURIComponent(s), ModelDecode(s), "decoding");
  EN_CHECK(URL::ParseQueryString("k=" + s) == (std::map<std::string, std::string>{{"k", ModelDecode(s)}}), "query-string");
}

// Parsing a text yields its parts; composing it and parsing once more does too; composing is a fixed point.
EN_SCENARIO(urls) {
  const Parts p = AnyParts();
  // An URL with no host has no room for the scheme and for the user.
  if (p.host.empty() && (!p.scheme.empty() || !p.user.empty())) en::Skip();
  const bool no_path = !p.host.empty() && p.path == "/" && en::Flip();
  const std::string text = TextOf(p, no_path);
  en::Note(text);
  const URL u(text);
  EN_CHECK_EQ(u.scheme, p.scheme, "scheme");
  EN_CHECK_EQ(u.username, p.user, "username");
  EN_CHECK_EQ(u.password, p.pass, "password");
  EN_CHECK_EQ(u.host, p.host, "host");
  EN_CHECK_EQ(u.port, p.port, "port");
  EN_CHECK_EQ(u.path, p.path, "path");
  EN_CHECK_EQ(u.fragment, p.fragment, "fragment");
  CheckParams(u, p);

  const std::string composed = u.ComposeURL();
  en::Note(composed);
  const URL v(composed);
  if (!p.host.empty()) {
    EN_CHECK_EQ(v.host, p.host, "host-again");
    EN_CHECK_EQ(v.scheme, DefaultScheme(p.scheme, p.port), "scheme-again");
    EN_CHECK_EQ(v.port, p.port == DefaultPort(v.scheme) ? 0 : p.port, "port-again");
    EN_CHECK_EQ(v.username, p.user, "username-again");
    EN_CHECK_EQ(v.password, p.pass, "password-again");
  } else {
    EN_CHECK_EQ(v.host, "", "host-again");
    EN_CHECK_EQ(composed.substr(0, p.path.length()), p.path, "just-the-path");
  }
  EN_CHECK_EQ(v.path, p.path, "path-again");
  EN_CHECK_EQ(v.fragment, p.fragment, "fragment-again");
  CheckParams(v, p);
  EN_CHECK_EQ(v.ComposeURL(), composed, "fixed-point");
  EN_CHECK_EQ(u.ComposeURLWithoutParameters() + u.ComposeParameters(), composed, "composed-of-two");
  const URL w = URL::MakeURLWithDefaults(u);
  EN_CHECK_EQ(w.scheme, DefaultScheme(p.scheme, p.port), "default-scheme");
  EN_CHECK_EQ(w.host, p.host.empty() ? "localhost" : p.host, "default-host");
  EN_CHECK_EQ(w.port, p.port ? p.port : DefaultPort(w.scheme), "default-port");
  EN_CHECK_EQ(w.path, p.path, "default-path");
  CheckParams(w, p);
}

EN_SCENARIO(parameters) {
  // Query strings with empty, valueless, and repeated parameters.
  static const std::vector<std::string> v = {"&", "=", "a", "b", "%26", "+"};
  std::string s;
  for (int n = en::Choose(en::Thorough() ? 8 : 6); n; --n) s += en::Pick(v);
  Parts p;
  size_t i = 0;
  while (i <= s.size()) {
    size_t j = s.find('&', i);
    if (j == std::string::npos) j = s.size();
    const std::string chunk = s.substr(i, j - i);
    if (!chunk.empty()) {
      const size_t k = chunk.find('=');
      p.params.emplace_back(ModelDecode(chunk.substr(0, k)), k == std::string::npos ? "" : ModelDecode(chunk.substr(k + 1)));
    }
    i = j + 1;
  }
  const std::string tail = en::Flip() ? "#x?y=z" : "";
  en::Note(s);
  CheckParams(URL("/?" + s + tail), p);
  CheckParams(URL("http://h:1/p?" + s + tail), p);
  EN_CHECK(URL::ParseQueryString(s) == FirstWins(p.params), "query-string");
  CheckParams(URL(URL("/?" + s + tail).ComposeURL()), p);
}

EN_SCENARIO(redirects) {
  Parts a, b;
  a.scheme = en::Pick(kSchemes);
  a.host = en::Pick(kHosts);
  a.port = en::Pick(kPorts);
  if (a.host.empty() && !a.scheme.empty()) en::Skip();
  a.path = "/from";
  a.params = {{"x", "y"}};
  a.fragment = "z";
  b.scheme = en::Pick(kSchemes);
  const auto& up = en::Pick(kUsers);
  b.user = up.first;
  b.pass = up.second;
  b.host = en::Pick(kHosts);
  b.port = en::Pick(kPorts);
  if (b.host.empty() && (!b.scheme.empty() || !b.user.empty())) en::Skip();
  b.path = en::Pick(std::vector<std::string>{"/", "/to"});
  b.params = en::Pick(std::vector<std::vector<std::pair<std::string, std::string>>>{{}, {{"p", "q"}}});
  b.fragment = en::Pick(std::vector<std::string>{"", "f"});
  const std::string from = TextOf(a, false), to = TextOf(b, false);
  en::Note(from + " -> " + to);
  const URL r = en::Flip() ? URL::MakeRedirectedURL(URL(from), to) : URL::MakeRedirectedURL(URL(from), URL(to));
  std::string scheme = !b.scheme.empty() ? b.scheme : a.scheme;
  const int port = !b.host.empty() || b.port ? b.port : a.port;
  scheme = DefaultScheme(scheme, port);
  EN_CHECK_EQ(r.scheme, scheme, "redirect-scheme");
  EN_CHECK_EQ(r.host, !b.host.empty() ? b.host : !a.host.empty() ? a.host : "localhost", "redirect-host");
  EN_CHECK_EQ(r.port, port ? port : DefaultPort(scheme), "redirect-port");
  EN_CHECK_EQ(r.path, b.path, "redirect-path");
  EN_CHECK_EQ(r.username, b.user, "redirect-user");
  EN_CHECK_EQ(r.password, b.pass, "redirect-password");
  EN_CHECK_EQ(r.fragment, b.fragment, "redirect-fragment");
  CheckParams(r, b);
}

// Filling objects.
CURRENT_STRUCT(Inner) { CURRENT_FIELD(i, int32_t, 0); };
CURRENT_STRUCT(Base) {
  CURRENT_FIELD(i, int32_t, -5);
  CURRENT_FIELD(s, std::string, "dflt");
};
CURRENT_STRUCT(Filled, Base) {
  CURRENT_FIELD(u, uint64_t, 5u);
  CURRENT_FIELD(d, double, 0.5);
  CURRENT_FIELD(v, std::vector<std::string>);
  CURRENT_FIELD(n, Inner);
  CURRENT_FIELD(o, Optional<int32_t>);
  CURRENT_FIELD(os, Optional<std::string>);
  CURRENT_FIELD(m, (std::map<std::string, int32_t>));
};
namespace jm {
JM_FIELDS(Inner, void, true, JM_F(i));
JM_FIELDS(Base, void, true, JM_F(i) JM_F(s));
JM_FIELDS(Filled, Base, true, JM_F(u) JM_F(d) JM_F(v) JM_F(n) JM_F(o) JM_F(os) JM_F(m));
}  // namespace jm

namespace {
struct Adder {
  std::string& url;
  bool& first;
  void Add(const std::string& key, const std::string& value) const {
    url += (first ? "?" : "&") + Encode(key) + "=" + (en::Flip() ? Encode(value) : URL::EncodeURIComponent(value));
    first = false;
  }
};
std::string ValueText(const std::string& s) { return s; }
template <class T>
std::string ValueText(const T& x) {
  return JSON(x);
}
template <class T>
std::string ValueText(const Optional<T>& x) {
  return ValueText(Value(x));
}
template <class T>
bool Present(const T&) {
  return true;
}
template <class T>
bool Present(const Optional<T>& x) {
  return Exists(x);
}
}  // namespace

EN_SCENARIO(filling) {
  const bool strict = en::Flip();
  const int mask = en::Choose(512);
  Filled source;
  const int which = en::Choose(3);
  source.i = which == 0 ? -2147483647 - 1 : which == 1 ? 2147483647 : 0;
  source.s = which == 0 ? "" : which == 1 ? std::string("\0&=%+ \xff", 7) : "\"quoted\"";
  source.u = which == 0 ? 18446744073709551615ull : which;
  source.d = which == 0 ? 1e23 : which == 1 ? -0.1 : 3;
  if (which) source.v = {"", "a&b", "\"#"};
  source.n.i = which - 1;
  source.o = which - 2;
  source.os = which == 0 ? "" : which == 1 ? "null" : "x=y";
  if (which) source.m["k&"] = which;
  Filled expected;
  std::string url = "/";
  bool first = true;
  int bit = 0;
  bool complete = true;
  const Adder adder{url, first};
  const auto f = [&](const char* name, const auto& from, auto& to) {
    if ((mask >> bit++) & 1) {
      const std::string text = ValueText(from);
      url += (first ? "?" : "&") + std::string(name) + "=" + ((mask & 1) ? Encode(text) : URL::EncodeURIComponent(text));
      first = false;
      to = from;
    } else if (Present(to)) {
      complete = false;
    }
  };
  // An unset `Optional` may be missing in the strict mode.
  jm::Fields<Base>::Each(f, static_cast<const Base&>(source), static_cast<Base&>(expected));
  jm::Fields<Filled>::Each(f, static_cast<const Filled&>(source), expected);
  if (en::Flip()) url += std::string(first ? "?" : "&") + "unrelated=1";
  en::Note(url);
  const URL u(url);
  Filled result;
  bool threw = false;
  try {
    if (strict) {
      u.query.template FillObject<Filled, FillObjectMode::Strict>(result);
      EN_CHECK((jm::Tr<Filled>::Eq(u.query.template FillObject<Filled, FillObjectMode::Strict>(), result)), "two-ways-to-fill");
    } else {
      u.query.FillObject(result);
      EN_CHECK((jm::Tr<Filled>::Eq(u.query.template FillObject<Filled>(), result)), "two-ways-to-fill");
    }
  } catch (const current::url::URLParseObjectAsURLParameterException&) {
    threw = true;
  }
  EN_CHECK_EQ(threw, strict && !complete, "incomplete");
  if (!threw && !jm::Tr<Filled>::Eq(result, expected)) en::Violation("filled-object", url + " : " + JSON(result));
}

EN_SCENARIO(bad_values) {
  struct Case {
    const char* key;
    const char* value;
  };
  static const std::vector<Case> cases = {{"i", ""},    {"i", "x"},  {"i", "1x"},      {"i", "2147483648"}, {"i", "1.5"}, {"i", "\"1\""}, {"u", "-1"},        {"u", "18446744073709551616"}, {"d", "x"}, {"d", "1e400"},
                                          {"v", "[1]"}, {"v", "[\""}, {"v", "\"a\""},   {"n", "1"},          {"n", "{}"},  {"n", "{\"i\":\"x\"}"}, {"o", "x"}, {"m", "[]"},                   {"m", "{\"a\":\"b\"}"}};
  const Case& c = en::Pick(cases);
  const bool strict = en::Flip();
  Filled result;
  bool threw = false;
  const std::string url = std::string("/?s=x&") + c.key + "=" + Encode(c.value) + (strict ? "&i=1&u=1&d=1&v=[]&n={\"i\":1}&m={}" : "");
  en::Note(url);
  try {
    if (strict) {
      URL(url).query.template FillObject<Filled, FillObjectMode::Strict>(result);
    } else {
      URL(url).query.FillObject(result);
    }
  } catch (const current::url::URLParseObjectAsURLParameterException& e) {
    threw = true;
    EN_CHECK_EQ(e.key, c.key, "reported-key");
  }
  EN_CHECK(threw, "bad-value-accepted");
}

CURRENT_STRUCT(Flags) {
  CURRENT_FIELD(b, bool, false);
  CURRENT_FIELD(t, bool, true);
  CURRENT_FIELD(o, Optional<bool>);
};
EN_SCENARIO(booleans) {
  static const std::vector<std::string> forms = {"-", "", "0", "1", "true", "false", "True", "False", "TRUE", "FALSE"};
  const auto meaning = [](const std::string& s) { return !(s == "0" || s == "false" || s == "False" || s == "FALSE"); };
  const std::string b = en::Pick(forms), t = en::Pick(forms), o = en::Pick(forms);
  const bool bare = en::Flip();
  std::string url = "/";
  for (const auto& e : std::vector<std::pair<std::string, std::string>>{{"b", b}, {"t", t}, {"o", o}}) {
    if (e.second == "-") continue;
    url += (url == "/" ? "?" : "&") + e.first + (e.second.empty() && bare ? "" : "=" + e.second);
  }
  en::Note(url);
  const Flags f = URL(url).query.template FillObject<Flags>();
  EN_CHECK_EQ(f.b, b == "-" ? false : meaning(b), "bool");
  EN_CHECK_EQ(f.t, t == "-" ? true : meaning(t), "bool");
  EN_CHECK_EQ(Exists(f.o), o != "-", "optional-bool");
  if (Exists(f.o)) EN_CHECK_EQ(Value(f.o), meaning(o), "optional-bool");
}

// Path arguments.
EN_SCENARIO(path_args) {
  current::url::URLPathArgs args;
  static const std::vector<std::string> names = {"a", "bb", "c.d"};
  std::vector<std::string> model;
  for (int n = en::Choose(5); n; --n) {
    model.insert(model.begin(), en::Pick(names));
    args.add(model.front());
  }
  args.base_path = en::Pick(std::vector<std::string>{"", "/", "/base", "/base/x"});
  EN_CHECK_EQ(args.size(), model.size(), "args-size");
  EN_CHECK_EQ(args.empty(), model.empty(), "args-empty");
  std::string path;
  for (size_t i = 0; i < model.size(); ++i) {
    EN_CHECK_EQ(args[i], model[i], "args-order");
    path += "/" + model[i];
  }
  EN_CHECK((std::vector<std::string>(args.begin(), args.end()) == model), "args-iteration");
  EN_CHECK_EQ(args.ComposeURLPathFromArgs(), path.empty() ? "/" : path, "args-path");
  const std::string whole = (args.base_path == "/" ? "" : args.base_path) + path;
  EN_CHECK_EQ(args.ComposeURLPath(), whole.empty() ? "/" : whole, "whole-path");
}
