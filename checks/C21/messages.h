// HTTP messages: composed from their parts (so that what they mean is known without parsing), and an independent reference
// parser for what is not well-formed. The two are checked against one another.
#pragma once
#include <algorithm>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace msgs {
using std::string;

struct Cookie {
  string value;
  std::map<string, string> params;
  bool operator==(const Cookie& o) const { return value == o.value && params == o.params; }
};
struct Parsed {
  string method, path;
  std::vector<std::pair<string, string>> headers;  // merged by the name, in the order of the first appearance
  std::map<string, Cookie> cookies;
  bool has_body = false;
  string body;
};
struct Message {
  string name, bytes;
  Parsed expected;
};

inline string Fold(string s) {
  for (char& c : s) c = c == '_' ? '-' : (c >= 'A' && c <= 'Z') ? static_cast<char>(c + 32) : c;
  return s;
}
inline string Trim(const string& s, const char* ws = " \t") {
  const size_t a = s.find_first_not_of(ws), b = s.find_last_not_of(ws);
  return a == string::npos ? "" : s.substr(a, b - a + 1);
}
inline void AddHeader(Parsed& p, const string& name, const string& value) {
  if (name.empty()) return;
  const string f = Fold(name);
  for (auto& h : p.headers)
    if (Fold(h.first) == f) {
      if (!value.empty()) h.second += (h.second.empty() ? "" : ", ") + value;
      return;
    }
  p.headers.emplace_back(name, value);
}
inline void AddCookies(Parsed& p, const string& text, bool set_cookie) {
  Cookie* last = nullptr;
  size_t at = 0;
  bool first = true;
  while (at <= text.size()) {
    const size_t semi = std::min(text.find(';', at), text.size());
    const char* ws = " \t\r\n\v\f";
    const string field = Trim(text.substr(at, semi - at), ws);
    at = semi + 1;
    const size_t eq = field.find('=');
    const string name = Trim(field.substr(0, eq), ws), value = eq == string::npos ? "" : Trim(field.substr(eq + 1), ws);
    if (set_cookie && !first) {
      if (last && !name.empty()) last->params.emplace(name, value);
    } else if (eq != string::npos && !name.empty()) {
      const auto r = p.cookies.emplace(name, Cookie{value, {}});
      last = r.second ? &r.first->second : nullptr;
    }
    first = false;
  }
}

enum class Outcome { Ok, Error, Unspecified };
struct RefResult {
  Outcome outcome;
  Parsed parsed;
};

inline bool IsHex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

// What the bytes denote if the peer closes the connection after them.
inline RefResult Reference(const string& s, size_t max_payload) {
  RefResult r{Outcome::Error, Parsed()};
  Parsed& p = r.parsed;
  size_t at = 0;
  const auto line = [&](string& out) {
    const size_t e = s.find("\r\n", at);
    if (e == string::npos) return false;
    out = s.substr(at, e - at);
    at = e + 2;
    return true;
  };
  string l;
  bool first = true, chunked = false, has_length = false, override_seen = false;
  unsigned long length = 0;
  while (true) {
    if (!line(l)) {
      if (s.find('\0', at) != string::npos) r.outcome = Outcome::Unspecified;
      return r;
    }
    if (l.find('\0') != string::npos) {
      r.outcome = Outcome::Unspecified;
      return r;
    }
    if (first) {
      if (l.empty()) continue;
      first = false;
      const char* ws = " \t\n\v\f\r";
      size_t a = l.find_first_not_of(ws);
      std::vector<string> pieces;
      while (a != string::npos) {
        const size_t b = l.find_first_of(ws, a);
        pieces.push_back(l.substr(a, b == string::npos ? b : b - a));
        a = b == string::npos ? b : l.find_first_not_of(ws, b);
      }
      if (pieces.size() < 2) r.outcome = Outcome::Unspecified;  // An incomplete request line; only the absence of crashes counts.
      if (pieces.size() < 2) return r;
      p.method = pieces[0];
      p.path = pieces[1];
      if (p.path[0] == '?' || p.path[0] == '#') {  // Not a path; may or may not be refused.
        r.outcome = Outcome::Unspecified;
        return r;
      }
      continue;
    }
    if (l.empty()) break;
    const size_t colon = l.find(':');
    if (colon == string::npos) continue;
    const string name = l.substr(0, colon), value = Trim(l.substr(colon + 1)), folded = Fold(name);
    if (folded == "cookie" || folded == "set-cookie") {
      AddCookies(p, value, folded == "set-cookie");
    } else {
      AddHeader(p, name, value);
      if (folded == "content-length") {
        if (value.empty() || value.find_first_not_of("0123456789") != string::npos) return r;
        const size_t nz = value.find_first_not_of('0');
        const string digits = nz == string::npos ? "0" : value.substr(nz);
        if (digits.size() > 12 || std::stoul(digits) > max_payload) return r;
        length = std::stoul(digits);
        has_length = true;
      } else if (folded == "x-http-method-override") {
        p.method = value;
        for (char& c : p.method) c = (c >= 'a' && c <= 'z') ? static_cast<char>(c - 32) : c;
        override_seen = true;
      } else if (folded == "transfer-encoding") {
        if (Fold(value) == "chunked") chunked = true;
      }
    }
  }
  (void)override_seen;
  if (!chunked) {
    if (has_length) {
      if (s.size() - at < length) return r;
      p.has_body = true;
      p.body = s.substr(at, length);
    } else if (p.method == "POST" || p.method == "PUT" || p.method == "PATCH") {
      return r;
    }
    r.outcome = Outcome::Ok;
    return r;
  }
  while (true) {
    if (!line(l)) {
      if (s.find('\0', at) != string::npos) r.outcome = Outcome::Unspecified;
      return r;
    }
    if (l.find('\0') != string::npos) {
      r.outcome = Outcome::Unspecified;
      return r;
    }
    if (l.empty()) continue;
    const string size = Trim(l.substr(0, l.find(';')));
    if (size.empty()) return r;
    for (char c : size)
      if (!IsHex(c)) return r;
    const size_t nz = size.find_first_not_of('0');
    if (nz == string::npos) {
      p.has_body = true;
      r.outcome = Outcome::Ok;
      return r;
    }
    if (size.size() - nz > 7) return r;
    const size_t n = std::stoul(size, nullptr, 16);
    if (s.size() - at < n) return r;
    p.body += s.substr(at, n);
    at += n;
  }
}

// Well-formed messages.
struct Header {
  string name, raw, value;  // name ":" raw
};
inline string Hex(size_t n, bool upper) {
  char b[32];
  snprintf(b, sizeof b, upper ? "%zX" : "%zx", n);
  return b;
}

inline std::vector<Message> WellFormed(bool responses) {
  std::vector<Message> r;
  struct Start {
    string line, method, path;
  };
  const std::vector<Start> starts = responses
                                        ? std::vector<Start>{{"HTTP/1.1 200 OK", "HTTP/1.1", "200"}, {"HTTP/1.1 404 Not Found", "HTTP/1.1", "404"}}
                                        : std::vector<Start>{{"GET / HTTP/1.1", "GET", "/"},
                                                             {"POST /a/b?x=1&y=%20z#f HTTP/1.1", "POST", "/a/b?x=1&y=%20z#f"},
                                                             {"\r\n\r\nPUT  /%D1//  HTTP/1.0", "PUT", "/%D1//"}};
  const std::vector<std::vector<Header>> header_sets = {
      {},
      {{"Host", " h:8080", "h:8080"}},
      {{"A", "1", "1"}, {"b-C", " \t2 3\t ", "2 3"}, {"a", " x", "x"}, {"B_c", "", ""}, {"E", " ", ""}},
      {{"X", ": v :", ": v :"}, {"nocolon", "", "\1"}},
  };
  const string binary("\r\n\0\xff\r\n\r\n0\r\n", 12);
  const std::vector<string> bodies = {"", "x", "hello\r\n", binary, string(37, 'z')};
  for (size_t si = 0; si < starts.size(); ++si) {
    for (size_t hi = 0; hi < header_sets.size(); ++hi) {
      for (int framing = 0; framing < 3; ++framing) {  // none, length, chunked
        for (size_t bi = 0; bi < (framing ? bodies.size() : 1); ++bi) {
          for (int variant = 0; variant < (framing == 2 ? 4 : framing == 1 ? 3 : 1); ++variant) {
            // Not the complete product: every header set with every framing, every body and variant with every start.
            if (hi && (bi != 3 || (hi == 2 ? variant != 1 : variant))) if (framing) continue;
            Message m;
            const Start& st = starts[si];
            string override_method;
            m.expected.method = st.method;
            m.expected.path = st.path;
            m.bytes = st.line + "\r\n";
            for (const Header& h : header_sets[hi]) {
              if (h.value == "\1") {
                m.bytes += h.name + "\r\n";
                continue;
              }
              m.bytes += h.name + ":" + h.raw + "\r\n";
              AddHeader(m.expected, h.name, h.value);
            }
            if (hi == 1) {
              if (responses) {
                m.bytes += "Set-Cookie: s=a=b==; Path=/; Secure\r\nset-cookie:t=\r\n";
                m.expected.cookies["s"] = Cookie{"a=b==", {{"Path", "/"}, {"Secure", ""}}};
                m.expected.cookies["t"] = Cookie{"", {}};
              } else {
                m.bytes += "Cookie: s=a=b==; t=; u=v w\r\n";
                m.expected.cookies["s"] = Cookie{"a=b==", {}};
                m.expected.cookies["t"] = Cookie{"", {}};
                m.expected.cookies["u"] = Cookie{"v w", {}};
              }
            }
            const string& body = bodies[bi];
            if (framing == 0) {
              if (!responses && si) {
                m.bytes += "X-Http-Method-Override: delete\r\n";
                AddHeader(m.expected, "X-Http-Method-Override", "delete");
                m.expected.method = "DELETE";
              }
              m.bytes += "\r\n";
            } else if (framing == 1) {
              const string name = variant == 1 ? "content_length" : "Content-Length";
              const string value = (variant == 2 ? "000" : "") + std::to_string(body.size());
              m.bytes += name + ": " + value + "\r\n";
              AddHeader(m.expected, name, value);
              m.bytes += "\r\n" + body;
              m.expected.has_body = true;
              m.expected.body = body;
            } else {
              const string te = variant == 1 ? "CHUNKED" : "chunked";
              m.bytes += "Transfer-Encoding: " + te + "\r\n";
              AddHeader(m.expected, "Transfer-Encoding", te);
              m.bytes += "\r\n";
              // The variants differ in how the body is cut into chunks and in how their sizes are written.
              const size_t step = variant == 0 ? 1000 : variant == 1 ? 1 : variant == 2 ? 7 : 26;
              for (size_t at = 0; at < body.size(); at += step) {
                const string chunk = body.substr(at, step);
                m.bytes += (variant == 2 ? "0" : "") + Hex(chunk.size(), variant != 3) + (variant == 3 ? ";ext=\"v\"" : variant == 2 ? " " : "") + "\r\n" + chunk + "\r\n";
              }
              m.bytes += variant == 2 ? "000\r\n" : "0\r\n";  // What follows, the final blank line, is not needed to parse the body.
              m.expected.has_body = true;
              m.expected.body = body;
            }
            m.name = "start " + std::to_string(si) + " headers " + std::to_string(hi) + " framing " + std::to_string(framing) + " body " + std::to_string(bi) + " variant " + std::to_string(variant);
            r.push_back(m);
          }
        }
      }
    }
  }
  return r;
}

}  // namespace msgs
