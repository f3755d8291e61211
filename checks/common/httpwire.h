// An HTTP response as it is on the wire, read independently of the code under test.
#pragma once
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

namespace httpwire {
using std::string;

// An independent reading of a response off the wire. `complete`: the whole of it is there, and nothing else.
struct Raw {
  bool ok = false;
  string why;
  int code = 0;
  std::vector<std::pair<string, string>> headers;
  bool chunked = false;
  std::vector<string> chunks;
  bool terminated = false;  // chunked: with the zero chunk
  string body;
  string Header(const string& name) const {
    string r;
    int n = 0;
    for (const auto& h : headers)
      if (h.first == name) r = h.second, ++n;
    return n == 1 ? r : n ? "<duplicate>" : "<none>";
  }
};
inline Raw Read(const string& s) {
  Raw r;
  const size_t end = s.find("\r\n\r\n");
  if (end == string::npos) return r.why = "no end of headers", r;
  size_t at = 0;
  bool first = true;
  while (at < end + 2) {
    const size_t e = s.find("\r\n", at);
    const string l = s.substr(at, e - at);
    at = e + 2;
    if (first) {
      first = false;
      if (l.compare(0, 9, "HTTP/1.1 ") || l.size() < 13 || l[12] != ' ') return r.why = "status line " + l, r;
      r.code = atoi(l.c_str() + 9);
      continue;
    }
    const size_t c = l.find(": ");
    if (c == string::npos) return r.why = "header line " + l, r;
    r.headers.emplace_back(l.substr(0, c), l.substr(c + 2));
  }
  at = end + 4;
  const string te = r.Header("Transfer-Encoding"), cl = r.Header("Content-Length");
  if (te == "chunked" && cl == "<none>") {
    r.chunked = true;
    while (at < s.size()) {
      const size_t e = s.find("\r\n", at);
      if (e == string::npos || e == at) return r.why = "chunk size", r;
      size_t n = 0;
      for (; at < e; ++at) {
        const char c = s[at];
        if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))) return r.why = "chunk size", r;
        n = n * 16 + static_cast<size_t>(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
      }
      at = e + 2;
      if (s.size() < at + n + 2) return r.why = "cut within a chunk", r;
      if (s.compare(at + n, 2, "\r\n")) return r.why = "no CRLF after a chunk", r;
      if (!n) {
        r.terminated = true;
        at += 2;
        if (at != s.size()) return r.why = "bytes after the last chunk", r;
        break;
      }
      r.chunks.push_back(s.substr(at, n));
      r.body += r.chunks.back();
      at += n + 2;
    }
    r.ok = true;
    return r;
  }
  if (te != "<none>" || cl == "<none>" || cl == "<duplicate>") return r.why = "framing headers", r;
  r.body = s.substr(at);
  if (cl != std::to_string(r.body.size())) return r.why = "Content-Length " + cl + " for " + std::to_string(r.body.size()) + " bytes", r;
  r.ok = true;
  return r;
}

}  // namespace httpwire
