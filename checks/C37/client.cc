// C37: what the HTTP client is asked for against what it sends, where it connects to, and what it returns: every kind of request,
// every short chain of redirects, every cut of a chunked response, over a network in memory with scripted peers.
#include "blocks/http/api.h"

#include "../common/fakenet.h"
#include "enum.h"

#include <fstream>
#include <map>
#include <set>

using std::string;
using fakenet::ep_t;

CURRENT_STRUCT(C37Object) {
  CURRENT_FIELD(x, int32_t, 42);
};

namespace {
void Sure(bool b, const char* sig, const string& on) {
  if (!b) en::Violation(sig, on);
}
string Show(const string& s) {
  string r;
  char b[8];
  for (unsigned char c : s.substr(0, 700)) {
    if (c >= 32 && c < 127 && c != '\\') r += static_cast<char>(c);
    else snprintf(b, sizeof b, c == '\r' ? "\\r" : c == '\n' ? "\\n" : "\\x%02x", c), r += b;
  }
  return r;
}

struct Peer {
  ep_t ep;
  string host;  // Where the client has connected to.
  uint16_t port = 0;
};
std::vector<Peer> g_peers;
size_t g_next;
bool g_more = false;  // An attempt to connect for one more time than expected.
ep_t NextPeer(const string& host, uint16_t port) {
  if (g_next >= g_peers.size()) {
    g_more = true;
    return nullptr;
  }
  g_peers[g_next].host = host;
  g_peers[g_next].port = port;
  return g_peers[g_next++].ep;
}
void Script(const string& bytes, fakenet::End end = fakenet::End::Eof, size_t segment = static_cast<size_t>(-1)) {
  auto e = std::make_shared<fakenet::Endpoint>();
  e->in = bytes;
  e->end = end;
  e->max_segment = segment;
  g_peers.push_back(Peer());
  g_peers.back().ep = e;
}
struct Session {
  Session() {
    g_peers.clear();
    g_next = 0;
    g_more = false;
    fakenet::N().on_connect = NextPeer;
  }
  ~Session() { fakenet::N().on_connect = nullptr; }
};

struct Sent {
  bool ok = false;
  string method, target;
  std::multimap<string, string> headers;
  string body;
};
Sent ReadRequest(const string& s) {
  Sent r;
  const size_t end = s.find("\r\n\r\n");
  if (end == string::npos) return r;
  size_t at = 0;
  bool first = true;
  while (at < end + 2) {
    const size_t e = s.find("\r\n", at);
    const string l = s.substr(at, e - at);
    at = e + 2;
    if (first) {
      first = false;
      const size_t a = l.find(' '), b = l.rfind(' ');
      if (a == string::npos || a == b || l.substr(b + 1) != "HTTP/1.1") return r;
      r.method = l.substr(0, a);
      r.target = l.substr(a + 1, b - a - 1);
      if (r.target.empty() || r.target.find(' ') != string::npos) return r;
      continue;
    }
    const size_t c = l.find(": ");
    if (c == string::npos) return r;
    r.headers.emplace(l.substr(0, c), l.substr(c + 2));
  }
  r.body = s.substr(end + 4);
  r.ok = true;
  return r;
}

// A request of any kind.
struct Asked {
  int kind = 0;
  string url, body, content_type, user_agent;
  std::vector<std::pair<string, string>> headers, cookies;
  bool redirects = false;
};
const char* const kMethods[] = {"GET", "HEAD", "DELETE", "POST", "PUT", "PATCH", "POST", "POST"};
enum { GET_, HEAD_, DELETE_, POST_, PUT_, PATCH_, POST_FILE, POST_OBJECT };

template <class R>
R&& With(R&& r, const Asked& q) {
  for (const auto& h : q.headers) r.SetHeader(h.first, h.second);
  for (const auto& c : q.cookies) r.SetCookie(c.first, c.second);
  if (!q.user_agent.empty()) r.UserAgent(q.user_agent);
  if (q.redirects) r.AllowRedirects();
  return std::forward<R>(r);
}
template <class RESPONSE>
auto Ask(const Asked& q, const RESPONSE& how) {
  const string file = en::TmpDir() + "/body";
  switch (q.kind) {
    case GET_: return HTTP(With(GET(q.url), q), how);
    case HEAD_: return HTTP(With(HEAD(q.url), q), how);
    case DELETE_: return HTTP(With(DELETE(q.url), q), how);
    case POST_: return HTTP(With(POST(q.url, q.body, q.content_type), q), how);
    case PUT_: return HTTP(With(PUT(q.url, q.body, q.content_type), q), how);
    case PATCH_: return HTTP(With(PATCH(q.url, q.body, q.content_type), q), how);
    case POST_FILE: {
      std::ofstream(file, std::ios::binary) << q.body;
      return HTTP(With(POSTFromFile(q.url, file, q.content_type), q), how);
    }
    default: return HTTP(With(POST(q.url, C37Object(), q.content_type), q), how);
  }
}
// What it is to send.
void CheckSent(const Asked& q, const string& bytes, const string& host, const string& target) {
  const Sent s = ReadRequest(bytes);
  const string on = Show(bytes);
  Sure(s.ok, "request-malformed", on);
  Sure(s.method == kMethods[q.kind], "request-method", on);
  Sure(s.target == target, "request-target", on + ", expected " + target);
  std::multimap<string, string> want;
  want.emplace("Host", host);
  if (!q.user_agent.empty()) want.emplace("User-Agent", q.user_agent);
  std::map<string, string> merged;  // The same header set twice is a list.
  for (const auto& h : q.headers) merged[h.first] += (merged[h.first].empty() ? "" : ", ") + h.second;
  for (const auto& h : merged) want.insert(h);
  std::map<string, string> jar(q.cookies.begin(), q.cookies.end());
  string cookies;
  for (const auto& c : jar) cookies += (cookies.empty() ? "" : "; ") + c.first + "=" + c.second;
  if (!cookies.empty()) want.emplace("Cookie", cookies);
  string body;
  if (q.kind >= POST_) {
    body = q.kind == POST_OBJECT ? "{\"x\":42}" : q.body;
    const string dflt = q.kind == POST_FILE ? "" : q.kind == POST_OBJECT ? "application/json; charset=utf-8" : "text/plain";
    const string type = q.content_type.empty() ? dflt : q.content_type;
    if (!type.empty()) want.emplace("Content-Type", type);
    want.emplace("Content-Length", std::to_string(body.size()));
  }
  auto got = s.headers;
  if (q.kind < POST_) {
    // With no body, its length may be stated too.
    const auto it = got.find("Content-Length");
    if (it != got.end() && it->second == "0") got.erase(it);
  }
  Sure(got == want, "request-headers", on);
  Sure(s.body == body, "request-body", on);
}
}  // namespace

EN_SCENARIO(requests, (en::Opts{60})) {
  Session session;
  Asked q;
  q.kind = en::Choose(8);
  static const std::vector<std::pair<string, string>> urls = {
      {"http://h:81/x", "h"}, {"http://h:81/", "h"}, {"h:81/x?a=1&b=%20%26", "h"}, {"http://h:81/x?a#f", "h"}};
  const int u = en::Choose(static_cast<int>(urls.size()));
  q.url = urls[u].first;
  static const char* const targets[] = {"/x", "/", "/x?a=1&b=%20%26", "/x?a="};
  if (en::Flip()) q.user_agent = "me/1.0 (x; y)";
  const int h = en::Choose(4);
  if (h & 1) q.headers.emplace_back("X-One", "1");
  if (h & 2) q.headers.emplace_back("X-Two", "two: \"2\", two");
  if (h == 3 && en::Flip()) q.headers.emplace_back("X-One", "again");
  const int c = en::Choose(3);
  if (c > 0) q.cookies.emplace_back("k", "v");
  if (c > 1) q.cookies.emplace_back("a", "b");
  if (q.kind >= POST_) {
    static const std::vector<string> bodies = {"", "x", string("\r\n\r\n\0 HTTP/1.1", 14), string(3000, 'z')};
    if (q.kind != POST_OBJECT) q.body = bodies[en::Choose(4)];
    if (en::Flip()) q.content_type = "a/b; c=d";
  }
  static const std::vector<string> replies = {"", "x", string("\0\r\n\r\n", 5), string(5000, 'r')};
  // NOTE: The responses to HEAD are, as sent by the server of this very library, with the body. See `head` for the other ones.
  const int reply = en::Choose(4);
  const string& body = replies[reply];
  const int code = en::Flip() ? 200 : 404;
  const bool to_file = en::Flip();
  Script("HTTP/1.1 " + std::to_string(code) + " Whatever\r\nX-Answer: yes\r\nSet-Cookie: s=t; Path=/\r\nContent-Length: " +
         std::to_string(body.size()) + "\r\n\r\n" + body, en::Flip() ? fakenet::End::Eof : fakenet::End::Block);
  en::Note(string(kMethods[q.kind]) + " " + q.url);
  const auto check = [&](const current::http::HTTPResponse& r) {
    Sure(static_cast<int>(r.code) == code, "response-code", std::to_string(static_cast<int>(r.code)));
    Sure(r.url == q.url, "response-url", r.url);
    Sure(r.headers.Get("X-Answer") == "yes" && r.headers.size() == 2u, "response-headers", "");
    const auto cit = r.headers.cookies.find("s");
    Sure(r.headers.cookies.size() == 1u && cit != r.headers.cookies.end() && cit->second.value == "t", "response-cookies", "");
  };
  try {
    if (to_file) {
      const string file = en::TmpDir() + "/response";
      std::ofstream(file) << "what used to be there, and is longer than the response";
      const auto r = Ask(q, current::http::SaveResponseToFile(file));
      check(r);
      Sure(r.body_file_name == file, "response-file", r.body_file_name);
      std::ifstream f(file, std::ios::binary);
      const string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
      Sure(got == body, "response-file-body", Show(got));
    } else {
      const auto r = Ask(q, current::http::KeepResponseInMemory());
      check(r);
      Sure(r.body == body, "response-body", Show(r.body));
    }
  } catch (const current::Exception& e) {
    en::Violation("client-exception", e.what());
  }
  Sure(g_next == 1 && !g_more, "connections", std::to_string(g_next));
  Sure(g_peers[0].host == urls[u].second && g_peers[0].port == 81, "connected-to", g_peers[0].host);
  CheckSent(q, g_peers[0].ep->out, urls[u].second, targets[u]);
  Sure(g_peers[0].ep->closed, "not-closed", "");
}

// The response to HEAD, per the standard, describes the body of the would-be response to GET, and has none.
EN_SCENARIO(head) {
  Session session;
  Asked q;
  q.kind = HEAD_;
  q.url = "http://h:81/x";
  const int code = en::Flip() ? 200 : 404;
  const int length = en::Choose(3);
  Script("HTTP/1.1 " + std::to_string(code) + " Whatever\r\nX-Answer: yes\r\nContent-Length: " + std::to_string(length) + "\r\n\r\n");
  en::Note("HEAD, with the length of " + std::to_string(length));
  try {
    const auto r = Ask(q, current::http::KeepResponseInMemory());
    Sure(static_cast<int>(r.code) == code, "response-code", std::to_string(static_cast<int>(r.code)));
    Sure(r.headers.Get("X-Answer") == "yes", "response-headers", "");
    Sure(r.body.empty(), "response-body", Show(r.body));
  } catch (const current::net::NetworkException&) {
    en::Violation(length ? "no-body-of-described-length" : "client-exception", "waited for the body of the response to HEAD");
  }
}

namespace {
struct At {
  string host;
  int port;
  string path, query;
  bool operator<(const At& r) const { return std::tie(host, port, path, query) < std::tie(r.host, r.port, r.path, r.query); }
};
string Url(const At& a) { return "http://" + a.host + (a.port == 80 ? "" : ":" + std::to_string(a.port)) + a.path + a.query; }
}  // namespace

EN_SCENARIO(redirects, (en::Opts{60})) {
  Session session;
  Asked q;
  q.kind = en::Pick(std::vector<int>{GET_, POST_, HEAD_, PUT_});
  q.redirects = en::Choose(4) != 3;
  q.headers.emplace_back("X-One", "1");
  q.cookies.emplace_back("k", "v");
  if (q.kind >= POST_) q.body = "body";
  At at{"h", 81, "/a", ""};
  q.url = Url(at);
  std::set<At> seen = {at};
  std::vector<At> visited = {at};
  string outcome = "fine";
  // The code, and whether there is somewhere to go.
  static const std::vector<int> codes = {302, 301, 307, 308, 303, 300, 399};
  const int hops = en::Choose(static_cast<int>(en::Param("hops", 3)) + 1);
  string path;
  for (int i = 0; i < hops && outcome == "fine"; ++i) {
    const int code = i == 0 || en::Thorough() ? en::Pick(codes) : codes[i];
    string location;
    At to = at;
    to.query = "";
    switch (en::Choose(8)) {
      case 0: location = "/b"; to.path = "/b"; break;
      case 1: location = "/a"; to.path = "/a"; break;
      case 2: location = "http://g/b"; to = At{"g", 80, "/b", ""}; break;
      case 3: location = "http://h:81/c"; to = At{"h", 81, "/c", ""}; break;
      case 4: location = "http://h/a"; to = At{"h", 80, "/a", ""}; break;
      case 5: location = "/b?x=1"; to.path = "/b"; to.query = "?x=1"; break;
      case 6: location = "http://g:90"; to = At{"g", 90, "/", ""}; break;
      case 7: location = "http://g:90/a?x=1&y=%20"; to = At{"g", 90, "/a", "?x=1&y=%20"}; break;
    }
    Script("HTTP/1.1 " + std::to_string(code) + " Found\r\nLocation: " + location + "\r\nContent-Length: 4\r\n\r\noops",
           en::Flip() ? fakenet::End::Eof : fakenet::End::Block);
    path += location + " ";
    at = to;
    if (!q.redirects) outcome = "not allowed";
    else if (!seen.insert(at).second) outcome = "loop";
    else visited.push_back(at);
  }
  // Finally: a page; a redirect to nowhere; or a page with a location, which is not a redirect.
  if (outcome == "fine") {
    const int last = en::Choose(3);
    const int code = last == 1 ? 302 : last == 2 ? 201 : 200;
    Script("HTTP/1.1 " + std::to_string(code) + " OK\r\n" + (last == 2 ? "Location: /elsewhere\r\n" : "") + "Content-Length: 3\r\n\r\nyes");
    outcome = std::to_string(code);
  }
  en::Note(string(kMethods[q.kind]) + " " + q.url + " -> " + path + ": " + outcome);
  string got;
  try {
    const auto r = Ask(q, current::http::KeepResponseInMemory());
    got = std::to_string(static_cast<int>(r.code));
    Sure(r.body == "yes", "redirected-body", r.body);
    Sure(r.url == Url(at), "redirected-url", r.url + " vs. " + Url(at));
  } catch (const current::net::HTTPRedirectLoopException&) {
    got = "loop";
  } catch (const current::net::HTTPRedirectNotAllowedException&) {
    got = "not allowed";
  } catch (const current::Exception& e) {
    got = e.what();
  }
  Sure(got == outcome, "redirect-outcome", got + ", expected " + outcome);
  Sure(g_next == visited.size() && !g_more, "redirect-requests", std::to_string(g_next));
  for (size_t i = 0; i < visited.size(); ++i) {
    Sure(g_peers[i].host == visited[i].host && g_peers[i].port == visited[i].port, "redirect-connected-to", g_peers[i].host + ":" + std::to_string(g_peers[i].port));
    CheckSent(q, g_peers[i].ep->out, visited[i].host, visited[i].path + visited[i].query);
    Sure(g_peers[i].ep->closed, "not-closed", "");
  }
}

EN_SCENARIO(chunked, (en::Opts{60})) {
  // The pieces of the response as they come, the lines they make, the headers, and the end: whichever callbacks are set, in
  // whichever order these are set.
  Session session;
  static const std::vector<string> pieces = {"a\n", "b", "\n", "c\nd\n", "\n\ne", "f\r\n"};
  const int n = en::Choose(static_cast<int>(en::Param("chunks", 3)) + 1);
  std::vector<string> chunks;
  string wire, all;
  for (int i = 0; i < n; ++i) {
    chunks.push_back(pieces[en::Choose(static_cast<int>(pieces.size()))]);
    char b[20];
    snprintf(b, sizeof(b), i ? "%X\r\n" : "%04x\r\n", static_cast<unsigned>(chunks.back().size()));
    wire += b + chunks.back() + "\r\n";
    all += chunks.back();
  }
  wire = "HTTP/1.1 200 OK\r\nX-A: 1\r\nTransfer-Encoding: chunked\r\n\r\n" + wire + "0\r\n\r\n";
  Script(wire, en::Flip() ? fakenet::End::Eof : fakenet::End::Block, en::Choose(2) ? 1 : static_cast<size_t>(-1));
  std::vector<string> lines, expected_lines;
  string l;
  for (char c : all) {
    if (c == '\n') { expected_lines.push_back(l); l.clear(); } else l += c;
  }
  if (!l.empty()) expected_lines.push_back(l);
  std::vector<string> got_chunks;
  std::vector<std::pair<string, string>> headers;
  int done = 0;
  bool after_done = false;
  static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const int order = en::Choose(6);
  const int mask = en::Choose(8);  // The chunks, the lines, and the end.
  const bool post = en::Flip(), temporary = en::Flip();
  const auto on_chunk = [&](const string& s) { got_chunks.push_back(s); if (done) after_done = true; };
  const auto on_line = [&](const string& s) { lines.push_back(s); };
  const auto on_done = [&]() { ++done; };
  const auto on_header = [&](const string& k, const string& v) { headers.emplace_back(k, v); };
  int code = 0;
  const auto set = [&](auto& r) {
    r.OnHeader(on_header);
    for (int i = 0; i < 3; ++i) {
      const int what = orders[order][i];
      if (!(mask & (1 << what))) continue;
      if (what == 0) r.OnChunk(on_chunk);
      if (what == 1) r.OnLine(on_line);
      if (what == 2) r.OnDone(on_done);
    }
  };
  static_cast<void>(temporary);
  try {
    if (post) {
      ChunkedPOST r("http://h:81/x?y=z", "the body", "t/t");
      set(r);
      code = static_cast<int>(HTTP(r));
    } else {
      ChunkedGET r("http://h:81/x?y=z");
      set(r);
      code = static_cast<int>(HTTP(r));
    }
  } catch (const current::Exception& e) {
    en::Violation("chunked-exception", e.what());
  }
  Sure(code == 200, "chunked-code", std::to_string(code));
  Sure(got_chunks == (mask & 1 ? chunks : std::vector<string>()), "chunked-chunks", std::to_string(got_chunks.size()));
  Sure(lines == (mask & 2 ? expected_lines : std::vector<string>()), "chunked-lines",
       "got " + std::to_string(lines.size()) + " lines of " + std::to_string(expected_lines.size()) + ", mask " + std::to_string(mask) + ", order " + std::to_string(order));
  Sure(done == (mask & 4 ? 1 : 0) && !after_done, "chunked-done", std::to_string(done));
  Sure(headers == std::vector<std::pair<string, string>>({{"X-A", "1"}, {"Transfer-Encoding", "chunked"}}), "chunked-headers", "");
  Asked q;
  q.kind = post ? POST_ : GET_;
  q.body = "the body";
  q.content_type = "t/t";
  CheckSent(q, g_peers[0].ep->out, "h", "/x?y=z");
  en::Note(Show(wire));
}

EN_SCENARIO(failures, (en::Opts{60})) {
  // A response cut short is an exception, and never a page; so is a connection refused.
  Session session;
  Asked q;
  q.kind = en::Pick(std::vector<int>{GET_, POST_});
  q.body = "body";
  const string whole = "HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello";
  const int cut = en::Choose(static_cast<int>(whole.size()) + 2);
  q.url = "http://h:81/x";
  const bool refused = cut == static_cast<int>(whole.size()) + 1;
  if (!refused) Script(whole.substr(0, cut), en::Flip() ? fakenet::End::Eof : fakenet::End::Reset);
  const bool to_file = en::Flip();
  const string file = en::TmpDir() + "/response";
  std::ofstream(file) << "before";
  bool thrown = false;
  string body;
  try {
    if (to_file) {
      Ask(q, current::http::SaveResponseToFile(file));
    } else {
      body = Ask(q, current::http::KeepResponseInMemory()).body;
    }
  } catch (const current::Exception&) {
    thrown = true;
  }
  en::Note(std::to_string(cut));
  const bool complete = cut == static_cast<int>(whole.size());
  Sure(thrown == !complete, thrown ? "failed" : "cut-accepted", body);
  std::ifstream f(file, std::ios::binary);
  const string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (to_file) Sure(got == (complete ? "hello" : "before"), "cut-written", got);
  else if (complete) Sure(body == "hello", "failures-body", body);
}
