// C21: the real parser of HTTP messages against messages whose meaning is known: every cut of the stream into segments, buffer
// sizes, truncations, single byte edits, malformed framing; and the real server and client around it.
#include "blocks/http/api.h"
#include "blocks/http/chunked_response_parser.h"

#include "../common/fakenet.h"
#include "enum.h"
#include "messages.h"

using msgs::Message;
using msgs::Outcome;
using msgs::Parsed;
using std::string;

namespace {

const size_t kMax = current::net::constants::kMaxHTTPPayloadSizeInBytes;

struct Got {
  bool ok = false;
  string error;  // what() of the exception
  Parsed parsed;
  string answer;  // what has been sent to the peer
  bool blocked = false;
  size_t consumed = 0;
};

template <class DATA>
void Extract(const DATA& d, Parsed& p) {
  p.method = d.Method();
  p.path = d.RawPath();
  for (const auto& h : d.headers()) p.headers.emplace_back(h.header, h.value);
  for (const auto& c : d.headers().cookies) p.cookies[c.first] = msgs::Cookie{c.second.value, c.second.params};
  p.has_body = d.BodyBegin() != nullptr;
  p.body = d.Body();
  if (d.Body().size() != d.BodyLength()) en::Violation("body-length", "Body().size() is not BodyLength()");
}

current::net::Connection Connect(const fakenet::ep_t& e) {
  return current::net::Connection(current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Open(e))),
                                  current::net::IPAndPort("127.0.0.1", 1),
                                  current::net::IPAndPort("127.0.0.1", 2));
}

Got Parse(const fakenet::ep_t& e, int buffer, double growth) {
  Got g;
  {
    auto c = Connect(e);
    try {
      current::net::HTTPRequestData d(c, {}, buffer, growth);
      g.ok = true;
      Extract(d, g.parsed);
    } catch (const current::Exception& x) {
      g.error = x.what();
    } catch (const std::exception& x) {
      en::Violation("foreign-exception", string("the parser has thrown an exception that is not Current's: ") + x.what());
    }
  }
  g.answer = e->out;
  g.blocked = e->blocked;
  g.consumed = e->pos;
  return g;
}

string Show(const string& s) {
  string r;
  char b[8];
  for (unsigned char c : s.substr(0, 400)) {
    if (c >= 32 && c < 127 && c != '\\') r += static_cast<char>(c);
    else snprintf(b, sizeof b, c == '\r' ? "\\r" : c == '\n' ? "\\n" : "\\x%02x", c), r += b;
  }
  return r;
}
string Describe(const Parsed& p) {
  string r = p.method + " " + p.path + " {";
  for (const auto& h : p.headers) r += h.first + "=" + h.second + "|";
  r += "} {";
  for (const auto& c : p.cookies) {
    r += c.first + "=" + c.second.value;
    for (const auto& x : c.second.params) r += ";" + x.first + "=" + x.second;
    r += "|";
  }
  return r + "} " + (p.has_body ? "body " : "no body ") + p.body;
}
// Where a difference lies, as the signature.
string Difference(const Parsed& a, const Parsed& b) {
  if (a.method != b.method) return "method";
  if (a.path != b.path) return "path";
  if (a.headers != b.headers) return "headers";
  if (!(a.cookies == b.cookies)) return "cookies";
  if (a.body != b.body) return "body";
  if (a.has_body != b.has_body) return "has-body";
  return "";
}
void ExpectParsed(const Got& g, const Parsed& expected, const string& what) {
  if (!g.ok) en::Violation(g.blocked ? "read-past-end" : "well-formed-refused", what + ": " + (g.blocked ? "reading more than the message, which would block" : "refused with " + g.error));
  if (g.blocked) en::Violation("read-past-end", what + ": an attempt to read past the end of the message, which would block");
  const string d = Difference(g.parsed, expected);
  if (!d.empty()) en::Violation("wrong-" + d, what + ": parsed as `" + Show(Describe(g.parsed)) + "`, expected `" + Show(Describe(expected)) + "`");
}

const std::vector<int> kBuffers = {2, 3, 17, 64, 150, 16 * 1024 + 1};

fakenet::ep_t Scripted(const string& bytes, std::vector<size_t> cuts = {}, fakenet::End end = fakenet::End::Block) {
  auto e = std::make_shared<fakenet::Endpoint>();
  e->in = bytes;
  e->cuts = std::move(cuts);
  e->end = end;
  return e;
}

void Cuts(bool responses) {
  const auto all = msgs::WellFormed(responses);
  const Message& m = en::Pick(all);
  const int buffer = en::Pick(kBuffers);
  const double growth = en::Choose(2) ? 1.0001 : 1.95;
  en::Note(m.name + ", buffer " + std::to_string(buffer) + (growth > 1.5 ? "" : ", slow growth"));
  {
    const auto ref = msgs::Reference(m.bytes, kMax);
    if (ref.outcome != Outcome::Ok || !Difference(ref.parsed, m.expected).empty()) en::Violation("oracle", "the reference parser disagrees with how the message was composed: " + Show(m.bytes));
  }
  const size_t n = m.bytes.size();
  uint64_t count = 0;
  const auto run = [&](std::vector<size_t> cuts, int mode) {
    auto e = Scripted(m.bytes, cuts);
    if (mode == 1) e->short_waitall = true;
    if (mode == 2) e->short_waitall = e->eagain_at_cuts = true;
    ++count;
    string where;
    for (size_t c : cuts) where += (where.empty() ? "cut at " : ", ") + std::to_string(c);
    if (cuts.size() > 3) where = "cut everywhere";
    ExpectParsed(Parse(e, buffer, growth), m.expected, "`" + Show(m.bytes) + "` " + where + (mode == 1 ? " with short reads" : mode == 2 ? " with EAGAIN" : "") + ", buffer " + std::to_string(buffer));
  };
  run({}, 0);
  std::vector<size_t> every;
  for (size_t i = 1; i < n; ++i) every.push_back(i);
  for (int mode = 0; mode < 3; ++mode) {
    run(every, mode);
    for (size_t i = 1; i < n; ++i) run({i}, mode);
  }
  const size_t pairs_up_to = static_cast<size_t>(en::Param("pairs", 70));
  if (n <= pairs_up_to)
    for (size_t i = 1; i < n; ++i)
      for (size_t j = i + 1; j < n; ++j) run({i, j}, 1);
  en::Evaluations(count - 1);
  en::Transition(count);
}

// What a damaged message has to result in.
void Judge(const string& bytes, fakenet::End end, int buffer, const std::vector<size_t>& cuts, bool short_reads = false, int stale = 0) {
  auto e = Scripted(bytes, cuts, end);
  e->short_waitall = short_reads;
  e->stale_errno = stale;
  const Got g = Parse(e, buffer, 1.95);
  const auto ref = msgs::Reference(bytes, kMax);
  if (ref.outcome == Outcome::Unspecified) return;
  const string what = "`" + Show(bytes) + "`, buffer " + std::to_string(buffer);
  if (ref.outcome == Outcome::Error) {
    if (g.ok) en::Violation("malformed-accepted", what + ": accepted as `" + Show(Describe(g.parsed)) + "`");
  } else {
    if (!g.ok) en::Violation("well-formed-refused", what + ": refused with " + g.error);
    const string d = Difference(g.parsed, ref.parsed);
    if (!d.empty()) en::Violation("wrong-" + d, what + ": parsed as `" + Show(Describe(g.parsed)) + "`, expected `" + Show(Describe(ref.parsed)) + "`");
  }
}

const std::vector<string>& Damaged() {
  static const std::vector<string> all = [] {
    std::vector<string> r;
    for (const string& v : {"-1", "-0", "+5", "5 ", " 5", "abc", "5abc", "0x5", "5.0", "5,5", "", "4294967301", "18446744073709551621", "99999999999999999999999999", "2147483648", "00000000000000000000005", "4 4", "\x35\xff"})
      r.push_back("POST /x HTTP/1.1\r\nContent-Length:" + v + "\r\n\r\nhello world");
    for (const string& v : {"-1", "-5", "+5", "5zz", "zz", "g", "0x5", " 5", "5 ", "5\t", ";", ";5", "5;", "5 ;a=b", "100000000", "fffffffff", "ffffffffffffffff", "10000000000000005", "-ffffffff", "80000000", "ffffffff", "5.5", "0x", "0x0", "-0", "\xff", "5\v"})
      for (const string& tail : {"hello\r\n0\r\n\r\n", "hello\r\n6\r\n world\r\n0\r\n\r\n", ""})
        r.push_back("POST /x HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + v + "\r\n" + tail);
    for (const string& s : {"", "\r\n", "\r\n\r\n\r\n", "GET\r\n\r\n", " \r\n\r\n", "GET /\r\n\r\n", "GET http://h:99999999999999999999/ HTTP/1.1\r\n\r\n", "GET http://h:x/ HTTP/1.1\r\n\r\n", "GET ?#?# HTTP/1.1\r\n\r\n",
                            "GET // HTTP/1.1\r\n\r\n", "GET :/:/: HTTP/1.1\r\n\r\n", "GET /%%%g HTTP/1.1\r\n\r\n", "GET /%f HTTP/1.1\r\n\r\n", "GET \xff\xfe HTTP/1.1\r\n\r\n", "GET http:// HTTP/1.1\r\n\r\n", "GET @ HTTP/1.1\r\n\r\n", "GET /?=&=&&a&=b HTTP/1.1\r\n\r\n",
                            "GET / HTTP/1.1\r\n:v\r\n: \r\n:\r\n\r\n", "GET / HTTP/1.1\r\nCookie:\r\nCookie: ;;;\r\nCookie: =\r\nCookie: =x\r\nCookie: a\r\n\r\n", "GET / HTTP/1.1\nHost: h\n\n", "GET / HTTP/1.1\r\rHost: h\r\r",
                            "HEAD http://\xff:\xff@\xff/ HTTP/1.1\r\n\r\n", "GET mailto:x HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\n\r\n", "PUT / HTTP/1.1\r\nContent-Type: x\r\n\r\nbody", "POST / HTTP/1.1\r\nContent-Length: 5\r\nX-HTTP-Method-Override:\r\n\r\nhello"})
      r.push_back(s);
    return r;
  }();
  return all;
}

}  // namespace

EN_SCENARIO(request_cuts, (en::Opts{60})) { Cuts(false); }
EN_SCENARIO(response_cuts, (en::Opts{60})) { Cuts(true); }

// Every truncation of every message is either still a complete message, or an exception.
EN_SCENARIO(truncated, (en::Opts{60})) {
  const auto all = msgs::WellFormed(en::Flip());
  const Message& m = en::Pick(all);
  en::Note(m.name);
  uint64_t count = 0;
  for (size_t n = 0; n < m.bytes.size(); ++n)
    for (int end = 0; end < 2; ++end)
      for (int buffer : {2, 17, 16 * 1024 + 1})
        for (size_t cut = 0; cut < 2; ++cut)
          for (int stale : {0, EAGAIN, ECONNRESET}) {
            Judge(m.bytes.substr(0, n), end ? fakenet::End::Reset : fakenet::End::Eof, buffer, cut && n > 1 ? std::vector<size_t>{n / 2} : std::vector<size_t>(), cut != 0, stale);
            ++count;
          }
  en::Evaluations(count - 1);
  en::Transition(count);
}

// Every replacement, insertion and deletion of a single byte.
EN_SCENARIO(edited, (en::Opts{60})) {
  const auto all = msgs::WellFormed(en::Flip());
  const Message& m = en::Pick(all);
  const int buffer = en::Flip() ? 17 : 16 * 1024 + 1;
  en::Note(m.name);
  uint64_t count = 0;
  const string alphabet("\0\r\n \t:;-+_09afFgx%=\x7f\x80\xff", 22);
  for (size_t i = 0; i <= m.bytes.size(); ++i) {
    if (i < m.bytes.size()) {
      string s = m.bytes;
      s.erase(i, 1);
      Judge(s, fakenet::End::Eof, buffer, {});
      ++count;
    }
    for (char c : alphabet) {
      string s = m.bytes;
      if (i < s.size()) {
        s[i] = c;
        Judge(s, fakenet::End::Eof, buffer, {});
        ++count;
      }
      s = m.bytes;
      s.insert(i, 1, c);
      Judge(s, fakenet::End::Eof, buffer, {});
      ++count;
    }
  }
  en::Evaluations(count - 1);
  en::Transition(count);
}

EN_SCENARIO(malformed, (en::Opts{60})) {
  const string& s = en::Pick(Damaged());
  en::Note(Show(s));
  uint64_t count = 0;
  for (int buffer : kBuffers)
    for (size_t cut = 0; cut < s.size(); ++cut) {
      Judge(s, fakenet::End::Eof, buffer, cut ? std::vector<size_t>{cut} : std::vector<size_t>(), true);
      ++count;
    }
  if (count) en::Evaluations(count - 1);
}

// The payload limit, to the byte.
EN_SCENARIO(oversized) {
  const long d = static_cast<long>(en::Choose(5)) - 2;
  const string body(static_cast<size_t>(static_cast<long>(kMax) + d), 'b');
  const string head = "POST /x HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n";
  auto e = Scripted(head + body, {}, fakenet::End::Block);
  const Got g = Parse(e, 17, 1.95);
  if (d > 0) {
    EN_CHECK(!g.ok, "oversized-accepted");
    EN_CHECK(g.answer.find("HTTP/1.1 413 ") == 0, "oversized-answer");
  } else {
    EN_CHECK(g.ok && g.parsed.body == body, "limit");
  }
}

// The server carries on after anything: the next good request is answered.
EN_SCENARIO(server_survives, (en::Opts{60})) {
  using namespace current::http;
  static std::string last;
  static HTTPServerPOSIX* server = nullptr;
  static std::vector<HTTPServerPOSIX::HTTPRoutesScope>* scopes = nullptr;
  const uint16_t port = 5;
  if (!server) {
    const int fd = fakenet::Listening(port);
    server = new HTTPServerPOSIX(current::net::ReservedLocalPort(
        current::net::ReservedLocalPort::Construct(), port, current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fd))));
    scopes = new std::vector<HTTPServerPOSIX::HTTPRoutesScope>();
    scopes->push_back(server->Register("/", URLPathArgs::CountMask::Any, [](Request r) {
      std::string args;
      for (const auto& a : r.url_path_args) args += "/" + a;
      last = r.method + " " + args + " " + r.body;
      if (r.url.query.get("boom", "") == "1") CURRENT_THROW(current::Exception("boom"));
      r("ok:" + args + ":" + r.body, HTTPResponseCode.OK);
    }));
  }
  std::vector<string> bad = Damaged();
  bad.push_back("GET /?boom=1 HTTP/1.1\r\n\r\n");
  bad.push_back("GET /a HTTP/1.1\r\nA: b");
  string deep = "GET ";
  for (int i = 0; i < 40; ++i) deep += "/x";
  bad.push_back(deep + " HTTP/1.1\r\n\r\n");
  bad.push_back("GET /" + string(40000, 'p') + " HTTP/1.1\r\n\r\n");
  bad.push_back("POST /?boom=0 HTTP/1.1\r\nContent-Length: " + std::to_string(kMax + 1) + "\r\n\r\n");
  bad.push_back("GET /good HTTP/1.1\r\n\r\n");
  const string& s = en::Pick(bad);
  const bool reset = en::Flip();
  const int fail = en::Choose(3);  // The client is not there to read the response: at all, or after some of it.
  en::Note(Show(s.substr(0, 200)));
  auto e = Scripted(s, {}, reset ? fakenet::End::Reset : fakenet::End::Eof);
  if (fail) e->fail_send_after = fail == 1 ? 0 : 150;
  fakenet::Push(port, e);
  fakenet::WaitClosed(e);
  if (!fail) {
    const auto ref = msgs::Reference(s, kMax);
    if (ref.outcome == Outcome::Ok && e->out.compare(0, 9, "HTTP/1.1 ")) en::Violation("no-answer", "a well-formed request has no answer: " + Show(s));
    if (ref.outcome == Outcome::Error && e->out.compare(0, 12, "HTTP/1.1 200") == 0) en::Violation("malformed-accepted", "a malformed request is answered with 200: " + Show(s));
  }
  auto good = Scripted("POST /alive HTTP/1.1\r\nContent-Length: 4\r\n\r\nbody", {20}, fakenet::End::Block);
  fakenet::Push(port, good);
  fakenet::WaitClosed(good);
  EN_CHECK(good->out.find("HTTP/1.1 200 ") == 0 && good->out.find("ok:/alive:body") != string::npos, "server-after-bad-request");
  EN_CHECK(!good->blocked, "read-past-end");
}

// The receiver of chunks one by one gets exactly the chunks, and each of them before anything after it is waited for.
EN_SCENARIO(chunk_by_chunk, (en::Opts{60})) {
  const std::vector<std::vector<string>> sets = {{}, {"a"}, {"hello\r\n", "0\r\n"}, {string("\0\r\n\r\n", 5), string(300, 'q'), "z"}, {"x", "y", "z", string(17, 'w')}};
  const auto& chunks = en::Pick(sets);
  const int buffer = en::Pick(kBuffers);
  string bytes = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nA: b\r\n\r\n";
  std::vector<size_t> ends;
  for (const string& c : chunks) {
    bytes += msgs::Hex(c.size(), true) + "\r\n" + c;
    ends.push_back(bytes.size());
    bytes += "\r\n";
  }
  const size_t done_at = bytes.size() + 3;
  bytes += "0\r\n\r\n";
  uint64_t count = 0;
  const auto run = [&](std::vector<size_t> cuts, bool short_reads) {
    ++count;
    auto e = Scripted(bytes, cuts);
    e->short_waitall = short_reads;
    auto c = Connect(e);
    std::vector<string> got;
    std::vector<size_t> when;
    size_t done_when = 0;
    std::map<string, string> headers;
    ChunkByChunkHTTPResponseReceiver::ConstructionParams params([&](const string& k, const string& v) { headers[k] = v; },
                                                               [&](const string& s) {
                                                                 got.push_back(s);
                                                                 when.push_back(e->pos);
                                                               },
                                                               [&] { done_when = e->pos; });
    try {
      current::net::GenericHTTPRequestData<ChunkByChunkHTTPResponseReceiver> d(c, params, buffer, 1.95);
    } catch (const current::Exception& x) {
      en::Violation(e->blocked ? "read-past-end" : "well-formed-refused", string("chunks refused: ") + x.what());
    }
    EN_CHECK(got == chunks, "chunks");
    EN_CHECK(headers.size() == 2 && headers["A"] == "b", "chunk-headers");
    EN_CHECK(done_when != 0 && !e->blocked, "chunks-done");
    // A chunk is delivered with no more read than the segment in which it ends.
    const auto segment_end = [&](size_t x) {
      for (size_t k : cuts)
        if (k >= x) return k;
      return bytes.size();
    };
    for (size_t i = 0; i < when.size(); ++i) EN_CHECK(when[i] <= segment_end(ends[i]), "chunk-late");
    EN_CHECK(done_when <= segment_end(done_at), "done-late");
  };
  run({}, false);
  for (size_t i = 1; i < bytes.size(); ++i) {
    run({i}, false);
    run({i}, true);
    for (size_t j = i + 1; j < bytes.size() && bytes.size() < 120; ++j) run({i, j}, false);
  }
  en::Evaluations(count - 1);
}

// The same through the real client: redirects are followed however the header is spelled.
namespace {
std::vector<fakenet::ep_t> g_peers;
size_t g_next_peer;
fakenet::ep_t NextPeer(const string&, uint16_t) { return g_next_peer < g_peers.size() ? g_peers[g_next_peer++] : nullptr; }
}  // namespace

EN_SCENARIO(client, (en::Opts{60})) {
  fakenet::N().on_connect = NextPeer;
  struct Off {
    ~Off() { fakenet::N().on_connect = nullptr; }
  } off;
  g_peers.clear();
  g_next_peer = 0;
  const std::vector<string> spellings = {"Location", "location", "LOCATION"};
  const int redirects = en::Choose(3);
  string expected_url = "http://h:81/start";
  for (int i = 0; i < redirects; ++i) {
    const string to = "/r" + std::to_string(i);
    g_peers.push_back(Scripted("HTTP/1.1 302 Found\r\n" + en::Pick(spellings) + ": " + to + "\r\nContent-Length: 0\r\n\r\n"));
    expected_url = "http://h:81" + to;
  }
  const auto all = msgs::WellFormed(true);
  const Message& m = en::Pick(all);
  const size_t step = static_cast<size_t>(en::Choose(3)) * 9 + 1;
  std::vector<size_t> cuts;
  for (size_t i = step; i < m.bytes.size(); i += step) cuts.push_back(i);
  g_peers.push_back(Scripted(m.bytes, cuts));
  en::Note(m.name);
  try {
    const auto r = HTTP(GET("http://h:81/start").AllowRedirects());
    EN_CHECK_EQ(static_cast<int>(r.code), std::stoi(m.expected.path), "client-code");
    EN_CHECK_EQ(r.body, m.expected.body, "client-body");
    EN_CHECK_EQ(r.url, expected_url, "client-url");
    EN_CHECK_EQ(r.headers.size(), m.expected.headers.size(), "client-headers");
    EN_CHECK_EQ(g_next_peer, g_peers.size(), "client-requests");
  } catch (const current::Exception& e) {
    en::Violation("client-exception", e.what());
  }
  for (int i = 0; i <= redirects; ++i) {
    const auto ref = msgs::Reference(g_peers[i]->out, kMax);
    EN_CHECK(ref.outcome == Outcome::Ok, "client-request-malformed");
    EN_CHECK_EQ(ref.parsed.path, i ? "/r" + std::to_string(i - 1) : string("/start"), "client-request-path");
  }
}
