// C08: what a subscription over HTTP returns, for every combination of its parameters over small logs, against a model of
// the documentation of the parameters; then while the stream goes on; and when the client is gone.
#include "stream/stream.h"
#include "blocks/persistence/file.h"

#include "../common/fakenet.h"
#include "../common/httpwire.h"
#include "enum.h"

using current::http::Request;
using std::string;
using us_t = std::chrono::microseconds;

CURRENT_STRUCT(C08A) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(C08A) {}
  CURRENT_CONSTRUCTOR(C08A)(int32_t x) : x(x) {}
};
CURRENT_STRUCT(C08B) {
  CURRENT_FIELD(s, std::string);
  CURRENT_DEFAULT_CONSTRUCTOR(C08B) {}
  CURRENT_CONSTRUCTOR(C08B)(std::string s) : s(std::move(s)) {}
};
CURRENT_VARIANT(C08Entry, C08A, C08B);

namespace {

constexpr long long kNow = 1000;
using Memory = current::stream::Stream<C08Entry, current::persistence::Memory>;
using File = current::stream::Stream<C08Entry, current::persistence::File>;

C08Entry EntryAt(size_t i) {
  if (i % 2) return C08Entry(C08B(string(i, 'b')));
  return C08Entry(C08A(static_cast<int32_t>(i)));
}

fakenet::ep_t NewClient(const string& method, const string& target) {
  auto e = std::make_shared<fakenet::Endpoint>();
  e->in = method + " " + target + " HTTP/1.1\r\n" + (method == "POST" || method == "PUT" || method == "PATCH" ? "Content-Length: 0\r\n\r\n" : "\r\n");
  return e;
}
Request RequestOf(const fakenet::ep_t& e) {
  return Request(std::make_unique<current::net::HTTPServerConnection>(
      current::net::Connection(current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Open(e))),
                               current::net::IPAndPort("127.0.0.1", 1),
                               current::net::IPAndPort("127.0.0.1", 2))));
}
template <class F>
bool WaitFor(F f) {
  std::unique_lock<std::mutex> lock(fakenet::N().m);
  return fakenet::N().cv.wait_for(lock, std::chrono::seconds(10), f);
}

// What is on the wire so far: the body decoded as far as it goes.
string Body(const string& out, bool& finished, bool& bad) {
  finished = bad = false;
  string body;
  size_t at = out.find("\r\n\r\n");
  if (at == string::npos) return "";
  for (at += 4; at < out.size();) {
    const size_t e = out.find("\r\n", at);
    if (e == string::npos) break;
    char* end = nullptr;
    const size_t n = strtoul(out.c_str() + at, &end, 16);
    if (end != out.c_str() + e) {
      bad = true;
      break;
    }
    if (out.size() < e + 2 + n + 2) break;
    if (!n) {
      finished = true;
      bad = e + 4 != out.size();
      break;
    }
    body += out.substr(e + 2, n);
    at = e + 2 + n + 2;
  }
  return body;
}

struct Params {
  long long i = -1, since = -1, recent = -1, tail = -1, n = -1, period = -1, stop = -1;
  bool nowait = false, array = false, entries_only = false, checked = false;
  int json = 0;
  string Url() const {
    string r;
    const auto add = [&r](const string& s) { r += (r.empty() ? "/?" : "&") + s; };
    const auto num = [&add](const char* name, long long v) {
      if (v >= 0) add(name + ("=" + std::to_string(v)));
    };
    num("i", i), num("since", since), num("recent", recent), num("tail", tail), num("n", n), num("period", period), num("stop_after_bytes", stop);
    if (nowait) add("nowait");
    if (array) add("array");
    if (entries_only) add("entries_only");
    if (checked) add("checked");
    if (json == 1) add("json=minimalistic");
    if (json == 2) add("json=js");
    if (json == 3) add("json=fs");
    return r.empty() ? "/" : r;
  }
};

// The documentation of the parameters, as an automaton fed with what happens to the stream.
struct Model {
  struct Rec {
    long long us;
  };
  const Params p;
  std::vector<Rec> log;
  long long head;
  bool no_content = false, done = false, started = false;
  size_t begin = 0, next = 0;
  long long from = 0, to = -1, left = 0, shown_head = -1;
  size_t bytes = 0;
  string body;

  template <class J>
  static string EntryJson(size_t i) {
    return JSON<J>(EntryAt(i));
  }
  string Layout(size_t i) const {
    string entry, idxts;
    const idxts_t x(i, us_t(log[i].us));
    if (p.json == 0) entry = JSON(EntryAt(i)), idxts = JSON(x);
    if (p.json == 1) entry = JSON<JSONFormat::Minimalistic>(EntryAt(i)), idxts = JSON<JSONFormat::Minimalistic>(x);
    if (p.json == 2) entry = JSON<JSONFormat::JavaScript>(EntryAt(i)), idxts = JSON<JSONFormat::JavaScript>(x);
    if (p.json == 3) entry = JSON<JSONFormat::NewtonsoftFSharp>(EntryAt(i)), idxts = JSON<JSONFormat::NewtonsoftFSharp>(x);
    return (p.entries_only || p.array ? entry : idxts + '\t' + entry) + '\n';
  }
  Model(const Params& p, const std::vector<Rec>& log, long long head) : p(p), log(log), head(head) {
    const long long size = static_cast<long long>(log.size());
    if (p.since > 0) from = p.since;
    if (p.recent > 0) from = std::max(from, kNow - p.recent);
    long long b = std::max(p.i, 0ll);
    if (p.tail == 0) b = std::max(b, size);
    if (p.tail > 0) b = std::max(b, size - std::min(p.tail, size));
    if (from > 0)
      while (b < size && log[static_cast<size_t>(b)].us < from) ++b;
    next = begin = static_cast<size_t>(b);
    if (p.nowait && b >= size) {
      no_content = true;
      return;
    }
    left = p.n > 0 ? p.n : -1;
    Run();
    if (!done && next <= log.size() && head > std::max(shown_head, from - 1) && (started || next == log.size())) Head();
  }
  void Finish() {
    done = true;
    if (p.array) body += started ? "]\n" : "[]\n";
  }
  void Run() {
    while (!done && next < log.size()) {
      const Rec& r = log[next];
      if (r.us < from) {
        ++next;
        continue;
      }
      if (p.period > 0 && to < 0) to = r.us + p.period;
      if (to >= 0 && r.us > to) return Finish();
      const string s = Layout(next);
      if (p.array) body += started ? ",\n" : "[\n";
      started = true;
      body += s;
      bytes += s.size();
      shown_head = r.us;
      if (p.stop > 0 && bytes >= static_cast<size_t>(p.stop)) return Finish();
      if (left > 0 && !--left) return Finish();
      if (p.nowait && next + 1 == log.size()) return Finish();
      ++next;
    }
  }
  void Head() {
    shown_head = head;
    if (p.period > 0 && to < 0) to = head + p.period;
    if (to >= 0 && head > to) return Finish();
    if (!p.array && !p.entries_only) body += "{\"us\":" + std::to_string(head) + "}\n";
  }
  void Publish(long long us) {
    log.push_back({us});
    head = us;
    if (!done) Run();
  }
  void UpdateHead(long long us) {
    head = us;
    if (!done && started) Head();
  }
  void Terminate() {
    if (done) return;
    const string message = "{\"error\":\"The subscriber has terminated.\"}\n";
    body += p.array && started ? ",\n" + message + "]\n" : message;
  }
};

template <class STREAM>
struct World {
  std::unique_ptr<current::Owned<STREAM>> owned;
  STREAM* stream;
  std::vector<Model::Rec> log;
  long long head = -1;
  template <class... A>
  explicit World(A&&... a) : owned(std::make_unique<current::Owned<STREAM>>(STREAM::CreateStream(std::forward<A>(a)...))), stream(&**owned) {}
  void Publish(long long us) {
    stream->Publisher()->Publish(EntryAt(log.size()), us_t(us));
    log.push_back({us});
    head = us;
  }
  void UpdateHead(long long us) {
    stream->Publisher()->UpdateHead(us_t(us));
    head = us;
  }
};

string Received(const fakenet::ep_t& e) {
  std::lock_guard<std::mutex> lock(fakenet::N().m);
  return e->out;
}
string HeaderOf(const string& out, const string& name) {
  const size_t i = out.find("\r\n" + name + ": ");
  if (i == string::npos || i > out.find("\r\n\r\n")) return "<none>";
  const size_t b = i + name.size() + 4;
  return out.substr(b, out.find("\r\n", b) - b);
}

// Whether the heads before the first record are reported depends on when the thread of the subscriber looks.
string WithoutLeadingHeads(string s) {
  while (s.compare(0, 6, "{\"us\":") == 0) s = s.substr(s.find('\n') + 1);
  return s;
}

// Checks what the client has received against the model; `final`: there is nothing more to come.
void Compare(const fakenet::ep_t& e, const Model& m, const char* when) {
  const bool closed = m.done || m.no_content;
  string got;
  const string expected = WithoutLeadingHeads(m.body);
  bool finished = false, bad = false;
  const bool in_time = WaitFor([&]() {
    if (m.no_content) return e->closed;
    got = WithoutLeadingHeads(Body(e->out, finished, bad));
    return closed ? e->closed : got.size() >= expected.size() || e->closed;
  });
  std::lock_guard<std::mutex> lock(fakenet::N().m);
  const auto what = [&](const string& s) { return s + " " + when + "; expected " + (m.no_content ? "204" : expected) + (m.done ? "<end>" : "") + " received " + e->out; };
  if (m.no_content) {
    if (!in_time || e->out.compare(0, 12, "HTTP/1.1 204")) en::Violation("expected-no-content", what("no 204"));
    return;
  }
  if (e->out.compare(0, 12, "HTTP/1.1 200")) en::Violation("wrong-status", what("no 200"));
  if (bad) en::Violation("broken-framing", what("framing"));
  if (got != expected) en::Violation(in_time ? "wrong-entries" : "entries-missing", what("body"));
  if (closed && !in_time) en::Violation("not-ended", what("end"));
  if (closed && !finished) en::Violation("not-ended-properly", what("zero chunk"));
  if (!closed && (finished || e->closed)) en::Violation("ended-early", what("open"));
}

const std::vector<long long> kI = {-1, 0, 1, 2, 3, 4}, kSince = {-1, 100, 101, 300, 301, 450}, kRecent = {-1, 700, 699, 2000}, kTail = {-1, 0, 1, 2, 9};

template <class W>
void OneRequest(W& w, const Params& p, bool follow) {
  en::Note(p.Url());
  const auto e = NewClient("GET", p.Url());
  Model m(p, w.log, w.head);
  (*w.stream)(RequestOf(e));
  en::Transition();
  Compare(e, m, "at first");
  if (!m.no_content) {
    std::lock_guard<std::mutex> lock(fakenet::N().m);
    EN_CHECK_EQ(HeaderOf(e->out, "X-Current-Stream-Size"), std::to_string(w.log.size()), "wrong-size-header");
  }
  if (!follow && !m.no_content && !m.done) {
    // Through the `terminate` parameter, or by destroying the stream, which the follow-ups do.
    string id;
    {
      std::lock_guard<std::mutex> lock(fakenet::N().m);
      id = HeaderOf(e->out, "X-Current-Stream-Subscription-Id");
    }
    const auto t = NewClient("GET", "/?terminate=" + id);
    (*w.stream)(RequestOf(t));
    EN_CHECK_EQ(t->out.substr(0, 12), string("HTTP/1.1 200"), "terminate-failed");
    m.Terminate();
    m.done = true;
    Compare(e, m, "once terminated");
  }
  if (follow) {
    // A period that begins with no record to begin with: likewise.
    if (p.period > 0 && !m.started) en::Skip();
    long long us = std::max<long long>(w.head, 0) + 100;
    const int n = en::Thorough() ? 3 : 2;
    for (int k = 0; k < n && !m.no_content && !m.done; ++k) {
      const int what = en::Choose(3);
      if (what == 0) break;
      en::Transition();
      if (what == 1) {
        en::Note("publish " + std::to_string(us));
        w.Publish(us);
        m.Publish(us);
      } else {
        // Whether the heads before the first record are reported depends on when the thread of the subscriber looks.
        if (!m.started) en::Skip();
        en::Note("head " + std::to_string(us));
        w.UpdateHead(us);
        m.UpdateHead(us);
      }
      us += 75;
      Compare(e, m, "as it goes");
    }
    if (!m.no_content) {
      w.owned = nullptr;
      m.Terminate();
      m.done = true;
      Compare(e, m, "once the stream is gone");
    }
  }
}

void MakeLog(const std::function<void(long long)>& publish, const std::function<void(long long)>& head, int which) {
  const std::vector<std::vector<long long>> logs = {{100, 200, 300}, {}, {300}, {100, 101, 300, 301}, {300, -350}, {-200}};
  for (long long us : logs[static_cast<size_t>(which)]) us > 0 ? publish(us) : head(-us);
}
constexpr int kLogs = 6;

}  // namespace

// Every combination of the left boundaries, with some of the rest, on streams that are at rest.
EN_SCENARIO(left_boundary) {
  current::time::ResetToZero();
  current::time::SetNow(us_t(kNow), us_t(kNow + 1));
  static std::unique_ptr<World<Memory>> worlds[kLogs];
  const int which = en::Choose(kLogs);
  auto& w = worlds[which];
  if (!w) {
    w = std::make_unique<World<Memory>>();
    MakeLog([&](long long us) { w->Publish(us); }, [&](long long us) { w->UpdateHead(us); }, which);
  }
  Params p;
  p.i = en::Pick(kI);
  p.since = en::Pick(kSince);
  p.recent = en::Pick(kRecent);
  p.tail = en::Pick(kTail);
  const int rest = en::Choose(en::Thorough() ? 6 : 4);
  if (rest == 1 || rest == 3) p.n = 1;
  if (rest == 2 || rest == 5) p.period = 100;
  p.nowait = rest == 0 || rest == 3;
  p.checked = en::Flip();
  en::State(p.Url() + "#" + std::to_string(which));
  OneRequest(*w, p, false);
}

// Every combination of the right boundaries and of the layouts.
EN_SCENARIO(right_boundary) {
  current::time::ResetToZero();
  current::time::SetNow(us_t(kNow), us_t(kNow + 1));
  static std::unique_ptr<World<Memory>> worlds[kLogs];
  const int which = en::Choose(kLogs);
  auto& w = worlds[which];
  if (!w) {
    w = std::make_unique<World<Memory>>();
    MakeLog([&](long long us) { w->Publish(us); }, [&](long long us) { w->UpdateHead(us); }, which);
  }
  Params p;
  const int left = en::Choose(5);
  if (left == 1) p.i = 1;
  if (left == 2) p.since = 101;
  if (left == 3) p.tail = 2;
  if (left == 4) p.recent = 700;
  using v_t = std::vector<long long>;
  p.n = en::Pick(en::Thorough() ? v_t{-1, 0, 1, 2, 5} : v_t{-1, 1, 2});
  p.period = en::Pick(en::Thorough() ? v_t{-1, 1, 99, 100, 200, 1000} : v_t{-1, 99, 100, 200});
  p.stop = en::Pick(en::Thorough() ? v_t{-1, 1, 45, 80, 100000} : v_t{-1, 45, 80});
  p.nowait = en::Flip();
  const int layout = en::Choose(3);
  p.array = layout == 1;
  p.entries_only = layout == 2;
  p.json = en::Choose(4);
  if (p.json && (left || !en::Thorough()) && left != 1) en::Skip();
  p.checked = en::Flip();
  en::State(p.Url() + "#" + std::to_string(which));
  OneRequest(*w, p, false);
}

// The stream goes on, and is then destroyed.
template <class STREAM, class... A>
void Follow(A&&... a) {
  current::time::ResetToZero();
  current::time::SetNow(us_t(kNow), us_t(kNow + 1));
  const int which = en::Choose(kLogs);
  Params p;
  const int left = en::Choose(9);
  if (left == 1) p.i = 2;
  if (left == 2) p.since = 301;
  if (left == 3) p.tail = 1;
  if (left == 4) p.tail = 0;
  if (left == 5) p.recent = 700;
  if (left == 6) p.i = 4, p.since = 101;
  if (left == 7) p.i = 4, p.tail = 0;
  if (left == 8) p.since = 101, p.recent = 550;
  const int right = en::Choose(5);
  if (right == 1) p.n = 3;
  if (right == 2) p.period = 120;
  if (right == 3) p.stop = 70;
  if (right == 4) p.nowait = true;
  const int layout = en::Choose(3);
  p.array = layout == 1;
  p.entries_only = layout == 2;
  if (en::Thorough()) p.json = en::Choose(3);
  p.checked = en::Flip();
  World<STREAM> w(std::forward<A>(a)...);
  MakeLog([&](long long us) { w.Publish(us); }, [&](long long us) { w.UpdateHead(us); }, which);
  en::State(p.Url() + "#" + std::to_string(which));
  OneRequest(w, p, true);
}
EN_SCENARIO(follow) { Follow<Memory>(); }
EN_SCENARIO(follow_file) {
  static int n = 0;
  const string name = en::TmpDir() + "/log" + std::to_string(++n);
  current::FileSystem::RmFile(name, current::FileSystem::RmFileParameters::Silent);
  Follow<File>(name);
  current::FileSystem::RmFile(name, current::FileSystem::RmFileParameters::Silent);
}

// The requests that are not for data, and the ones not allowed.
EN_SCENARIO(special) {
  current::time::ResetToZero();
  current::time::SetNow(us_t(kNow), us_t(kNow + 1));
  const int which = en::Choose(kLogs);
  World<Memory> w;
  MakeLog([&](long long us) { w.Publish(us); }, [&](long long us) { w.UpdateHead(us); }, which);
  const string size = std::to_string(w.log.size());
  const string method = en::Pick(std::vector<string>{"GET", "HEAD", "POST", "PUT", "PATCH", "DELETE"});
  const string extra = en::Pick(std::vector<string>{"", "&i=1", "&nowait", "&array", "&since=200", "&tail=1", "&checked", "&n=0"});
  const string query = en::Pick(std::vector<string>{"sizeonly", "schema", "schema=simple", "schema=h", "schema=nope", "terminate=nope", "terminate", "json=nope", "n=1"});
  if (method == "GET" && query == "n=1" && (w.log.empty() || extra == "&tail=1" || extra == "&i=1")) en::Skip();  // may wait
  const auto e = NewClient(method, "/?" + query + extra);
  en::Note(method + " " + query + extra);
  (*w.stream)(RequestOf(e));
  EN_CHECK(WaitFor([&]() { return e->closed; }), "no-answer");
  const string status = e->out.substr(9, 3);
  if (query == "json=nope") {
    EN_CHECK_EQ(status, string("404"), "wrong-status");
  } else if (method != "GET" && method != "HEAD") {
    EN_CHECK_EQ(status, string("405"), "wrong-status");
  } else if (query == "terminate=nope" || query == "terminate") {
    EN_CHECK_EQ(status, string("404"), "wrong-status");
  } else if (method == "HEAD" || query == "sizeonly") {
    EN_CHECK_EQ(status, string("200"), "wrong-status");
    EN_CHECK_EQ(HeaderOf(e->out, "X-Current-Stream-Size"), size, "wrong-size-header");
    const string body = e->out.substr(e->out.find("\r\n\r\n") + 4);
    EN_CHECK_EQ(body, method == "HEAD" ? string() : size + "\n", "wrong-size");
  } else if (query.compare(0, 6, "schema") == 0) {
    EN_CHECK_EQ(status, string(query == "schema=nope" ? "404" : "200"), "wrong-status");
  }
  // Nothing of this changes the stream.
  EN_CHECK_EQ(w.stream->Data()->Size(), w.log.size(), "stream-changed");
}

// The connection breaks after any number of bytes: the stream and its other subscribers do not notice.
EN_SCENARIO(broken_connection) {
  current::time::ResetToZero();
  current::time::SetNow(us_t(kNow), us_t(kNow + 1));
  Params p;
  const int layout = en::Choose(3);
  p.array = layout == 1;
  p.entries_only = layout == 2;
  p.checked = en::Flip();
  const int right = en::Choose(3);
  if (right == 1) p.n = 2;
  if (right == 2) p.nowait = true;
  const int then = en::Choose(5);  // what happens after it is broken
  const int at = en::Choose(en::Thorough() ? 90 : 30);
  World<Memory> w;
  w.Publish(100);
  w.Publish(200);
  const auto e = NewClient("GET", p.Url());
  // Sending starts to fail within the headers or later on.
  size_t headers = 330;
  {
    const auto probe = NewClient("GET", "/?nowait");
    (*w.stream)(RequestOf(probe));
    EN_CHECK(WaitFor([&]() { return probe->closed; }), "no-answer");
    headers = probe->out.find("\r\n\r\n") + 4;
  }
  e->fail_send_after = static_cast<long>(headers) - 5 + at * (en::Thorough() ? 3 : 8);
  bool refused = false;
  try {
    (*w.stream)(RequestOf(e));
  } catch (const current::Exception&) {
    refused = true;  // within the headers: this is what the HTTP server catches
  }
  if (refused) EN_CHECK(e->fail_send_after <= static_cast<long>(headers), "exception-out-of-the-handler");
  Params all;
  const auto other = NewClient("GET", all.Url());
  Model m(all, w.log, w.head);
  (*w.stream)(RequestOf(other));
  Compare(other, m, "at first");
  if (then == 1 || then == 3) {
    w.Publish(300);
    m.Publish(300);
    Compare(other, m, "as it goes");
  }
  if (then == 2 || then == 3) {
    w.UpdateHead(400);
    m.UpdateHead(400);
    Compare(other, m, "as it goes");
  }
  if (then == 4 && !refused) {
    const auto t = NewClient("GET", "/?terminate=" + HeaderOf(Received(e), "X-Current-Stream-Subscription-Id"));
    (*w.stream)(RequestOf(t));
  }
  w.owned = nullptr;
  m.Terminate();
  m.done = true;
  Compare(other, m, "once the stream is gone");
  EN_CHECK(WaitFor([&]() { return e->closed; }), "not-ended");
}
