// C08: a subscription over HTTP while the stream lives on: every schedule (bounded) of the thread of the subscription, the
// publisher, the termination on request, the client that goes away, and the destruction of the stream.
#define FAKENET_SCHED
#include "mc.h"

#include "stream/stream.h"

#include "../common/fakenet.h"

// The identifiers of the subscriptions must not differ from one execution to another.
std::random_device::result_type std::random_device::_M_getval() {
  static result_type n = 0;
  return ++n;
}

using current::http::Request;
using std::string;
using us_t = std::chrono::microseconds;

CURRENT_STRUCT(C08Record) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(C08Record) {}
  CURRENT_CONSTRUCTOR(C08Record)(int32_t x) : x(x) {}
};

namespace {

using Stream = current::stream::Stream<C08Record, current::persistence::Memory>;

fakenet::ep_t NewClient(const string& target) {
  auto e = std::make_shared<fakenet::Endpoint>();
  e->in = "GET " + target + " HTTP/1.1\r\n\r\n";
  return e;
}
Request RequestOf(const fakenet::ep_t& e) {
  return Request(std::make_unique<current::net::HTTPServerConnection>(
      current::net::Connection(current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Open(e))),
                               current::net::IPAndPort("127.0.0.1", 1),
                               current::net::IPAndPort("127.0.0.1", 2))));
}
string Received(const fakenet::ep_t& e) {
  fakenet::Lock lock(e.get(), "look");
  return e->out;
}
string Body(const string& out, bool& finished) {
  finished = false;
  string body;
  size_t at = out.find("\r\n\r\n");
  if (at == string::npos) return "";
  for (at += 4; at < out.size();) {
    const size_t e = out.find("\r\n", at);
    if (e == string::npos) break;
    const size_t n = strtoul(out.c_str() + at, nullptr, 16);
    if (out.size() < e + 2 + n + 2) break;
    if (!n) {
      finished = e + 4 == out.size();
      break;
    }
    body += out.substr(e + 2, n);
    at = e + 2 + n + 2;
  }
  // Whether the heads before the first record are reported depends on when the thread of the subscriber looks.
  while (body.compare(0, 6, "{\"us\":") == 0) body = body.substr(body.find('\n') + 1);
  return body;
}
string Line(int i) { return "{\"index\":" + std::to_string(i) + ",\"us\":" + std::to_string(100 + i) + "}\t{\"x\":" + std::to_string(i) + "}\n"; }
const string kTerminated = "{\"error\":\"The subscriber has terminated.\"}\n";

struct World {
  std::unique_ptr<current::Owned<Stream>> owned;
  Stream& stream;
  World() : owned(std::make_unique<current::Owned<Stream>>(Stream::CreateStream())), stream(**owned) {}
  void Publish(int i) { stream.Publisher()->Publish(C08Record(i), us_t(100 + i)); }
};

// The records from `first` on, at least `at_least` and at most `at_most` of them; then possibly the message on termination.
int CheckRecords(string body, int first, int at_least, int at_most, bool terminated) {
  if (terminated && body.size() >= kTerminated.size() && body.substr(body.size() - kTerminated.size()) == kTerminated) body.resize(body.size() - kTerminated.size());
  int n = 0;
  while (!body.empty()) {
    const string line = Line(first + n);
    MC_CHECK(body.compare(0, line.size(), line) == 0, "wrong-entries");
    body = body.substr(line.size());
    ++n;
  }
  MC_CHECK(n >= at_least, "entries-missing");
  MC_CHECK(n <= at_most, "too-many-entries");
  return n;
}

}  // namespace

// The publisher is at work as the subscription begins; it ends on its own.
MC_SCENARIO(counted, []() { mc::Opts o; o.horizon_is_violation = true; o.max_steps = 3000; return o; }()) {
  World w;
  w.Publish(0);
  const int how = mc::Choose(4);
  const string target[] = {"/?n=2", "/?nowait", "/?i=1&n=1&checked", "/?tail=1&n=1"};
  std::thread t([&]() {
    w.Publish(1);
    w.Publish(2);
  });
  const auto e = NewClient(target[how]);
  w.stream(RequestOf(e));
  fakenet::WaitClosed(e);
  t.join();
  bool finished;
  const string body = Body(Received(e), finished);
  MC_CHECK(finished, "not-ended-properly");
  if (how == 0) CheckRecords(body, 0, 2, 2, false);
  if (how == 1) mc::Observe(std::to_string(CheckRecords(body, 0, 1, 3, false)));
  if (how == 2) CheckRecords(body, 1, 1, 1, false);
  if (how == 3) {
    // The last record at the moment of the request.
    const int f = body == Line(0) ? 0 : body == Line(1) ? 1 : 2;
    MC_CHECK_EQ(body, Line(f), "wrong-entries");
    mc::Observe(std::to_string(f));
  }
  w.owned = nullptr;
}

// The stream is destroyed under the subscription, with the publisher done or not.
MC_SCENARIO(destroyed) {
  World w;
  const bool before = mc::Choose(2);
  if (before) w.Publish(0);
  const auto e = NewClient(mc::Choose(2) ? "/" : "/?checked");
  w.stream(RequestOf(e));
  if (!before) w.Publish(0);
  w.Publish(1);
  w.owned = nullptr;
  // Nothing is sent once the stream is gone.
  MC_CHECK(e->closed, "connection-left-open");
  bool finished;
  const string body = Body(e->out, finished);
  MC_CHECK(finished, "not-ended-properly");
  mc::Observe(std::to_string(CheckRecords(body, 0, 0, 2, true)));
}

// The subscription is terminated by its identifier while records are being published; another one is not affected.
MC_SCENARIO(terminated) {
  World w;
  w.Publish(0);
  const auto e = NewClient("/"), other = NewClient("/?n=2");
  w.stream(RequestOf(e));
  const bool two = mc::Choose(2);
  if (two) w.stream(RequestOf(other));
  const string out = Received(e);
  const string header = "X-Current-Stream-Subscription-Id: ";
  const size_t i = out.find(header) + header.size();
  const string id = out.substr(i, out.find("\r\n", i) - i);
  std::thread t([&]() { w.Publish(1); });
  const auto terminator = NewClient("/?terminate=" + id);
  w.stream(RequestOf(terminator));
  MC_CHECK_EQ(Received(terminator).substr(0, 12), string("HTTP/1.1 200"), "terminate-failed");
  bool finished;
  {
    const string o = Received(e);
    const string body = Body(o, finished);
    MC_CHECK(finished, "still-open-after-the-termination");
    mc::Observe(std::to_string(CheckRecords(body, 0, 0, 2, true)));
  }
  t.join();
  if (two) {
    fakenet::WaitClosed(other);
    CheckRecords(Body(Received(other), finished), 0, 2, 2, false);
    MC_CHECK(finished, "not-ended-properly");
  }
  w.owned = nullptr;
}

// The client goes away.
MC_SCENARIO(client_gone) {
  World w;
  w.Publish(0);
  const auto e = NewClient(mc::Choose(2) ? "/" : "/?array");
  const int when = mc::Choose(3);
  w.stream(RequestOf(e));
  if (when) {
    fakenet::Lock lock(e.get(), "break");
    e->fail_send_after = when == 1 ? 0 : static_cast<long>(e->out.size()) + 20;
  }
  w.Publish(1);
  if (when == 0) {
    fakenet::Lock lock(e.get(), "break");
    e->fail_send_after = 0;
  }
  w.stream.Publisher()->UpdateHead(us_t(200));
  w.owned = nullptr;
  MC_CHECK(e->closed, "connection-left-open");
}

// The records from the future: nothing is to be sent, and nothing is to be done, before they come.
MC_SCENARIO(from_the_future) {
  World w;
  w.Publish(0);
  const auto e = NewClient("/?since=102&n=1");
  w.stream(RequestOf(e));
  w.Publish(1);
  w.Publish(2);
  fakenet::WaitClosed(e);
  bool finished;
  CheckRecords(Body(Received(e), finished), 2, 1, 1, false);
  MC_CHECK(finished, "not-ended-properly");
  w.owned = nullptr;
}

MC_SCENARIO(still_in_the_future, []() {
  mc::Opts o;
  o.horizon_is_violation = true;
  o.max_steps = 2000;
  return o;
}()) {
  World w;
  w.Publish(0);
  const auto e = NewClient("/?since=105");
  w.stream(RequestOf(e));
  w.Publish(1);
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  MC_CHECK(Received(e).find("index") == string::npos, "wrong-entries");
  w.owned = nullptr;
}
