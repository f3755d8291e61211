// C39: the timer, the requests and the destruction of the event collection server, under every schedule (bounded).
#define FAKENET_SCHED
#include "mc.h"

#include "midichlorians/server/server.h"

#include "../common/fakenet.h"

using namespace current::midichlorians::ios;
using namespace current::midichlorians::web;
using namespace current::midichlorians::server;
using std::string;

namespace {

constexpr uint16_t kPort = 7;
constexpr int64_t kTick = 10000;

struct Consumer {
  string log;
  int64_t last = -1;
  int64_t events = 0;
  bool inside = false, alive = true;
  std::mutex point;  // What the consumer does takes its time.
  void On(char c, std::chrono::microseconds t, bool event = true) {
    MC_CHECK(alive, "consumer-called-after-destruction");
    MC_CHECK(!inside, "consumer-called-concurrently");
    inside = true;
    { std::lock_guard<std::mutex> lock(point); }
    MC_CHECK(t.count() > last, "timestamps-not-increasing");
    if (c == 't') MC_CHECK(last_event < 0 || t.count() - last_event >= kTick, "tick-too-early");
    // The thread of the timer has nothing to wait for but the time and the requests.
    if (last_event >= 0) MC_CHECK(t.count() - last_event <= kTick + 1000, "tick-missing");
    last = t.count();
    if (event) last_event = last;
    log += c;
    ++events;
    inside = false;
  }
  int64_t last_event = -1;
  void operator()(const TickLogEntry& e) { On('t', e.server_us); }
  void operator()(const EventLogEntry& e) { On('e', e.server_us); }
  void operator()(const UnparsableLogEntry& e) { On('u', e.server_us, false); }
};
using Server = midichloriansHTTPServer<Consumer>;

void Prepare() {
  const int fd = fakenet::Listening(kPort);
  HTTP(current::net::ReservedLocalPort(
      current::net::ReservedLocalPort::Construct(), kPort, current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fd))));
}

fakenet::ep_t Send(const string& kind) {
  auto e = std::make_shared<fakenet::Endpoint>();
  if (kind == "bad") {
    e->in = "GET /log HTTP/1.1\r\n\r\n";
  } else {
    const string body = "{\"iOSFirstLaunchEvent\":{\"customer_id\":\"\",\"user_ms\":0,\"client_id\":\"\",\"device_id\":\"\"},\"\":\"" + []() {
      Variant<ios_events_t> v;
      v = iOSFirstLaunchEvent();
      const string s = JSON(v);
      const size_t at = s.rfind("\"T");
      return s.substr(at + 1, s.rfind('"') - at - 1);
    }() + "\"}";
    const string all = kind == "two" ? body + "\n" + body : body;
    e->in = "POST /log HTTP/1.1\r\nContent-Length: " + std::to_string(all.size()) + "\r\n\r\n" + all;
  }
  fakenet::Push(kPort, e);
  return e;
}
string Code(const fakenet::ep_t& e) {
  fakenet::WaitClosed(e);
  return e->out.substr(0, 9) == "HTTP/1.1 " ? e->out.substr(9, 3) : "?" + e->out;
}
size_t Count(const string& s, char c) { return static_cast<size_t>(std::count(s.begin(), s.end(), c)); }

}  // namespace

// Requests at various moments between the ticks.
MC_SCENARIO(ticks) {
  Prepare();
  Consumer consumer;
  auto server = std::make_unique<Server>(kPort, consumer, std::chrono::microseconds(kTick), "/log", "OK\n");
  const int pause = mc::Choose(3);
  if (pause) std::this_thread::sleep_for(std::chrono::microseconds(pause == 1 ? 6000 : 25000));
  const string kind = mc::Choose(2) ? "two" : "bad";
  MC_CHECK_EQ(Code(Send(kind)), "200", "wrong-code");
  if (pause == 1) std::this_thread::sleep_for(std::chrono::microseconds(13000));
  MC_CHECK_EQ(Code(Send("one")), "200", "wrong-code");
  const size_t before = server->EventsPushed();
  server = nullptr;
  consumer.alive = false;
  MC_CHECK_EQ(Count(consumer.log, 'e'), kind == "two" ? 3u : 1u, "events-lost-or-duplicated");
  MC_CHECK_EQ(Count(consumer.log, 'u'), kind == "two" ? 0u : 1u, "unparsable-lost-or-duplicated");
  MC_CHECK(before <= Count(consumer.log, 'e') + Count(consumer.log, 't') && before >= Count(consumer.log, 'e'), "events-pushed");
  if (pause == 2) MC_CHECK(Count(consumer.log, 't') >= 2, "tick-missing");
  mc::Observe(consumer.log);
  mc::Done();
}

// The server goes away while a request is on its way.
MC_SCENARIO(destruction) {
  Prepare();
  Consumer consumer;
  const bool ticking = mc::Choose(2);
  auto server = std::make_unique<Server>(kPort, consumer, std::chrono::microseconds(ticking ? kTick : 0), "/log", "OK\n");
  const auto e = Send("two");
  server = nullptr;
  consumer.alive = false;
  const string code = Code(e);
  MC_CHECK(code == "200" || code == "404", "wrong-code");
  MC_CHECK_EQ(Count(consumer.log, 'e'), code == "200" ? 2u : 0u, "events-lost-or-duplicated");
  if (!ticking) MC_CHECK_EQ(Count(consumer.log, 't'), 0u, "tick-while-disabled");
  mc::Observe(code + consumer.log);
  mc::Done();
}
