// C32: the real Karl (its HTTP endpoints, storage, log of keepalives, and the thread that times the services out) and the real
// Claire, on a network in memory and on the virtual clock, against a model of the fleet.
#define FAKENET_SCHED
#include "mc.h"

#include "current_build.h"
#include "karl/karl.h"
#include "karl/claire.h"

#include "../common/fakenet.h"

std::random_device::result_type std::random_device::_M_getval() {
  static result_type n = 0;
  return ++n;
}

using namespace current::karl;
using std::string;
using us_t = std::chrono::microseconds;
using runtime_t = Variant<default_user_status::status>;
using karl_t = Karl;
using status_t = karl_t::claire_status_t;
using report_t = karl_t::karl_status_t;

// Like `SnapshotOfKeepalive`, which has no default constructor.
CURRENT_STRUCT(C32Snapshot) {
  CURRENT_FIELD(age, std::string);
  CURRENT_FIELD(snapshot, ClaireServiceStatus<runtime_t>);
};

namespace {

string g_history;
[[noreturn]] void Fail(const string& what, const string& message) { mc::Violation(what, message + "\nhistory:  " + g_history); }

void Say(const string& s) { g_history += s; }

constexpr uint16_t kKeepalives = 7, kFleet = 8;
const string kTo = "http://localhost:7/", kView = "http://localhost:8/";
const us_t kTimeout(45 * 1000000ll);

string Scratch(const char* what) {
  char b[256];
  const ssize_t len = ::readlink("/proc/self/exe", b, sizeof b - 1);
  return string(b, len > 0 ? len : 0) + ".scratch-" + std::to_string(::getpid()) + "-" + what;
}
current::net::ReservedLocalPort Port(uint16_t port) {
  return current::net::ReservedLocalPort(
      current::net::ReservedLocalPort::Construct(), port, current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Listening(port))));
}
void Sleep(int seconds) { std::this_thread::sleep_for(std::chrono::seconds(seconds)); }
us_t Now() { return current::time::Now(); }

struct Files {
  const string stream = Scratch("stream"), storage = Scratch("storage");
  Files() { Remove(); }
  ~Files() { Remove(); }
  void Remove() {
    ::unlink(stream.c_str());
    ::unlink(storage.c_str());
  }
  KarlParameters Parameters() const {
    KarlParameters p;
    p.keepalives_port = kKeepalives;
    p.fleet_view_port = kFleet;
    p.stream_persistence_file = stream;
    p.storage_persistence_file = storage;
    return p;
  }
};

struct Notified : IKarlNotifiable<runtime_t> {
  std::vector<string> log;  // Is only called from within transactions.
  void OnKeepalive(us_t, const ClaireServiceKey& location, const string& codename, const status_t& s) override {
    log.push_back("keepalive " + codename + ' ' + std::to_string(location.port) + ' ' + s.uptime);
  }
  void OnDeregistered(us_t, const string& codename, const ImmutableOptional<ClaireInfo>& c) override {
    log.push_back("deregistered " + codename + (Exists(c) ? "" : " unknown"));
  }
  void OnTimedOut(us_t, const string& codename, const ImmutableOptional<ClaireInfo>& c) override {
    log.push_back("timed out " + codename + (Exists(c) ? "" : " unknown"));
  }
};

struct Service {
  const char* codename;
  const char* service;
  uint16_t port;
};
const Service kServices[] = {{"A", "one", 1001}, {"B", "two", 1002}, {"C", "one", 1001}};  // C: the same binary as A, restarted.
constexpr int kN = 3;

ClaireServiceKey At(const string& ip, uint16_t port) {
  ClaireServiceKey k;
  k.ip = ip;
  k.port = port;
  k.prefix = "/";
  return k;
}
string g_ip;  // From which the keepalives come, as seen by Karl.

// The `uptime`, which is merely a string for Karl, tells one keepalive from another.
status_t Keepalive(int s, int id, int build = 0) {
  status_t k;
  k.service = kServices[s].service;
  k.codename = kServices[s].codename;
  k.local_port = kServices[s].port;
  k.now = Now();
  k.start_time_epoch_microseconds = us_t(1000 + s);
  k.uptime = std::to_string(id);
  if (s == 1) k.dependencies = {At("127.0.0.1", 1001), At("127.0.0.1", 1003)};
  if (build) {
    current::build::BuildInfo b;
    b.build_time = "build " + std::to_string(build);
    k.build = b;
  }
  default_user_status::status d;
  d.message = "m" + std::to_string(id);
  k.runtime = runtime_t(d);
  return k;
}
string Query(int s) { return string("?codename=") + kServices[s].codename + "&port=" + std::to_string(kServices[s].port); }
void Expect(const string& what, const string& expected, const string& got) {
  if (expected != got) Fail(what, "expected: " + expected + "\ngot:      " + got);
}
void SendKeepalive(int s, int id, int build = 0) {
  const auto r = HTTP(POST(kTo + Query(s), Keepalive(s, id, build)));
  if (static_cast<int>(r.code) != 200 || r.body != "OK\n") Fail("keepalive-refused", r.body);
}
void Deregister(int s) {
  const auto r = HTTP(DELETE(kTo + Query(s)));
  if (static_cast<int>(r.code) != 200 || r.body != "OK\n") Fail("deregistration-refused", r.body);
}

enum State { kUnknown, kActive, kDeregistered, kTimedOut };
// Of one and the same moment.
std::vector<State> StatesOf(const karl_t& karl, const std::vector<string>& log, std::vector<string>& log_copy) {
  std::vector<State> result;
  karl.BorrowStorage()
      ->ReadOnlyTransaction([&](ImmutableFields<karl_t::storage_t> fields) {
        for (const auto& service : kServices) {
          const auto c = fields.claires[service.codename];
          result.push_back(!Exists(c) ? kUnknown
                           : Value(c).registered_state == ClaireRegisteredState::Active       ? kActive
                           : Value(c).registered_state == ClaireRegisteredState::Deregistered ? kDeregistered
                                                                                             : kTimedOut);
        }
        log_copy = log;
      })
      .Wait();
  return result;
}

State StateOf(const karl_t& karl, const string& codename, ClaireInfo* info = nullptr) {
  State result = kUnknown;
  karl.BorrowStorage()
      ->ReadOnlyTransaction([&](ImmutableFields<karl_t::storage_t> fields) {
        const auto c = fields.claires[codename];
        if (!Exists(c)) return;
        if (info) *info = Value(c);
        const auto s = Value(c).registered_state;
        result = s == ClaireRegisteredState::Active ? kActive : s == ClaireRegisteredState::Deregistered ? kDeregistered : kTimedOut;
      })
      .Wait();
  return result;
}

// ---------------------------------------------------------------------------------------------------- the model

struct Record {
  int s, id, build;
  us_t t0, t1;  // It was received in between.
};
struct Model {
  std::vector<Record> log;
  State state[kN] = {kUnknown, kUnknown, kUnknown};
  us_t since[kN];          // Times out if not heard of for `kTimeout` since then (which is within 1s of what Karl knows).
  us_t reported[kN][2];    // When the service was last seen to become active.
  int build[kN] = {0, 0, 0};
  std::vector<std::string> notified;
  std::vector<bool> karl;  // Up, down, up, ...

  bool MayBeTimedOut(int i) const { return state[i] == kActive && Now() - since[i] > kTimeout; }
  bool MustBeTimedOut(int i) const { return state[i] == kActive && Now() - since[i] > 2 * kTimeout + us_t(1000000); }
};

string Join(const std::vector<string>& v) {
  string s;
  for (const auto& x : v) s += x + "; ";
  return s;
}

struct World {
  Files files;
  Notified notified;
  std::unique_ptr<karl_t> karl;
  Model m;
  World() {
    // The ports stay open for as long as the process lives.
    HTTP(Port(kKeepalives));
    HTTP(Port(kFleet));
  }
  void Start() {
    const us_t now = Now();
    karl = std::make_unique<karl_t>(files.Parameters(), notified);
    m.karl.push_back(true);
    for (int i = 0; i < kN; ++i) if (m.state[i] == kActive) m.since[i] = now;
  }
  void Stop() {
    Settle();
    karl = nullptr;
    m.karl.push_back(false);
  }
  // What has timed out by now: it may or it must, see `Model`.
  void Settle() {
    bool musts[kN];
    for (int i = 0; i < kN; ++i) musts[i] = m.MustBeTimedOut(i);
    std::vector<string> b;
    const auto states = StatesOf(*karl, notified.log, b);
    for (int i = 0; i < kN; ++i) {
      const bool must = musts[i], may = m.MayBeTimedOut(i);
      const State got = states[i];
      if (got == kTimedOut && m.state[i] == kActive && may) {
        m.state[i] = kTimedOut;
        m.notified.push_back(string("timed out ") + kServices[i].codename);
      } else if (must) {
        Fail("not-timed-out", string(kServices[i].codename) + " is not timed out");
      }
      if (got != m.state[i]) Fail("state", string(kServices[i].codename) + ": expected " + std::to_string(m.state[i]) + " got " + std::to_string(got));
    }
    // Those timed out at once come in any order.
    auto a = m.notified;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    Expect("notifications", Join(a), Join(b));
  }
  void Keepalive(int s, int id, int build) {
    Settle();
    Record r{s, id, build, Now(), us_t(0)};
    SendKeepalive(s, id, build);
    r.t1 = Now();
    m.log.push_back(r);
    if (m.state[s] != kActive) {
      m.reported[s][0] = r.t0;
      m.reported[s][1] = r.t1;
    }
    m.state[s] = kActive;
    m.since[s] = r.t0;
    if (build) m.build[s] = build;
    m.notified.push_back(string("keepalive ") + kServices[s].codename + ' ' + std::to_string(kServices[s].port) + ' ' + std::to_string(id));
  }
  void Deregister(int s) {
    Settle();
    ::Deregister(s);
    m.notified.push_back(string("deregistered ") + kServices[s].codename + (m.state[s] == kUnknown ? " unknown" : ""));
    m.state[s] = kDeregistered;
  }

  void CheckReport(const string& query, us_t window, bool active_only) {
    const auto r = HTTP(GET(kView + query));
    if (static_cast<int>(r.code) != 200) Fail("report", r.body);
    const auto report = ParseJSON<report_t>(r.body);
    Expect("report-from", std::to_string((report.now - window).count()), std::to_string(report.from.count()));
    Expect("report-to", std::to_string(report.now.count()), std::to_string(report.to.count()));
    std::map<string, const Record*> last;
    std::map<uint16_t, string> at;
    for (const auto& k : m.log) {
      if (k.t0 < report.from && k.t1 >= report.from) Fail("harness", "cannot tell");
      if (k.t0 >= report.from) {
        last[kServices[k.s].codename] = &k;
        at[kServices[k.s].port] = kServices[k.s].codename;
      }
    }
    std::ostringstream expected, got;
    for (const auto& x : last) {
      const auto& k = *x.second;
      const auto& s = kServices[k.s];
      if (active_only && m.state[k.s] != kActive) continue;
      expected << x.first << ' ' << s.service << " at 127.0.0.1:" << s.port << " http://127.0.0.1:" << s.port << "/.current ";
      const us_t ago = report.now - k.t1;
      if (ago < kTimeout && report.now - k.t0 >= kTimeout) Fail("harness", "cannot tell");
      expected << (ago < kTimeout ? "up " : "down ") << 1000 + k.s << ' ';
      if (ago >= kTimeout) expected << "uptime " << k.id << ' ';
      if (k.s == 1) {
        if (at.count(1001)) expected << "-> " << at[1001] << ' ';
        else expected << "-> http://127.0.0.1:1001/.current ";
        expected << "-> http://127.0.0.1:1003/.current ";
      }
      if (m.build[k.s]) expected << "build " << m.build[k.s] << ' ';
      expected << 'm' << k.id << "; ";
    }
    for (const auto& machine : report.machines) {
      if (machine.second.services.empty()) Fail("report-empty-machine", r.body);
      for (const auto& x : machine.second.services) {
        const auto& s = x.second;
        got << s.codename << ' ' << s.service << " at " << machine.first << ':' << s.location.port << ' ' << s.url_status_page_direct << ' ';
        Expect("report-key", x.first, s.codename);
        Expect("report-ip", machine.first, s.location.ip);
        us_t received;
        if (Exists<current_service_state::up>(s.currently)) {
          const auto& u = Value<current_service_state::up>(s.currently);
          got << "up " << u.start_time_epoch_microseconds.count() << ' ';
          received = u.last_keepalive_received_epoch_microseconds;
          Expect("report-ago", current::strings::TimeIntervalAsHumanReadableString(report.now - received) + " ago", u.last_keepalive_received);
        } else {
          const auto& d = Value<current_service_state::down>(s.currently);
          got << "down " << d.start_time_epoch_microseconds.count() << " uptime " << d.last_confirmed_uptime << ' ';
          received = d.last_keepalive_received_epoch_microseconds;
          Expect("report-ago", current::strings::TimeIntervalAsHumanReadableString(report.now - received) + " ago", d.last_keepalive_received);
        }
        if (last.count(s.codename) && (received < last[s.codename]->t0 || received > last[s.codename]->t1))
          Fail("report-received", "the keepalive was not received at " + std::to_string(received.count()));
        for (const auto& d : s.dependencies) got << "-> " << d << ' ';
        for (const auto& d : s.unresolved_dependencies) got << "-> " << d << ' ';
        if (!s.build_time.empty()) got << s.build_time << ' ';
        if (Exists(s.runtime) && Exists<default_user_status::status>(Value(s.runtime))) got << Value<default_user_status::status>(Value(s.runtime)).message;
        got << "; ";
      }
    }
    Expect("report", expected.str(), got.str());
  }

  void Check() {
    Settle();
    size_t active = 0;
    for (int i = 0; i < kN; ++i) active += m.state[i] == kActive;
    Expect("active-services-count", std::to_string(active), std::to_string(karl->ActiveServicesCount()));
    CheckReport("?full", us_t(300 * 1000000ll), false);
    CheckReport("?full&active_only&h=2", us_t(7200 * 1000000ll), true);
    for (int i = 0; i < kN; ++i) {
      const Record* last = nullptr;
      for (const auto& k : m.log) if (k.s == i) last = &k;
      const auto r = HTTP(GET(kView + "snapshot/" + kServices[i].codename + (i == 1 ? "?nobuild" : "")));
      if (!last) {
        Expect("snapshot-of-unknown", "404", std::to_string(static_cast<int>(r.code)));
      } else {
        const auto s = ParseJSON<C32Snapshot, JSONFormat::Minimalistic>(r.body).snapshot;
        Expect("snapshot", string(kServices[i].codename) + ' ' + std::to_string(last->id) + (i != 1 && last->build ? " build " + std::to_string(last->build) : ""),
               s.codename + ' ' + s.uptime + (Exists(s.build) ? ' ' + Value(s.build).build_time : ""));
      }
      const auto b = HTTP(GET(kView + "build/" + kServices[i].codename));
      if (m.build[i]) Expect("build", "build " + std::to_string(m.build[i]), ParseJSON<ClaireBuildInfo>(b.body).build.build_time);
      else Expect("build-of-unknown", "404", std::to_string(static_cast<int>(b.code)));
      if (m.state[i] == kActive) {
        ClaireInfo info;
        StateOf(*karl, kServices[i].codename, &info);
        if (info.reported_timestamp < m.reported[i][0] || info.reported_timestamp > m.reported[i][1]) Fail("reported-timestamp", kServices[i].codename);
        Expect("claire-info", string(kServices[i].service) + ' ' + std::to_string(kServices[i].port), info.service + ' ' + std::to_string(info.location.port));
      }
    }
    std::vector<bool> up;
    karl->BorrowStorage()
        ->ReadOnlyTransaction([&](ImmutableFields<karl_t::storage_t> fields) {
          for (const auto& k : fields.karl) up.push_back(k.up);
        })
        .Wait();
    if (up != m.karl) Fail("karl-log", "the starts and stops of Karl are not on record");
  }
};

mc::Opts Sequential() {
  mc::Opts o;
  o.max_bound = 0;
  o.max_steps = 400000;
  o.races = false;
  o.all_shared = true;
  return o;
}

mc::Opts Timeouts() {
  mc::Opts o;
  o.timeouts_anytime = true;
  o.max_steps = 400000;
  return o;
}

}  // namespace

// The keepalive comes when its service is about to be timed out.
MC_SCENARIO(timeout_vs_keepalive, Timeouts()) {
  World w;
  w.Start();
  w.Keepalive(0, 1, 0);
  std::this_thread::sleep_for(std::chrono::milliseconds(44990));
  w.Settle();
  const us_t t0 = Now();
  SendKeepalive(0, 2);
  std::this_thread::sleep_for(std::chrono::milliseconds(50));
  const State state = StateOf(*w.karl, "A");
  const size_t count = w.karl->ActiveServicesCount();
  if (Now() - t0 < kTimeout) {
    // It may have been timed out before this keepalive, not after.
    if (state != kActive) Fail("timed-out-by-mistake", "A is timed out right after its keepalive");
    Expect("active-services-count", "1", std::to_string(count));
  }
  w.files.Remove();
  mc::Done();
}

MC_SCENARIO(timeout_vs_deregister, Timeouts()) {
  World w;
  w.Start();
  w.Keepalive(0, 1, 0);
  std::this_thread::sleep_for(std::chrono::milliseconds(44990));
  w.Settle();
  Deregister(0);
  Sleep(1);
  std::vector<string> copy;
  const State state = StatesOf(*w.karl, w.notified.log, copy)[0];
  const string log = Join(copy);
  if (log != "keepalive A 1001 1; deregistered A; " && log != "keepalive A 1001 1; timed out A; deregistered A; ") Fail("notifications", log);
  if (state != kDeregistered) Fail("state", "A is not deregistered, but timed out");
  Expect("active-services-count", "0", std::to_string(w.karl->ActiveServicesCount()));
  w.files.Remove();
  mc::Done();
}

MC_SCENARIO(snapshot_vs_keepalive) {
  World w;
  w.Start();
  w.Keepalive(1, 1, 0);
  w.Keepalive(0, 2, 0);
  std::thread t([] { SendKeepalive(0, 3); });
  const auto r = HTTP(GET(kView + "snapshot/A"));
  const auto s = ParseJSON<C32Snapshot, JSONFormat::Minimalistic>(r.body).snapshot;
  t.join();
  if (s.codename != "A" || (s.uptime != "2" && s.uptime != "3")) Fail("snapshot", s.codename + ' ' + s.uptime);
  w.files.Remove();
  mc::Done();
}

MC_SCENARIO(report_vs_keepalive) {
  World w;
  w.Start();
  w.Keepalive(0, 1, 1);
  std::thread t([] { SendKeepalive(1, 2, 2); });
  const auto r = HTTP(GET(kView + "?full"));
  const auto report = ParseJSON<report_t>(r.body);
  t.join();
  // `B` is either not there yet, or is there, although maybe not registered yet.
  size_t n = 0;
  for (const auto& m : report.machines) {
    for (const auto& s : m.second.services) {
      ++n;
      if (s.first == "A") Expect("report-build", "build 1", s.second.build_time);
      if (s.first == "B") Expect("report-dependencies", "1", std::to_string(s.second.dependencies.size()));
    }
  }
  if (n < 1 || n > 2) Fail("report", r.body);
  w.m.log.push_back(Record{1, 2, 2, us_t(0), us_t(0)});
  if (StateOf(*w.karl, "B") != kActive) Fail("state", "B is not active");
  w.files.Remove();
  mc::Done();
}

// A service which Karl remembers is gone by the time it is restarted; another one is sending its keepalive meanwhile.
MC_SCENARIO(startup) {
  World w;
  w.Start();
  w.Keepalive(0, 1, 0);
  w.Stop();
  std::thread t([] { HTTP(POST(kTo + Query(1), Keepalive(1, 2))); });
  w.karl = std::make_unique<karl_t>(w.files.Parameters(), w.notified);
  t.join();
  Sleep(100);
  if (StateOf(*w.karl, "A") != kTimedOut) Fail("not-timed-out", "A is not timed out");
  const State b = StateOf(*w.karl, "B");
  if (b != kUnknown && b != kTimedOut) Fail("not-timed-out", "B is not timed out");
  Expect("active-services-count", "0", std::to_string(w.karl->ActiveServicesCount()));
  w.files.Remove();
  mc::Done();
}

// Karl stops while being talked to.
MC_SCENARIO(shutdown) {
  World w;
  w.Start();
  std::thread t([] {
    const auto r = HTTP(POST(kTo + Query(0), Keepalive(0, 1)));
    mc::Observe(std::to_string(static_cast<int>(r.code)));
  });
  std::thread v([] {
    const auto r = HTTP(GET(kView + "?full"));
    mc::Observe(std::to_string(static_cast<int>(r.code)));
  });
  w.karl = nullptr;
  t.join();
  v.join();
  w.files.Remove();
  mc::Done();
}

// Claire: what Karl knows is what the service last said; whoever looks at its own page meanwhile sees a status it did have.
constexpr uint16_t kClaire = 9;
using claire_t = Claire;
bool HasDependency(const std::vector<ClaireServiceKey>& v, uint16_t port) {
  for (const auto& k : v) if (k.port == port) return true;
  return false;
}

MC_SCENARIO(claire) {
  World w;
  w.Start();
  HTTP(Port(kClaire));
  {
    claire_t c(Locator(kTo), "svc", kClaire);
    c.Register(
        []() {
          default_user_status::status d;
          d.message = "hello";
          return runtime_t(d);
        },
        true);
    if (StateOf(*w.karl, c.Codename()) != kActive) Fail("register", "the service is not active once registered with a confirmation");
    std::thread t([&c] {
      const auto s = ParseJSON<status_t>(HTTP(GET("http://localhost:9/.current")).body);
      Expect("own-codename", c.Codename(), s.codename);
      if (s.dependencies.size() > 1 || (!s.dependencies.empty() && !HasDependency(s.dependencies, 1003))) Fail("own-dependencies", JSON(s));
    });
    c.AddDependency(At("127.0.0.1", 1003));
    c.ForceSendKeepalive(ForceSendKeepaliveWaitRequest::Wait);
    const auto s = ParseJSON<C32Snapshot, JSONFormat::Minimalistic>(HTTP(GET(kView + "snapshot/" + c.Codename())).body).snapshot;
    if (!HasDependency(s.dependencies, 1003)) Fail("keepalive-not-sent", "the keepalive waited for does not have the dependency: " + JSON(s));
    t.join();
    const string codename = c.Codename();
    g_history = codename;
  }
  if (StateOf(*w.karl, g_history) != kDeregistered) Fail("not-deregistered", "the service is not deregistered by the time it is gone");
  w.files.Remove();
  mc::Done();
}

// Karl is not there when the service starts, and then it is told where Karl is.
MC_SCENARIO(claire_redirected) {
  World w;
  w.Start();
  HTTP(Port(kClaire));
  {
    claire_t c(Locator("http://localhost:99/"), "svc", kClaire);
    bool thrown = false;
    if (mc::Choose(2)) {
      try {
        c.Register(nullptr, true);
      } catch (const ClaireRegistrationException&) {
        thrown = true;
      }
      if (!thrown) Fail("confirmed-by-nobody", "Register() should have thrown");
    } else {
      c.Register();
    }
    std::thread t([] {
      const auto r = HTTP(POST("http://localhost:9/.current?report_to=http://localhost:7/", ""));
      if (static_cast<int>(r.code) != 200) Fail("report-to", r.body);
    });
    const auto s = ParseJSON<status_t>(HTTP(GET("http://localhost:9/.current")).body);
    Expect("own-codename", c.Codename(), s.codename);
    if (s.reporting_to != "http://localhost:99/" && s.reporting_to != kTo) Fail("reporting-to", s.reporting_to);
    t.join();
    Expect("locator", kTo, c.GetKarlLocator().address_port_route);
    c.Register();
    c.ForceSendKeepalive(ForceSendKeepaliveWaitRequest::Wait);
    g_history = c.Codename();
    if (StateOf(*w.karl, c.Codename()) != kActive) Fail("not-active", "a keepalive was waited for, yet Karl does not know the service");
  }
  if (StateOf(*w.karl, g_history) != kDeregistered) Fail("not-deregistered", "the service is not deregistered by the time it is gone");
  w.files.Remove();
  mc::Done();
}

#ifndef C32_NO_EVENTS
MC_SCENARIO(events, Sequential()) {
  World w;
  w.Start();
  int id = 0;
  const int n = 1 + mc::Choose(3);
  for (int i = 0; i < n; ++i) {
    const int e = mc::Choose(9);
    if (e < 3) {
      const bool build = mc::Choose(2);
      Say(string(build ? "build " : "keepalive ") + kServices[e].codename + "; ");
      w.Keepalive(e, ++id, build ? id : 0);
    } else if (e < 5) {
      Say(string("deregister ") + kServices[e - 3].codename + "; ");
      w.Deregister(e - 3);
    } else if (e < 8) {
      const int s = e == 5 ? 30 : e == 6 ? 100 : 400;
      Say("sleep " + std::to_string(s) + "; ");
      Sleep(s);
    } else {
      Say("restart; ");
      w.Stop();
      Sleep(1);
      w.Start();
    }
    w.Settle();
  }
  w.Check();
  w.files.Remove();
  mc::Done();
}
#endif
