// C09: a stream follows another one over HTTP, on the real client, server, stream and replicator, over a network in memory that
// cuts the bytes and breaks the connections wherever it is told to; every schedule (bounded) of the follower, the master, the
// publisher, and whoever terminates the subscription or has the two flip.
#define FAKENET_SCHED
#include "mc.h"

#include "stream/replicator.h"
#include "stream/stream.h"

#include "../common/fakenet.h"

std::random_device::result_type std::random_device::_M_getval() {
  static result_type n = 0;
  return ++n;
}

using namespace current::http;
using current::stream::ReplicationMode;
using current::stream::SubscriptionMode;
using std::string;
using us_t = std::chrono::microseconds;

CURRENT_STRUCT(C09Record) {
  CURRENT_FIELD(s, std::string);
  CURRENT_DEFAULT_CONSTRUCTOR(C09Record) {}
  CURRENT_CONSTRUCTOR(C09Record)(std::string s) : s(std::move(s)) {}
};

namespace {

constexpr uint16_t kPort = 7;
const string kURL = "http://localhost:7/l";
using Remote = current::stream::SubscribableRemoteStream<C09Record>;

template <class S>
struct Persisted;
// The file, if any, goes with its stream.
#ifdef VERIF_FILE
using Stream = current::stream::Stream<C09Record, current::persistence::File>;
#else
using Stream = current::stream::Stream<C09Record, current::persistence::Memory>;
#endif
struct StreamDeleter {
  string file;
  void operator()(current::Owned<Stream>* s) const {
    delete s;
    if (!file.empty()) ::unlink(file.c_str());
  }
};
using StreamPtr = std::unique_ptr<current::Owned<Stream>, StreamDeleter>;
StreamPtr NewStream() {
#ifdef VERIF_FILE
  static int n = 0;
  char b[256];
  const ssize_t len = ::readlink("/proc/self/exe", b, sizeof b - 1);
  const string name = string(b, len > 0 ? len : 0) + ".scratch-" + std::to_string(::getpid()) + "-" + std::to_string(++n % 10);
  ::unlink(name.c_str());
  return StreamPtr(new current::Owned<Stream>(Stream::CreateStream(name)), StreamDeleter{name});
#else
  return StreamPtr(new current::Owned<Stream>(Stream::CreateStream()), StreamDeleter());
#endif
}

std::unique_ptr<HTTPServerPOSIX> NewServer(uint16_t port = kPort) {
  return std::make_unique<HTTPServerPOSIX>(current::net::ReservedLocalPort(
      current::net::ReservedLocalPort::Construct(), port, current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Listening(port)))));
}

// What can be told of a stream: its records and its head.
string Dump(Stream& s) {
  std::ostringstream os;
  for (const auto& e : s.Data()->Iterate()) os << e.idx_ts.index << '@' << e.idx_ts.us.count() << '=' << e.entry.s << ' ';
  os << "head " << s.Data()->CurrentHead().count();
  return os.str();
}
// The follower has caught up; the virtual clock runs when everybody waits.
void WaitFor(Stream& s, const string& golden, const char* what) {
  for (int i = 0; i < 40; ++i) {
    if (Dump(s) == golden) return;
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
  }
  mc::Violation(what, "expected: " + golden + "\ngot:      " + Dump(s));
}
// Nothing happens any more: the clock can run.
void Quiet() { std::this_thread::sleep_for(std::chrono::milliseconds(200)); }
// The follower's log is always the beginning of that of the master.
void CheckPrefix(Stream& s, const string& golden, const char* what) {
  string d = Dump(s);
  d = d.substr(0, d.find("head"));
  if (golden.compare(0, d.size(), d)) mc::Violation(what, "expected: " + golden + "\ngot:      " + Dump(s));
}

// Record #1 is there for its JSON to have an escaped tab, #2 is longer.
C09Record R(int i) { return C09Record(i == 1 ? "\t" : i == 2 ? "two\n" : string(1, static_cast<char>('a' + i))); }

using replicator_t = current::stream::StreamReplicator<Stream>;

struct Follower {
  StreamPtr owned;
  std::unique_ptr<Remote> remote;
  std::unique_ptr<replicator_t> replicator;
  std::unique_ptr<current::stream::SubscriberScope> scope;
  Follower() : owned(NewStream()) {}
  Stream& operator*() { return **owned; }
  // `mode`: bit 0 -- whether the master checks what it sends, bit 1 -- whether the follower does not check what it receives.
  void Start(int mode) {
    remote = std::make_unique<Remote>(kURL);
    replicator = std::make_unique<replicator_t>(current::Borrowed<Stream>(*owned));
    Subscribe(mode);
  }
  void Subscribe(int mode) {
    const auto m = mode & 1 ? SubscriptionMode::Checked : SubscriptionMode::Unchecked;
    const auto& data = (*owned)->Data();
    const uint64_t i = data->Size();
    const us_t us = data->CurrentHead() + us_t(1);
    if (mode & 2) scope = std::make_unique<typename Remote::RemoteSubscriberScopeUnchecked<replicator_t>>(remote->SubscribeUnchecked(*replicator, i, us, m));
    else scope = std::make_unique<typename Remote::RemoteSubscriberScope<replicator_t>>(remote->Subscribe(*replicator, i, us, m));
  }
  void Stop() {
    scope = nullptr;
    replicator = nullptr;
    remote = nullptr;
  }
};

bool Plan(const fakenet::ep_t& client, const fakenet::ep_t& server);
// A real master.
struct Master {
  StreamPtr owned;
  std::unique_ptr<HTTPServerPOSIX> server;
  HTTPServerPOSIX::HTTPRoutesScope scope;
  Master() : owned(NewStream()), server(NewServer()) {
    fakenet::N().on_loopback = Plan;
    Expose();
  }
  void Expose() { scope = server->Register("/l", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, **owned); }
  Stream& operator*() { return **owned; }
  void Publish(int i) { (**owned).Publisher()->Publish(R(i), us_t(100 + 10 * i)); }
  void Head(int us) { (**owned).Publisher()->UpdateHead(us_t(us)); }
};

// The plan of the faults: the number of the connection -> after how many bytes, and in what direction, it breaks; -1 refuses it.
struct Fault { int connection; long after; bool request; };
std::vector<Fault> g_faults;
int g_connections = 0;
bool Plan(const fakenet::ep_t& client, const fakenet::ep_t& server) {
  const int n = g_connections++;
  if (n > 16) mc::Violation("keeps-reconnecting", "the follower keeps reconnecting with no fault since long ago");
  for (const auto& f : g_faults)
    if (f.connection == n) {
      if (f.after < 0) return false;
      (f.request ? server : client)->break_after = f.after;
      if (!f.after) (f.request ? server : client)->end = (f.request ? server : client)->end;
    }
  return true;
}

const string kGolden = "0@100=a 1@110=\t 2@120=two\n head 130";

mc::Opts Live() {
  mc::Opts o;
  o.horizon_is_violation = true;
  o.max_steps = 15000;
  return o;
}

}  // namespace

// The follower comes before, between, or after the records; it leaves, and possibly comes back.
MC_SCENARIO(follow, Live()) {
  Master m;
  Follower f;
  const int mode = mc::Choose(4);
  const int before = mc::Choose(3);
  for (int i = 0; i < before; ++i) m.Publish(i);
  std::thread t([&]() {
    for (int i = before; i < 3; ++i) m.Publish(i);
    m.Head(130);
  });
  f.Start(mode);
  if (mc::Choose(2)) {
    f.scope = nullptr;
    CheckPrefix(*f, kGolden, "not-a-prefix");
    f.Subscribe(mode);
  }
  t.join();
  WaitFor(*f, kGolden, "not-replicated");
  Quiet();
  f.Stop();
  MC_CHECK_EQ(Dump(*f), kGolden, "not-replicated");
  mc::Observe(std::to_string(g_connections));
  m.scope = nullptr;
  m.server = nullptr;
}

// The connection breaks after any number of bytes.
void Broken(bool everywhere) {
  const int mode = everywhere ? mc::Choose(4) : 3 * mc::Choose(2);
  Master m;
  Follower f;
  // Connections: 0 the schema at the construction; then, each time: the schema, and the subscription.
  if (everywhere) {
    const int which = mc::Choose(3);
    g_faults.push_back(which == 0 ? Fault{1, 5 * mc::Choose(60), false} : which == 1 ? Fault{2, mc::Choose(420), false} : Fault{1 + mc::Choose(2), 7 * mc::Choose(16) - 1, true});
  } else {
    g_faults.push_back(Fault{2, std::vector<long>{-1, 0, 200, 280, 300, 330}[mc::Choose(6)], false});
  }
  m.Publish(0);
  m.Publish(1);
  const bool later = mc::Choose(2);
  if (!later) {
    m.Publish(2);
    m.Head(130);
  }
  f.Start(mode);
  if (later) {
    WaitFor(*f, "0@100=a 1@110=\t head 110", "not-replicated");
    Quiet();
    m.Publish(2);
    m.Head(130);
  }
  WaitFor(*f, kGolden, "not-replicated");
  Quiet();
  f.Stop();
  MC_CHECK_EQ(Dump(*f), kGolden, "not-replicated");
  mc::Observe(std::to_string(g_connections));
  m.scope = nullptr;
  m.server = nullptr;
}

MC_SCENARIO(broken_anywhere, [] { mc::Opts o = Live(); o.max_bound = 0; o.all_shared = true; return o; }()) { Broken(true); }
#ifndef VERIF_FILE
MC_SCENARIO(broken, Live()) { Broken(false); }
#endif

// The follower is to be stopped at any moment.
MC_SCENARIO(stopped, Live()) {
  Master m;
  Follower f;
  const int mode = mc::Choose(4);
  m.Publish(0);
  const bool publishing = mc::Choose(2);
  f.Start(mode);
  std::thread t([&]() { if (publishing) m.Publish(1), m.Publish(2); });
  if (mc::Choose(2)) {
    // The remote stream waits for the subscription to be over.
    std::thread gone([&]() { f.remote = nullptr; });
    f.scope = nullptr;
    gone.join();
  } else {
    f.scope = nullptr;
  }
  t.join();
  const string d = Dump(*f);
  CheckPrefix(*f, kGolden, "not-a-prefix");
  f.Stop();
  MC_CHECK_EQ(Dump(*f), d, "replicated-after-the-end");
  m.scope = nullptr;
  m.server = nullptr;
}

#ifndef VERIF_FILE
// The master goes away, and so does its server.
MC_SCENARIO(master_gone, Live()) {
  auto m = std::make_unique<Master>();
  Follower f;
  const int mode = mc::Choose(4);
  m->Publish(0);
  f.Start(mode);
  m->Publish(1);
  m->scope = nullptr;
  m->owned = nullptr;
  m->owned = NewStream();
  for (int i = 0; i < 3; ++i) m->Publish(i);
  m->Head(130);
  m->Expose();
  WaitFor(*f, kGolden, "not-replicated");
  Quiet();
  f.Stop();
  m->scope = nullptr;
  m->server = nullptr;
}
#endif

// ---------------------------------------------------------------------------------------------------------------------------
// The master is a script: it cuts what it sends into chunks, ends the response anywhere, or sends what is no good at first.
namespace {

struct Line { long index; long us; string text; };
// The log, with the heads; what a master sends to the follower that is there all along.
std::vector<Line> Script(int which) {
  const auto entry = [](long i, long us) {
    return Line{i, us, "{\"index\":" + std::to_string(i) + ",\"us\":" + std::to_string(us) + "}\t" + JSON(R(static_cast<int>(i))) + "\n"};
  };
  const auto head = [](long us) { return Line{-1, us, "{\"us\":" + std::to_string(us) + "}\n"}; };
  if (which == 0) return {entry(0, 100), entry(1, 110), head(115), entry(2, 120), head(130)};
  if (which == 1) return {head(50), entry(0, 100), head(105), head(107), entry(1, 110), entry(2, 120), head(130)};
  return {entry(0, 1), entry(1, 110), entry(2, 120)};
}
string GoldenOf(const std::vector<Line>& lines) {
  std::ostringstream os;
  for (const auto& l : lines) if (l.index >= 0) os << l.index << '@' << l.us << '=' << R(static_cast<int>(l.index)).s << ' ';
  os << "head " << lines.back().us;
  return os.str();
}

struct ScriptedMaster {
  std::unique_ptr<HTTPServerPOSIX> server = NewServer();
  HTTPServerPOSIX::HTTPRoutesScope scope;
  std::vector<Line> lines;
  std::vector<std::vector<string>> first;  // what the first subscriptions get, chunk by chunk; these responses then end
  bool ends = true;                        // or not
  int subscriptions = 0;
  string refused;
  std::vector<std::unique_ptr<current::net::HTTPServerConnection>> connections;
  using sender_t = current::net::HTTPServerConnection::ChunkedResponseSender<CURRENT_BRICKS_HTTP_DEFAULT_CHUNK_CACHE_SIZE>;
  std::vector<std::unique_ptr<Request>> requests;
  std::vector<std::unique_ptr<sender_t>> held;

  explicit ScriptedMaster(std::vector<Line> l) : lines(std::move(l)) {
    fakenet::N().on_loopback = Plan;
    scope = server->Register("/l", URLPathArgs::CountMask::None | URLPathArgs::CountMask::One, [this](Request r) { Serve(std::move(r)); });
  }
  void Serve(Request r) {
    if (r.url.query.has("terminate")) {
      held.clear();
      requests.clear();
      r("");
    } else if (r.url.query.has("i")) {
      const long i = current::FromString<long>(r.url.query["i"]);
      const long since = r.url.query.has("since") ? current::FromString<long>(r.url.query["since"]) : 0;
      const size_t k = static_cast<size_t>(subscriptions++);
      auto owned = std::make_unique<Request>(std::move(r));
      auto sender = std::make_unique<sender_t>(owned->connection.SendChunkedHTTPResponse(
          HTTPResponseCode.OK, current::net::http::Headers({{"X-Current-Stream-Subscription-Id", "id"}}), "text/plain"));
      if (k < first.size()) {
        for (const auto& c : first[k]) if (!c.empty()) sender->Send(c);
        if (ends) return;
      } else {
        // Only the last head is there once it is in the past.
        long last = 0;
        for (const auto& l : lines) if (l.index >= 0) last = l.us;
        for (const auto& l : lines)
          if (l.index >= 0 ? l.index >= i && l.us >= since : &l == &lines.back() && l.us > last && l.us >= since) sender->Send(l.text);
      }
      requests.push_back(std::move(owned));
      held.push_back(std::move(sender));
    } else {
      r(current::stream::SubscribableStreamSchema(
          Value<current::reflection::ReflectedTypeBase>(current::reflection::Reflector().ReflectType<C09Record>()).type_id,
          current::stream::constants::kDefaultTopLevelName, current::stream::constants::kDefaultNamespaceName));
    }
  }
  ~ScriptedMaster() {
    held.clear();
    requests.clear();
    scope = nullptr;
    server = nullptr;
  }
};

string All(const std::vector<Line>& lines) {
  string s;
  for (const auto& l : lines) s += l.text;
  return s;
}
mc::Opts Scripted() {
  mc::Opts o = Live();
  o.all_shared = true;
  o.max_bound = 0;
  return o;
}
void RunScript(ScriptedMaster& m, int mode, const char* what) {
  Follower f;
  f.Start(mode);
  const string golden = GoldenOf(m.lines);
  WaitFor(*f, golden, what);
  Quiet();
  f.Stop();
  MC_CHECK_EQ(Dump(*f), golden, what);
  mc::Observe(std::to_string(m.subscriptions));
}

}  // namespace

#ifndef VERIF_FILE
// All the ways to cut it into three chunks.
MC_SCENARIO(chunks, Scripted()) {
  const auto lines = Script(mc::Choose(3));
  const int mode = 3 * mc::Choose(2);
  const string all = All(lines);
  const int c1 = mc::Choose(static_cast<int>(all.size()));
  const int how = mc::Choose(4);  // the second cut: none, or soon after, or the rest by a few bytes
  ScriptedMaster m(lines);
  std::vector<string> chunks{all.substr(0, c1)};
  if (how < 3) {
    const size_t step = how == 0 ? all.size() : how == 1 ? 1 : 7;
    if (how == 1) chunks.push_back(all.substr(c1, 1)), chunks.push_back(all.substr(c1 + 1));
    else for (size_t i = c1; i < all.size(); i += step) chunks.push_back(all.substr(i, step));
  } else {
    // No newline shares the chunk with what is before it, and the lines end with "\r\n" or are separated by blank ones.
    string text;
    for (char c : all.substr(c1)) text += c == '\n' ? "\r\n\n" : string(1, c);
    chunks.push_back(text);
  }
  m.first.push_back(chunks);
  m.ends = false;
  RunScript(m, mode, "chunks");
  MC_CHECK_EQ(m.subscriptions, 1, "reconnected-for-no-reason");
}

// The response ends (properly, from the standpoint of HTTP) after any number of bytes, once or twice.
MC_SCENARIO(ends_early, Scripted()) {
  const auto lines = Script(mc::Choose(3));
  const int mode = 3 * mc::Choose(2);
  const string all = All(lines);
  ScriptedMaster m(lines);
  const int c1 = mc::Choose(static_cast<int>(all.size()) + 1);
  const int k = mc::Choose(4);
  m.first.push_back({all.substr(0, c1 / 2), all.substr(c1 / 2, c1 - c1 / 2)});
  if (k) m.first.push_back({k == 3 ? "{" : k == 2 ? "{\"index\":" : ""});
  RunScript(m, mode, "ends-early");
}
#endif

// What is no good: it is not stored, and what is good is.
MC_SCENARIO(malformed, Scripted()) {
  const auto lines = Script(mc::Choose(3));
  const bool unchecked = mc::Choose(2);
  const int mode = unchecked ? 2 : 1;
  ScriptedMaster m(lines);
  const size_t at = static_cast<size_t>(mc::Choose(static_cast<int>(lines.size())));
  string before, after;
  long index = 0, us = 0;
  for (size_t i = 0; i < at; ++i) {
    before += lines[i].text;
    if (lines[i].index >= 0) index = lines[i].index + 1;
    us = lines[i].us;
  }
  for (size_t i = at; i < lines.size(); ++i) after += lines[i].text;
  const auto idxts = [](long index, long us) { return "{\"index\":" + std::to_string(index) + ",\"us\":" + std::to_string(us) + "}"; };
  const string good = JSON(R(7));
  const std::vector<string> bad = {
      "garbage", "{", "{}", "\"", "{\"error\":\"The subscriber has terminated.\"}", "[]", "{\"us\":" + std::to_string(us) + "}", "{\"us\":\"1\"}",
      idxts(index + 1, us + 1) + "\t" + good,                      // an index is skipped
      idxts(index ? index - 1 : 9, us + 1) + "\t" + good,          // or comes again
      idxts(index, us) + "\t" + good,                              // the time does not go forward
      idxts(index, us - 1) + "\t" + good,
      idxts(index, -5) + "\t" + good,
      "{\"index\":" + std::to_string(index) + "}\t" + good,        // no timestamp
      "{\"us\":" + std::to_string(us + 1) + "}\t" + good,          // no index
      "\t" + good,
      // What follows is for the checked mode only: the unchecked one takes the record itself as it is.
      idxts(index, us + 1), idxts(index, us + 1) + "\t", idxts(index, us + 1) + "\t{\"s\":1}", idxts(index, us + 1) + "\t{\"s\":\"", idxts(index, us + 1) + "\t" + good + "\t" + good,
      idxts(index, us + 1) + "\t" + good.substr(0, good.size() - 1), idxts(index, us + 1) + "\tgarbage", idxts(index, us + 1) + "\t{}"};
  const size_t kind = static_cast<size_t>(mc::Choose(unchecked ? 16 : static_cast<int>(bad.size())));
  if (us == 0 && (kind == 10 || kind == 11)) return;
  const string text = bad[kind] + "\n";
  const int cut = mc::Choose(3);
  if (cut == 0) m.first.push_back({before + text + after});
  else if (cut == 1) m.first.push_back({before, text, after});
  else m.first.push_back({before + text.substr(0, text.size() / 2), text.substr(text.size() / 2) + after});
  m.ends = mc::Choose(2);
  RunScript(m, mode, "malformed");
}

// ---------------------------------------------------------------------------------------------------------------------------
// The flip.
namespace {

template <ReplicationMode RM>
using Controller = current::stream::MasterFlipController<Stream, replicator_t, RM>;

template <ReplicationMode RM>
void Flip(bool concurrent) {
  for (uint16_t port : {7, 8})
    HTTP(current::net::ReservedLocalPort(current::net::ReservedLocalPort::Construct(), port,
                                         current::net::SocketHandle(current::net::SocketHandle::FromAcceptedHandle(fakenet::Listening(port)))));
  const auto mode = RM == ReplicationMode::Checked ? SubscriptionMode::Checked : SubscriptionMode::Unchecked;
  const StreamPtr sa = NewStream(), sb = NewStream();
  Controller<RM> a(std::move(*sa)), b(std::move(*sb));
  int started = 0, finished = 0, canceled = 0;
  const int limits = concurrent ? 0 : mc::Choose(4);
  current::stream::MasterFlipRestrictions restrictions;
  if (limits == 1) restrictions.SetMaxIndexDifference(1);
  if (limits == 2) restrictions.SetMaxHeadDifference(us_t(15));
  if (limits == 3) restrictions.SetMaxDiffSize(60);
  mc::AdvanceClockNs(1000);
  const uint64_t key = a.ExposeViaHTTP(7, "/l", restrictions, [&]() { ++started; }, nullptr, [&]() { ++canceled; });
  const auto publish = [](Stream& s, int i) {
    try {
      auto p = s.BorrowPublisher();
      p->Publish(R(i), us_t(100 + 10 * i));
      return true;
    } catch (const current::Exception&) {
      return false;
    }
  };
  int n = mc::Choose(2);
  for (int i = 0; i < n; ++i) publish(*a, i);
  if (mc::Choose(2)) a->BorrowPublisher()->UpdateHead(us_t(105));
  b.FollowRemoteStream(kURL, mode);
  MC_CHECK(!b.IsMasterStream() && a.IsMasterStream(), "two-masters");
  MC_CHECK(!publish(*b, 5), "published-into-a-follower");
  const auto publisher = [&]() {
    while (n < 3 && publish(*a, n)) ++n;
    if (n == 3) {
      try {
        a->BorrowPublisher()->UpdateHead(us_t(130));
      } catch (const current::Exception&) {
      }
    }
  };
  std::thread t;
  if (concurrent) t = std::thread(publisher);
  else if (mc::Choose(2)) publisher();
  bool flipped = true;
  if (!concurrent && mc::Choose(2)) {
    try {
      b.FlipToMaster(key + 1);
      mc::Violation("flipped-with-a-wrong-key", "");
    } catch (const current::stream::RemoteStreamRefusedFlipRequestException&) {
    }
    MC_CHECK(!b.IsMasterStream() && a.IsMasterStream(), "two-masters");
    std::this_thread::sleep_for(std::chrono::seconds(2));
    WaitFor(*b, Dump(*a), "not-replicated");
  }
  const string before = concurrent ? "" : Dump(*b);
  const auto la = a->Data()->Size() - b->Data()->Size();
  static_cast<void>(la);
  try {
    b.FlipToMaster(key);
  } catch (const current::stream::RemoteStreamRefusedFlipRequestException&) {
    flipped = false;
  }
  if (concurrent) t.join();
  mc::Observe((flipped ? "flipped " : "refused ") + Dump(*a) + ";");
  if (!flipped) {
    MC_CHECK(limits, "refused");
    MC_CHECK(!b.IsMasterStream() && a.IsMasterStream(), "two-masters-or-none");
    WaitFor(*b, Dump(*a), "not-replicated-after-the-refusal");
    // Nothing is left to transfer now.
    b.FlipToMaster(key);
  }
  MC_CHECK(b.IsMasterStream() && !a.IsMasterStream(), "two-masters-or-none");
  MC_CHECK(!publish(*a, 9), "published-into-a-follower");
  MC_CHECK_EQ(a->Data()->Size(), static_cast<uint64_t>(n), "lost-what-was-published");
  MC_CHECK_EQ(Dump(*b), Dump(*a), "different-after-the-flip");
  // And now the other way around.
  b.ExposeViaHTTP(8, "/l");
  a.FollowRemoteStream("http://localhost:8/l", mode);
  MC_CHECK(publish(*b, 6), "the-new-master-does-not-publish");
  WaitFor(*a, Dump(*b), "not-replicated-after-the-flip");
  Quiet();
  MC_CHECK_EQ(Dump(*a), Dump(*b), "not-replicated-after-the-flip");
  mc::Done();
}

}  // namespace

MC_SCENARIO(flip, Live()) { Flip<ReplicationMode::Checked>(true); }
MC_SCENARIO(flip_unchecked, Live()) { Flip<ReplicationMode::Unchecked>(true); }
#ifndef VERIF_FILE
MC_SCENARIO(flip_limits, [] { mc::Opts o = Live(); o.max_bound = 1; return o; }()) { Flip<ReplicationMode::Checked>(false); }
MC_SCENARIO(flip_limits_unchecked, [] { mc::Opts o = Live(); o.max_bound = 1; return o; }()) { Flip<ReplicationMode::Unchecked>(false); }
#endif
