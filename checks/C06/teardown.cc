// C06: tearing down subscriptions and streams, under every schedule (bounded). What is used after it is gone, or waits
// forever, is found by the engine; the rest is checked here.
#include "mc.h"

#include "stream/stream.h"

#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include <unistd.h>

using us_t = std::chrono::microseconds;

CURRENT_STRUCT(VEntry) {
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VEntry) {}
  CURRENT_CONSTRUCTOR(VEntry)(int32_t v) : v(v) {}
};

namespace {

// What is known about one subscription. Outlives everything.
struct Life {
  std::atomic<int> given{0};
  std::atomic<int> terminate_calls{0};
  std::atomic<int> done_calls{0};
  std::atomic<int> inside{0};
  std::atomic<bool> scope_gone{false};
  std::atomic<bool> said_done{false};
};

struct SubscriberImpl {
  Life& l;
  const int done_after;  // 0: never.
  const bool wait_for_done;  // Asked to terminate, say Wait, and say Done upon the next call.
  std::unique_ptr<int> canary = std::make_unique<int>(42);  // Freed along with the subscriber.
  SubscriberImpl(Life& l, int done_after, bool wait_for_done) : l(l), done_after(done_after), wait_for_done(wait_for_done) {}
  using ER = current::ss::EntryResponse;
  void Enter() {
    MC_CHECK(!l.scope_gone.load(), "subscriber-called-after-its-scope-is-gone");
    MC_CHECK(!l.said_done.load(), "subscriber-called-after-it-is-done");
    MC_CHECK_EQ(l.done_calls.load(), 0, "subscriber-called-after-the-done-callback");
    MC_CHECK_EQ(l.inside.fetch_add(1), 0, "subscriber-reentered");
    MC_CHECK_EQ(*canary, 42, "subscriber-corrupted");
  }
  ER Leave(ER r) {
    if (r == ER::Done) l.said_done.store(true);
    l.inside.fetch_sub(1);
    return r;
  }
  ER operator()(const VEntry&, idxts_t, idxts_t) {
    Enter();
    l.given.fetch_add(1);
    return Leave((done_after && l.given.load() == done_after) || l.terminate_calls.load() ? ER::Done : ER::More);
  }
  ER operator()(const std::string&, uint64_t, idxts_t) { return operator()(VEntry(), idxts_t(), idxts_t()); }
  ER operator()(us_t) {
    Enter();
    return Leave(ER::More);
  }
  ER EntryResponseIfNoMorePassTypeFilter() const { return ER::More; }
  current::ss::TerminationResponse Terminate() {
    Enter();
    MC_CHECK_EQ(l.terminate_calls.fetch_add(1), 0, "asked-to-terminate-twice");
    l.inside.fetch_sub(1);
    if (!wait_for_done) l.said_done.store(true);
    return wait_for_done ? current::ss::TerminationResponse::Wait : current::ss::TerminationResponse::Terminate;
  }
};
using Subscriber = current::ss::StreamSubscriber<SubscriberImpl, VEntry>;

template <template <typename> class P>
struct World {
  using stream_t = current::stream::Stream<VEntry, P>;
  std::string f;
  std::unique_ptr<current::Owned<stream_t>> s;
  World() { Open(); }
  ~World() {
    s = nullptr;
    if (!f.empty()) ::unlink(f.c_str());
  }
  void Open();
  void Publish(int v) { (*s)->Publisher()->Publish(VEntry(v)); }
};
template <>
void World<current::persistence::Memory>::Open() {
  s = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream());
}
template <>
void World<current::persistence::File>::Open() {
  char b[256];
  const ssize_t n = ::readlink("/proc/self/exe", b, sizeof b - 1);
  f = std::string(b, n > 0 ? n : 0) + ".scratch-" + std::to_string(::getpid());
  ::unlink(f.c_str());
  s = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream(f));
}

// A subscription along with the subscriber: the subscriber is destroyed right after the scope.
struct Subscription {
  Life l;
  std::unique_ptr<Subscriber> sub;
  current::stream::SubscriberScope scope;
  template <class W>
  void Start(W& w, bool unchecked, int done_after = 0, bool wait_for_done = false) {
    sub = std::make_unique<Subscriber>(l, done_after, wait_for_done);
    auto done = [this]() {
      MC_CHECK_EQ(l.done_calls.fetch_add(1), 0, "done-callback-called-twice");
      MC_CHECK_EQ(l.inside.load(), 0, "done-callback-while-in-the-subscriber");
    };
    if (unchecked) {
      scope = (*w.s)->SubscribeUnchecked(*sub, 0, us_t(0), done);
    } else {
      scope = (*w.s)->Subscribe(*sub, 0, us_t(0), done);
    }
  }
  void Stop(int how = 0) {
    if (how == 0) {
      scope = nullptr;
    } else {
      current::stream::SubscriberScope moved(std::move(scope));
      MC_CHECK(!scope, "moved-from-scope-is-active");
    }
    Stopped();
  }
  void Stopped() {
    l.scope_gone.store(true);
    MC_CHECK_EQ(l.done_calls.load(), 1, "done-callback-not-called");
    MC_CHECK(l.terminate_calls.load() == 1 || l.said_done.load(), "stopped-without-being-asked");
    sub = nullptr;
  }
};

bool DoneCalled(void* p) { return static_cast<Life*>(p)->done_calls.load() == 1; }

// The scope goes away while entries are being published.
template <class W>
void ScopeVsPublisher() {
  W w;
  w.Publish(1);
  Subscription u;
  const bool unchecked = mc::Choose(2);
  std::thread t([&]() { w.Publish(2); w.Publish(3); });
  u.Start(w, unchecked);
  u.Stop(mc::Choose(2));
  t.join();
}

// The subscriber decides to stop.
template <class W>
void SubscriberDone() {
  W w;
  w.Publish(1);
  Subscription u;
  std::thread t([&]() { w.Publish(2); });
  u.Start(w, false, 1 + mc::Choose(2));
  if (mc::Choose(2)) {
    mc::BlockUntil(DoneCalled, &u.l, "the subscriber is done");
    MC_CHECK(!u.scope, "done-scope-is-active");
  }
  u.Stop();
  t.join();
}

// Asked to terminate, the subscriber asks for more time, and ends upon the next entry.
template <class W>
void SubscriberWaits() {
  W w;
  Subscription u;
  std::thread t([&]() { w.Publish(1); w.Publish(2); });
  u.Start(w, false, 2, true);
  u.Stop();
  t.join();
}

// The stream goes away first; the owner of the scope releases it as the subscription is done.
template <class W>
void StreamGone() {
  W w;
  Subscription u;
  w.Publish(1);
  u.Start(w, mc::Choose(2), mc::Choose(2));
  std::thread t([&]() {
    mc::BlockUntil(DoneCalled, &u.l, "the subscriber is done");
    u.Stop();
  });
  if (mc::Choose(2)) w.Publish(2);
  w.s = nullptr;
  t.join();
}

// The stream and the scope go away at the same time, in different threads.
template <class W>
void StreamAndScope() {
  W w;
  Subscription u;
  w.Publish(1);
  u.Start(w, false, mc::Choose(2));
  std::thread t([&]() { u.Stop(); });
  w.s = nullptr;
  t.join();
}

// Two subscriptions, two threads.
template <class W>
void TwoScopes() {
  W w;
  Subscription u1, u2;
  w.Publish(1);
  u1.Start(w, false, 0);
  std::thread t([&]() { u2.Start(w, true, mc::Choose(2)); u2.Stop(); });
  u1.Stop();
  t.join();
}

// Another subscription is assigned over an active one.
template <class W>
void ScopeAssigned() {
  W w;
  Subscription u1, u2;
  w.Publish(1);
  u1.Start(w, false);
  u2.Start(w, false);
  u2.scope = std::move(u1.scope);
  u2.Stopped();
  MC_CHECK(!u1.l.scope_gone.load(), "the other one is on");
  u2.scope = nullptr;
  u1.Stopped();
}

// One thread polls the scope while another ends it.
template <class W>
void ScopePolled() {
  W w;
  Subscription u;
  w.Publish(1);
  u.Start(w, false, mc::Choose(2));
  std::thread t([&]() {
    const bool before = u.scope;
    const bool after = u.scope;
    MC_CHECK(before || !after, "scope-active-again");
  });
  u.Stop();
  t.join();
}

// A scope with no publisher at all.
template <class W>
void EmptyStream() {
  W w;
  Subscription u;
  u.Start(w, mc::Choose(2));
  if (mc::Choose(2)) mc::Yield();
  u.Stop(mc::Choose(2));
}

}  // namespace

using M = World<current::persistence::Memory>;
using F = World<current::persistence::File>;
MC_SCENARIO(memory_empty_stream) { EmptyStream<M>(); }
MC_SCENARIO(memory_scope_vs_publisher) { ScopeVsPublisher<M>(); }
MC_SCENARIO(memory_subscriber_done) { SubscriberDone<M>(); }
MC_SCENARIO(memory_subscriber_waits, [] { mc::Opts o; o.max_steps = 3000; o.max_bound = 1; return o; }()) { SubscriberWaits<M>(); }
MC_SCENARIO(memory_stream_gone) { StreamGone<M>(); }
MC_SCENARIO(memory_stream_and_scope) { StreamAndScope<M>(); }
MC_SCENARIO(memory_two_scopes) { TwoScopes<M>(); }
MC_SCENARIO(memory_scope_assigned) { ScopeAssigned<M>(); }
MC_SCENARIO(memory_scope_polled) { ScopePolled<M>(); }
MC_SCENARIO(file_scope_vs_publisher) { ScopeVsPublisher<F>(); }
MC_SCENARIO(file_subscriber_done) { SubscriberDone<F>(); }
MC_SCENARIO(file_subscriber_waits, [] { mc::Opts o; o.max_steps = 3000; o.max_bound = 1; return o; }()) { SubscriberWaits<F>(); }
MC_SCENARIO(file_stream_gone) { StreamGone<F>(); }
MC_SCENARIO(file_stream_and_scope) { StreamAndScope<F>(); }
