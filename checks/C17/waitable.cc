// C17: WaitableAtomic (basic and intrusive) and WaitableTerminateSignal under every schedule (bounded).
#include "mc.h"

#include "bricks/sync/waitable_atomic.h"
#include "bricks/util/waitable_terminate_signal.h"

#include <memory>

using current::IntrusiveClient;
using current::WaitableAtomic;
using current::WaitableTerminateSignal;
using current::WaitableTerminateSignalBulkNotifier;

namespace {

int64_t kT0;  // virtual time advances by microticks on clock reads, and by whole waits when a timeout has to elapse

struct Pair {  // both members always move together; a torn view or a race shows
  int a = 0, b = 0;
  void Set(int x) { a = x; b = x; }
  void Inc() { ++a; ++b; }
  bool Ok() const { return a == b; }
};
using WA = WaitableAtomic<Pair>;
using IWA = WaitableAtomic<Pair, true>;

// Every documented way to change the value. Each adds one.
template <class W>
void Mutate(W& w, int how) {
  if (how == 0) w.MutableUse([](Pair& p) { p.Inc(); });
  if (how == 1) { auto a = w.MutableScopedAccessor(); a->Inc(); }
  if (how == 2) MC_CHECK(w.PotentiallyMutableUse([](Pair& p) { p.Inc(); return true; }), "potentially-mutable-use-result");
  if (how == 3) { auto a = w.MutableScopedAccessor(); (*a).Inc(); }
}

template <class W>
void CheckedWait(W& w, int at_least, bool expected) {
  bool seen_ok = true;
  const bool r = w.Wait([&](const Pair& p) { if (!p.Ok()) seen_ok = false; return p.a >= at_least; });
  MC_CHECK(seen_ok, "torn-value");
  MC_CHECK_EQ(r, expected, "wait-result");
}

}  // namespace

// Two waiters with different thresholds, a mutator using any of the ways, twice.
MC_SCENARIO(wait_mutate) {
  auto w = std::make_unique<WA>();
  const int h1 = mc::Choose(4), h2 = mc::Choose(4);
  std::thread t1([&]() { CheckedWait(*w, 1, true); MC_CHECK(w->GetValue().a >= 1, "wait-result"); });
  std::thread t2([&]() { CheckedWait(*w, 2, true); MC_CHECK(w->GetValue().a >= 2, "wait-result"); });
  Mutate(*w, h1);
  Mutate(*w, h2);
  t1.join();
  t2.join();
  MC_CHECK_EQ(w->GetValue().a, 2, "lost-update");
  w = nullptr;
}

// Setters replacing the value as a whole; a conditional setter that does not apply changes nothing, but never blocks others.
MC_SCENARIO(wait_set) {
  auto w = std::make_unique<WA>();
  Pair five, seven;
  five.Set(5);
  seven.Set(7);
  std::thread t1([&]() { CheckedWait(*w, 7, true); });
  std::thread t2([&]() { w->SetValueIf([](const Pair& p) { return p.a == 5; }, seven); });
  std::thread t3([&]() { w->SetValue(five); });
  t3.join();
  t2.join();
  const int v = w->GetValue().a;
  MC_CHECK(v == 5 || v == 7, "lost-update");
  mc::Observe(std::to_string(v));
  if (v == 5) w->SetValueIf([](const Pair& p) { return p.a == 5; }, seven);
  MC_CHECK_EQ(w->GetValue().b, 7, "lost-update");
  t1.join();
  w->SetValueIf([](const Pair& p) { return p.a == 5; }, five);
  MC_CHECK_EQ(w->GetValue().a, 7, "conditional-set-applied-against-its-condition");
  MC_CHECK(!w->PotentiallyMutableUse([](Pair&) { return false; }), "potentially-mutable-use-result");
}

MC_SCENARIO(mutual_exclusion) {
  auto w = std::make_unique<WA>();
  std::thread t1([&]() { Mutate(*w, 0); Mutate(*w, 1); });
  std::thread t2([&]() { Mutate(*w, 2); MC_CHECK(w->ImmutableUse([](const Pair& p) { return p.Ok(); }), "torn-value"); });
  MC_CHECK(w->ImmutableScopedAccessor()->Ok(), "torn-value");
  Mutate(*w, 3);
  MC_CHECK(w->GetValue().Ok(), "torn-value");
  bool ran = false;
  w->UseAsLock([&]() { ran = true; });
  MC_CHECK(ran, "use-as-lock");
  t1.join();
  t2.join();
  MC_CHECK_EQ(w->GetValue().a, 4, "lost-update");
}

// An accessor holds the value exclusively for its whole scope, also after being moved.
MC_SCENARIO(accessor_scope) {
  auto w = std::make_unique<WA>();
  std::thread t([&]() { CheckedWait(*w, 3, true); });
  {
    auto a = w->MutableScopedAccessor();
    a->a = 1;
    mc::Yield();
    auto b = std::move(a);
    mc::Yield();
    b->a = 3;
    b->b = 3;
  }
  t.join();
}

// A timed wait says whether the condition was met, and gives up only once its time is over.
MC_SCENARIO(wait_for, [] { mc::Opts o; o.timeouts_anytime = true; return o; }()) {
  auto w = std::make_unique<WA>();
  const bool mutate = mc::Choose(2);
  const bool unrelated = mc::Choose(2);  // A change that does not meet the condition.
  std::thread t1([&]() {
    const int64_t t0 = mc::VirtualNowNs();
    bool last = false;
    const bool r = w->WaitFor([&](const Pair& p) { return last = (p.a >= 1); }, std::chrono::milliseconds(10));
    MC_CHECK_EQ(r, last, "wait-for-result");
    if (!r) MC_CHECK(mc::VirtualNowNs() - t0 >= 10000000, "wait-for-gave-up-early");
    if (!mutate) MC_CHECK(!r, "wait-for-result");
    mc::Observe(r ? "met" : "timeout");
  });
  if (unrelated) w->MutableUse([](Pair& p) { p.b = -1; });
  if (mutate) Mutate(*w, 0);
  t1.join();
}
// Without a timeout in the way, the mutation itself wakes the waiter: no time passes.
MC_SCENARIO(wait_for_is_woken) {
  kT0 = mc::VirtualNowNs();
  auto w = std::make_unique<WA>();
  std::thread t1([&]() {
    MC_CHECK(w->WaitFor([&](const Pair& p) { return p.a >= 1; }, std::chrono::milliseconds(10)), "wait-for-result");
    MC_CHECK(mc::VirtualNowNs() - kT0 < 1000000, "woken-only-by-the-timeout");
  });
  mc::Yield();
  const int how = mc::Choose(4);
  if (mc::Choose(2)) w->MutableUse([](Pair& p) { p.b = -1; });
  Mutate(*w, how);
  t1.join();
}

// Intrusive: clients keep the object alive; its destructor wakes the waiting ones, with the result `false`.
MC_SCENARIO(intrusive_destruction) {
  auto w = std::make_unique<IWA>();
  IWA* p = w.get();
  std::atomic<int> registered{0};
  std::thread t1([&, p](IntrusiveClient c) {
    CheckedWait(*p, 100, false);
    MC_CHECK(!c, "client-valid-while-destructing");
    IntrusiveClient c2 = p->RegisterScopedClient();
    MC_CHECK(!c2, "client-registered-while-destructing");
  }, p->RegisterScopedClient());
  std::thread t2([&, p](IntrusiveClient c) {
    Mutate(*p, 0);
    const bool v = c;
    mc::Observe(v ? "v" : "-");
    IntrusiveClient c3(std::move(c));
    (void)p->GetValue();
  }, p->RegisterScopedClient());
  w = nullptr;
  t1.join();
  t2.join();
}
MC_SCENARIO(intrusive_wait) {
  auto w = std::make_unique<IWA>();
  IWA* p = w.get();
  std::thread t1([p](IntrusiveClient c) {
    const bool r = p->Wait([](const Pair& x) { return x.a >= 1; });
    mc::Observe(r ? "met" : "destructing");
    if (r) MC_CHECK(p->GetValue().a >= 1, "wait-result");
  }, p->RegisterScopedClient());
  Mutate(*w, 0);
  if (mc::Choose(2)) { IntrusiveClient c = w->RegisterScopedClient(); MC_CHECK(c, "client-not-registered"); }
  w = nullptr;
  t1.join();
}
// The destructor really waits: a client in its scope can use the object after destruction began.
MC_SCENARIO(intrusive_destructor_waits) {
  struct D final : current::CustomWaitableAtomicDestructor {
    std::atomic<int> called{0};
    void WaitableAtomicDestructing() override { ++called; }
  } d;
  auto w = std::make_unique<IWA>(&d);
  IWA* p = w.get();
  std::thread t1([&, p](IntrusiveClient c) {
    for (int i = 0; i < 3 && c; ++i) mc::Yield();
    MC_CHECK(p->GetValue().Ok(), "torn-value");
  }, p->RegisterScopedClient());
  w = nullptr;
  MC_CHECK_EQ(d.called.load(), 1, "destruction-callback-count");
  t1.join();
}

// Terminate signal: the documented pattern, the condition guarded by the mutex the waiter passes in.
MC_SCENARIO(terminate_signal) {
  kT0 = mc::VirtualNowNs();
  auto s = std::make_unique<WaitableTerminateSignal>();
  std::mutex m;
  int v = 0;
  const bool term = mc::Choose(2);
  std::thread t1([&]() {
    std::unique_lock<std::mutex> lock(m);
    const bool r = s->WaitUntil(lock, [&]() { return v >= 2; });
    MC_CHECK(lock.owns_lock(), "lock-not-held-after-wait");
    MC_CHECK_EQ(r, static_cast<bool>(*s), "wait-until-result");
    if (!term) MC_CHECK(!r && v == 2, "wait-until-result");
    if (!r) MC_CHECK(v >= 2, "wait-until-result");
    if (!term) MC_CHECK(mc::VirtualNowNs() - kT0 < 1000000, "woken-only-by-the-timeout");
    mc::Observe(r ? "T" : "C");
  });
  std::thread t2([&]() {
    for (int i = 0; i < (term ? 1 : 2); ++i) {
      std::lock_guard<std::mutex> lock(m);
      ++v;
      s->NotifyOfExternalWaitableEvent();
    }
  });
  if (term) s->SignalExternalTermination();
  t2.join();
  t1.join();
}
// A waiter that is already waiting is woken by the termination at once, not by the polling timeout.
MC_SCENARIO(terminate_signal_wakes) {
  kT0 = mc::VirtualNowNs();
  auto s = std::make_unique<WaitableTerminateSignal>();
  std::mutex m;
  bool waiting = false;
  std::thread t1([&]() {
    std::unique_lock<std::mutex> lock(m);
    waiting = true;
    const bool r = s->WaitUntil(lock, [&]() { return false; });
    MC_CHECK(r, "wait-until-result");
    MC_CHECK(mc::VirtualNowNs() - kT0 < 1000000, "woken-only-by-the-timeout");
  });
  {
    std::unique_lock<std::mutex> lock(m);
    while (!waiting) { lock.unlock(); mc::Yield(); lock.lock(); }
    // The mutex being free and `waiting` set, the other thread is inside the wait.
    s->SignalExternalTermination();
  }
  t1.join();
}
// Bulk: whatever comes and goes, those who stay registered are notified; the ones gone are not touched.
MC_SCENARIO(bulk_notifier) {
  kT0 = mc::VirtualNowNs();
  auto b = std::make_unique<WaitableTerminateSignalBulkNotifier>();
  std::mutex m;
  int v = 0;
  auto waiter = [&](int want) {
    auto s = std::make_unique<WaitableTerminateSignal>();
    std::unique_lock<std::mutex> lock(m);
    const auto scope = std::make_unique<WaitableTerminateSignalBulkNotifier::Scope>(*b, *s);
    const bool r = s->WaitUntil(lock, [&]() { return v >= want; });
    MC_CHECK(!r, "wait-until-result");
    MC_CHECK(mc::VirtualNowNs() - kT0 < 1000000, "woken-only-by-the-timeout");
    lock.unlock();
  };
  std::thread t1(waiter, 1), t2(waiter, 2);
  for (int i = 0; i < 2; ++i) {
    std::lock_guard<std::mutex> lock(m);
    ++v;
    b->NotifyAllOfExternalWaitableEvent();
  }
  t1.join();
  t2.join();
  b = nullptr;
}
// Notified and terminated from outside of the mutex: the waiter still returns (possibly after its polling period).
MC_SCENARIO(terminate_unlocked) {
  auto s = std::make_unique<WaitableTerminateSignal>();
  auto b = std::make_unique<WaitableTerminateSignalBulkNotifier>();
  std::mutex m;
  std::atomic<int> v{0};
  const int how = mc::Choose(3);
  std::thread t1([&]() {
    std::unique_lock<std::mutex> lock(m);
    WaitableTerminateSignalBulkNotifier::Scope scope(b.get(), *s);
    const bool r = s->WaitUntil(lock, [&]() { return v.load() > 0; });
    MC_CHECK_EQ(r, how == 0, "wait-until-result");
  });
  if (how == 0) s->SignalExternalTermination();
  if (how == 1) { v = 1; s->NotifyOfExternalWaitableEvent(); }
  if (how == 2) { v = 1; b->NotifyAllOfExternalWaitableEvent(); }
  t1.join();
}

// UseAsLock() excludes the accessors.
MC_SCENARIO(use_as_lock) {
  auto w = std::make_unique<WA>();
  int plain = 0;  // guarded by nothing but the waitable atomic
  std::thread t1([&]() { w->UseAsLock([&]() { ++plain; }); });
  std::thread t2([&]() { w->MutableUse([&](Pair& p) { p.Inc(); ++plain; }); });
  t1.join();
  t2.join();
  MC_CHECK_EQ(plain, 2, "lost-update");
}
