// C20: RipCurrent flows under every schedule (bounded).
#include "mc.h"

#include "ripcurrent/ripcurrent.h"

#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

using us_t = std::chrono::microseconds;

CURRENT_STRUCT(A) {
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_CONSTRUCTOR(A)(int32_t v = 0) : v(v) {}
};
CURRENT_STRUCT(B) {
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_CONSTRUCTOR(B)(int32_t v = 0) : v(v) {}
};

namespace {

// What the blocks report to.
struct Probe {
  std::vector<int> got;       // Touched from within `f()` only, thus w/o a mutex: a race here is a violation.
  int entered = 0;            // Same.
  std::atomic<int> alive{0};
  void Enter(int v) {
    MC_CHECK_EQ(entered, 0, "block-entered-twice");
    MC_CHECK_EQ(alive.load(), 1, "block-is-not-alive");
    ++entered;
    got.push_back(v);
  }
  void Leave() { --entered; }
  // Each source numbers its messages: source * 100 + n. All of them should be there, those of each source in order.
  void Verify(std::vector<int> per_source) {
    MC_CHECK_EQ(alive.load(), 0, "block-not-destroyed");
    size_t total = 0;
    for (int n : per_source) total += n;
    std::vector<int> seen(per_source.size());
    std::string o;
    for (int v : got) {
      const int s = v / 100, n = v % 100;
      o += std::to_string(v) + ",";
      MC_CHECK(s < static_cast<int>(seen.size()), "unknown-message");
      MC_CHECK(n <= per_source[s], "unknown-message");
      MC_CHECK(n > seen[s], "message-delivered-twice-or-out-of-order");
      MC_CHECK_EQ(n, seen[s] + 1, "message-lost-or-out-of-order");
      seen[s] = n;
    }
    MC_CHECK_EQ(got.size(), total, "message-lost");
    mc::Observe(o + ";");
  }
};
struct Alive {
  Probe& p;
  explicit Alive(Probe& p) : p(p) { MC_CHECK_EQ(p.alive.fetch_add(1), 0, "two-instances"); }
  ~Alive() {
    MC_CHECK_EQ(p.entered, 0, "destroyed-while-inside");
    p.alive.fetch_sub(1);
  }
};
// Errors are not expected unless said so.
struct Errors {
  std::mutex m;
  std::vector<std::string> e;
  current::ripcurrent::RipCurrentMockableErrorHandler::InjectedHandlerScope scope;
  bool expected;
  explicit Errors(bool expected = false)
      : scope(current::Singleton<current::ripcurrent::RipCurrentMockableErrorHandler>().ScopedInjectHandler([this](const std::string& s) {
          if (!this->expected) mc::Violation("error-reported", s);
          std::lock_guard<std::mutex> lock(m);
          e.push_back(s);
        })), expected(expected) {}
};

}  // namespace

// Sources: emit from the constructor, and from a thread of their own.
RIPCURRENT_NODE(CtorA, void, A) {
  CtorA(int source, int n) { for (int i = 1; i <= n; ++i) emit<A>(source * 100 + i); }
};
RIPCURRENT_NODE(CtorAB, void, (A, B)) {
  CtorAB(int a, int b, int n) { for (int i = 1; i <= n; ++i) { emit<A>(a * 100 + i); emit<B>(b * 100 + i); } }
};
RIPCURRENT_NODE(ThreadA, void, A) {
  std::thread t;
  ThreadA(int source, int n) : t([this, source, n]() { for (int i = 1; i <= n; ++i) emit<A>(source * 100 + i); }) {}
  ~ThreadA() { t.join(); }
};
RIPCURRENT_NODE(ThreadB, void, B) {
  std::thread t;
  ThreadB(int source, int n) : t([this, source, n]() { for (int i = 1; i <= n; ++i) emit<B>(source * 100 + i); }) {}
  ~ThreadB() { t.join(); }
};
// Two threads within one block.
RIPCURRENT_NODE(TwoThreadsA, void, A) {
  std::thread t1, t2;
  TwoThreadsA(int n)
      : t1([this, n]() { for (int i = 1; i <= n; ++i) emit<A>(i); }), t2([this, n]() { for (int i = 1; i <= n; ++i) emit<A>(100 + i); }) {}
  ~TwoThreadsA() { t1.join(); t2.join(); }
};
RIPCURRENT_NODE(DtorA, void, A) {
  int n;
  DtorA(int n) : n(n) { emit<A>(1); }
  ~DtorA() { for (int i = 2; i <= n; ++i) emit<A>(i); }
};
// Schedules into the future, out of order, equal timestamps included, and moves the head then.
RIPCURRENT_NODE(Scheduler, void, A) {
  Scheduler() {
    schedule<A>(us_t(30), 4);
    schedule<A>(us_t(10), 1);
    schedule<A>(us_t(20), 2);
    schedule<A>(us_t(20), 3);
    head(us_t(15));
    schedule<A>(us_t(40), 5);
    head(us_t(50));
    post<A>(us_t(60), 6);
  }
};
RIPCURRENT_NODE(ViaA, A, A) {
  Probe& p;
  Alive alive;
  ViaA(Probe& p) : p(p), alive(p) {}
  void f(A x) { p.Enter(x.v); emit<A>(x.v); p.Leave(); }
};
RIPCURRENT_NODE(AtoB, A, B) {
  Probe& p;
  Alive alive;
  AtoB(Probe& p) : p(p), alive(p) {}
  void f(A x) { p.Enter(x.v); emit<B>(x.v); p.Leave(); }
};
RIPCURRENT_NODE(BtoA, B, A) {
  Probe& p;
  Alive alive;
  BtoA(Probe& p) : p(p), alive(p) {}
  void f(B x) { p.Enter(x.v); emit<A>(x.v); p.Leave(); }
};
RIPCURRENT_NODE(SinkA, A, void) {
  Probe& p;
  Alive alive;
  SinkA(Probe& p) : p(p), alive(p) {}
  void f(A x) { p.Enter(x.v); p.Leave(); }
};
RIPCURRENT_NODE(SinkB, B, void) {
  Probe& p;
  Alive alive;
  SinkB(Probe& p) : p(p), alive(p) {}
  void f(B x) { p.Enter(x.v); p.Leave(); }
};
RIPCURRENT_NODE(SinkAB, (A, B), void) {
  Probe& p;
  Alive alive;
  SinkAB(Probe& p) : p(p), alive(p) {}
  void f(A x) { p.Enter(x.v); p.Leave(); }
  void f(B x) { p.Enter(x.v); p.Leave(); }
};
RIPCURRENT_NODE(SinkBA, (B, A), void) {
  Probe& p;
  Alive alive;
  SinkBA(Probe& p) : p(p), alive(p) {}
  void f(A x) { p.Enter(x.v); p.Leave(); }
  void f(B x) { p.Enter(x.v); p.Leave(); }
};
#define N(name, ...) RIPCURRENT_MACRO(name, __VA_ARGS__)
#define R(x) std::ref(x)

namespace {
// Run the flow, in one of the ways to run it.
template <class FLOW>
void Go(FLOW&& flow) {
  switch (mc::Choose(3)) {
    case 0: flow.RipCurrent().Join(); break;
    case 1: { auto scope = std::move(flow.RipCurrent().Async()); break; }
    case 2: { auto scope = flow.RipCurrent(); auto moved = std::move(scope); moved.Join(); break; }
  }
}
}

MC_SCENARIO(ctor_sink) {
  Errors e;
  Probe p;
  Go(N(CtorA, 0, 3) | N(SinkA, R(p)));
  p.Verify({3});
}
MC_SCENARIO(dtor_sink) {
  Errors e;
  Probe v, p;
  (N(DtorA, 2) | N(ViaA, R(v)) | N(SinkA, R(p))).RipCurrent().Join();
  v.Verify({2});
  p.Verify({2});
}
MC_SCENARIO(left_to_right) {
  Errors e;
  Probe v, w, p;
  (((N(CtorA, 0, 1) | N(ViaA, R(v))) | N(AtoB, R(w))) | N(SinkB, R(p))).RipCurrent().Join();
  for (Probe* x : {&v, &w, &p}) x->Verify({1});
}
MC_SCENARIO(right_to_left) {
  Errors e;
  Probe v, w, p;
  (N(CtorA, 0, 1) | (N(ViaA, R(v)) | (N(AtoB, R(w)) | N(SinkB, R(p))))).RipCurrent().Join();
  for (Probe* x : {&v, &w, &p}) x->Verify({1});
}
MC_SCENARIO(via) {
  Errors e;
  Probe w, p;
  ((N(CtorA, 0, 2) | N(AtoB, R(w))) | N(SinkB, R(p))).RipCurrent().Join();
  for (Probe* x : {&w, &p}) x->Verify({2});
}
MC_SCENARIO(thread_source) {
  Errors e;
  Probe v, p;
  Go(N(ThreadA, 0, 2) | (N(ViaA, R(v)) | N(SinkA, R(p))));
  v.Verify({2});
  p.Verify({2});
}
MC_SCENARIO(split) {
  Errors e;
  Probe p, q;
  (N(CtorAB, 0, 0, 2) | (N(SinkA, R(p)) + N(SinkB, R(q)))).RipCurrent().Join();
  p.Verify({2});
  q.Verify({2});
}
MC_SCENARIO(one_sink_of_two_types) {
  Errors e;
  Probe p;
  (N(CtorAB, 0, 1, 2) | N(SinkAB, R(p))).RipCurrent().Join();
  p.Verify({2, 2});
  MC_CHECK((p.got == std::vector<int>{1, 101, 2, 102}), "order-of-emission");
}
MC_SCENARIO(swap_and_merge) {
  Errors e;
  Probe v, w, p;
  (N(CtorAB, 0, 1, 2) | (N(AtoB, R(v)) + N(BtoA, R(w))) | N(SinkBA, R(p))).RipCurrent().Join();
  v.Verify({2});
  w.Verify({0, 2});
  p.Verify({2, 2});
  MC_CHECK((p.got == std::vector<int>{1, 101, 2, 102}), "order-of-emission");
}
MC_SCENARIO(plus_of_sequences) {
  Errors e;
  Probe v, p, q;
  ((N(CtorA, 0, 1) | N(AtoB, R(v)) | N(SinkB, R(p))) + (N(ThreadA, 0, 2) | N(SinkA, R(q)))).RipCurrent().Join();
  v.Verify({1});
  p.Verify({1});
  q.Verify({2});
}
MC_SCENARIO(pass_and_drop) {
  Errors e;
  Probe p;
  (N(CtorAB, 0, 0, 2) | RIPCURRENT_PASS(A, B) | (N(SinkA, R(p)) + RIPCURRENT_DROP(B))).RipCurrent().Join();
  p.Verify({2});
}
MC_SCENARIO(two_sources_of_one_type) {
  Errors e;
  Probe p;
  ((N(ThreadA, 0, 2) + N(ThreadA, 1, 2)) | N(SinkA, R(p))).RipCurrent().Join();
  p.Verify({2, 2});
}
MC_SCENARIO(two_sources_of_two_types) {
  Errors e;
  Probe p, q;
  ((N(ThreadA, 0, 2) + N(ThreadB, 0, 2)) | (N(SinkA, R(p)) + N(SinkB, R(q)))).RipCurrent().Join();
  p.Verify({2});
  q.Verify({2});
}
MC_SCENARIO(two_threads_of_one_source) {
  Errors e;
  Probe p;
  (N(TwoThreadsA, 2) | N(SinkA, R(p))).RipCurrent().Join();
  p.Verify({2, 2});
}
MC_SCENARIO(scheduler) {
  Errors e;
  Probe v, p;
  (N(Scheduler) | N(ViaA, R(v)) | N(SinkA, R(p))).RipCurrent().Join();
  v.Verify({6});
  p.Verify({6});
}
// Two flows at once, from the same description.
MC_SCENARIO(two_flows) {
  Errors e;
  Probe p, q;
  {
    const auto flow = N(ThreadA, 0, 2) | N(SinkA, R(p));
    flow.RipCurrent().Join();
    p.Verify({2});
    p.got.clear();
    auto s = std::move(flow.RipCurrent().Async());
    auto t = std::move((N(CtorA, 0, 2) | N(SinkA, R(q))).RipCurrent().Async());
  }
  p.Verify({2});
  q.Verify({2});
}
