// C19, concurrent part: the clock and the singletons under every schedule (bounded).
#include "mc.h"

#include "bricks/time/chrono.h"
#include "bricks/util/atomic_that_works.h"
#include "bricks/util/singleton.h"

#include <atomic>
#include <memory>
#include <vector>

namespace {

int64_t NowUs() { return current::time::Now().count(); }

// A call that begins after another one has returned must return a greater value.
struct Order {
  std::atomic<int64_t> max_returned{0};
  int64_t Call() {
    const int64_t before = max_returned.load();
    const int64_t t = NowUs();
    MC_CHECK(t > before, "clock-not-strictly-increasing");
    int64_t m = max_returned.load();
    while (m < t && !max_returned.compare_exchange_strong(m, t)) {
    }
    return t;
  }
};

template <class F>
void InThreads(int n, F&& f) {
  std::vector<std::thread> t;
  for (int i = 0; i < n; ++i) t.emplace_back([&f, i]() { f(i); });
  for (auto& x : t) x.join();
}

}  // namespace

// Three threads reading a clock that stands still, ticks or goes back.
MC_SCENARIO(clock_frozen, [] { mc::Opts o; o.clock_choice = true; return o; }()) {
  int64_t r[3];
  Order o;
  InThreads(2, [&](int i) { r[i] = o.Call(); });
  r[2] = o.Call();
  MC_CHECK(r[0] != r[1] && r[2] > r[0] && r[2] > r[1], "clock-not-strictly-increasing");
}
MC_SCENARIO(clock_backwards) {
  int64_t r[6];
  Order o;
  InThreads(3, [&](int i) {
    r[i] = o.Call();
    mc::AdvanceClockNs(i == 0 ? -5000000 : i == 1 ? 0 : 2000000);
    r[i + 3] = o.Call();
  });
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < i; ++j) MC_CHECK(r[i] != r[j], "clock-repeated-a-timestamp");
  for (int i = 0; i < 3; ++i) MC_CHECK(r[i] < r[i + 3], "clock-not-strictly-increasing");
  MC_CHECK(NowUs() > *std::max_element(r, r + 6), "clock-not-strictly-increasing");
}
MC_SCENARIO(clock_two_readers) {
  const int back = mc::Choose(3);
  int64_t r[2][3];
  InThreads(2, [&](int i) {
    for (int k = 0; k < 3; ++k) {
      if (back && i == 1) mc::AdvanceClockNs(back == 1 ? -1000000 : 3000000);
      r[i][k] = NowUs();
    }
  });
  for (int i = 0; i < 2; ++i) MC_CHECK(r[i][0] < r[i][1] && r[i][1] < r[i][2], "clock-not-strictly-increasing");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) MC_CHECK(r[0][i] != r[1][j], "clock-repeated-a-timestamp");
}

namespace {
int constructed, destroyed;
template <int K>
struct Slow {
  int a = 0, b = 0;
  bool complete = false;
  Slow() {
    ++constructed;
    a = 1;
    mc::Yield();
    b = 2;
    complete = true;
  }
  ~Slow() { ++destroyed; }
};
}  // namespace

// Concurrent first uses: one construction, nobody sees a half-built object, everybody gets the same one.
MC_SCENARIO(singleton) {
  constructed = 0;
  Slow<0>* p[3];
  InThreads(2, [&](int i) {
    p[i] = &current::Singleton<Slow<0>>();
    MC_CHECK(p[i]->complete && p[i]->a == 1 && p[i]->b == 2, "singleton-seen-half-built");
  });
  p[2] = &current::Singleton<Slow<0>>();
  MC_CHECK(p[0] == p[1] && p[1] == p[2], "singleton-not-unique");
  MC_CHECK_EQ(constructed, 1, "singleton-constructed-more-than-once");
}
namespace {
struct PerThread {
  int value = 0;
  std::thread::id maker = std::this_thread::get_id();
};
}  // namespace
// One instance per thread, never shared.
MC_SCENARIO(thread_local_singleton) {
  PerThread* p[2];
  InThreads(2, [&](int i) {
    p[i] = &current::ThreadLocalSingleton<PerThread>();
    MC_CHECK(p[i]->maker == std::this_thread::get_id(), "thread-local-singleton-of-another-thread");
    MC_CHECK_EQ(p[i]->value, 0, "thread-local-singleton-shared");
    p[i]->value = i + 1;
    mc::Yield();
    MC_CHECK_EQ(current::ThreadLocalSingleton<PerThread>().value, i + 1, "thread-local-singleton-shared");
    MC_CHECK(&current::ThreadLocalSingleton<PerThread>() == p[i], "thread-local-singleton-not-unique");
  });
}
// The lock-based atomic never shows a torn value.
MC_SCENARIO(atomic_value) {
  struct V { int64_t a, b; };
  current::atomic_that_works<V> v(V{0, 0});
  InThreads(3, [&](int i) {
    if (i < 2) {
      v.store(V{i + 1, i + 1});
    } else {
      const V x = v.load();
      MC_CHECK(x.a == x.b, "torn-value");
      V y{7, 8};
      v.load_into(y);
      MC_CHECK(y.a == y.b && (x.a == 0 || y.a != 0), "torn-value");
    }
  });
  MC_CHECK(v.load().a != 0, "lost-update");
}
