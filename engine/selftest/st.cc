#include "../mc.h"
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <memory>
#include <thread>
#include <vector>
#include <future>
// Expected verdicts are checked by engine/selftest/run.py.
MC_SCENARIO(ok_counter) {
  auto m = std::make_unique<std::mutex>(); int x = 0;
  std::thread t([&] { std::lock_guard<std::mutex> l(*m); ++x; });
  std::thread t2([&] { std::lock_guard<std::mutex> l(*m); x *= 3; });
  { std::lock_guard<std::mutex> l(*m); x += 2; }
  t.join(); t2.join();
  mc::Observe(std::to_string(x));
}
MC_SCENARIO(bad_race) { int x = 0; std::thread t([&] { ++x; }); ++x; t.join(); }
MC_SCENARIO(bad_atomic_lost_update) {
  std::atomic<int> x{0};
  auto f = [&] { int v = x; x = v + 1; };
  std::thread a(f), b(f); a.join(); b.join();
  MC_CHECK(x == 2, "lost-update");
}
MC_SCENARIO(bad_deadlock) {
  std::mutex a, b;
  std::thread t([&] { std::lock_guard<std::mutex> l(a); std::lock_guard<std::mutex> k(b); });
  { std::lock_guard<std::mutex> l(b); std::lock_guard<std::mutex> k(a); }
  t.join();
}
MC_SCENARIO(bad_lost_wakeup) {
  std::mutex m; std::condition_variable cv; std::atomic<bool> flag{false};
  std::thread t([&] { std::unique_lock<std::mutex> l(m); if (!flag) cv.wait(l); });
  flag = true; cv.notify_one();
  t.join();
}
MC_SCENARIO(ok_condvar) {
  std::mutex m; std::condition_variable cv; bool flag = false;
  std::thread t([&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return flag; }); });
  { std::lock_guard<std::mutex> l(m); flag = true; } cv.notify_one();
  t.join();
}
MC_SCENARIO(bad_uaf) {
  auto* p = new std::atomic<int>(0); 
  std::thread t([p] { p->store(1); });
  std::thread t2([p] { while (!p->load()) std::this_thread::yield(); delete p; });
  std::thread t3([p] { p->load(); });
  t.join(); t2.join(); t3.join();
}
MC_SCENARIO(bad_notify_after_destroy) {
  struct S { std::mutex m; std::condition_variable cv; bool f = false; };
  auto* s = new S;
  std::thread t([s] { { std::lock_guard<std::mutex> l(s->m); s->f = true; } s->cv.notify_one(); });
  { std::unique_lock<std::mutex> l(s->m); s->cv.wait(l, [s] { return s->f; }); }
  delete s;
  t.join();
}
MC_SCENARIO(ok_shared_ptr) {
  auto p = std::make_shared<int>(5);
  std::thread t([p]() mutable { p.reset(); });
  std::thread t2([p]() mutable { p.reset(); });
  p.reset(); t.join(); t2.join();
}
MC_SCENARIO(ok_static_future) {
  static int cnt = 0;
  auto f = [] { static int v = ++cnt; return v; };
  std::promise<int> pr; std::future<int> fu = pr.get_future();
  std::thread t([&] { pr.set_value(f()); });
  std::thread t2([&] { f(); });
  int v = fu.get(); t.join(); t2.join();
  MC_CHECK_EQ(v, 1, "static");
}
static thread_local int tl = 0;
MC_SCENARIO(ok_timed) {
  std::mutex m; std::condition_variable cv;
  std::thread t([&] { std::unique_lock<std::mutex> l(m); tl = 1; cv.wait_for(l, std::chrono::milliseconds(10)); mc::Observe("t"); });
  std::this_thread::sleep_for(std::chrono::milliseconds(5));
  mc::Observe("m");
  t.join();
  MC_CHECK(tl == 0, "tls");
}
MC_SCENARIO(ok_three_threads_rw) {
  std::atomic<int> a{0}, b{0};
  std::thread t([&] { a = 1; b = 1; });
  std::thread t2([&] { int y = b; int x = a; MC_CHECK(!(y == 1 && x == 0), "order"); mc::Observe(std::to_string(y * 2 + x)); });
  std::thread t3([&] { a.load(); b.load(); });
  t.join(); t2.join(); t3.join();
}
