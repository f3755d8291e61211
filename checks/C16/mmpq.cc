// C16: MMPQ under every schedule (bounded), with the real code of blocks/mmq/mmpq.h.
#include "mc.h"

#include "blocks/mmq/mmpq.h"

#include <map>
#include <memory>

namespace {

struct Rec { int64_t us = 0; uint64_t index = 0; bool returned = false; bool delivered = false; };
std::map<int, Rec>* recs;  // only touched under `m` below (a real mutex: visible to the race detector)
std::mutex* m;
int64_t head_called;       // the largest head whose UpdateHead() has been called
int delivered_n;

struct ConsumerImpl {
  std::atomic<int> count{0};
  std::atomic<int> inside{0};
  int64_t max_last = -1;
  current::ss::EntryResponse operator()(int&& v, idxts_t cur, idxts_t last) {
    MC_CHECK_EQ(inside.fetch_add(1), 0, "consumer-reentered");
    {
      std::lock_guard<std::mutex> lock(*m);
      auto it = recs->find(v);
      MC_CHECK(it != recs->end(), "delivered-unknown-message");
      Rec& r = it->second;
      MC_CHECK(!r.delivered, "delivered-twice");
      r.delivered = true;
      MC_CHECK_EQ(cur.us.count(), r.us, "delivered-timestamp");
      if (r.index) MC_CHECK_EQ(cur.index, r.index, "delivered-index");
      r.index = cur.index;
      MC_CHECK(last.us >= cur.us, "delivered-before-head-passed-it");
      MC_CHECK(head_called >= cur.us.count(), "delivered-before-head-passed-it");
      MC_CHECK(last.us.count() >= max_last, "head-went-back");
      max_last = last.us.count();
      for (auto& kv : *recs) {
        const Rec& o = kv.second;
        if (o.returned && !o.delivered) {
          MC_CHECK(!(o.us < r.us), "delivered-out-of-timestamp-order");
          MC_CHECK(!(o.us == r.us && o.index < r.index), "equal-timestamps-out-of-publication-order");
        }
      }
      mc::Observe(std::to_string(v) + ",");
    }
    inside.fetch_sub(1);
    count.fetch_add(1);
    return current::ss::EntryResponse::More;
  }
};
using Consumer = current::ss::EntrySubscriber<ConsumerImpl, int>;
using Q = current::mmq::MMPQ<int, Consumer>;

struct World {
  std::unique_ptr<Consumer> c;
  std::unique_ptr<Q> q;
  World() {
    recs = new std::map<int, Rec>();
    m = new std::mutex();
    head_called = -1;
    c = std::make_unique<Consumer>();
    q = std::make_unique<Q>(*c);
  }
  void Publish(int v, int64_t us) {
    {
      std::lock_guard<std::mutex> lock(*m);
      (*recs)[v].us = us;
    }
    idxts_t r = q->Publish(std::move(v), std::chrono::microseconds(us));
    std::lock_guard<std::mutex> lock(*m);
    Rec& rec = (*recs)[v];
    if (rec.index) MC_CHECK_EQ(rec.index, r.index, "publish-index");
    for (auto& kv : *recs) if (kv.first != v) MC_CHECK(kv.second.index != r.index, "publish-index-duplicated");
    rec.index = r.index;
    rec.returned = true;
  }
  bool Head(int64_t us) {
    {
      std::lock_guard<std::mutex> lock(*m);
      head_called = std::max(head_called, us);
    }
    try {
      q->UpdateHead(std::chrono::microseconds(us));
      return true;
    } catch (const current::ss::InconsistentTimestampException&) {
      return false;
    }
  }
  void Wait(int n) {
    struct A { Consumer* c; int n; } a{c.get(), n};
    mc::BlockUntil([](void* p) { return static_cast<A*>(p)->c->count.load() >= static_cast<A*>(p)->n; }, &a, "all messages delivered");
  }
  void Finish(int expected) {
    Wait(expected);
    q = nullptr;
    MC_CHECK_EQ(c->count.load(), expected, "delivered-too-many");
    MC_CHECK_EQ(c->inside.load(), 0, "consumer-running-after-destruction");
  }
};

}  // namespace

// Sequential: every choice of three timestamps and of the head in between.
MC_SCENARIO(sequential_orders) {
  World w;
  int64_t us[3];
  int64_t head = -1;
  int due = 0;
  for (int i = 0; i < 3; ++i) {
    us[i] = 1 + mc::Choose(3);
    w.Publish(i, us[i]);
    const int h = mc::Choose(3);  // 0: none, 1: 2, 2: 3
    if (h) {
      const int64_t t = 1 + h;
      MC_CHECK_EQ(w.Head(t), t > head, "head-acceptance");
      head = std::max(head, t);
      if (mc::Choose(2)) {
        due = 0;
        for (int j = 0; j <= i; ++j) due += us[j] <= head;
        w.Wait(due);
      }
    }
  }
  due = 0;
  for (int j = 0; j < 3; ++j) due += us[j] <= head;
  w.Wait(due);
  mc::Yield();
  MC_CHECK_EQ(w.c->count.load(), due, "delivered-too-many");
  MC_CHECK(w.Head(10), "head-acceptance");
  w.Finish(3);
}

MC_SCENARIO(two_publishers_and_head) {
  World w;
  std::thread t1([&]() { w.Publish(1, 3); w.Publish(2, 1); });
  std::thread t2([&]() { w.Publish(3, 2); w.Publish(4, 3); });
  std::thread t3([&]() { w.Head(2); w.Head(3); });
  t1.join();
  t2.join();
  t3.join();
  w.Finish(4);
}

MC_SCENARIO(concurrent_equal_timestamps) {
  World w;
  std::thread t1([&]() { w.Publish(1, 5); w.Publish(2, 5); });
  std::thread t2([&]() { w.Publish(3, 5); });
  t1.join();
  w.Head(5);
  t2.join();
  w.Finish(3);
}

// Two threads move the head: exactly the non-increasing moves are refused, and everything due is delivered.
MC_SCENARIO(concurrent_heads) {
  World w;
  w.Publish(1, 1);
  w.Publish(2, 2);
  std::atomic<int> refused{0};
  std::thread t1([&]() { refused += !w.Head(1); });
  std::thread t2([&]() { MC_CHECK(w.Head(2), "head-acceptance"); });
  t1.join();
  t2.join();
  w.Finish(2);
}

// The default timestamps: published "now", due once the head is updated to "now".
MC_SCENARIO(default_timestamps) {
  World w;
  {
    std::lock_guard<std::mutex> lock(*m);
    head_called = std::numeric_limits<int64_t>::max();
  }
  struct C2 { std::vector<int> v; std::atomic<int> n{0}; current::ss::EntryResponse operator()(int&& x, idxts_t cur, idxts_t last) { MC_CHECK(cur.us <= last.us, "delivered-before-head-passed-it"); v.push_back(x); ++n; return current::ss::EntryResponse::More; } };
  using CC = current::ss::EntrySubscriber<C2, int>;
  auto c = std::make_unique<CC>();
  auto q = std::make_unique<current::mmq::MMPQ<int, CC>>(*c);
  std::thread t([&]() { q->Publish(1); q->Publish(2); });
  q->Publish(3);
  t.join();
  q->UpdateHead();
  mc::BlockUntil([](void* p) { return static_cast<CC*>(p)->n.load() == 3; }, c.get(), "all messages delivered");
  q = nullptr;
  int p1 = -1, p2 = -1;
  for (int i = 0; i < 3; ++i) { if (c->v[i] == 1) p1 = i; if (c->v[i] == 2) p2 = i; }
  MC_CHECK(p1 >= 0 && p1 < p2, "delivered-out-of-timestamp-order");
}

MC_SCENARIO(destroy_anytime) {
  World w;
  const int n = mc::Choose(3);
  for (int i = 0; i < n; ++i) w.Publish(i, 1 + i);
  if (mc::Choose(2)) w.Head(2);
  w.q = nullptr;
  MC_CHECK_EQ(w.c->inside.load(), 0, "consumer-running-after-destruction");
  w.c = nullptr;
}
