// C15: MMQ under every schedule (bounded), with the real std::mutex/condition_variable code of blocks/mmq/mmq.h.
#include "mc.h"

#include "blocks/mmq/mmq.h"

#include <memory>

namespace {

struct Got { int v; uint64_t index; int64_t us; uint64_t last_index; int64_t last_us; };

struct ConsumerImpl {
  std::vector<Got> got;           // written by the consumer thread only
  std::atomic<int> count{0};      // consumer callbacks that returned
  std::atomic<int> entered{0};
  std::atomic<bool> gate{true};   // closed: the consumer callback blocks
  std::atomic<int> inside{0};
  current::ss::EntryResponse operator()(int&& v, idxts_t cur, idxts_t last) {
    MC_CHECK_EQ(inside.fetch_add(1), 0, "consumer-reentered");
    entered.fetch_add(1);
    while (!gate.load()) mc::BlockUntil([](void* p) { return static_cast<ConsumerImpl*>(p)->gate.load(); }, this, "consumer gate");
    got.push_back(Got{v, cur.index, cur.us.count(), last.index, last.us.count()});
    inside.fetch_sub(1);
    count.fetch_add(1);
    return current::ss::EntryResponse::More;
  }
};
using Consumer = current::ss::EntrySubscriber<ConsumerImpl, int>;

void WaitCount(Consumer& c, int n) {
  static thread_local int want;
  struct A { Consumer* c; int n; } a{&c, n};
  (void)want;
  mc::BlockUntil([](void* p) { return static_cast<A*>(p)->c->count.load() >= static_cast<A*>(p)->n; }, &a, "all messages delivered");
}

struct Pub { int v; uint64_t index; int64_t us; };  // index 0: refused

// Checks the delivered sequence against what the publishers were told.
void CheckDelivered(const Consumer& c, const std::vector<std::vector<Pub>>& pubs, bool all) {
  std::map<uint64_t, Pub> by_index;
  for (auto& t : pubs) {
    uint64_t prev = 0;
    for (auto& p : t) {
      if (!p.index) continue;
      MC_CHECK(by_index.emplace(p.index, p).second, "publish-index-duplicated");
      MC_CHECK(p.index > prev, "publish-order-of-one-thread-broken");
      prev = p.index;
    }
  }
  uint64_t i = 0;
  int64_t us = -1;
  for (auto& g : c.got) {
    ++i;
    MC_CHECK_EQ(g.index, i, "delivered-index-not-consecutive");
    MC_CHECK(g.us > us, "delivered-timestamps-not-increasing");
    us = g.us;
    MC_CHECK(g.last_index >= g.index && g.last_us >= g.us, "last-behind-message");
    auto it = by_index.find(g.index);
    MC_CHECK(it != by_index.end(), "delivered-message-with-unreported-index");
    MC_CHECK_EQ(g.v, it->second.v, "delivered-value-differs-from-published");
    MC_CHECK_EQ(g.us, it->second.us, "delivered-timestamp-differs-from-returned");
  }
  MC_CHECK(c.got.size() <= by_index.size(), "delivered-more-than-accepted");
  if (all) MC_CHECK_EQ(c.got.size(), by_index.size(), "accepted-message-not-delivered");
  std::string o;
  for (auto& g : c.got) o += std::to_string(g.v) + ",";
  mc::Observe(o);
}

template <bool DROP>
using Q = current::mmq::MMQ<int, Consumer, 1024, DROP>;

template <bool DROP>
void TwoPublishers(size_t buffer, int per_thread, bool moved) {
  auto c = std::make_unique<Consumer>();
  auto q = std::make_unique<Q<DROP>>(*c, buffer);
  std::vector<std::vector<Pub>> pubs(2);
  auto f = [&](int t) {
    for (int i = 0; i < per_thread; ++i) {
      int v = t * 10 + i;
      idxts_t r = moved ? q->Publish(std::move(v)) : q->Publish(static_cast<const int&>(v));
      pubs[t].push_back(Pub{t * 10 + i, r.index, r.us.count()});
      if (!DROP) MC_CHECK(r.index > 0, "blocking-queue-refused");
    }
  };
  std::thread t1(f, 0), t2(f, 1);
  t1.join();
  t2.join();
  int n = 0;
  for (auto& t : pubs) for (auto& p : t) n += p.index > 0;
  WaitCount(*c, n);
  q = nullptr;
  CheckDelivered(*c, pubs, true);
}

}  // namespace

MC_SCENARIO(blocking_buffer1) { TwoPublishers<false>(1, 2, true); }
MC_SCENARIO(blocking_buffer2) { TwoPublishers<false>(2, 2, false); }
MC_SCENARIO(dropping_buffer1) { TwoPublishers<true>(1, 2, true); }
MC_SCENARIO(dropping_buffer2) { TwoPublishers<true>(2, 2, false); }

// Three publishers, one message each, all waiting for the single slot held by a slow consumer.
MC_SCENARIO(blocking_three_waiters) {
  auto c = std::make_unique<Consumer>();
  auto q = std::make_unique<Q<false>>(*c, 1);
  std::vector<std::vector<Pub>> pubs(3);
  std::vector<std::thread> ts;
  for (int t = 0; t < 3; ++t) {
    ts.emplace_back([&, t]() {
      idxts_t r = q->Publish(t);
      pubs[t].push_back(Pub{t, r.index, r.us.count()});
      MC_CHECK(r.index > 0, "blocking-queue-refused");
    });
  }
  for (auto& t : ts) t.join();
  WaitCount(*c, 3);
  q = nullptr;
  CheckDelivered(*c, pubs, true);
}

// Capacity of a queue whose consumer is stuck: exactly `buffer` messages are held, then drop / block.
MC_SCENARIO(capacity_dropping) {
  const size_t buffer = 1 + mc::Choose(3);
  auto c = std::make_unique<Consumer>();
  c->gate = false;
  auto q = std::make_unique<Q<true>>(*c, buffer);
  std::vector<std::vector<Pub>> pubs(1);
  const bool wait_in = mc::Choose(2);
  for (size_t i = 0; i < buffer + 2; ++i) {
    idxts_t r = q->Publish(int(i));
    pubs[0].push_back(Pub{int(i), r.index, r.us.count()});
    if (i < buffer) MC_CHECK_EQ(r.index, i + 1, "dropped-although-not-full");
    else MC_CHECK_EQ(r.index, 0u, "accepted-although-full");
    if (i == 0 && wait_in) mc::BlockUntil([](void* p) { return static_cast<Consumer*>(p)->entered.load() > 0; }, c.get(), "consumer entered");
  }
  c->gate = true;
  WaitCount(*c, int(buffer));
  // All slots are free again, perhaps after the consumer has released the last one.
  size_t accepted = 0;
  for (int i = 0; i < 2; ++i) {
    idxts_t r = q->Publish(100 + i);
    pubs[0].push_back(Pub{100 + i, r.index, r.us.count()});
    if (r.index) MC_CHECK_EQ(r.index, buffer + (++accepted), "index-skipped-after-drop");
    if (buffer > 1) MC_CHECK(accepted > 0, "dropped-although-not-full");
  }
  WaitCount(*c, int(buffer + accepted));
  q = nullptr;
  CheckDelivered(*c, pubs, true);
}

MC_SCENARIO(capacity_blocking) {
  const size_t buffer = 1 + mc::Choose(2);
  auto c = std::make_unique<Consumer>();
  c->gate = false;
  auto q = std::make_unique<Q<false>>(*c, buffer);
  std::vector<std::vector<Pub>> pubs(2);
  for (size_t i = 0; i < buffer; ++i) {
    idxts_t r = q->Publish(int(i));
    pubs[0].push_back(Pub{int(i), r.index, r.us.count()});
    MC_CHECK_EQ(r.index, i + 1, "blocking-queue-refused");
  }
  std::atomic<bool> done{false};
  std::thread t([&]() {
    idxts_t r = q->Publish(50);
    MC_CHECK(c->gate.load(), "accepted-although-full");
    pubs[1].push_back(Pub{50, r.index, r.us.count()});
    done = true;
  });
  mc::Yield();
  MC_CHECK(!done.load(), "accepted-although-full");
  c->gate = true;
  t.join();
  WaitCount(*c, int(buffer) + 1);
  q = nullptr;
  CheckDelivered(*c, pubs, true);
}

// Explicit timestamps: not-newer ones are refused with an exception and nothing else changes.
MC_SCENARIO(explicit_timestamps) {
  auto c = std::make_unique<Consumer>();
  auto q = std::make_unique<Q<false>>(*c, 2);
  std::vector<std::vector<Pub>> pubs(1);
  uint64_t idx = 0;
  int64_t last = -1;
  for (int i = 0; i < 3; ++i) {
    const int64_t us = mc::Choose(4);
    bool thrown = false;
    idxts_t r;
    try {
      r = q->Publish(i, std::chrono::microseconds(us));
    } catch (const current::ss::InconsistentTimestampException&) {
      thrown = true;
    }
    MC_CHECK_EQ(thrown, us <= last, "timestamp-order-enforcement");
    if (!thrown) {
      last = us;
      MC_CHECK_EQ(r.index, ++idx, "publish-index");
      MC_CHECK_EQ(r.us.count(), us, "publish-timestamp");
      pubs[0].push_back(Pub{i, r.index, us});
    }
  }
  WaitCount(*c, int(idx));
  q = nullptr;
  CheckDelivered(*c, pubs, true);
}

// Two publishers, explicit timestamps 10 and 20: whatever the blocking, delivery is by increasing timestamp.
MC_SCENARIO(explicit_concurrent) {
  auto c = std::make_unique<Consumer>();
  auto q = std::make_unique<Q<false>>(*c, 1);
  std::vector<std::vector<Pub>> pubs(3);
  {
    idxts_t r = q->Publish(0, std::chrono::microseconds(1));
    pubs[2].push_back(Pub{0, r.index, r.us.count()});
  }
  std::atomic<int> refused{0};
  auto f = [&](int t, int64_t us) {
    try {
      idxts_t r = q->Publish(t, std::chrono::microseconds(us));
      pubs[t - 1].push_back(Pub{t, r.index, r.us.count()});
      MC_CHECK_EQ(r.us.count(), us, "publish-timestamp");
    } catch (const current::ss::InconsistentTimestampException&) {
      ++refused;
      MC_CHECK_EQ(t, 1, "newest-refused");
    }
  };
  std::thread t1(f, 1, 10), t2(f, 2, 20);
  t1.join();
  t2.join();
  WaitCount(*c, 3 - refused.load());
  q = nullptr;
  CheckDelivered(*c, pubs, true);
}

// Destruction at any moment after the last Publish() returned: it completes, and what was delivered is a prefix.
MC_SCENARIO(destroy_anytime) {
  const size_t buffer = 1 + mc::Choose(2);
  auto c = std::make_unique<Consumer>();
  auto q = std::make_unique<Q<false>>(*c, buffer);
  std::vector<std::vector<Pub>> pubs(1);
  const int n = mc::Choose(3);
  for (int i = 0; i < n; ++i) {
    idxts_t r = q->Publish(int(i));
    pubs[0].push_back(Pub{i, r.index, r.us.count()});
  }
  q = nullptr;
  MC_CHECK_EQ(c->inside.load(), 0, "consumer-running-after-destruction");
  CheckDelivered(*c, pubs, false);
  c = nullptr;
}

// A publisher that is refused after having waited must not swallow the wakeup another waiting publisher needs.
MC_SCENARIO(refused_waiter) {
  auto c = std::make_unique<Consumer>();
  auto q = std::make_unique<Q<false>>(*c, 1);
  std::vector<std::vector<Pub>> pubs(4);
  {
    idxts_t r = q->Publish(0, std::chrono::microseconds(1));
    pubs[0].push_back(Pub{0, r.index, r.us.count()});
  }
  std::atomic<int> refused{0};
  auto f = [&](int t, int64_t us) {
    try {
      idxts_t r = q->Publish(t, std::chrono::microseconds(us));
      pubs[t].push_back(Pub{t, r.index, r.us.count()});
    } catch (const current::ss::InconsistentTimestampException&) {
      ++refused;
      MC_CHECK(t != 3, "newest-refused");
    }
  };
  std::thread t1(f, 1, 10), t2(f, 2, 20), t3(f, 3, 40);
  t1.join();
  t2.join();
  t3.join();
  WaitCount(*c, 4 - refused.load());
  q = nullptr;
  CheckDelivered(*c, pubs, true);
}
