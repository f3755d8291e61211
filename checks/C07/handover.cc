// C07: handing the right to publish over, under every schedule (bounded).
#include "mc.h"

#include "stream/stream.h"

#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include <unistd.h>

using us_t = std::chrono::microseconds;

CURRENT_STRUCT(VEntry) {
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VEntry) {}
  CURRENT_CONSTRUCTOR(VEntry)(int32_t v) : v(v) {}
};

namespace {

template <template <typename> class P>
struct World {
  using stream_t = current::stream::Stream<VEntry, P>;
  using publisher_t = typename stream_t::publisher_t;
  std::string f;
  std::unique_ptr<current::Owned<stream_t>> s;
  std::mutex m;
  std::vector<std::pair<uint64_t, int>> acked;
  std::atomic<int> owners{0};
  World() { Open(); }
  ~World() {
    s = nullptr;
    if (!f.empty()) ::unlink(f.c_str());
  }
  void Open();
  template <class PUB>
  void Publish(PUB& p, int v) {
    const idxts_t r = p.Publish(VEntry(v));
    std::lock_guard<std::mutex> lock(m);
    acked.emplace_back(r.index, v);
  }
  // Publish through a publisher borrowed for this very call, if there is one.
  bool TryPublish(int v) {
    try {
      const auto p = (*s)->BorrowPublisher();
      Publish(const_cast<publisher_t&>(*p), v);
      return true;
    } catch (const current::stream::PublisherNotAvailableException&) {
      return false;
    }
  }
  // Take the publisher, publish while not asked to give it up, then do.
  void Follow(int v, int n) {
    auto p = (*s)->BecomeFollowingStream();
    MC_CHECK_EQ(owners.fetch_add(1), 0, "two-owners-of-the-publisher");
    for (int i = 0; i < n && p; ++i) Publish(*p, v + i);
    owners.fetch_sub(1);
  }
  void Verify() {
    MC_CHECK_EQ((*s)->Data()->Size(), acked.size(), "log-size");
    int64_t us = -1;
    uint64_t i = 0;
    std::string o;
    for (const auto& e : (*s)->Data()->Iterate()) {
      MC_CHECK_EQ(e.idx_ts.index, i, "log-index");
      MC_CHECK(e.idx_ts.us.count() > us, "log-timestamp");
      us = e.idx_ts.us.count();
      bool found = false;
      for (const auto& a : acked) found |= a.first == i && a.second == e.entry.v;
      MC_CHECK(found, "log-entry-not-acknowledged");
      ++i;
      o += std::to_string(e.entry.v) + ",";
    }
    mc::Observe(o);
  }
};
template <>
void World<current::persistence::Memory>::Open() {
  s = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream());
}
template <>
void World<current::persistence::File>::Open() {
  char b[256];
  const ssize_t n = ::readlink("/proc/self/exe", b, sizeof b - 1);
  f = std::string(b, n > 0 ? n : 0) + ".scratch-" + std::to_string(::getpid());
  ::unlink(f.c_str());
  s = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream(f));
}

// Publishing while the stream is turned into a follower and back into a master.
template <class W>
void FollowVsPublish() {
  W w;
  std::thread t([&]() { w.TryPublish(1); w.TryPublish(2); });
  w.Follow(10, 1);
  MC_CHECK(!(*w.s)->IsMasterStream(), "is-master");
  MC_CHECK(!w.TryPublish(99), "published-via-the-stream-that-does-not-own-its-publisher");
  (*w.s)->BecomeMasterStream();
  MC_CHECK((*w.s)->IsMasterStream(), "is-master");
  MC_CHECK(w.TryPublish(20), "master-stream-refused-to-publish");
  t.join();
  w.Verify();
}
// Two parties want to be the one.
template <class W>
void TwoFollowers() {
  W w;
  std::thread t([&]() { w.Follow(10, 1); });
  w.Follow(20, 1);
  t.join();
  MC_CHECK(!(*w.s)->IsMasterStream(), "is-master");
  w.Verify();
}
// One follows, another one restores the order.
template <class W>
void FollowVsMaster() {
  W w;
  std::thread t([&]() { w.Follow(10, 2); });
  (*w.s)->BecomeMasterStream();
  const bool p = w.TryPublish(1);
  const bool master = (*w.s)->IsMasterStream();
  MC_CHECK(!master || p || true, "");
  t.join();
  (*w.s)->BecomeMasterStream();
  MC_CHECK(w.TryPublish(2), "master-stream-refused-to-publish");
  w.Verify();
}
// A borrower that publishes until asked to stop.
template <class W>
void LongBorrower() {
  W w;
  std::atomic<bool> started{false};
  std::thread t([&]() {
    auto p = (*w.s)->BorrowPublisher();
    started.store(true);
    for (int i = 0; i < 2 && p; ++i) w.Publish(*p, 1 + i);
  });
  mc::BlockUntil([](void* p) { return static_cast<std::atomic<bool>*>(p)->load(); }, &started, "started");
  if (mc::Choose(2)) {
    w.Follow(10, 1);
    (*w.s)->BecomeMasterStream();
  } else {
    (*w.s)->BecomeMasterStream();
  }
  MC_CHECK(w.TryPublish(20), "master-stream-refused-to-publish");
  t.join();
  w.Verify();
}
// A subscriber is given everything, whoever published it.
template <class W>
void Concurrent() {
  W w;
  std::thread t1([&]() { w.TryPublish(1); });
  std::thread t2([&]() { w.Follow(10, 1); (*w.s)->BecomeMasterStream(); });
  w.TryPublish(2);
  t1.join();
  t2.join();
  MC_CHECK((*w.s)->IsMasterStream(), "is-master");
  w.Verify();
}

}  // namespace

using M = World<current::persistence::Memory>;
using F = World<current::persistence::File>;
MC_SCENARIO(memory_follow_vs_publish) { FollowVsPublish<M>(); }
MC_SCENARIO(memory_two_followers) { TwoFollowers<M>(); }
MC_SCENARIO(memory_follow_vs_master) { FollowVsMaster<M>(); }
MC_SCENARIO(memory_long_borrower) { LongBorrower<M>(); }
MC_SCENARIO(memory_concurrent) { Concurrent<M>(); }
MC_SCENARIO(file_follow_vs_publish) { FollowVsPublish<F>(); }
MC_SCENARIO(file_two_followers) { TwoFollowers<F>(); }
MC_SCENARIO(file_follow_vs_master) { FollowVsMaster<F>(); }
MC_SCENARIO(file_long_borrower) { LongBorrower<F>(); }
MC_SCENARIO(file_concurrent) { Concurrent<F>(); }
