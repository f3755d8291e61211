// C13: concurrent storage transactions are serializable, and followers converge. All schedules (bounded).
#include "mc.h"

#include "storage/storage.h"
#include "storage/persister/stream.h"

#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include <unistd.h>

CURRENT_STRUCT(VItem) {
  CURRENT_FIELD(key, int32_t, 0);
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VItem) {}
  CURRENT_CONSTRUCTOR(VItem)(int32_t key, int32_t v) : key(key), v(v) {}
};
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, VItem, EOD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, VItem, EUD);
CURRENT_STORAGE(VStorage) {
  CURRENT_STORAGE_FIELD(a, EOD);
  CURRENT_STORAGE_FIELD(b, EUD);
};

namespace {

using us_t = std::chrono::microseconds;
#ifndef VERIF_FILE
using storage_t = VStorage<StreamInMemoryStreamPersister>;
using stream_t = storage_t::stream_t;
struct Log {};
current::Owned<storage_t> CreateMaster(const Log&) { return storage_t::CreateMasterStorage(); }
current::Owned<stream_t> CreateStream(const Log&) { return stream_t::CreateStream(); }
#else
using storage_t = VStorage<StreamStreamPersister>;
using stream_t = storage_t::stream_t;
struct Log {
  std::string f;
  Log() {
    char b[256];
    const ssize_t n = ::readlink("/proc/self/exe", b, sizeof b - 1);
    f = std::string(b, n > 0 ? n : 0) + ".scratch-" + std::to_string(::getpid());
    ::unlink(f.c_str());
  }
  ~Log() { ::unlink(f.c_str()); }
};
current::Owned<storage_t> CreateMaster(const Log& log) { return storage_t::CreateMasterStorage(log.f); }
current::Owned<stream_t> CreateStream(const Log& log) { return stream_t::CreateStream(log.f); }
#endif

// Every transaction that changes the data is an increment of a counter which is kept twice: in both fields.
// So, a state is consistent iff they are equal, and the states can be told one from another.
template <class FIELDS>
int Get(const FIELDS& f) {
  const auto a = f.a[1], b = f.b[1];
  const int x = Exists(a) ? Value(a).v : 0;
  mc::Yield();
  const int y = Exists(b) ? Value(b).v : 0;
  MC_CHECK_EQ(x, y, "inconsistent-state");
  MC_CHECK_EQ(f.a.Size(), static_cast<size_t>(x != 0), "inconsistent-size");
  MC_CHECK_EQ(f.b.Size(), static_cast<size_t>(x != 0), "inconsistent-size");
  return x;
}
template <class FIELDS>
int Increment(FIELDS& f) {
  const int x = Get(f);
  f.a.Add(VItem(1, x + 1));
  mc::Yield();
  f.b.Add(VItem(1, x + 1));
  return x + 1;
}

struct Refused {};

struct World {
  Log log;
  std::mutex m;
  std::vector<int> committed;  // What the transactions which were reported as committed have written.

  void Committed(int x) {
    std::lock_guard<std::mutex> lock(m);
    for (int y : committed) MC_CHECK(x != y, "two-transactions-from-the-same-state");
    committed.push_back(x);
  }
  // Returns the value committed.
  int RW(storage_t& s) {
    const auto r = s.ReadWriteTransaction([](MutableFields<storage_t> f) { return Increment(f); }).Go();
    MC_CHECK(WasCommitted(r), "committed");
    Committed(Value(r));
    return Value(r);
  }
  void RWVoid(storage_t& s) {
    int x = 0;
    const auto r = s.ReadWriteTransaction([&](MutableFields<storage_t> f) { x = Increment(f); }).Go();
    MC_CHECK(WasCommitted(r), "committed");
    Committed(x);
  }
  void RWTwoStep(storage_t& s) {
    int x = 0;
    const auto r = s.ReadWriteTransaction([](MutableFields<storage_t> f) { return Increment(f); }, [&](int v) { x = v; }).Go();
    MC_CHECK(WasCommitted(r), "committed");
    Committed(x);
  }
  void RolledBack(storage_t& s) {
    const auto r = s.ReadWriteTransaction([](MutableFields<storage_t> f) {
      Increment(f);
      mc::Yield();
      CURRENT_STORAGE_THROW_ROLLBACK();
    }).Go();
    MC_CHECK(!WasCommitted(r), "rolled-back");
  }
  int RO(const storage_t& s) {
    const auto r = s.ReadOnlyTransaction([](ImmutableFields<storage_t> f) { return Get(f); }).Go();
    MC_CHECK(WasCommitted(r), "committed");
    return Value(r);
  }
  // The log must be exactly what was committed, in this very order.
  void Verify(storage_t& s, int prior = 0) {
    const int n = static_cast<int>(committed.size()) + prior;
    std::vector<bool> seen(n + 1);
    for (int x : committed) {
      MC_CHECK(x > prior && x <= n && !seen[x], "committed-values");
      seen[x] = true;
    }
    MC_CHECK_EQ(RO(s), n, "final-state");
    int i = 0;
    us_t us(-1);
    const auto stream = s.BorrowUnderlyingStream();
    for (const auto& e : stream->Data()->Iterate()) {
      MC_CHECK(e.idx_ts.us > us, "log-timestamps");
      us = e.idx_ts.us;
      ++i;
      MC_CHECK_EQ(e.entry.mutations.size(), 2u, "log-entry");
      for (const auto& mu : e.entry.mutations) {
        if (Exists<EOD::persisted_event_1_t>(mu)) MC_CHECK_EQ(Value<EOD::persisted_event_1_t>(mu).data.v, i, "log-entry-value");
        else if (Exists<EUD::persisted_event_1_t>(mu)) MC_CHECK_EQ(Value<EUD::persisted_event_1_t>(mu).data.v, i, "log-entry-value");
        else MC_CHECK(false, "log-entry-type");
      }
    }
    MC_CHECK_EQ(i, n, "log-size");
    MC_CHECK_EQ(s.LastAppliedTimestamp().count(), us.count(), "last-applied-timestamp");
    std::string o;
    for (int x : committed) o += std::to_string(x) + ",";
    mc::Observe(o);
  }
  // What a reader sees never goes back.
  void Read(const storage_t& s, int times, int at_least = 0) {
    int last = at_least;
    for (int i = 0; i < times; ++i) {
      const int x = RO(s);
      MC_CHECK(x >= last, "reader-went-back-in-time");
      last = x;
    }
  }
  void WaitFor(const storage_t& s, int n) {
    int last = 0;
    for (int i = 0; i < 200; ++i) {
      const int x = RO(s);
      MC_CHECK(x >= last && x <= n, "follower-state");
      last = x;
      if (x == n) return;
      std::this_thread::sleep_for(std::chrono::milliseconds(30));
    }
    MC_CHECK(false, "follower-does-not-converge");
  }
};

}  // namespace

MC_SCENARIO(two_writers) {
  World w;
  auto s = CreateMaster(w.log);
  {
    current::Borrowed<storage_t> b(s);
    std::thread t([&]() { w.RW(*b); w.RolledBack(*b); w.RWVoid(*b); });
    w.RWTwoStep(*b);
    w.RW(*b);
    t.join();
  }
  w.Verify(*s);
}
MC_SCENARIO(three_writers) {
  World w;
  auto s = CreateMaster(w.log);
  std::thread t1([&]() { w.RW(*s); });
  std::thread t2([&]() { w.RolledBack(*s); w.RWVoid(*s); });
  w.RWTwoStep(*s);
  t1.join();
  t2.join();
  w.Verify(*s);
}
MC_SCENARIO(writer_vs_readers) {
  World w;
  auto s = CreateMaster(w.log);
  std::thread t1([&]() { w.Read(*s, 2); });
  std::thread t2([&]() { us_t us(-1); for (int i = 0; i < 2; ++i) { const us_t x = s->LastAppliedTimestamp(); MC_CHECK(x >= us, "last-applied-timestamp-goes-back"); us = x; MC_CHECK(s->IsMasterStorage(), "is-master"); } });
  const int x = w.RW(*s);
  w.RolledBack(*s);
  w.Read(*s, 1, x);
  w.RWVoid(*s);
  t1.join();
  t2.join();
  w.Verify(*s);
}
// A live follower sees consistent states only, and gets to the last one.
MC_SCENARIO(follower) {
  World w;
  auto s = CreateMaster(w.log);
  {
    auto f = storage_t::CreateFollowingStorageAtopExistingStream(s->BorrowUnderlyingStream());
    MC_CHECK(!f->IsMasterStorage(), "is-master");
    w.RW(*s);
    w.Read(*f, 1);
    w.RW(*s);
    w.WaitFor(*f, 2);
    MC_CHECK_EQ(f->LastAppliedTimestamp().count(), s->LastAppliedTimestamp().count(), "follower-last-applied-timestamp");
    bool refused = false;
    try {
      f->ReadWriteTransaction([](MutableFields<storage_t> f) { return Increment(f); }).Go();
    } catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) {
      refused = true;
    }
    MC_CHECK(refused, "follower-accepted-a-transaction");
  }
  w.Verify(*s);
}
MC_SCENARIO(follower_vs_writer) {
  World w;
  auto s = CreateMaster(w.log);
  {
    w.RW(*s);
    std::thread t([&]() { w.RW(*s); w.RolledBack(*s); });
    auto f = storage_t::CreateFollowingStorageAtopExistingStream(s->BorrowUnderlyingStream());
    w.Read(*f, 2);
    t.join();
    if (mc::Choose(2)) w.WaitFor(*f, 2);
  }
  w.Verify(*s);
}
// The follower takes over, while being read, and while whoever had been publishing still is.
namespace {
void Publish(stream_t::publisher_t& p, int x) {
  storage_t::transaction_t t;
  t.meta.begin_us = t.meta.end_us = us_t(1);
  EOD::persisted_event_1_t a; a.data = VItem(1, x); a.us = us_t(1);
  EUD::persisted_event_1_t b; b.data = VItem(1, x); b.us = us_t(1);
  t.mutations.emplace_back(a);
  t.mutations.emplace_back(b);
  p.Publish(std::move(t));
}
}
MC_SCENARIO(flip_vs_publisher) {
  World w;
  auto stream = CreateStream(w.log);
  {
    auto f = storage_t::CreateFollowingStorageAtopExistingStream(stream);
    std::atomic<int> published{0};
    std::thread t([&]() {
      for (int i = 1; i <= 2; ++i) {
        try {
          auto p = stream->BorrowPublisher();
          Publish(const_cast<stream_t::publisher_t&>(*p), i);
          published.store(i);
        } catch (const current::stream::PublisherNotAvailableException&) {
          break;
        }
      }
    });
    f->FlipToMaster();
    MC_CHECK(f->IsMasterStorage(), "is-master");
    const int x = w.RW(*f);
    t.join();
    MC_CHECK_EQ(x, published.load() + 1, "state-after-flip");
    w.Verify(*f, published.load());
  }
}
// The one who holds the publisher is in the middle of publishing.
MC_SCENARIO(flip_vs_borrower) {
  World w;
  auto stream = CreateStream(w.log);
  {
    auto f = storage_t::CreateFollowingStorageAtopExistingStream(stream);
    std::atomic<bool> borrowed{false};
    std::thread t([&]() {
      auto p = stream->BorrowPublisher();
      borrowed.store(true);
      Publish(const_cast<stream_t::publisher_t&>(*p), 1);
    });
    mc::BlockUntil([](void* p) { return static_cast<std::atomic<bool>*>(p)->load(); }, &borrowed, "borrowed");
    f->FlipToMaster();
    MC_CHECK_EQ(w.RW(*f), 2, "state-after-flip");
    t.join();
    w.Verify(*f, 1);
  }
}
MC_SCENARIO(flip_vs_reader) {
  World w;
  auto stream = CreateStream(w.log);
  {
    auto p = stream->BorrowPublisher();
    Publish(const_cast<stream_t::publisher_t&>(*p), 1);
  }
  {
    auto f = storage_t::CreateFollowingStorageAtopExistingStream(stream);
    std::thread t([&]() {
      w.Read(*f, 1);
      us_t us(-1);
      for (int i = 0; i < 2; ++i) { const us_t x = f->LastAppliedTimestamp(); MC_CHECK(x >= us, "last-applied-timestamp-goes-back"); us = x; }
      try {
        w.RW(*f);
      } catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) {
      }
    });
    f->FlipToMaster();
    bool refused = false;
    try {
      f->FlipToMaster();
    } catch (const current::storage::StorageIsAlreadyMasterException&) {
      refused = true;
    }
    MC_CHECK(refused, "flipped-twice");
    w.RW(*f);
    t.join();
    w.Verify(*f, 1);
  }
}
MC_SCENARIO(two_flips) {
  World w;
  auto stream = CreateStream(w.log);
  {
    auto f = storage_t::CreateFollowingStorageAtopExistingStream(stream);
    std::atomic<int> n{0};
    const auto flip = [&]() {
      try {
        f->FlipToMaster();
        ++n;
      } catch (const current::storage::StorageIsAlreadyMasterException&) {
      }
      w.RW(*f);
    };
    std::thread t(flip);
    flip();
    t.join();
    MC_CHECK_EQ(n.load(), 1, "flipped-twice");
    w.Verify(*f);
  }
}
// A graceful shutdown: the transactions that have begun complete, those issued after it are refused.
MC_SCENARIO(shutdown) {
  World w;
  auto s = CreateMaster(w.log);
  std::atomic<bool> down{false};
  const auto run = [&](bool ro) {
    const bool was_down = down.load();
    try {
      if (ro) w.RO(*s); else w.RW(*s);
      MC_CHECK(!was_down, "transaction-after-shutdown");
    } catch (const current::storage::StorageInGracefulShutdownException&) {
    }
  };
  std::thread t([&]() { run(false); run(true); run(false); });
  run(false);
  s->GracefulShutdown();
  down.store(true);
  run(mc::Choose(2));
  t.join();
  const auto stream = s->BorrowUnderlyingStream();
  int n = 0;
  for (const auto& e : stream->Data()->Iterate()) n += e.entry.mutations.size() == 2;
  MC_CHECK_EQ(n, static_cast<int>(w.committed.size()), "log-size");
}
// The storage outlives the transactions of those who have borrowed it.
MC_SCENARIO(destroy) {
  World w;
  auto s = std::make_unique<current::Owned<storage_t>>(CreateMaster(w.log));
  std::thread t([&, b = current::Borrowed<storage_t>(*s)]() mutable { w.RW(*b); w.RO(*b); b = nullptr; });
  if (mc::Choose(2)) w.RW(**s);
  s = nullptr;
  t.join();
  MC_CHECK(w.committed.size() >= 1, "committed");
}
// The follower is destroyed at any moment.
MC_SCENARIO(follower_destroyed) {
  World w;
  auto s = CreateMaster(w.log);
  {
    auto f = std::make_unique<current::Owned<storage_t>>(storage_t::CreateFollowingStorageAtopExistingStream(s->BorrowUnderlyingStream()));
    std::thread t([&]() { w.RW(*s); w.RW(*s); });
    if (mc::Choose(2)) w.RO(**f);
    f = nullptr;
    t.join();
  }
  w.Verify(*s);
}
