// C12: a storage that changes hands: after each transaction it may be rebuilt from its stream, reopened from disk,
// or taken over by a follower.
#include "enum.h"
#include "common/storage_model.h"

#include <thread>
#include <chrono>

using namespace vst;

CURRENT_STRUCT(VOther) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_CONSTRUCTOR(VOther)(int32_t x = 0) : x(x) {}
};

CURRENT_STORAGE(VStorage) {
  CURRENT_STORAGE_FIELD(od, EOD);
  CURRENT_STORAGE_FIELD(oo1, EOO1);
  CURRENT_STORAGE_FIELD(uu2, EUU2);
};

namespace {

using mem_storage_t = VStorage<StreamInMemoryStreamPersister>;
using file_storage_t = VStorage<StreamStreamPersister>;
using mixed_entry_t = Variant<mem_storage_t::transaction_t, VOther>;
using mixed_storage_t = VStorage<StreamStreamPersister, current::storage::transaction_policy::Synchronous, mixed_entry_t>;

template <class S>
struct World {
  static constexpr bool kMemory = std::is_same_v<S, mem_storage_t>;
  static constexpr bool kMixed = std::is_same_v<S, mixed_storage_t>;
  using stream_t = typename S::stream_t;
  std::string file;
  std::unique_ptr<current::Owned<stream_t>> stream;
  std::unique_ptr<current::Owned<S>> s;
  Model d, m, t;
  std::string history;
  int v = 0, transactions = 0;
  size_t entries = 0;
  int64_t last_us = -1;

  void OpenStream() {
    if constexpr (kMemory) stream = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream());
    else stream = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream(file));
  }
  World() {
    current::time::ResetToZero();
    if (!kMemory) {
      file = en::TmpDir() + "/log";
      std::remove(file.c_str());
    }
    OpenStream();
    s = std::make_unique<current::Owned<S>>(S::CreateMasterStorageAtopExistingStream(*stream));
  }
  ~World() {
    s = nullptr;
    stream = nullptr;
    if (!file.empty()) std::remove(file.c_str());
  }
  void Check(S& storage) {
    int calls = 0;
    storage.ReadOnlyTransaction([&](ImmutableFields<S> f) {
      CheckField(f.od, d, 2, 2);
      CheckField(f.oo1, m, 2, 2);
      CheckField(f.uu2, t, 2, 2);
      ++calls;
    }).Go();
    EN_CHECK_EQ(calls, 1, "read-only-transaction-calls");
    EN_CHECK_EQ(storage.LastAppliedTimestamp().count(), last_us, "last-applied-timestamp");
  }
  // A transaction with several mutations; the choice is made by `op`.
  void Transaction(int ops) {
    history += "[ ";
    const int64_t before = current::time::Now().count();
    bool any = false;
    (*s)->ReadWriteTransaction([&](MutableFields<S> f) {
      for (int i = 0; i < ops; ++i) {
        const int nd = OpsCount<decltype(f.od)>(2, 2, false), nm = OpsCount<decltype(f.oo1)>(2, 2, false), nt = OpsCount<decltype(f.uu2)>(2, 2, false);
        const int op = en::Choose(nd + nm + nt);
        std::string text;
        Model& x = op < nd ? d : op < nd + nm ? m : t;
        if (op < nd) ApplyOp(f.od, d, op, 2, 2, ++v, &text, nullptr);
        else if (op < nd + nm) ApplyOp(f.oo1, m, op - nd, 2, 2, ++v, &text, nullptr);
        else ApplyOp(f.uu2, t, op - nd - nm, 2, 2, ++v, &text, nullptr);
        any |= !x.touched.empty();
        history += text + " ";
        en::Note(history);
        en::Transition();
      }
    }).Go();
    history += "] ";
    const int64_t after = current::time::Now().count();
    if (any) {
      ++entries;
      last_us = (*s)->UnderlyingStream()->Data()->LastPublishedIndexAndTimestamp().us.count();
      EN_CHECK(last_us > before && last_us < after, "transaction-timestamp");
    }
    ++transactions;
    EN_CHECK_EQ((*s)->UnderlyingStream()->Data()->Size(), entries, "log-size");
    en::State(d.Key() + "|" + m.Key() + "|" + t.Key());
  }
  void Fixed() {
    (*s)->ReadWriteTransaction([&](MutableFields<S> f) {
      f.od.Add(VItem(1, 500));
      d.Add(DICT, K(1, 0), 500);
      d.all[K(1, 0)].us = Value(f.od.LastModified(1)).count();
    }).Go();
    ++entries;
    last_us = (*s)->UnderlyingStream()->Data()->LastPublishedIndexAndTimestamp().us.count();
    EN_CHECK_EQ((*s)->UnderlyingStream()->Data()->Size(), entries, "log-size");
  }
  // Rolled back, must leave no trace anywhere.
  void RolledBack() {
    (*s)->ReadWriteTransaction([&](MutableFields<S> f) {
      f.od.Add(VItem(0, 77));
      f.oo1.Add(VCell(0, "a", 77));
      f.uu2.Erase(0, "a");
      CURRENT_STORAGE_THROW_ROLLBACK();
    }).Go();
  }
  void Other() {
    if constexpr (kMixed) {
      (*s)->PublisherUsed()->Publish(VOther(1));
      ++entries;
      history += "other ";
    }
  }
  void WaitFor(S& f) {
    for (int i = 0; f.LastAppliedTimestamp().count() != last_us; ++i) {
      EN_CHECK(i < 40000, "follower-does-not-catch-up");
      std::this_thread::sleep_for(std::chrono::microseconds(i < 50 ? 20 : 500));
    }
  }
  // 0: nothing; 1: rebuild atop the same stream; 2: a follower takes over; 3: reopen from disk;
  // 4: a follower that has not necessarily caught up takes over.
  void Change(int how) {
    switch (how) {
      case 0: break;
      case 1:
        history += "rebuild ";
        s = nullptr;
        s = std::make_unique<current::Owned<S>>(S::CreateMasterStorageAtopExistingStream(*stream));
        break;
      case 2:
      case 4: {
        history += how == 2 ? "flip " : "flip-early ";
        auto f = std::make_unique<current::Owned<S>>(S::CreateFollowingStorageAtopExistingStream(*stream));
        EN_CHECK(!(*f)->IsMasterStorage(), "follower-is-master");
        if (how == 2) {
          WaitFor(**f);
          Check(**f);
          bool refused = false;
          try {
            (*f)->ReadWriteTransaction([](MutableFields<S> fields) { fields.od.Add(VItem(0, 1)); }).Go();
          } catch (const current::storage::ReadWriteTransactionInFollowerStorageException&) {
            refused = true;
          }
          EN_CHECK(refused, "follower-accepts-transactions");
        }
        s = nullptr;
        (*f)->FlipToMaster();
        EN_CHECK((*f)->IsMasterStorage(), "flipped-is-not-master");
        bool refused = false;
        try {
          (*f)->FlipToMaster();
        } catch (const current::storage::StorageIsAlreadyMasterException&) {
          refused = true;
        }
        EN_CHECK(refused, "flipped-twice");
        s = std::move(f);
        break;
      }
      case 3:
        history += "reopen ";
        s = nullptr;
        stream = nullptr;
        OpenStream();
        s = std::make_unique<current::Owned<S>>(S::CreateMasterStorageAtopExistingStream(*stream));
        break;
    }
    en::Note(history);
    EN_CHECK((*s)->IsMasterStorage(), "is-master");
    Check(**s);
  }
};

template <class S>
void Body(int transactions, int ops, std::vector<int> changes) {
  World<S> w;
  for (int i = 0; i < transactions; ++i) {
    w.Transaction(ops);
    if (i == 0) w.RolledBack(), w.Other();
    w.Change(en::Pick(changes));
  }
  // A follower that has been there all along, and a rebuilt one, at the end.
  w.Fixed();
  if (World<S>::kMemory) w.Change(1);
  else w.Change(3);
}

// A live follower sees each transaction as a whole.
template <class S>
void Live(int transactions) {
  World<S> w;
  auto f = S::CreateFollowingStorageAtopExistingStream(*w.stream);
  for (int i = 0; i < transactions; ++i) {
    w.Transaction(i == 0 ? 2 : 1);
    if (i == 0) w.RolledBack(), w.Other();
    w.WaitFor(*f);
    w.Check(*f);
  }
}

}  // namespace

EN_SCENARIO(memory_pairs) { Body<mem_storage_t>(1, 2, {1, 2, 4}); }
EN_SCENARIO(file) { Body<file_storage_t>(1, 1, {0, 1, 2, 3, 4}); }
EN_SCENARIO(file_pairs) { Body<file_storage_t>(1, 2, {3}); }
EN_SCENARIO(mixed) { Body<mixed_storage_t>(1, 1, {1, 2, 3, 4}); }
EN_SCENARIO(memory_live) { Live<mem_storage_t>(en::Param("transactions", 2)); }
EN_SCENARIO(file_live) { Live<file_storage_t>(1); }
EN_SCENARIO(mixed_live) { Live<mixed_storage_t>(1); }
EN_SCENARIO(memory) { Body<mem_storage_t>(en::Param("transactions", 2), 1, {0, 1, 2, 4}); }
