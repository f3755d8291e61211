// C11: transactions of a real storage: every way to run and to end them, and what gets into the log.
#include "enum.h"
#include "common/storage_model.h"

using namespace vst;

CURRENT_STORAGE(VStorage) {
  CURRENT_STORAGE_FIELD(od, EOD);
  CURRENT_STORAGE_FIELD(oo1, EOO1);
};
using storage_t = VStorage<StreamInMemoryStreamPersister>;

namespace {

struct World {
  current::Owned<storage_t> s;
  Model d, m;
  std::string history;
  int v = 0;
  // The transactions as they should be in the log.
  struct Logged {
    std::vector<std::string> mutations;
    std::map<std::string, std::string> meta;
    int64_t after, before;  // Strictly between these.
  };
  std::vector<Logged> log;
  World() : s((current::time::ResetToZero(), storage_t::CreateMasterStorage())) {}

  static std::string Mutation(const char* field, K k, const Rec& r) {
    return std::string(field) + (r.exists ? "+" : "-") + std::to_string(k.first) + "," + std::to_string(k.second) + (r.exists ? "=" + std::to_string(r.v) : "");
  }
  // One operation; appends its mutations.
  void Step(MutableFields<storage_t> fields, std::vector<std::string>& out) {
    const int nd = OpsCount<decltype(fields.od)>(2, 2, false), nm = OpsCount<decltype(fields.oo1)>(2, 2, false);
    const int op = en::Choose(nd + nm);
    std::string text;
    if (op < nd) ApplyOp(fields.od, d, op, 2, 2, ++v, &text, nullptr);
    else ApplyOp(fields.oo1, m, op - nd, 2, 2, ++v, &text, nullptr);
    history += (op < nd ? "od." : "oo1.") + text + " ";
    en::Note(history);
    en::Transition();
    const Model& t = op < nd ? d : m;
    std::vector<std::pair<int64_t, std::string>> now;
    for (const K& k : t.touched) now.emplace_back(t.all.at(k).us, Mutation(op < nd ? "od" : "oo1", k, t.all.at(k)));
    std::sort(now.begin(), now.end());
    for (auto& e : now) out.push_back(e.second);
  }
  void CheckAll() {
    s->ReadOnlyTransaction([&](ImmutableFields<storage_t> fields) {
      CheckField(fields.od, d, 2, 2);
      CheckField(fields.oo1, m, 2, 2);
    }).Go();
    EN_CHECK_EQ(s->UnderlyingStream()->Data()->Size(), log.size(), "log-size");
    size_t i = 0;
    int64_t us = -1;
    for (const auto& e : s->UnderlyingStream()->Data()->Iterate()) {
      const auto& l = log[i++];
      std::vector<std::string> got;
      struct Visitor {
        std::vector<std::string>& got;
        void operator()(const EODUpdated& e) { got.push_back("od+" + std::to_string(e.data.key) + ",0=" + std::to_string(e.data.v)); }
        void operator()(const EODDeleted& e) { got.push_back("od-" + std::to_string(e.key) + ",0"); }
        void operator()(const EOO1Updated& e) { got.push_back("oo1+" + std::to_string(e.data.row) + "," + std::to_string(UnCol(e.data.col)) + "=" + std::to_string(e.data.v)); }
        void operator()(const EOO1Deleted& e) { got.push_back("oo1-" + std::to_string(e.key.first) + "," + std::to_string(UnCol(e.key.second))); }
      };
      for (const auto& x : e.entry.mutations) x.Call(Visitor{got});
      std::string a, b;
      for (auto& x : got) a += x + " ";
      for (auto& x : l.mutations) b += x + " ";
      EN_CHECK_EQ(a, b, "logged-mutations");
      std::map<std::string, std::string> meta(e.entry.meta.fields.begin(), e.entry.meta.fields.end());
      EN_CHECK(meta == l.meta, "logged-meta");
      EN_CHECK(e.entry.meta.begin_us.count() > l.after && e.entry.meta.begin_us < e.entry.meta.end_us && e.entry.meta.end_us < e.idx_ts.us && e.idx_ts.us.count() < l.before, "logged-times");
      EN_CHECK(e.idx_ts.us.count() > us, "log-timestamps");
      us = e.idx_ts.us.count();
    }
    EN_CHECK_EQ(s->LastAppliedTimestamp().count(), us, "last-applied-timestamp");
  }
  // A transaction that commits.
  void Commit(int ops) {
    Logged l;
    l.after = current::time::Now().count();
    history += "[ ";
    s->ReadWriteTransaction([&](MutableFields<storage_t> fields) { for (int i = 0; i < ops; ++i) Step(fields, l.mutations); }).Go();
    history += "] ";
    l.before = current::time::Now().count();
    if (!l.mutations.empty()) log.push_back(l);
  }
};

enum End { COMMIT, ROLLBACK, ROLLBACK_VALUE, EXCEPTION, NOT_AN_EXCEPTION };
struct MyException : current::Exception {
  using current::Exception::Exception;
};

void Body(int prefix, int body, int meta) {
  World w;
  for (int i = 0; i < prefix; ++i) w.Commit(1);
  w.CheckAll();
  const int api = en::Choose(3);  // void, with a result, two-step.
  const End end = static_cast<End>(en::Choose(5));
  // The second step may throw, which neither undoes what was committed nor keeps what was rolled back.
  const bool second_throws = api == 2 && (end == COMMIT || end == ROLLBACK_VALUE) && en::Flip();
  const Model d = w.d, m = w.m;
  World::Logged l;
  l.after = current::time::Now().count();
  w.history += std::string(api == 0 ? "void" : api == 1 ? "int" : "two-step") + "{ ";
  const auto work = [&](MutableFields<storage_t> fields) {
    if (meta & 1) fields.SetTransactionMetaField("a", "1"), l.meta["a"] = "1";
    if (meta & 2) fields.SetTransactionMetaField("b", "2");
    for (int i = 0; i < body; ++i) w.Step(fields, l.mutations);
    if (meta & 2) fields.EraseTransactionMetaField("b");
    switch (end) {
      case COMMIT: break;
      case ROLLBACK: CURRENT_STORAGE_THROW_ROLLBACK();
      case ROLLBACK_VALUE:
        if (api == 0) CURRENT_STORAGE_THROW_ROLLBACK();
        CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, 42);
      case EXCEPTION: CURRENT_THROW(MyException("mine"));
      case NOT_AN_EXCEPTION: throw 1.5;
    }
  };
  std::string outcome;
  int second = 0, second_calls = 0;
  const auto run = [&](auto&& future_maker) {
    try {
      const auto r = future_maker().Go();
      outcome = WasCommitted(r) ? "committed" : "rolled back";
      if constexpr (!std::is_same_v<std::decay_t<decltype(r)>, current::storage::TransactionResult<void>>) outcome += Exists(r) ? "=" + std::to_string(Value(r)) : "=none";
      else outcome += Exists(r) ? "" : "=missing";
    } catch (const MyException& e) {
      outcome = "MyException " + e.OriginalDescription();
    } catch (const double x) {
      outcome = x == 1.5 ? "double" : "wrong double";
    } catch (const std::exception& e) {
      outcome = std::string("another exception ") + e.what();
    }
  };
  if (api == 0) run([&]() { return w.s->ReadWriteTransaction([&](MutableFields<storage_t> fields) { work(fields); }); });
  else if (api == 1) run([&]() { return w.s->ReadWriteTransaction([&](MutableFields<storage_t> fields) -> int { work(fields); return 7; }); });
  else run([&]() { return w.s->ReadWriteTransaction([&](MutableFields<storage_t> fields) -> int { work(fields); return 7; }, [&](int x) { second = x; ++second_calls; if (second_throws) CURRENT_THROW(MyException("second")); }); });
  w.history += "} " + std::to_string(end) + " ";
  en::Note(w.history);
  l.before = current::time::Now().count();
  std::string expected;
  int expected_second = 0;
  switch (end) {
    case COMMIT: expected = api == 1 ? "committed=7" : "committed"; expected_second = 7; break;
    case ROLLBACK: expected = api == 1 ? "rolled back=none" : api == 0 ? "rolled back" : "rolled back=missing"; break;
    case ROLLBACK_VALUE: expected = api == 1 ? "rolled back=42" : api == 0 ? "rolled back" : "rolled back=missing"; expected_second = 42; break;
    case EXCEPTION: expected = "MyException mine"; break;
    case NOT_AN_EXCEPTION: expected = "double"; break;
  }
  if (second_throws) expected = "MyException second", w.history += "(the second step throws) ", en::Note(w.history);
  EN_CHECK_EQ(outcome, expected, "transaction-result");
  if (api == 2) {
    EN_CHECK_EQ(second, expected_second, "second-step-argument");
    EN_CHECK_EQ(second_calls, expected_second ? 1 : 0, "second-step-calls");
  }
  if (end == COMMIT) {
    if (!l.mutations.empty()) w.log.push_back(l);
  } else {
    w.d = d;
    w.m = m;
  }
  en::State(w.d.Key() + "|" + w.m.Key());
  w.CheckAll();
  // What comes next is not affected by what has been rolled back.
  {
    World::Logged n;
    n.after = current::time::Now().count();
    w.s->ReadWriteTransaction([&](MutableFields<storage_t> fields) {
      fields.od.Add(VItem(1, 1000));
      fields.SetTransactionMetaField("z", "9");
    }).Go();
    n.before = current::time::Now().count();
    n.meta["z"] = "9";
    w.d.Add(DICT, K(1, 0), 1000);
    n.mutations.push_back("od+1,0=1000");
    w.s->ReadOnlyTransaction([&](ImmutableFields<storage_t> fields) { w.d.all[K(1, 0)].us = Value(fields.od.LastModified(1)).count(); }).Go();
    EN_CHECK((w.d.all[K(1, 0)].us > n.after && w.d.all[K(1, 0)].us < n.before), "last-modified-time");
    w.log.push_back(n);
    w.CheckAll();
  }
}

}  // namespace

EN_SCENARIO(short_ones) { Body(en::Param("prefix", 1), 1, en::Choose(4)); }
EN_SCENARIO(from_nothing) { Body(0, en::Param("body", 2), 3); }
EN_SCENARIO(empty_ones) { Body(1, 0, en::Choose(4)); }

// Read-only transactions, and those after a shutdown, change nothing and report what they should.
EN_SCENARIO(read_only) {
  World w;
  w.Commit(1);
  const int api = en::Choose(3);
  const End end = static_cast<End>(en::Choose(5));
  const bool second_throws = api == 2 && (end == COMMIT || end == ROLLBACK_VALUE) && en::Flip();
  std::string outcome, expected;
  int second = 0;
  const storage_t& cs = *w.s;
  const auto work = [&](ImmutableFields<storage_t> fields) {
    CheckField(fields.od, w.d, 2, 2);
    switch (end) {
      case COMMIT: break;
      case ROLLBACK: CURRENT_STORAGE_THROW_ROLLBACK();
      case ROLLBACK_VALUE:
        if (api == 0) CURRENT_STORAGE_THROW_ROLLBACK();
        CURRENT_STORAGE_THROW_ROLLBACK_WITH_VALUE(int, 42);
      case EXCEPTION: CURRENT_THROW(MyException("mine"));
      case NOT_AN_EXCEPTION: throw 1.5;
    }
  };
  try {
    if (api == 1) {
      const auto r = cs.ReadOnlyTransaction([&](ImmutableFields<storage_t> f) -> int { work(f); return 7; }).Go();
      outcome = std::string(WasCommitted(r) ? "committed" : "rolled back") + (Exists(r) ? "=" + std::to_string(Value(r)) : "=none");
    } else {
      const auto r = api == 0 ? cs.ReadOnlyTransaction([&](ImmutableFields<storage_t> f) { work(f); }).Go()
                              : cs.ReadOnlyTransaction([&](ImmutableFields<storage_t> f) -> int { work(f); return 7; }, [&](int x) { second = x; if (second_throws) CURRENT_THROW(MyException("second")); }).Go();
      outcome = WasCommitted(r) ? "committed" : "rolled back";
    }
  } catch (const MyException& e) {
    outcome = "MyException";
  } catch (const double x) {
    outcome = "double";
  }
  switch (end) {
    case COMMIT: expected = api == 1 ? "committed=7" : "committed"; break;
    case ROLLBACK: expected = api == 1 ? "rolled back=none" : "rolled back"; break;
    case ROLLBACK_VALUE: expected = api == 1 ? "rolled back=42" : "rolled back"; break;
    case EXCEPTION: expected = "MyException"; break;
    case NOT_AN_EXCEPTION: expected = "double"; break;
  }
  if (second_throws) expected = "MyException";
  EN_CHECK_EQ(outcome, expected, "transaction-result");
  if (api == 2) EN_CHECK_EQ(second, end == COMMIT ? 7 : end == ROLLBACK_VALUE ? 42 : 0, "second-step-argument");
  w.CheckAll();
  w.Commit(1);
  w.CheckAll();
}

EN_SCENARIO(shutdown) {
  World w;
  w.Commit(1);
  w.s->GracefulShutdown();
  bool ran = false, refused = false;
  const int api = en::Choose(6);
  try {
    switch (api) {
      case 0: w.s->ReadWriteTransaction([&](MutableFields<storage_t> f) { ran = true; f.od.Add(VItem(0, 5)); }).Go(); break;
      case 1: w.s->ReadWriteTransaction([&](MutableFields<storage_t> f) -> int { ran = true; f.od.Add(VItem(0, 5)); return 1; }).Go(); break;
      case 2: w.s->ReadWriteTransaction([&](MutableFields<storage_t> f) -> int { ran = true; f.od.Add(VItem(0, 5)); return 1; }, [&](int) { ran = true; }).Go(); break;
      case 3: w.s->ReadOnlyTransaction([&](ImmutableFields<storage_t>) { ran = true; }).Go(); break;
      case 4: w.s->ReadOnlyTransaction([&](ImmutableFields<storage_t>) -> int { ran = true; return 1; }).Go(); break;
      case 5: w.s->ReadOnlyTransaction([&](ImmutableFields<storage_t>) -> int { ran = true; return 1; }, [&](int) { ran = true; }).Go(); break;
    }
  } catch (const current::storage::StorageInGracefulShutdownException&) {
    refused = true;
  }
  EN_CHECK(refused && !ran, "transaction-after-shutdown");
  EN_CHECK_EQ(w.s->UnderlyingStream()->Data()->Size(), w.log.size(), "log-size");
}
EN_SCENARIO(transactions) { Body(en::Param("prefix", 1), en::Param("body", 2), 0); }
