// C04: concurrent calls on a persister are linearizable. Every schedule (bounded) of two or three threads.
#include "common/lin.h"

#include "blocks/persistence/memory.h"
#include "blocks/persistence/file.h"

#include <memory>
#include <mutex>

#include <unistd.h>

using us_t = std::chrono::microseconds;

CURRENT_STRUCT(VEntry) {
  CURRENT_FIELD(s, std::string);
  CURRENT_DEFAULT_CONSTRUCTOR(VEntry) {}
  CURRENT_CONSTRUCTOR(VEntry)(const std::string& s) : s(s) {}
};

namespace {
const current::ss::StreamNamespaceName kName("ns", "entry");

struct E { int64_t us; std::string s; bool operator==(const E& r) const { return us == r.us && s == r.s; } };
struct Model { std::vector<E> log; int64_t head = -1; };
using H = lin::History<Model>;

std::string FileName() {
  char b[256];
  const ssize_t n = ::readlink("/proc/self/exe", b, sizeof b - 1);
  const std::string f = std::string(b, n > 0 ? n : 0) + ".scratch-" + std::to_string(::getpid());
  ::unlink(f.c_str());
  return f;
}
struct Mem {
  using P = current::persistence::Memory<VEntry>;
  std::mutex mutex;
  P p;
  Mem() : p(mutex, kName) {}
};
struct Fil {
  using P = current::persistence::File<VEntry>;
  std::mutex mutex;
  std::string f;
  P p;
  Fil() : f(FileName()), p(mutex, kName, f) { }
  ~Fil() { ::unlink(f.c_str()); }
};

struct Outcome { bool ok = false; idxts_t r; };

template <class P>
void Publish(H& h, size_t t, P& p, const std::string& s, int64_t us) {
  h.Do(t, "publish@" + std::to_string(us), [&]() {
    Outcome o;
    try { o.r = us ? p.Publish(VEntry(s), us_t(us)) : p.Publish(VEntry(s)); o.ok = true; } catch (const current::ss::InconsistentTimestampException&) {}
    return o;
  }, [s, us](Outcome o) { return [s, us, o](Model& m) {
    const int64_t at = us ? us : o.r.us.count();
    if (o.ok != (us ? us > m.head : true)) return false;
    if (!o.ok) return true;
    if (!(at > m.head) || o.r.index != m.log.size() || o.r.us.count() != at) return false;
    m.log.push_back({at, s});
    m.head = at;
    return true;
  }; });
}
template <class P>
void Head(H& h, size_t t, P& p, int64_t us) {
  h.Do(t, "head@" + std::to_string(us), [&]() {
    try { p.UpdateHead(us_t(us)); return true; } catch (const current::ss::InconsistentTimestampException&) { return false; }
  }, [us](bool ok) { return [us, ok](Model& m) {
    if (ok != (us > m.head)) return false;
    if (ok) m.head = us;
    return true;
  }; });
}
template <class R>
std::vector<E> Collect(R&& range) {
  std::vector<E> v;
  uint64_t i = 0;
  for (const auto& e : range) {
    if (!v.empty() || e.idx_ts.index) { if (v.empty()) i = e.idx_ts.index; }
    MC_CHECK_EQ(e.idx_ts.index, i, "iterated-indices-not-consecutive");
    ++i;
    v.push_back({e.idx_ts.us.count(), e.entry.s});
  }
  return v;
}
template <class R>
std::vector<E> CollectRaw(R&& range) {
  std::vector<E> v;
  for (const std::string e : range) {
    const size_t tab = e.find('\t');
    MC_CHECK(tab != std::string::npos, "raw-entry-torn");
    try {
      const auto it = ParseJSON<idxts_t>(e.substr(0, tab));
      v.push_back({it.us.count(), ParseJSON<VEntry>(e.substr(tab + 1)).s});
    } catch (const std::exception&) {
      mc::Violation("raw-entry-torn", e);
    }
  }
  return v;
}
std::string Show(const std::vector<E>& v) { std::string r; for (auto& e : v) r += e.s + "@" + std::to_string(e.us % 100000) + " "; return r; }

constexpr int kReads = 8;
template <class P>
void Read(H& h, size_t t, P& p, int what) {
  using V = std::vector<E>;
  auto guard = [](auto f) { try { return f(); } catch (const std::exception& e) { mc::Violation("read-threw", e.what()); } };
  switch (what) {
    case 0: h.Do(t, "iterate", [&]() { return guard([&]() { return Collect(p.Iterate()); }); }, [](V v) { return [v](Model& m) { return m.log == v; }; }); break;
    case 1: h.Do(t, "iterate-raw", [&]() { return guard([&]() { return CollectRaw(p.IterateUnsafe()); }); }, [](V v) { return [v](Model& m) { return m.log == v; }; }); break;
    case 2: h.Do(t, "size", [&]() { return p.Size(); }, [](uint64_t n) { return [n](Model& m) { return m.log.size() == n; }; }); break;
    case 3: h.Do(t, "head-and-last", [&]() { return p.HeadAndLastPublishedIndexAndTimestamp(); }, [](head_optidxts_t x) { return [x](Model& m) {
      if (x.head.count() != m.head || Exists(x.idxts) != !m.log.empty()) return false;
      return m.log.empty() || (Value(x.idxts).index == m.log.size() - 1 && Value(x.idxts).us.count() == m.log.back().us); }; }); break;
    case 4: h.Do(t, "head", [&]() { return p.CurrentHead().count(); }, [](int64_t x) { return [x](Model& m) { return m.head == x; }; }); break;
    case 5: h.Do(t, "iterate[15,25]", [&]() { return guard([&]() { return Collect(p.Iterate(us_t(15), us_t(25))); }); }, [](V v) { return [v](Model& m) {
      V e; for (auto& x : m.log) if (x.us >= 15 && x.us <= 25) e.push_back(x); return e == v; }; }); break;
    case 6: h.Do(t, "iterate-raw[5,15]", [&]() { return guard([&]() { return CollectRaw(p.IterateUnsafe(us_t(5), us_t(15))); }); }, [](V v) { return [v](Model& m) {
      V e; for (auto& x : m.log) if (x.us >= 5 && x.us <= 15) e.push_back(x); return e == v; }; }); break;
    case 7: h.Do(t, "last", [&]() { Outcome o; try { o.r = p.LastPublishedIndexAndTimestamp(); o.ok = true; } catch (const current::persistence::NoEntriesPublishedYet&) {} return o; },
      [](Outcome o) { return [o](Model& m) { return o.ok == !m.log.empty() && (!o.ok || (o.r.index == m.log.size() - 1 && o.r.us.count() == m.log.back().us)); }; }); break;
  }
}
template <class P>
std::function<bool(const Model&)> Final(P& p) {
  const auto v = Collect(p.Iterate());
  const auto raw = CollectRaw(p.IterateUnsafe());
  const int64_t head = p.CurrentHead().count();
  mc::Observe(Show(v) + "h" + std::to_string(head % 100000));
  return [v, raw, head](const Model& m) { return m.log == v && m.log == raw && m.head == head; };
}

// A publisher with two entries (or an entry and a head update) against every kind of read.
template <class X>
void WriterReader() {
  X x;
  H h(2);
  Model initial;
  const int what = mc::Choose(kReads), second = mc::Choose(2);
  if (mc::Choose(2)) {
    x.p.Publish(VEntry("zero"), us_t(3));
    initial.log.push_back({3, "zero"});
    initial.head = 3;
  }
  std::thread w([&]() {
    Publish(h, 0, x.p, "a", 10);
    if (second) Head(h, 0, x.p, 20);
    else Publish(h, 0, x.p, "b", 20);
  });
  std::thread r([&]() { Read(h, 1, x.p, what); });
  w.join();
  r.join();
  h.Check(initial, Final(x.p), "not-linearizable");
}
// A time-bounded read while entries past its bound are being published.
template <class X>
void TimeRange() {
  X x;
  H h(2);
  Model initial;
  x.p.Publish(VEntry("zero"), us_t(10));
  initial.log.push_back({10, "zero"});
  initial.head = 10;
  const int what = mc::Choose(2);
  std::thread w([&]() {
    Publish(h, 0, x.p, "a", 20);
    Publish(h, 0, x.p, "b", 30);
  });
  std::thread r([&]() { Read(h, 1, x.p, 5 + what); });
  w.join();
  r.join();
  h.Check(initial, Final(x.p), "not-linearizable");
}
// Two publishers: entries, default timestamps, head updates, in conflict with each other.
template <class X>
void TwoWriters() {
  X x;
  H h(2);
  const int a = mc::Choose(4), b = mc::Choose(4);
  auto f = [&](size_t t, int k) {
    const std::string n(1, static_cast<char>('a' + t));
    if (k == 0) { Publish(h, t, x.p, n + "1", 10); Publish(h, t, x.p, n + "2", 20); }
    if (k == 1) { Publish(h, t, x.p, n + "1", 10); Head(h, t, x.p, 15); }
    if (k == 2) { Head(h, t, x.p, 12); Publish(h, t, x.p, n + "1", 20); }
    if (k == 3) { Publish(h, t, x.p, n + "1", 0); Publish(h, t, x.p, n + "2", 0); }
  };
  std::thread t1([&]() { f(0, a); }), t2([&]() { f(1, b); });
  t1.join();
  t2.join();
  h.Check(Model(), Final(x.p), "not-linearizable");
}
// Three threads, one call each.
template <class X>
void ThreeThreads() {
  X x;
  H h(3);
  const int a = mc::Choose(2), what = mc::Choose(3);
  std::thread t1([&]() { Publish(h, 0, x.p, "a", 10); });
  std::thread t2([&]() { if (a) Publish(h, 1, x.p, "b", 20); else Head(h, 1, x.p, 15); });
  std::thread t3([&]() { Read(h, 2, x.p, what == 0 ? 0 : what == 1 ? 3 : 1); });
  t1.join();
  t2.join();
  t3.join();
  h.Check(Model(), Final(x.p), "not-linearizable");
}
// A range is being iterated, slowly, while more is published: it keeps giving what it was created for.
template <class X>
void SlowIteration() {
  X x;
  x.p.Publish(VEntry("one"), us_t(1));
  x.p.Publish(VEntry("two"), us_t(2));
  const bool raw = mc::Choose(2);
  std::thread w([&]() {
    x.p.Publish(VEntry("three"), us_t(3));
    x.p.UpdateHead(us_t(4));
    x.p.Publish(VEntry("four"), us_t(5));
  });
  if (raw) {
    auto range = x.p.IterateUnsafe(0, 2);
    MC_CHECK_EQ(Show(CollectRaw(range)), "one@1 two@2 ", "slow-iteration");
  } else {
    auto range = x.p.Iterate(0, 2);
    MC_CHECK_EQ(Show(Collect(range)), "one@1 two@2 ", "slow-iteration");
  }
  w.join();
  MC_CHECK_EQ(Show(CollectRaw(x.p.IterateUnsafe())), "one@1 two@2 three@3 four@5 ", "slow-iteration");
}
}  // namespace

MC_SCENARIO(memory_writer_reader) { WriterReader<Mem>(); }
MC_SCENARIO(memory_time_range) { TimeRange<Mem>(); }
MC_SCENARIO(memory_two_writers) { TwoWriters<Mem>(); }
MC_SCENARIO(memory_three_threads) { ThreeThreads<Mem>(); }
MC_SCENARIO(memory_slow_iteration) { SlowIteration<Mem>(); }
MC_SCENARIO(file_writer_reader) { WriterReader<Fil>(); }
MC_SCENARIO(file_time_range) { TimeRange<Fil>(); }
MC_SCENARIO(file_two_writers) { TwoWriters<Fil>(); }
MC_SCENARIO(file_three_threads) { ThreeThreads<Fil>(); }
MC_SCENARIO(file_slow_iteration) { SlowIteration<Fil>(); }
