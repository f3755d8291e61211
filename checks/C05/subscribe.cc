// C05: what a stream subscriber is given, under every schedule (bounded) of publishers, head updates and subscribers.
#include "mc.h"

#include "stream/stream.h"

#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include <unistd.h>

using us_t = std::chrono::microseconds;

CURRENT_STRUCT(VOther) {
  CURRENT_FIELD(o, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VOther) {}
  CURRENT_CONSTRUCTOR(VOther)(int32_t o) : o(o) {}
};
CURRENT_STRUCT(VEntry) {
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VEntry) {}
  CURRENT_CONSTRUCTOR(VEntry)(int32_t v) : v(v) {}
};

namespace {

// What the publishers have had acknowledged, and what the subscribers were told. One real mutex guards it all; it is
// never held while calling into the code under test.
struct Rec { int64_t us = 0; int v = 0; bool acked = false; };
struct Truth {
  std::mutex m;
  std::vector<Rec> log;          // By index.
  std::vector<int64_t> heads;    // The heads that were asked for.
  int64_t max_acked = -1;
};
Truth* T;

constexpr int kAny = 0;

struct SubscriberImpl {
  const uint64_t begin;
  const bool unchecked;
  const int done_after;  // 0: never.
  uint64_t next;
  int64_t told = -1;     // The largest entry timestamp or head told so far.
  int64_t told_entry = -1;
  int heads = 0;
  std::atomic<int> given{0};
  std::atomic<int64_t> told_published{-1};
  std::atomic<int> inside{0};
  SubscriberImpl(uint64_t begin, bool unchecked = false, int done_after = 0) : begin(begin), unchecked(unchecked), done_after(done_after), next(begin) {}

  using ER = current::ss::EntryResponse;
  ER Entry(uint64_t index, int64_t us, int v, idxts_t last) {
    MC_CHECK_EQ(inside.fetch_add(1), 0, "subscriber-reentered");
    MC_CHECK_EQ(index, next, "entry-out-of-order-or-repeated-or-skipped");
    ++next;
    {
      std::lock_guard<std::mutex> lock(T->m);
      if (index >= T->log.size()) T->log.resize(index + 1);
      Rec& r = T->log[index];
      if (r.us) {
        MC_CHECK_EQ(us, r.us, "entry-timestamp");
        MC_CHECK_EQ(v, r.v, "entry-value");
      } else {
        r.us = us;
        r.v = v;
      }
    }
    MC_CHECK(us > told, "entry-behind-what-was-told");
    told = told_entry = us;
    MC_CHECK(last.index >= index && last.us.count() >= us, "last-is-behind");
    mc::Observe("e" + std::to_string(v) + ",");
    inside.fetch_sub(1);
    told_published.store(told);
    given.fetch_add(1);
    return done_after && given.load() == done_after ? ER::Done : ER::More;
  }
  ER operator()(const VEntry& e, idxts_t cur, idxts_t last) { return Entry(cur.index, cur.us.count(), e.v, last); }
  ER operator()(const std::string& raw, uint64_t index, idxts_t last) {
    const auto tab = raw.find('\t');
    MC_CHECK(tab != std::string::npos, "raw-entry");
    const idxts_t cur = ParseJSON<idxts_t>(raw.substr(0, tab));
    MC_CHECK_EQ(cur.index, index, "raw-entry-index");
    return Entry(cur.index, cur.us.count(), ParseJSON<VEntry>(raw.substr(tab + 1)).v, last);
  }
  ER operator()(us_t head) {
    MC_CHECK_EQ(inside.fetch_add(1), 0, "subscriber-reentered");
    MC_CHECK(head.count() > told, "head-went-back");
    {
      std::lock_guard<std::mutex> lock(T->m);
      // No entry at or before this head may be left ungiven. An acknowledged one surely is in the log.
      for (uint64_t i = next; i < T->log.size(); ++i) {
        const Rec& r = T->log[i];
        if (r.acked) MC_CHECK(r.us > head.count(), "head-ahead-of-entries-not-given");
      }
      bool known = false;
      for (int64_t h : T->heads) known |= h == head.count();
      for (const Rec& r : T->log) known |= r.us == head.count();
      MC_CHECK(known, "head-nobody-set");
    }
    told = head.count();
    ++heads;
    mc::Observe("h" + std::to_string(told) + ",");
    inside.fetch_sub(1);
    told_published.store(told);
    return ER::More;
  }
  ER EntryResponseIfNoMorePassTypeFilter() const { return ER::More; }
  current::ss::TerminationResponse Terminate() { return current::ss::TerminationResponse::Terminate; }
};
using Subscriber = current::ss::StreamSubscriber<SubscriberImpl, VEntry>;

template <template <typename> class P>
struct World {
  using stream_t = current::stream::Stream<VEntry, P>;
  std::string f;
  std::unique_ptr<current::Owned<stream_t>> s;

  World() {
    T = new Truth();
    Open();
  }
  ~World() {
    if (!f.empty()) ::unlink(f.c_str());
  }
  void Open();
  void Publish(int v, int64_t us = 0) {
    if (us) Note(us);
    auto& p = *(*s)->Publisher();
    idxts_t r;
    try {
      r = us ? p.Publish(VEntry(v), us_t(us)) : p.Publish(VEntry(v));
    } catch (const current::ss::InconsistentTimestampException&) {
      return;
    }
    std::lock_guard<std::mutex> lock(T->m);
    if (r.index >= T->log.size()) T->log.resize(r.index + 1);
    Rec& rec = T->log[r.index];
    MC_CHECK(!rec.acked, "index-acknowledged-twice");
    if (rec.us) {
      MC_CHECK_EQ(rec.us, r.us.count(), "entry-timestamp");
      MC_CHECK_EQ(rec.v, v, "entry-value");
    }
    if (us) MC_CHECK_EQ(r.us.count(), us, "publish-timestamp");
    rec.us = r.us.count();
    rec.v = v;
    rec.acked = true;
    if (rec.us > T->max_acked) T->max_acked = rec.us;
  }
  void Head(int64_t us) {
    Note(us);
    try {
      (*s)->Publisher()->UpdateHead(us_t(us));
    } catch (const current::ss::InconsistentTimestampException&) {
      return;
    }
    std::lock_guard<std::mutex> lock(T->m);
    if (us > T->max_acked) T->max_acked = us;
  }
  void Note(int64_t us) {
    std::lock_guard<std::mutex> lock(T->m);
    T->heads.push_back(us);
  }
};
template <>
void World<current::persistence::Memory>::Open() {
  s = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream());
}
template <>
void World<current::persistence::File>::Open() {
  char b[256];
  const ssize_t n = ::readlink("/proc/self/exe", b, sizeof b - 1);
  f = std::string(b, n > 0 ? n : 0) + ".scratch-" + std::to_string(::getpid());
  ::unlink(f.c_str());
  s = std::make_unique<current::Owned<stream_t>>(stream_t::CreateStream(f));
}

// Everything from `begin` up to `n` entries is given; then, with the head told too.
void WaitGiven(const Subscriber& s, int n) {
  struct A { const Subscriber* s; int n; } a{&s, n};
  if (n <= 0) return;
  mc::BlockUntil([](void* p) { auto a = static_cast<A*>(p); return a->s->given.load() >= a->n; }, &a, "entries given");
}
void WaitTold(const Subscriber& s, int64_t us) {
  struct A { const Subscriber* s; int64_t us; } a{&s, us};
  mc::BlockUntil([](void* p) { auto a = static_cast<A*>(p); return a->s->told_published.load() >= a->us; }, &a, "head told");
}

template <class W>
auto Sub(W& w, Subscriber& s) {
  return (*w.s)->Subscribe(s, s.begin);
}
template <class W>
auto SubUnchecked(W& w, Subscriber& s) {
  return (*w.s)->SubscribeUnchecked(s, s.begin);
}

template <class W, bool UNCHECKED>
void OnePublisher() {
  W w;
  w.Publish(1, 10);
  const uint64_t begin = mc::Choose(3);
  Subscriber s(begin);
  {
    std::thread t([&]() { w.Publish(2, 20); w.Publish(3, 30); });
    if constexpr (UNCHECKED) {
      auto scope = SubUnchecked(w, s);
      t.join();
      WaitGiven(s, 3 - static_cast<int>(begin));
    } else {
      auto scope = Sub(w, s);
      t.join();
      WaitGiven(s, 3 - static_cast<int>(begin));
    }
  }
  MC_CHECK_EQ(s.next, 3u, "entries-not-given");
}

template <class W>
void TwoPublishers() {
  W w;
  Subscriber s(0);
  std::thread t1([&]() { w.Publish(1); });
  std::thread t2([&]() { w.Publish(2); });
  {
    auto scope = Sub(w, s);
    t1.join();
    t2.join();
    WaitGiven(s, 2);
  }
  MC_CHECK_EQ(s.next, 2u, "entries-not-given");
}

template <class W>
void HeadUpdates() {
  W w;
  w.Publish(1, 10);
  Subscriber s(0);
  std::thread t([&]() { w.Head(20); w.Publish(2, 30); w.Head(40); });
  {
    auto scope = Sub(w, s);
    t.join();
    WaitGiven(s, 2);
    WaitTold(s, 40);
  }
  MC_CHECK_EQ(s.next, 2u, "entries-not-given");
}

template <class W>
void HeadAndPublisher() {
  W w;
  w.Publish(1, 10);
  Subscriber s(0);
  std::thread t1([&]() { w.Publish(2, 30); });
  std::thread t2([&]() { w.Head(20); w.Head(40); });
  {
    auto scope = Sub(w, s);
    t1.join();
    t2.join();
    WaitGiven(s, static_cast<int>((*w.s)->Data()->Size()));
    WaitTold(s, T->max_acked);
  }
  MC_CHECK_EQ(s.next, (*w.s)->Data()->Size(), "entries-not-given");
}

template <class W>
void TwoSubscribers() {
  W w;
  w.Publish(1, 10);
  Subscriber s1(0), s2(1);
  std::thread t([&]() { w.Publish(2, 20); });
  {
    auto scope1 = Sub(w, s1);
    auto scope2 = SubUnchecked(w, s2);
    t.join();
    WaitGiven(s1, 2);
    WaitGiven(s2, 1);
  }
  MC_CHECK_EQ(s1.next, 2u, "entries-not-given");
  MC_CHECK_EQ(s2.next, 2u, "entries-not-given");
}

// The subscription starts once the head gets to the given time, and starts with the given index.
template <class W>
void FromTime() {
  W w;
  w.Publish(1, 10);
  const int64_t from = mc::Choose(2) ? 25 : 10;
  Subscriber s(from == 25 ? 1 : 0);
  std::thread t([&]() { w.Publish(2, 20); w.Publish(3, 30); });
  {
    auto scope = (*w.s)->Subscribe(s, s.begin, us_t(from));
    t.join();
    WaitGiven(s, 3 - static_cast<int>(s.begin));
  }
  MC_CHECK_EQ(s.next, 3u, "entries-not-given");
}

// A woken subscriber does not depend on a timer: no virtual time passes between the publish and the delivery.
template <class W>
void Woken() {
  W w;
  w.Publish(1, 10);
  Subscriber s(0);
  {
    auto scope = Sub(w, s);
    WaitGiven(s, 1);
    w.Publish(2, 20);
    WaitGiven(s, 2);
  }
}

// A subscriber to one of the cases of a variant is given exactly the entries of this case, with their indexes.
struct FilterImpl {
  std::vector<std::pair<uint64_t, int>> got;
  std::atomic<int> n{0};
  int heads = 0;
  mutable int skipped = 0;
  int64_t told = -1;
  int done_on_skip = -1;
  current::ss::EntryResponse operator()(const VEntry& e, idxts_t cur, idxts_t last) {
    MC_CHECK(last.index >= cur.index && last.us >= cur.us, "last-is-behind");
    MC_CHECK(cur.us.count() > told, "entry-behind-what-was-told");
    told = cur.us.count();
    got.emplace_back(cur.index, e.v);
    n.fetch_add(1);
    return current::ss::EntryResponse::More;
  }
  current::ss::EntryResponse operator()(us_t head) {
    MC_CHECK(head.count() > told, "head-went-back");
    told = head.count();
    ++heads;
    return current::ss::EntryResponse::More;
  }
  current::ss::EntryResponse EntryResponseIfNoMorePassTypeFilter() const {
    return skipped++ == done_on_skip ? current::ss::EntryResponse::Done : current::ss::EntryResponse::More;
  }
  current::ss::TerminationResponse Terminate() { return current::ss::TerminationResponse::Terminate; }
};

void Filtered() {
  using V = Variant<VOther, VEntry>;
  using S = current::stream::Stream<V, current::persistence::Memory>;
  auto s = S::CreateStream();
  const uint64_t begin = mc::Choose(3);
  const int kinds = mc::Choose(8);
  std::vector<std::pair<uint64_t, int>> want;
  int others = 0;
  auto publish = [&](int i) {
    if (kinds >> i & 1) {
      s->Publisher()->Publish(VEntry(i), us_t(10 + 10 * i));
      if (static_cast<uint64_t>(i) >= begin) want.emplace_back(i, i);
    } else {
      s->Publisher()->Publish(VOther(i), us_t(10 + 10 * i));
      if (static_cast<uint64_t>(i) >= begin) ++others;
    }
  };
  publish(0);
  current::ss::StreamSubscriber<FilterImpl, VEntry> f;
  {
    const auto scope = s->template Subscribe<VEntry>(f, begin);
    publish(1);
    publish(2);
    struct A { decltype(f)* s; size_t n; } a{&f, want.size()};
    mc::BlockUntil([](void* p) { auto a = static_cast<A*>(p); return a->s->n.load() >= static_cast<int>(a->n); }, &a, "entries given");
  }
  MC_CHECK(f.got == want, "entries-of-the-type");
  MC_CHECK(f.skipped <= others, "skipped-too-many");
}

// The type filter may tell the subscription to stop: nothing is given any more.
void FilteredDone() {
  using V = Variant<VOther, VEntry>;
  using S = current::stream::Stream<V, current::persistence::Memory>;
  auto s = S::CreateStream();
  const int at = mc::Choose(3);
  for (int i = 0; i <= at; ++i) {  // It is only asked when the last entry is not of the type.
    if (i == at) s->Publisher()->Publish(VOther(i), us_t(10 + 10 * i)); else s->Publisher()->Publish(VEntry(i), us_t(10 + 10 * i));
  }
  current::ss::StreamSubscriber<FilterImpl, VEntry> f;
  f.done_on_skip = 0;
  std::atomic<int> done{0};
  {
    const auto scope = s->template Subscribe<VEntry>(f, 0, us_t(0), [&]() { done.fetch_add(1); });
    mc::BlockUntil([](void* p) { return static_cast<std::atomic<int>*>(p)->load() == 1; }, &done, "subscription done");
    s->Publisher()->Publish(VEntry(3), us_t(50));
  }
  MC_CHECK_EQ(static_cast<int>(f.got.size()), at, "given-after-done");
}

}  // namespace

MC_SCENARIO(filtered, [] { mc::Opts o; o.max_bound = 2; return o; }()) { Filtered(); }
MC_SCENARIO(filtered_done, [] { mc::Opts o; o.horizon_is_violation = true; return o; }()) { FilteredDone(); }
using M = World<current::persistence::Memory>;
using F = World<current::persistence::File>;
MC_SCENARIO(memory_one_publisher) { OnePublisher<M, false>(); }
MC_SCENARIO(memory_one_publisher_unchecked) { OnePublisher<M, true>(); }
MC_SCENARIO(memory_two_publishers) { TwoPublishers<M>(); }
MC_SCENARIO(memory_head_updates) { HeadUpdates<M>(); }
MC_SCENARIO(memory_head_and_publisher) { HeadAndPublisher<M>(); }
MC_SCENARIO(memory_two_subscribers) { TwoSubscribers<M>(); }
MC_SCENARIO(memory_from_time) { FromTime<M>(); }
MC_SCENARIO(memory_woken) { Woken<M>(); }
MC_SCENARIO(file_one_publisher) { OnePublisher<F, false>(); }
MC_SCENARIO(file_one_publisher_unchecked) { OnePublisher<F, true>(); }
MC_SCENARIO(file_two_publishers) { TwoPublishers<F>(); }
MC_SCENARIO(file_head_updates) { HeadUpdates<F>(); }
MC_SCENARIO(file_head_and_publisher) { HeadAndPublisher<F>(); }
MC_SCENARIO(file_from_time) { FromTime<F>(); }
