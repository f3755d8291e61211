// C07: one owner of the right to publish. All short sequences of operations against a model, single-threaded except
// that those who hold the publisher give it up once asked to.
#include "enum.h"

#include "stream/stream.h"

#include <memory>
#include <string>
#include <vector>

using us_t = std::chrono::microseconds;

CURRENT_STRUCT(VEntry) {
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VEntry) {}
  CURRENT_CONSTRUCTOR(VEntry)(int32_t v) : v(v) {}
};

namespace {

template <template <typename> class P>
struct Run {
  using stream_t = current::stream::Stream<VEntry, P>;
  using publisher_t = typename stream_t::publisher_t;
  // Someone who holds the publisher, until released or asked to give it up.
  struct Holder {
    std::unique_ptr<current::BorrowedWithCallback<publisher_t>> p;
    bool asked = false;
    explicit Holder(current::Borrowed<publisher_t> b) {
      p = std::make_unique<current::BorrowedWithCallback<publisher_t>>(std::move(b), [this]() {
        EN_CHECK(!asked, "asked-to-give-up-twice");
        asked = true;
        *p = nullptr;
      });
    }
    bool Holds() const { return p && *p; }
  };

  current::Owned<stream_t> s;
  bool master = true;
  Holder* owner = nullptr;            // Who has been given the publisher of a following stream.
  std::vector<std::unique_ptr<Holder>> holders;
  std::vector<Holder*> active;        // Those who may publish now, as of the model.
  std::vector<std::pair<int64_t, int>> log;
  int64_t head = -1;
  int n = 0;
  std::string history;

  template <typename... A>
  Run(A&&... a) : s(stream_t::CreateStream(std::forward<A>(a)...)) {}

  void Check() {
    EN_CHECK_EQ(s->IsMasterStream(), master, "is-master" );
    for (auto& h : holders) {
      bool in = false;
      for (auto* a : active) in |= a == h.get();
      EN_CHECK_EQ(h->Holds(), in, "who-holds-the-publisher");
    }
    EN_CHECK_EQ(s->Data()->Size(), log.size(), "log-size");
    uint64_t i = 0;
    for (const auto& e : s->Data()->Iterate()) {
      EN_CHECK_EQ(e.idx_ts.index, i, "log-index");
      EN_CHECK_EQ(e.idx_ts.us.count(), log[i].first, "log-timestamp");
      EN_CHECK_EQ(e.entry.v, log[i].second, "log-value");
      ++i;
    }
    EN_CHECK_EQ(i, log.size(), "log-size");
    EN_CHECK_EQ(s->Data()->CurrentHead().count(), head, "log-head");
    std::string k = master ? "M" : "F";
    for (auto& h : holders) k += h->Holds() ? "1" : "0";
    en::State(k + std::to_string(log.size()) + "," + std::to_string(head));
  }
  // `delta` 0 is a timestamp that is not after the head.
  template <class PUB>
  void PublishVia(PUB& p, int delta) {
    const int64_t us = std::max<int64_t>(head, 0) + 10 * delta;
    const int v = ++n;
    try {
      const idxts_t r = p.Publish(VEntry(v), us_t(us));
      EN_CHECK(us > head, "published-out-of-order");
      EN_CHECK_EQ(r.index, log.size(), "publish-index");
      EN_CHECK_EQ(r.us.count(), us, "publish-timestamp");
      log.emplace_back(us, v);
      head = us;
    } catch (const current::ss::InconsistentTimestampException&) {
      EN_CHECK(us <= head, "publish-refused");
    }
  }
  // The holders as of now are all to be asked to give up.
  void AllGiveUp() {
    active.clear();
    owner = nullptr;
  }
  void Step() {
    en::Transition();
    const int op = en::Choose(10);
    switch (op) {
      case 0:
      case 1:  // Publish via the stream.
        history += op ? "P0 " : "P1 ";
        try {
          PublishVia(*s->Publisher(), op == 0 ? 1 : 0);
          EN_CHECK(master, "published-via-the-stream-that-does-not-own-its-publisher");
        } catch (const current::stream::PublisherNotAvailableException&) {
          EN_CHECK(!master, "master-stream-refused-to-publish");
        }
        break;
      case 2:  // Borrow from the stream.
        history += "B ";
        try {
          holders.push_back(std::make_unique<Holder>(s->BorrowPublisher()));
          active.push_back(holders.back().get());
          EN_CHECK(master, "borrowed-from-the-stream-that-does-not-own-its-publisher");
        } catch (const current::stream::PublisherNotAvailableException&) {
          EN_CHECK(!master, "master-stream-refused-to-lend");
        }
        break;
      case 3: {  // Follow.
        history += "F ";
        current::Borrowed<publisher_t> b = s->BecomeFollowingStream();
        AllGiveUp();
        master = false;
        holders.push_back(std::make_unique<Holder>(std::move(b)));
        owner = holders.back().get();
        active.push_back(owner);
        break;
      }
      case 4:  // Follow, and give the publisher up right away: nobody can publish.
        history += "f ";
        s->BecomeFollowingStream();
        AllGiveUp();
        master = false;
        break;
      case 5:  // Master.
        history += "M ";
        s->BecomeMasterStream();
        AllGiveUp();
        master = true;
        break;
      case 6: {  // Publish via the most recent one who can.
        history += "H ";
        if (active.empty()) en::Skip();
        PublishVia(**active.back()->p, 1);
        break;
      }
      case 7: {  // Update the head via the least recent one who can.
        history += "U ";
        if (active.empty()) en::Skip();
        head = std::max<int64_t>(head, 0) + 10;
        (*active.front()->p)->UpdateHead(us_t(head));
        break;
      }
      case 8: {  // The least recent one releases it.
        history += "R ";
        if (active.empty()) en::Skip();
        Holder* h = active.front();
        active.erase(active.begin());
        *h->p = nullptr;
        break;
      }
      case 9: {  // Borrow from whoever holds it.
        history += "b ";
        if (active.empty()) en::Skip();
        holders.push_back(std::make_unique<Holder>(current::Borrowed<publisher_t>(*active.back()->p)));
        active.push_back(holders.back().get());
        break;
      }
    }
    en::Note(history);
    Check();
  }
  // Who holds the publisher when the stream goes away is asked as well.
  void Finish() {}
};

template <class R>
void Body(R& r) {
  const int ops = en::Param("ops", 3);
  for (int i = 0; i < ops; ++i) r.Step();
  en::Evaluations(1);
}

}  // namespace

EN_SCENARIO(memory) {
  Run<current::persistence::Memory> r;
  Body(r);
  // The stream is destroyed while there may be holders, who give it up once asked to. Its members are destroyed in the
  // reverse order, so move the holders out first.
  auto holders = std::move(r.holders);
  r.s = decltype(r)::stream_t::CreateStream();
  for (auto& h : holders) EN_CHECK(!h->Holds(), "publisher-of-a-destroyed-stream");
}
EN_SCENARIO(file) {
  const std::string f = en::TmpDir() + "/log";
  std::remove(f.c_str());
  {
    Run<current::persistence::File> r(f);
    Body(r);
    auto holders = std::move(r.holders);
    for (auto& h : holders) if (h->Holds()) *h->p = nullptr;
  }
  std::remove(f.c_str());
}
