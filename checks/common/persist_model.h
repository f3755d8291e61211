// The reference model of a persister, and the exhaustive comparison of a real one against it. Used by C01, C02, C03.
#pragma once
#include "enum.h"

#include "blocks/persistence/memory.h"
#include "blocks/persistence/file.h"

#include <mutex>
#include <vector>

using us_t = std::chrono::microseconds;

CURRENT_STRUCT(VEntry) {
  CURRENT_FIELD(s, std::string);
  CURRENT_DEFAULT_CONSTRUCTOR(VEntry) {}
  CURRENT_CONSTRUCTOR(VEntry)(const std::string& s) : s(s) {}
};

namespace pm {

struct E { int64_t us; std::string s; };
struct Model {
  std::vector<E> log;
  int64_t head = -1;
  std::string Str() const {
    std::string r = std::to_string(head) + ":";
    for (const auto& e : log) r += std::to_string(e.us) + "," + e.s + ";";
    return r;
  }
};

inline std::string Payload(int k) {
  static const std::string p[] = {"a", "#head 5", "x\ty\n{\"index\":7,\"us\":9}\t{}", "", std::string("q\"\\\xd0\x96\r\x01", 7), "#signature"};
  return p[k % 6];
}
inline std::string Raw(uint64_t index, int64_t us, const std::string& s) { return "{\"index\":" + std::to_string(index) + ",\"us\":" + std::to_string(us) + "}\t" + JSON(VEntry(s)); }

enum class Out { Ok, Inconsistent, Malformed, BadIndex, Range, NoEntries, Json, Other };
inline const char* Name(Out o) {
  static const char* n[] = {"ok", "inconsistent-timestamp", "malformed", "bad-index", "invalid-range", "no-entries", "invalid-json", "other-exception"};
  return n[static_cast<int>(o)];
}
template <class F>
Out Run(F&& f) {
  try {
    f();
    return Out::Ok;
  } catch (const current::ss::InconsistentTimestampException&) {
    return Out::Inconsistent;
  } catch (const current::persistence::MalformedEntryException&) {
    return Out::Malformed;
  } catch (const current::persistence::UnsafePublishBadIndexTimestampException&) {
    return Out::BadIndex;
  } catch (const current::persistence::InvalidIterableRangeException&) {
    return Out::Range;
  } catch (const current::persistence::NoEntriesPublishedYet&) {
    return Out::NoEntries;
  } catch (const current::serialization::json::TypeSystemParseJSONException&) {
    return Out::Json;
  } catch (const std::exception&) {
    return Out::Other;
  }
}
#define PM_OUT(expected, sig, ...) EN_CHECK_EQ(std::string(pm::Name(pm::Run([&]() { __VA_ARGS__; }))), std::string(pm::Name(expected)), sig)

// The cheap queries.
template <class P>
void CheckSummary(const P& p, const Model& m) {
  EN_CHECK_EQ(p.Size(), m.log.size(), "size");
  EN_CHECK_EQ(p.Empty(), m.log.empty(), "empty");
  EN_CHECK_EQ(p.CurrentHead().count(), m.head, "current-head");
  const auto hl = p.HeadAndLastPublishedIndexAndTimestamp();
  EN_CHECK_EQ(hl.head.count(), m.head, "head-and-last");
  EN_CHECK_EQ(Exists(hl.idxts), !m.log.empty(), "head-and-last");
  if (m.log.empty()) {
    PM_OUT(Out::NoEntries, "last-published-of-empty", p.LastPublishedIndexAndTimestamp());
  } else {
    const auto l = p.LastPublishedIndexAndTimestamp();
    EN_CHECK_EQ(l.index, m.log.size() - 1, "last-published");
    EN_CHECK_EQ(l.us.count(), m.log.back().us, "last-published");
    EN_CHECK_EQ(Value(hl.idxts).index, l.index, "head-and-last");
    EN_CHECK_EQ(Value(hl.idxts).us.count(), l.us.count(), "head-and-last");
  }
}
template <class R>
void CheckRange(R&& range, const Model& m, size_t b, size_t e, int stride, const char* sig) {
  size_t i = b;
  auto it = range.begin();
  const auto end = range.end();
  for (; it != end; ++it, ++i) {
    EN_CHECK(i < e, sig);
    if ((i - b) % stride == static_cast<size_t>(stride - 1)) {
      const auto x = *it;
      EN_CHECK_EQ(x.idx_ts.index, i, sig);
      EN_CHECK_EQ(x.idx_ts.us.count(), m.log[i].us, sig);
      EN_CHECK_EQ(x.entry.s, m.log[i].s, sig);
    }
  }
  EN_CHECK_EQ(i, e, sig);
}
template <class R>
void CheckRangeUnsafe(R&& range, const Model& m, size_t b, size_t e, int stride, const char* sig) {
  size_t i = b;
  auto it = range.begin();
  const auto end = range.end();
  for (; it != end; ++it, ++i) {
    EN_CHECK(i < e, sig);
    if ((i - b) % stride == static_cast<size_t>(stride - 1)) EN_CHECK_EQ(std::string(*it), Raw(i, m.log[i].us, m.log[i].s), sig);
  }
  EN_CHECK_EQ(i, e, sig);
}
// All of them, over every argument that matters: indices up to one past the end, times up to one past the head.
template <class P>
void CheckAll(const P& p, const Model& m, int64_t max_us, bool full = true) {
  CheckSummary(p, m);
  const uint64_t n = m.log.size(), none = static_cast<uint64_t>(-1);
  if (!full) {
    CheckRange(p.Iterate(), m, 0, n, 1, "iterate");
    CheckRangeUnsafe(p.IterateUnsafe(), m, 0, n, 1, "iterate-unsafe");
    return;
  }
  std::vector<uint64_t> idx;
  for (uint64_t i = 0; i <= n + 1; ++i) idx.push_back(i);
  idx.push_back(none);
  for (uint64_t b : idx) {
    if (b == none) continue;
    for (uint64_t e : idx) {
      const uint64_t e2 = e == none ? n : e;
      const bool bad = e2 > n || (b != e2 && (b >= n || e2 < b));
      if (bad) {
        PM_OUT(Out::Range, "iterate-invalid-range", p.Iterate(b, e));
        PM_OUT(Out::Range, "iterate-invalid-range", p.IterateUnsafe(b, e));
      } else {
        for (int s = 1; s <= 2; ++s) {
          CheckRange(p.Iterate(b, e), m, b, e2, s, "iterate");
          CheckRangeUnsafe(p.IterateUnsafe(b, e), m, b, e2, s, "iterate-unsafe");
        }
      }
    }
  }
  for (int64_t f = -1; f <= max_us + 1; ++f)
    for (int64_t t = -1; t <= max_us + 1; ++t) {
      uint64_t first = none, second = none;
      for (size_t i = n; i-- > 0;) if (m.log[i].us >= f) first = i;
      if (t > 0) for (size_t i = n; i-- > 0;) if (m.log[i].us > t) second = i;
      const auto r = p.IndexRangeByTimestampRange(us_t(f), us_t(t));
      EN_CHECK_EQ(r.first, first, "index-range-by-timestamp-range");
      EN_CHECK_EQ(r.second, second, "index-range-by-timestamp-range");
      if (t > 0 && t < f) {
        PM_OUT(Out::Range, "iterate-invalid-time-range", p.Iterate(us_t(f), us_t(t)));
        PM_OUT(Out::Range, "iterate-invalid-time-range", p.IterateUnsafe(us_t(f), us_t(t)));
      } else {
        const uint64_t b = first == none ? 0 : first, e = first == none ? 0 : second == none ? n : second;
        CheckRange(p.Iterate(us_t(f), us_t(t)), m, b, e, 1, "iterate-by-time");
        CheckRangeUnsafe(p.IterateUnsafe(us_t(f), us_t(t)), m, b, e, 1, "iterate-unsafe-by-time");
      }
    }
}

// One operation, chosen by the explorer, on the persister and on the model. K: timestamps 0..K-1 are tried.
// Returns a description.
template <class P>
std::string Step(P& p, Model& m, int K, int step, bool raw_ops = true) {
  const int kinds = raw_ops ? 5 : 4;
  const int kind = en::Choose(kinds);
  const std::string payload = Payload(step);
  const int64_t us = (kind == 0 || kind == 2) ? 0 : en::Choose(K);
  std::string d;
  using current::locks::MutexLockStatus;
  if (kind == 0 || kind == 2) {  // the clock decides; it is at the head, or past it
    const int64_t now = std::max<int64_t>(m.head, 0) + en::Choose(2);
    current::time::ResetToZero();
    current::time::SetNow(us_t(now), us_t(now));
    const bool ok = now > m.head;
    if (kind == 0) {
      d = "publish@now=" + std::to_string(now);
      idxts_t r;
      PM_OUT(ok ? Out::Ok : Out::Inconsistent, "publish-outcome", r = p.Publish(VEntry(payload)));
      if (ok) {
        EN_CHECK(r.index == m.log.size() && r.us.count() == now, "publish-result");
        m.log.push_back({now, payload});
        m.head = now;
      }
    } else {
      d = "head@now=" + std::to_string(now);
      PM_OUT(ok ? Out::Ok : Out::Inconsistent, "update-head-outcome", p.UpdateHead());
      if (ok) m.head = now;
    }
  } else if (kind == 1) {
    d = "publish@" + std::to_string(us);
    const bool ok = us > m.head;
    idxts_t r;
    VEntry e(payload);
    if (step % 2) PM_OUT(ok ? Out::Ok : Out::Inconsistent, "publish-outcome", r = p.Publish(e, us_t(us)));
    else PM_OUT(ok ? Out::Ok : Out::Inconsistent, "publish-outcome", r = p.Publish(std::move(e), us_t(us)));
    if (ok) {
      EN_CHECK(r.index == m.log.size() && r.us.count() == us, "publish-result");
      m.log.push_back({us, payload});
      m.head = us;
    }
  } else if (kind == 3) {
    d = "head@" + std::to_string(us);
    const bool ok = us > m.head;
    PM_OUT(ok ? Out::Ok : Out::Inconsistent, "update-head-outcome", p.UpdateHead(us_t(us)));
    if (ok) m.head = us;
  } else {
    const int shape = en::Choose(5);  // right, index too large, index too small, no tab, malformed index
    const uint64_t index = shape == 1 ? m.log.size() + 1 : shape == 2 ? m.log.size() - 1 : m.log.size();
    if (shape == 2 && m.log.empty()) en::Skip();
    if (shape > 2 && us != K - 1) en::Skip();
    d = "raw" + std::to_string(shape) + "@" + std::to_string(us);
    std::string raw = Raw(index, us, payload);
    if (shape == 3) raw[raw.find('\t')] = ' ';
    if (shape == 4) raw = raw.substr(1);
    const Out expected = shape == 1 || shape == 2 ? Out::BadIndex : shape == 3 ? Out::Malformed : shape == 4 ? Out::Json : us > m.head ? Out::Ok : Out::Inconsistent;
    idxts_t r;
    PM_OUT(expected, "publish-unsafe-outcome", r = p.template PersisterPublishUnsafeImpl<MutexLockStatus::NeedToLock>(raw));
    if (expected == Out::Ok) {
      EN_CHECK(r.index == m.log.size() && r.us.count() == us, "publish-unsafe-result");
      m.log.push_back({us, payload});
      m.head = us;
    }
  }
  return d;
}

}  // namespace pm
