// C01: every short history on the in-memory and on the file persister against a list with increasing timestamps.
#include "common/persist_model.h"

#include <fstream>

#include <unistd.h>

using namespace pm;
namespace {
const current::ss::StreamNamespaceName kName("ns", "entry");

template <class P>
void History(P& p, int ops, int K, bool raw = true) {
  Model m;
  CheckAll(p, m, K);
  for (int k = 0; k < ops; ++k) {
    en::Transition();
    // A range taken before an operation still reads the same entries afterwards.
    const Model before = m;
    auto range = p.Iterate();
    auto range_unsafe = p.IterateUnsafe();
    const std::string d = Step(p, m, K, k, raw);
    en::Note(d);
    CheckRange(range, before, 0, before.log.size(), 1, "range-taken-before");
    CheckRangeUnsafe(range_unsafe, before, 0, before.log.size(), 1, "range-taken-before");
    CheckSummary(p, m);
    en::State(m.Str());
  }
  CheckAll(p, m, K);
}
std::string File() {
  const std::string f = en::TmpDir() + "/log";
  ::unlink(f.c_str());
  return f;
}
}  // namespace

EN_SCENARIO(memory, en::Opts{5}) {
  std::mutex mutex;
  current::persistence::Memory<VEntry> p(mutex, kName);
  History(p, static_cast<int>(en::Param("memory_ops", 4)), 4);
}
EN_SCENARIO(memory_deeper, en::Opts{5}) {
  std::mutex mutex;
  current::persistence::Memory<VEntry> p(mutex, kName);
  History(p, static_cast<int>(en::Param("deeper_ops", 4)), 3, false);
}
EN_SCENARIO(file, en::Opts{5}) {
  std::mutex mutex;
  current::persistence::File<VEntry> p(mutex, kName, File());
  History(p, static_cast<int>(en::Param("file_ops", 3)), 4);
}

// Entries that are variants are stored as the variant, whichever way they are passed.
CURRENT_STRUCT(VA) { CURRENT_FIELD(a, std::string); CURRENT_CONSTRUCTOR(VA)(const std::string& a = "") : a(a) {} };
CURRENT_STRUCT(VB) { CURRENT_FIELD(b, std::string); CURRENT_CONSTRUCTOR(VB)(const std::string& b = "") : b(b) {} };
CURRENT_VARIANT(VV, VA, VB);
namespace {
template <class P>
void Variants(P& p) {
  std::string expected;
  for (int k = 0; k < 4; ++k) {
    const int how = en::Choose(6);
    en::Note(std::to_string(how));
    const std::string s = Payload(k);
    if (how == 0) p.Publish(VA(s), us_t(k + 1));
    if (how == 1) p.Publish(VB(s), us_t(k + 1));
    if (how == 2) p.Publish(VV(VA(s)), us_t(k + 1));
    if (how == 3) { const VV v{VB(s)}; p.Publish(v, us_t(k + 1)); }
    if (how == 4) { const VA v{s}; p.Publish(v, us_t(k + 1)); }
    if (how == 5) { VV v{VA(s)}; p.Publish(std::move(v), us_t(k + 1)); }
    expected += (how == 1 || how == 3 ? "B" : "A") + s + "|";
  }
  std::string actual, actual_raw;
  for (const auto& e : p.Iterate()) {
    actual += Exists<VA>(e.entry) ? "A" + Value<VA>(e.entry).a : "B" + Value<VB>(e.entry).b;
    actual += "|";
  }
  EN_CHECK_EQ(actual, expected, "variant-entries");
  for (const std::string e : p.IterateUnsafe()) {
    const VV v = ParseJSON<VV>(e.substr(e.find('\t') + 1));
    actual_raw += Exists<VA>(v) ? "A" + Value<VA>(v).a : "B" + Value<VB>(v).b;
    actual_raw += "|";
  }
  EN_CHECK_EQ(actual_raw, expected, "variant-entries-raw");
}
}  // namespace
EN_SCENARIO(variant_entries, en::Opts{5}) {
  std::mutex mutex;
  if (en::Choose(2)) {
    current::persistence::Memory<VV> p(mutex, kName);
    Variants(p);
  } else {
    current::persistence::File<VV> p(mutex, kName, File());
    Variants(p);
  }
}
// A raw record that is not one line cannot go into a file of lines.
EN_SCENARIO(raw_record_with_newline, en::Opts{5}) {
  std::mutex mutex;
  current::persistence::File<VEntry> p(mutex, kName, File());
  Model m;
  const int at = en::Choose(3);
  std::string raw = Raw(0, 1, "a");
  raw.insert(at == 0 ? 0 : at == 1 ? raw.find('\t') + 1 : raw.length(), "\n");
  const Out o = Run([&]() { p.template PersisterPublishUnsafeImpl<current::locks::MutexLockStatus::NeedToLock>(raw); });
  EN_CHECK(o != Out::Ok, "multi-line-record-accepted");
  CheckAll(p, m, 3);
  p.Publish(VEntry("b"), us_t(1));
  m.log.push_back({1, "b"});
  m.head = 1;
  CheckAll(p, m, 3);
}
