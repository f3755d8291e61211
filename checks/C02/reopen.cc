// C02: every short history on a file persister, closed and reopened anywhere, against the same model as an uninterrupted one.
#include "common/persist_model.h"

#include "bricks/file/file.h"

#include <unistd.h>

using namespace pm;
namespace {
const current::ss::StreamNamespaceName kName("ns", "entry");
using P = current::persistence::File<VEntry>;
std::string FileName() {
  const std::string f = en::TmpDir() + "/log";
  ::unlink(f.c_str());
  return f;
}
std::string Entries(const std::string& f) {
  std::string r;
  const std::string all = current::FileSystem::ReadFileAsString(f);
  size_t i = 0;
  while (i < all.size()) {
    const size_t j = all.find('\n', i);
    if (all[i] != '#') r += all.substr(i, j - i + 1);
    if (j == std::string::npos) break;
    i = j + 1;
  }
  return r;
}
}  // namespace

EN_SCENARIO(reopen, en::Opts{5}) {
  const int ops = static_cast<int>(en::Param("ops", 4)), K = static_cast<int>(en::Param("times", 4));
  const std::string f = FileName();
  std::mutex mutex;
  Model m;
  auto p = std::make_unique<P>(mutex, kName, f);
  auto reopen = [&]() {
    p = nullptr;
    const std::string before = Entries(f);
    p = std::make_unique<P>(mutex, kName, f);
    CheckSummary(*p, m);
    EN_CHECK_EQ(Entries(f), before, "opening-changed-the-entries");
  };
  for (int k = 0; k < ops; ++k) {
    en::Transition();
    const std::string d = Step(*p, m, K, k, false);
    en::Note(d);
    if (en::Flip()) {
      en::Note("reopen");
      reopen();
    }
    en::State(m.Str());
  }
  CheckAll(*p, m, K, false);
  reopen();
  CheckAll(*p, m, K, false);
  // And it goes on as the original would have.
  const int64_t last = m.head;
  PM_OUT(Out::Inconsistent, "publish-outcome", p->Publish(VEntry("x"), us_t(last)));
  const bool head_first = en::Flip();
  if (head_first) {
    p->UpdateHead(us_t(last + 1));
    m.head = last + 1;
  }
  const auto r = p->Publish(VEntry("last"), us_t(last + 2));
  EN_CHECK(r.index == m.log.size(), "publish-result");
  m.log.push_back({last + 2, "last"});
  m.head = last + 2;
  reopen();
  CheckAll(*p, m, K + 2, ops <= 3);
}

// Full queries, raw publishes, fewer operations.
EN_SCENARIO(reopen_full_queries, en::Opts{5}) {
  const int ops = static_cast<int>(en::Param("full_ops", 2)), K = 4;
  const std::string f = FileName();
  std::mutex mutex;
  Model m;
  auto p = std::make_unique<P>(mutex, kName, f);
  for (int k = 0; k < ops; ++k) {
    en::Transition();
    en::Note(Step(*p, m, K, k, true));
    p = nullptr;
    p = std::make_unique<P>(mutex, kName, f);
    CheckAll(*p, m, K);
    en::State(m.Str());
  }
}

// Raw publishes among the others, reopened only at the end: what a raw publish leaves behind in the writer.
EN_SCENARIO(reopen_raw, en::Opts{5}) {
  const int ops = static_cast<int>(en::Param("raw_ops", 3)), K = static_cast<int>(en::Param("raw_times", 4));
  const std::string f = FileName();
  std::mutex mutex;
  Model m;
  auto p = std::make_unique<P>(mutex, kName, f);
  for (int k = 0; k < ops; ++k) {
    en::Transition();
    en::Note(Step(*p, m, K, k, true));
    en::State(m.Str());
  }
  CheckAll(*p, m, K, false);
  p = nullptr;
  p = std::make_unique<P>(mutex, kName, f);
  CheckAll(*p, m, K, false);
}

CURRENT_STRUCT(OtherEntry) { CURRENT_FIELD(t, std::string); };
// Files of another schema, name or format are refused and left as they are.
EN_SCENARIO(foreign, en::Opts{5}) {
  const std::string f = FileName();
  std::mutex mutex;
  const int what = en::Choose(12);
  en::Note(std::to_string(what));
  std::string good, sig;
  {
    Model m;
    P p(mutex, kName, f);
    p.Publish(VEntry("a"), us_t(1));
    p.UpdateHead(us_t(3));
    p.Publish(VEntry("b"), us_t(5));
  }
  good = current::FileSystem::ReadFileAsString(f);
  sig = good.substr(0, good.find('\n') + 1);
  EN_CHECK(sig.substr(0, 11) == "#signature ", "no-signature");
  const std::string rest = good.substr(sig.size());
  const std::string e0 = Raw(0, 1, "a") + "\n", e1 = Raw(1, 5, "b") + "\n", h3 = "#head 00000000000000000003\n";
  EN_CHECK_EQ(rest, e0 + h3 + e1, "file-format");
  if (what < 3) {
    bool refused = false;
    try {
      if (what == 0) current::persistence::File<OtherEntry> p(mutex, kName, f);
      if (what == 1) P p(mutex, current::ss::StreamNamespaceName("ns2", "entry"), f);
      if (what == 2) P p(mutex, current::ss::StreamNamespaceName("ns", "entry2"), f);
    } catch (const current::persistence::InvalidStreamSignature&) {
      refused = true;
    }
    EN_CHECK(refused, "foreign-file-accepted");
    EN_CHECK_EQ(current::FileSystem::ReadFileAsString(f), good, "refused-file-changed");
    return;
  }
  std::string bad;
  switch (what) {
    case 3: bad = "a text file\n"; break;
    case 4: bad = sig + e1; break;                        // the first entry is missing
    case 5: bad = sig + e0 + e0; break;                   // duplicated
    case 6: bad = sig + e0 + Raw(1, 1, "b") + "\n"; break;  // the time does not increase
    case 7: bad = sig + e0 + "#head 00000000000000000005\n" + e1; break;  // an entry at the head
    case 8: bad = sig + e0 + "#head 00000000000000000001\n"; break;       // head not past the entry
    case 9: bad = e0 + sig; break;                         // signature not at the beginning
    case 10: bad = sig + e0 + "\n" + e1; break;            // an empty line
    case 11: bad = sig + "{\"index\":0}\t{\"s\":\"a\"}\n"; break;
  }
  current::FileSystem::WriteStringToFile(bad, f.c_str());
  EN_CHECK(Run([&]() { P p(mutex, kName, f); }) != Out::Ok, "malformed-file-accepted");
  EN_CHECK_EQ(current::FileSystem::ReadFileAsString(f), bad, "refused-file-changed");
}
// A file that can not be written is refused as well.
EN_SCENARIO(unwritable, en::Opts{5}) {
  std::mutex mutex;
  bool refused = false;
  try {
    P p(mutex, kName, en::TmpDir() + (en::Choose(2) ? "/no/such/directory" : ""));
  } catch (const current::Exception&) {
    refused = true;
  }
  EN_CHECK(refused, "unwritable-file-accepted");
}
