// C03: the process dies at any byte of what it writes into a file-backed log.
#include "common/persist_model.h"
#include "common/fsjournal.h"

using namespace pm;
namespace {
const current::ss::StreamNamespaceName kName("ns", "entry");
using P = current::persistence::File<VEntry>;

struct Acknowledged { size_t ops, entries; };  // after so many journaled operations, so many entries were acknowledged

std::string Dir() {
  const std::string f = en::TmpDir() + "/log";
  ::unlink(f.c_str());
  return f;
}
// What the log holds; every entry must be one of the published ones, intact, in order.
bool Open(std::unique_ptr<P>& p, std::mutex& mutex, const std::string& f) {
  try {
    p = std::make_unique<P>(mutex, kName, f);
    return true;
  } catch (const std::exception&) {
    return false;  // loud
  }
}
size_t CheckPrefix(const P& p, const Model& m, size_t at_least, const char* sig) {
  size_t n = 0;
  try {
    for (const auto& e : p.Iterate()) {
      EN_CHECK(n < m.log.size(), sig);
      EN_CHECK(e.idx_ts.index == n && e.idx_ts.us.count() == m.log[n].us && e.entry.s == m.log[n].s, sig);
      ++n;
    }
    size_t k = 0;
    for (const std::string e : p.IterateUnsafe()) {
      EN_CHECK_EQ(e, Raw(k, m.log[k].us, m.log[k].s), sig);
      ++k;
    }
    EN_CHECK_EQ(k, n, sig);
  } catch (const std::exception& e) {
    en::Violation(std::string(sig) + "-unreadable", e.what());
  }
  EN_CHECK_EQ(p.Size(), n, sig);
  EN_CHECK(n >= at_least, "acknowledged-entry-lost");
  EN_CHECK(!n || p.CurrentHead().count() >= m.log[n - 1].us, "head-behind-the-last-entry");
  return n;
}
std::string Describe(const fsj::Files& f, const std::string& name) {
  auto it = f.find(name);
  if (it == f.end()) return "(no file)";
  const std::string& s = it->second;
  const size_t sig = s.find('\n');
  return sig == std::string::npos ? "(" + std::to_string(s.size()) + " bytes of the first line)" : s.substr(sig + 1);
}
void Continue(std::unique_ptr<P>& p, std::mutex& mutex, const std::string& f, Model m, size_t n, int more) {
  m.log.resize(n);
  int64_t t = std::max<int64_t>(p->CurrentHead().count(), 100);
  for (int k = 0; k < more; ++k) {
    t += 5;
    const bool head = en::Flip();
    en::Note(head ? "then head" : "then publish");
    try {
      if (head) {
        p->UpdateHead(us_t(t));
      } else {
        const auto r = p->Publish(VEntry("after"), us_t(t));
        EN_CHECK_EQ(r.index, m.log.size(), "publish-after-recovery");
        m.log.push_back({t, "after"});
      }
    } catch (const std::exception& e) {
      en::Violation("append-after-recovery-refused", e.what());
    }
    CheckPrefix(*p, m, m.log.size(), "after-recovery");
  }
  const int64_t head = p->CurrentHead().count();
  p = nullptr;
  EN_CHECK(Open(p, mutex, f), "log-refused-after-recovery-and-append");
  CheckPrefix(*p, m, m.log.size(), "reopened-after-recovery");
  EN_CHECK_EQ(p->CurrentHead().count(), head, "head-after-recovery");
}
}  // namespace

EN_SCENARIO(crash, en::Opts{5}) {
  fsj::Stop();
  const int ops = static_cast<int>(en::Param("ops", 3)), more = static_cast<int>(en::Param("more", 2));
  const std::string f = Dir();
  std::mutex mutex;
  Model m;
  std::vector<Acknowledged> acks;
  fsj::Start(en::TmpDir());
  // The history: publishes (of different lengths) and head updates whose digits change in more than one place, perhaps with a reopening in the middle.
  {
    auto p = std::make_unique<P>(mutex, kName, f);
    acks.push_back({fsj::J().ops.size(), 0});
    const int reopen_at = en::Choose(ops + 1);
    static const int64_t times[] = {1, 9, 12, 57, 99, 100};
    for (int k = 0; k < ops; ++k) {
      if (k == reopen_at) {
        p = nullptr;
        p = std::make_unique<P>(mutex, kName, f);
      }
      const int what = en::Choose(3);
      if (what == 2) {
        en::Note("head@" + std::to_string(times[k]));
        p->UpdateHead(us_t(times[k]));
        m.head = times[k];
      } else {
        en::Note("publish@" + std::to_string(times[k]));
        const std::string s = what ? Payload(2) : "a";
        p->Publish(VEntry(s), us_t(times[k]));
        m.log.push_back({times[k], s});
        m.head = times[k];
      }
      acks.push_back({fsj::J().ops.size(), m.log.size()});
      en::State(m.Str());
    }
    fsj::Stop();  // dies here at the latest: nothing is flushed by destructors
  }
  const auto points = fsj::CrashPoints();
  // Most of the crash points lie within the first line, and within it there is nothing but that line. All of them are visited too.
  const size_t from = points.size();
  const fsj::Point pt = points[static_cast<size_t>(en::Choose(static_cast<int>(from)))];
  size_t must = 0;
  for (const auto& a : acks) if (pt.ops >= a.ops) must = a.entries;
  const fsj::Files files = fsj::StateAt({}, pt);
  ::unlink(f.c_str());
  for (const auto& x : files) fsj::RawWriteFile(x.first, x.second);
  en::Note("crash leaves: " + Describe(files, f));
  en::Transition();
  std::unique_ptr<P> p;
  if (!Open(p, mutex, f)) {
    EN_CHECK_EQ(fsj::RawReadFile(f), files.count(f) ? files.at(f) : "", "refused-file-changed");
    return;
  }
  const size_t n = CheckPrefix(*p, m, must, "recovered-entries");
  Continue(p, mutex, f, m, n, more);
}

// The disk fills up at any byte: what could not be written is not acknowledged, and what was acknowledged stays.
EN_SCENARIO(disk_full, en::Opts{5}) {
  fsj::Stop();
  const std::string f = Dir();
  std::mutex mutex;
  Model m;
  const int ops = static_cast<int>(en::Param("ops", 3));
  size_t acknowledged = 0;
  {
    std::unique_ptr<P> p = std::make_unique<P>(mutex, kName, f);
    fsj::Start(en::TmpDir());
    // The files are open already: journal them by their descriptors.
    for (int fd = 3; fd < 64; ++fd) {
      char path[512];
      const ssize_t n = ::readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), path, sizeof path - 1);
      if (n > 0 && std::string(path, n) == f) fsj::J().fds[fd] = f;
    }
    fsj::J().fail_writes_after = en::Choose(40) * (en::Thorough() ? 2 : 4);
    en::Note("full after " + std::to_string(fsj::J().fail_writes_after));
    bool failed = false;
    for (int k = 0; k < ops; ++k) {
      const bool head = en::Flip();
      const int64_t t = 10 * (k + 1);
      bool ok = true;
      try {
        if (head) p->UpdateHead(us_t(t));
        else p->Publish(VEntry(Payload(k)), us_t(t));
      } catch (const std::exception&) {
        ok = false;
      }
      const bool written = fsj::J().fail_writes_after > fsj::J().written;
      en::Note(std::string(head ? "head" : "publish") + (ok ? ": ok" : ": refused"));
      if (!written && fsj::J().fail_writes_after < fsj::J().written) EN_CHECK(!ok, "unwritten-entry-acknowledged");
      if (ok && !head) { m.log.push_back({t, Payload(k)}); EN_CHECK(!failed, "accepted-after-failure"); }
      if (!ok) failed = true;
      else if (!head) acknowledged = m.log.size();
      EN_CHECK_EQ(p->Size(), m.log.size(), "size-after-failure");
      CheckPrefix(*p, m, m.log.size(), "entries-after-failure");
    }
    fsj::Stop();
  }
  // Whatever is on disk now: all that was acknowledged is there, or the file is refused because of its torn end; never less.
  std::unique_ptr<P> p;
  if (Open(p, mutex, f)) CheckPrefix(*p, m, acknowledged, "entries-after-failure-reopened");
  else EN_CHECK(m.log.size() < static_cast<size_t>(ops), "complete-log-refused");
}
