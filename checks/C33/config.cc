// C33 (self-modifying config): every short sequence of updates and reloads, with a crash at every file operation and every
// byte of it, and with the file system refusing to write more after every number of bytes.
#include "blocks/self_modifying_config/config.h"

#include "../common/fsjournal.h"
#include "enum.h"

using std::string;

CURRENT_STRUCT(C33Config) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_CONSTRUCTOR(C33Config)(int32_t x = 0, const std::string& s = "") : x(x), s(s) {}
};
using config_t = current::SelfModifyingConfig<C33Config>;

namespace {

struct Dir {
  string path;
  Dir() {
    path = en::TmpDir() + "/c";
    if (system(("rm -rf '" + path + "' && mkdir '" + path + "'").c_str())) abort();
  }
  string File() const { return path + "/config.json"; }
};

const std::vector<string> payloads = {"", "a", string(40, 'b') + "\"\\\n", string(9000, 'c')};
C33Config Make(int i) { return C33Config(i * 1000 + 7, payloads[i % payloads.size()]); }

void SetTime(int64_t seconds) { current::time::SetNow(std::chrono::microseconds(1500000000000000ll + seconds * 1000000), std::chrono::microseconds(0)); }

string FileText(const string& fn) { return fsj::RawReadFile(fn); }

bool Complete(const string& text, C33Config& out) {
  try {
    out = ParseJSON<C33Config>(text);
    return JSON(out) == text;
  } catch (const current::Exception&) {
    return false;
  }
}

EN_SCENARIO(sequences) {
  current::time::ResetToZero();
  Dir d;
  int64_t now = 0;
  SetTime(now);
  const int initial = en::Choose(4);
  fsj::RawWriteFile(d.File(), JSON(Make(initial)));
  fsj::Start(d.path);
  {
    config_t config(d.File());
    string current = JSON(Make(initial));
    std::vector<string> history(1, current);
    const int n = en::Choose(static_cast<int>(en::Param("operations", 3)) + 1);
    for (int k = 0; k < n; ++k) {
      const int op = en::Choose(5);
      now += en::Choose(2);
      SetTime(now);
      if (op < 3) {
        const string previous = JSON(config.Config());
        const string replaced = current;
        config.Update(Make(op + k));
        current = JSON(Make(op + k));
        // The file the config has been moved into.
        bool found = false;
        struct tm t;
        const time_t at = 1500000000 + now;
        gmtime_r(&at, &t);
        char suffix[32];
        strftime(suffix, sizeof suffix, ".%Y%m%d-%H%M%S", &t);
        found = FileText(d.File() + suffix) == previous;
        if (!found) en::Violation("history", "the previous config is not in " + d.File() + suffix);
        (void)replaced;
      } else if (op == 3) {
        config.Reload();
      } else {
        // Changed by hand, and reloaded.
        current = JSON(Make(9 + k));
        const bool was_on = fsj::J().on;
        fsj::Stop();
        fsj::RawWriteFile(d.File(), current);
        fsj::J().on = was_on;
        config.Reload();
      }
      if (JSON(config.Config()) != current) en::Violation("config", "the config is " + JSON(config.Config()));
      if (FileText(d.File()) != current) en::Violation("file", "the file is " + FileText(d.File()));
      const C33Config& as_ref = config;
      EN_CHECK_EQ(JSON(as_ref), current, "config");
    }
  }
  fsj::Stop();
  config_t again(d.File());
  EN_CHECK_EQ(JSON(again.Config()), FileText(d.File()), "reread");
}

EN_SCENARIO(crashes) {  // After a crash the file holds either the config before or the config after the update.
  current::time::ResetToZero();
  Dir d;
  SetTime(0);
  const int from = en::Choose(4), to = en::Choose(4), second = en::Choose(4);
  const int64_t step = en::Choose(2);
  fsj::RawWriteFile(d.File(), JSON(Make(from)));
  fsj::Files initial;
  initial[d.File()] = JSON(Make(from));
  fsj::Start(d.path);
  std::vector<size_t> marks;
  {
    config_t config(d.File());
    marks.push_back(fsj::J().ops.size());
    SetTime(step);
    config.Update(Make(to + 4));
    marks.push_back(fsj::J().ops.size());
    SetTime(step * 2);
    config.Update(Make(second + 8));
    marks.push_back(fsj::J().ops.size());
  }
  fsj::Stop();
  const string accepted[] = {JSON(Make(from)), JSON(Make(from)), JSON(Make(to + 4)), JSON(Make(second + 8))};
  size_t points = 0;
  for (const auto& p : fsj::CrashPoints()) {
    if (p.bytes > 64 && p.bytes + 64 < fsj::J().ops[p.ops].data.size() && p.bytes % 512) continue;
    ++points;
    size_t stage = 0;
    while (stage < 3 && p.ops >= marks[stage]) ++stage;
    fsj::Files files = fsj::StateAt(initial, p);
    const string text = files.count(d.File()) ? files[d.File()] : "(missing)";
    const string& before = accepted[stage];
    const string& after = stage < 3 ? accepted[stage + 1] : before;
    const bool at_rest = stage > 0 && p.ops == marks[stage - 1] && p.bytes == 0;
    if (!(text == before || (!at_rest && text == after))) {
      std::ostringstream os;
      os << "after " << p.ops << " file operations and " << p.bytes << " bytes of the next one the config file is '" << text.substr(0, 60) << "' (" << text.size() << " bytes), it was '" << before.substr(0, 60) << "'";
      en::Violation("torn-config", os.str());
    }
  }
  en::Evaluations(points);
  // And the binary starts after each of the crashes; for the states that differ.
  std::set<string> seen;
  for (const auto& p : fsj::CrashPoints()) {
    if (p.bytes) continue;
    fsj::Files files = fsj::StateAt(initial, p);
    string key;
    for (const auto& f : files) key += f.first + "=" + f.second + ";";
    if (!seen.insert(key).second) continue;
    Dir fresh;
    for (const auto& f : files) fsj::RawWriteFile(f.first, f.second);
    SetTime(100 + static_cast<int64_t>(p.ops));
    config_t config(d.File());
    EN_CHECK_EQ(JSON(config.Config()), files[d.File()], "restart");
    config.Update(Make(3));
    EN_CHECK_EQ(FileText(d.File()), JSON(Make(3)), "restart");
  }
}

EN_SCENARIO(disk_full) {  // A refused write is reported, and neither the file nor the config in memory changes.
  current::time::ResetToZero();
  Dir d;
  SetTime(0);
  const int from = en::Choose(4), to = en::Choose(4);
  const string a = JSON(Make(from)), b = JSON(Make(to + 4));
  fsj::RawWriteFile(d.File(), a);
  fsj::Start(d.path);
  config_t config(d.File());
  SetTime(1);
  const long total = static_cast<long>(a.size() + b.size());
  const long limits[] = {0, 1, static_cast<long>(a.size()) - 1, static_cast<long>(a.size()), static_cast<long>(a.size()) + 1, total - 1, total};
  const long limit = limits[en::Choose(7)];
  fsj::J().written = 0;
  fsj::J().fail_writes_after = limit;
  bool thrown = false;
  try {
    config.Update(Make(to + 4));
  } catch (const current::SelfModifyingConfigWriteFileException&) {
    thrown = true;
  }
  fsj::J().fail_writes_after = -1;
  const string file = FileText(d.File());
  if (limit >= total) {
    EN_CHECK(!thrown, "update-failed");
    EN_CHECK_EQ(file, b, "file");
  } else {
    if (!thrown) en::Violation("write-failure-ignored", "the update succeeds with " + std::to_string(limit) + " of " + std::to_string(total) + " bytes written");
    if (file != a) en::Violation("torn-config", "after a failed update the file is '" + file.substr(0, 60) + "'");
    if (JSON(config.Config()) != a) en::Violation("memory-ahead-of-file", "after a failed update the config in memory is the new one");
  }
  config.Update(Make(2));
  EN_CHECK_EQ(FileText(d.File()), JSON(Make(2)), "file");
  EN_CHECK_EQ(JSON(config.Config()), JSON(Make(2)), "config");
  fsj::Stop();
}

EN_SCENARIO(invalid_files) {  // An invalid file is reported; on reload the config in memory stays what it was.
  static const std::vector<string> texts = {"", "x", "{", "null", "[]", "{\"x\":\"1\",\"s\":\"\"}", "{\"x\":1}", "{\"s\":\"\"}", "{\"x\":1,\"s\":1}", "{\"x\":1,\"s\":\"\"", "{\"x\":1,\"s\":\"\"}}", "1"};
  current::time::ResetToZero();
  Dir d;
  SetTime(0);
  const string& bad = en::Pick(texts);
  const int when = en::Choose(3);
  auto fails = [&](auto&& f) {
    try {
      f();
    } catch (const current::SelfModifyingConfigException&) {
      return true;
    }
    return false;
  };
  if (when == 0) {
    fsj::RawWriteFile(d.File(), bad);
    EN_CHECK(fails([&] { config_t config(d.File()); }), "invalid-accepted");
    EN_CHECK_EQ(FileText(d.File()), bad, "invalid-overwritten");
  } else {
    fsj::RawWriteFile(d.File(), JSON(Make(1)));
    config_t config(d.File());
    if (when == 1) fsj::RawWriteFile(d.File(), bad); else syscall(SYS_unlinkat, AT_FDCWD, d.File().c_str(), 0);
    EN_CHECK(fails([&] { config.Reload(); }), "invalid-accepted");
    EN_CHECK_EQ(JSON(config.Config()), JSON(Make(1)), "config");
    config.Update(Make(2));
    EN_CHECK_EQ(FileText(d.File()), JSON(Make(2)), "file");
  }
}

}  // namespace
