// C34: the file system wrapper: listing, removing, reading, writing, and joining names, on every small tree and every short
// sequence of operations, in a scratch directory. The two destructive calls are replaced by stand-ins, which only
// let through what is inside of this scratch directory (and not via a link), and which can be told to fail.
#include "bricks/file/file.h"

#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <map>
#include <set>

#include "enum.h"

using current::FileSystem;
using std::string;

namespace {
string g_base;                      // The scratch directory.
std::vector<string> g_escaped;      // Paths outside of what the call under test may remove.
string g_allowed;                   // What the call under test may remove: this path, and what is under it.
string g_fail;                      // The removal of this path fails.
bool g_failed = false;

bool Allowed(const char* path) {
  const string p(path);
  if (g_base.empty() || p.compare(0, g_base.size() + 1, g_base + "/") != 0) return false;
  if (("/" + p + "/").find("/../") != string::npos) return false;
  // The directory the name is in, with links followed, is where the removal takes place.
  string s = p;
  while (s.size() > 1 && s.back() == '/') s.pop_back();
  const size_t i = s.find_last_of('/');
  char real[PATH_MAX], base[PATH_MAX];
  if (!realpath(s.substr(0, i).c_str(), real) || !realpath(g_base.c_str(), base)) return true;  // It will fail.
  const string r = string(real) + "/" + s.substr(i + 1);
  const string b = string(base) + g_allowed.substr(g_base.size());
  return r == b || r.compare(0, b.size() + 1, b + "/") == 0;
}
bool Gate(const char* path) {
  if (!Allowed(path)) {
    g_escaped.push_back(path);
    errno = EPERM;
    return false;
  }
  if (!g_fail.empty() && g_fail == path) {
    g_failed = true;
    errno = EIO;
    return false;
  }
  return true;
}
}  // namespace

extern "C" int rmdir(const char* path) noexcept {
  if (!Gate(path)) return -1;
  return static_cast<int>(::syscall(SYS_rmdir, path));
}
extern "C" int unlink(const char* path) noexcept {
  if (!Gate(path)) return -1;
  return static_cast<int>(::syscall(SYS_unlink, path));
}
extern "C" int remove(const char* path) noexcept {
  if (!Gate(path)) return -1;
  if (!::syscall(SYS_unlink, path)) return 0;
  if (errno != EISDIR && errno != EPERM) return -1;
  return static_cast<int>(::syscall(SYS_rmdir, path));
}

namespace {

void Sure(bool b, const char* sig, const string& on) {
  if (!b) en::Violation(sig, on);
}
void Put(const string& path, const string& what) {
  const int fd = ::open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  if (fd < 0 || ::write(fd, what.data(), what.size()) != static_cast<ssize_t>(what.size())) en::Violation("harness", "cannot write " + path);
  ::close(fd);
}
string Get(const string& path) {
  const int fd = ::open(path.c_str(), O_RDONLY);
  if (fd < 0) return "<none>";
  char buf[4096];
  string s;
  ssize_t n;
  while ((n = ::read(fd, buf, sizeof(buf))) > 0) s.append(buf, n);
  ::close(fd);
  return s;
}

// Removal of the whole scratch directory between the executions, not by the code under test, and not via the stand-ins.
#include <dirent.h>
void Wipe(const string& path) {
  struct stat st;
  if (::lstat(path.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) {
    DIR* d = ::opendir(path.c_str());
    std::vector<string> names;
    while (dirent* e = ::readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    ::closedir(d);
    for (const auto& n : names) Wipe(path + "/" + n);
    ::syscall(SYS_rmdir, path.c_str());
  } else {
    ::syscall(SYS_unlink, path.c_str());
  }
}
void Listing(const string& path, const string& name, std::map<string, string>& out) {
  struct stat st;
  if (::lstat(path.c_str(), &st)) return;
  if (S_ISLNK(st.st_mode)) {
    out[name] = "link";
  } else if (S_ISDIR(st.st_mode)) {
    out[name] = "dir";
    DIR* d = ::opendir(path.c_str());
    std::vector<string> names;
    while (dirent* e = ::readdir(d))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    ::closedir(d);
    for (const auto& n : names) Listing(path + "/" + n, name + "/" + n, out);
  } else {
    out[name] = "file:" + Get(path);
  }
}
std::map<string, string> Listing(const string& path) {
  std::map<string, string> r;
  Listing(path, "", r);
  return r;
}
string Show(const std::map<string, string>& m) {
  string r;
  for (const auto& e : m) r += e.first + "=" + e.second + " ";
  return r;
}
string Show(const std::multiset<string>& m) {
  string r;
  for (const auto& e : m) r += e + " ";
  return r;
}

void Fresh() {
  g_base = en::TmpDir() + "/fs";
  g_allowed = g_base;
  g_fail.clear();
  g_escaped.clear();
  g_failed = false;
  Wipe(g_base);
  if (::mkdir(g_base.c_str(), 0755)) en::Violation("harness", "mkdir");
}

enum Kind { FILE_, DIR_, LINK_FILE, LINK_DIR, LINK_NONE };
struct Node {
  int parent;  // -1 is the root of the tree.
  Kind kind;
  string name;
  string path;  // Below the root.
};
const char* const kNames[] = {"a", ".b", "c d", "e.x", "...", "f"};

std::vector<Node> MakeTree(int max_nodes) {
  const int n = en::Choose(max_nodes + 1);
  std::vector<Node> v;
  for (int i = 0; i < n; ++i) {
    std::vector<int> dirs = {-1};
    for (int j = 0; j < i; ++j)
      if (v[j].kind == DIR_) dirs.push_back(j);
    Node x;
    x.parent = dirs[en::Choose(static_cast<int>(dirs.size()))];
    if (i && x.parent < v[i - 1].parent) en::Skip();  // The order of the nodes with different parents is of no importance.
    x.kind = static_cast<Kind>(en::Choose(5));
    x.name = kNames[i];
    x.path = (x.parent < 0 ? string() : v[x.parent].path + "/") + x.name;
    v.push_back(x);
  }
  string s;
  for (const auto& x : v) s += "FDldx"[x.kind] + (":" + x.path) + " ";
  en::Note("tree: " + s);
  const string root = g_base + "/tree";
  ::mkdir(root.c_str(), 0755);
  ::mkdir((g_base + "/outside").c_str(), 0755);
  ::mkdir((g_base + "/outside/deep").c_str(), 0755);
  Put(g_base + "/outside/kept", "kept");
  Put(g_base + "/outside/deep/kept", "kept too");
  Put(g_base + "/lone", "lone");
  for (const auto& x : v) {
    const string p = root + "/" + x.path;
    int rc = 0;
    switch (x.kind) {
      case FILE_: Put(p, x.name); break;
      case DIR_: rc = ::mkdir(p.c_str(), 0755); break;
      case LINK_FILE: rc = ::symlink((g_base + "/lone").c_str(), p.c_str()); break;
      case LINK_DIR: rc = ::symlink((g_base + "/outside").c_str(), p.c_str()); break;
      case LINK_NONE: rc = ::symlink((g_base + "/none").c_str(), p.c_str()); break;
    }
    if (rc) en::Violation("harness", "cannot make " + p);
  }
  return v;
}

string Join(const std::vector<string>& v) {
  string r;
  for (const auto& e : v) r += e + "/";
  return r;
}
string Describe(const string& dir, const string& base, const string& path, bool is_dir, const string& components) {
  return "[" + dir + " | " + base + " | " + path + " | " + (is_dir ? "dir" : "file") + " | " + components + "]";
}

// What a listing of the tree is to report.
std::multiset<string> Expected(const std::vector<Node>& v, int mask, bool recursive) {
  const string root = g_base + "/tree";
  std::multiset<string> r;
  const auto add = [&](const string& below, const string& name, bool is_dir) {  // `below` is "" or "x/y/".
    if (!(mask & (is_dir ? 2 : 1))) return;
    const string dir = below.empty() ? root : root + "/" + below.substr(0, below.size() - 1);
    r.insert(Describe(dir, name, dir + "/" + name, is_dir, below));
  };
  for (const auto& x : v) {
    if (!recursive && x.parent >= 0) continue;
    const string below = x.parent < 0 ? string() : v[x.parent].path + "/";
    add(below, x.name, x.kind == DIR_ || x.kind == LINK_DIR);
    if (recursive && x.kind == LINK_DIR) {
      add(x.path + "/", "kept", false);
      add(x.path + "/", "deep", true);
      add(x.path + "/deep/", "kept", false);
    }
  }
  return r;
}

}  // namespace

EN_SCENARIO(scan) {
  Fresh();
  const auto v = MakeTree(static_cast<int>(en::Param("scan_nodes", 4)));
  const string root = g_base + "/tree";
  const auto before = Listing(g_base);
  int n = 0;
  for (int mask = 1; mask <= 3; ++mask) {
    for (int recursive = 0; recursive < 2; ++recursive) {
      const auto want = Expected(v, mask, recursive);
      const auto parameters = static_cast<FileSystem::ScanDirParameters>(mask);
      const auto rec = recursive ? FileSystem::ScanDirRecursive::Yes : FileSystem::ScanDirRecursive::No;
      const string what = " mask " + std::to_string(mask) + (recursive ? " recursive" : "");
      std::multiset<string> got;
      const auto see = [&got](const FileSystem::ScanDirItemInfo& i) {
        got.insert(Describe(i.dirname, i.basename, i.pathname, i.is_directory, Join(i.path_components_cref)));
      };
      try {
        FileSystem::ScanDir(root, see, parameters, rec);
      } catch (const current::Exception& e) {
        en::Violation("scan-throws", string(e.what()) + what);
      }
      ++n;
      Sure(got == want, "scan", "expected " + Show(want) + " got " + Show(got) + what);
      for (size_t k = 1; k <= want.size(); ++k) {
        got.clear();
        size_t calls = 0;
        try {
          FileSystem::ScanDirUntil(root, [&](const FileSystem::ScanDirItemInfo& i) {
            see(i);
            return ++calls < k;
          }, parameters, rec);
        } catch (const current::Exception& e) {
          en::Violation("scan-until-throws", string(e.what()) + what);
        }
        ++n;
        Sure(calls == k, "scan-until", "asked to stop at item " + std::to_string(k) + ", called " + std::to_string(calls) + " times" + what);
        for (const auto& e : got)
          Sure(want.count(e) && got.count(e) == 1, "scan-until-item", e + what);
      }
    }
  }
  Sure(Listing(g_base) == before, "scan-changes", Show(before) + " became " + Show(Listing(g_base)));
  en::Evaluations(n);
}

EN_SCENARIO(rmdir_tree) {
  Fresh();
  const auto v = MakeTree(static_cast<int>(en::Param("rm_nodes", 4)));
  const string root = g_base + "/tree";
  const bool recursive = en::Flip(), silent = en::Flip();
  const auto parameters = silent ? FileSystem::RmDirParameters::Silent : FileSystem::RmDirParameters::ThrowExceptionOnError;
  const auto rec = recursive ? FileSystem::RmDirRecursive::Yes : FileSystem::RmDirRecursive::No;
  const int how = en::Choose(3);  // A direct call; a scoped one, with its leftovers removed at the start; or not.
  if (how && !silent) en::Skip();
  g_allowed = root;
  // Which removal fails, if any.
  std::set<string> victims;
  if (!how && recursive) {
    const int f = en::Choose(static_cast<int>(v.size()) + 1);
    if (f) {
      g_fail = root + "/" + v[f - 1].path;
      en::Note("cannot remove " + v[f - 1].path);
    }
  }
  en::Note(string(recursive ? "recursive" : "plain") + (silent ? " silent" : "") + (how == 1 ? " scoped" : how == 2 ? " scoped, not now" : ""));
  const auto before = Listing(g_base);
  // The expected outcome.
  auto after = before;
  const auto erase_tree = [&](std::map<string, string>& m) {
    for (auto it = m.begin(); it != m.end();)
      if (it->first == "/tree" || it->first.compare(0, 6, "/tree/") == 0) it = m.erase(it); else ++it;
  };
  const bool removable = recursive || v.empty();
  const bool must_fail = !removable || !g_fail.empty();
  if (!must_fail) erase_tree(after);
  string thrown;
  try {
    if (how == 0) {
      FileSystem::RmDir(root, parameters, rec);
    } else {
      {
        FileSystem::ScopedRmDir scoped(root, how == 1, rec);
        const auto inside = Listing(g_base);
        Sure(inside == (how == 1 ? after : before), "scoped-start", Show(before) + " became " + Show(inside));
        if (how == 1 && removable) {
          ::mkdir(root.c_str(), 0755);
          if (recursive) Put(root + "/again", "again");
        }
      }
    }
  } catch (const current::DirNotEmptyException&) {
    thrown = "not empty";
  } catch (const current::Exception& e) {
    thrown = string("other: ") + e.what();
  }
  Sure(g_escaped.empty(), "rmdir-escapes", "attempted to remove " + (g_escaped.empty() ? "" : g_escaped[0]));
  const auto got = Listing(g_base);
  if (silent) {
    Sure(thrown.empty(), "silent-throws", thrown);
  } else if (must_fail) {
    Sure(!thrown.empty(), "no-exception", "nothing is thrown");
    if (!removable) Sure(thrown == "not empty", "exception-type", thrown);
  } else {
    Sure(thrown.empty(), "rmdir-throws", thrown);
  }
  if (g_fail.empty()) {
    Sure(got == after, "rmdir", "from " + Show(before) + " expected " + Show(after) + " got " + Show(got));
  } else {
    Sure(g_failed, "not-attempted", g_fail + " is not removed");
    // What is outside of the tree is intact, and what is left in it was there; if silent, only what can not be removed is left.
    const string fail = g_fail.substr(g_base.size());
    for (const auto& e : before) {
      const bool inside = e.first == "/tree" || e.first.compare(0, 6, "/tree/") == 0;
      const bool kept = got.count(e.first) && got.at(e.first) == e.second;
      if (!inside) Sure(kept, "rmdir-outside", e.first);
      if (inside && (fail == e.first || fail.compare(0, e.first.size() + 1, e.first + "/") == 0)) Sure(kept, "rmdir-failed-removed", e.first);
      else if (inside && silent) Sure(!got.count(e.first), "rmdir-left", e.first + " is left, while only " + fail + " can not be removed");
    }
    for (const auto& e : got) Sure(before.count(e.first), "rmdir-created", e.first);
  }
}

// Sequences of operations on two names, one directory, and one name which can not be.
EN_SCENARIO(operations) {
  Fresh();
  const int depth = static_cast<int>(en::Param("depth", 3));
  const std::vector<string> names = {"/x", "/d/y"};
  static const std::vector<string> contents = {"", "a", "x\ny", string("\n\0\r\n", 4), string(5000, 'q') + "\n"};
  std::map<string, string> files;  // The model.
  bool have_dir = false;
  string history;
  for (int step = 0; step < depth; ++step) {
    const int op = en::Choose(8);
    string thrown = "no", what;
    bool ok = true;
    const auto run = [&](const std::function<void()>& f) {
      thrown = "no";
      try {
        f();
      } catch (const current::CannotReadFileException&) {
        thrown = "cannot read";
      } catch (const current::MkDirException&) {
        thrown = "mkdir";
      } catch (const current::DirDoesNotExistException&) {
        thrown = "no dir";
      } catch (const current::PathNotDirException&) {
        thrown = "not dir";
      } catch (const current::DirNotEmptyException&) {
        thrown = "not empty";
      } catch (const current::FileException&) {
        thrown = "file";
      } catch (const current::Exception& e) {
        thrown = string("unexpected ") + e.what();
      } catch (const std::exception& e) {
        thrown = string("alien ") + e.what();
      }
    };
    const auto expect = [&](const string& e, const char* sig) {
      Sure(thrown == e, sig, history + what + ": exception: " + thrown + ", expected: " + e);
    };
    if (op == 0) {  // Write or append.
      const string& n = names[en::Choose(2)];
      const string& c = contents[en::Choose(static_cast<int>(contents.size()))];
      const bool append = en::Flip();
      what = string(append ? "append" : "write") + std::to_string(c.size()) + " to " + n;
      ok = n == "/x" || have_dir;
      run([&]() { FileSystem::WriteStringToFile(c, (g_base + n).c_str(), append); });
      expect(ok ? "no" : "file", "write");
      if (ok) {
        if (append) files[n] += c; else files[n] = c;
      }
    } else if (op == 1) {  // Rename.
      const int i = en::Choose(2);
      what = "rename " + names[i];
      ok = files.count(names[i]) && have_dir;
      run([&]() { FileSystem::RenameFile(g_base + names[i], g_base + names[1 - i]); });
      expect(ok ? "no" : "file", "rename");
      if (ok) {
        files[names[1 - i]] = files[names[i]];
        files.erase(names[i]);
      }
    } else if (op == 2) {  // Remove.
      const string& n = names[en::Choose(2)];
      const bool silent = en::Flip();
      what = "remove " + n;
      ok = files.count(n);
      run([&]() { FileSystem::RmFile(g_base + n, silent ? FileSystem::RmFileParameters::Silent : FileSystem::RmFileParameters::ThrowExceptionOnError); });
      expect(ok || silent ? "no" : "file", "remove");
      files.erase(n);
    } else if (op == 3) {  // Make the directory.
      const bool silent = en::Flip();
      what = "mkdir";
      run([&]() { FileSystem::MkDir(g_base + "/d", silent ? FileSystem::MkDirParameters::Silent : FileSystem::MkDirParameters::ThrowExceptionOnError); });
      expect(have_dir && !silent ? "mkdir" : "no", "mkdir");
      have_dir = true;
    } else if (op == 4) {  // Remove the directory.
      const bool recursive = en::Flip(), silent = en::Flip();
      what = "rmdir";
      run([&]() {
        FileSystem::RmDir(g_base + "/d", silent ? FileSystem::RmDirParameters::Silent : FileSystem::RmDirParameters::ThrowExceptionOnError,
                          recursive ? FileSystem::RmDirRecursive::Yes : FileSystem::RmDirRecursive::No);
      });
      const bool can = have_dir && (recursive || !files.count("/d/y"));
      expect(can || silent ? "no" : have_dir ? "not empty" : "no dir", "rmdir");
      if (can) {
        have_dir = false;
        files.erase("/d/y");
      }
    } else if (op == 5) {  // A scoped file.
      const string& n = names[en::Choose(2)];
      const bool now = en::Flip();
      what = "scoped " + n;
      run([&]() {
        FileSystem::ScopedRmFile scoped(g_base + n, now);
        Sure(Get(g_base + n) == (now || !files.count(n) ? "<none>" : files[n]), "scoped-file-start", history + what);
        if (n == "/x" || have_dir) Put(g_base + n, "temporary");
      });
      expect("no", "scoped-file");
      files.erase(n);
    } else if (op == 6) {  // Remove and list what is not a directory.
      const string& n = names[en::Choose(2)];
      const bool rm = en::Flip();
      what = "as if it were a directory: " + n;
      run([&]() {
        if (rm) {
          FileSystem::RmDir(g_base + n, FileSystem::RmDirParameters::ThrowExceptionOnError, FileSystem::RmDirRecursive::Yes);
        } else {
          FileSystem::ScanDir(g_base + n, [](const FileSystem::ScanDirItemInfo&) {});
        }
      });
      expect(files.count(n) ? "not dir" : "no dir", "not-dir");
    } else {  // A directory where a file belongs.
      what = "as if it were a file";
      const int k = en::Choose(4);
      if (!have_dir) en::Skip();
      string lines;
      run([&]() {
        if (k == 0) FileSystem::ReadFileAsString(g_base + "/d");
        if (k == 1) FileSystem::GetFileSize(g_base + "/d");
        if (k == 2) FileSystem::WriteStringToFile("oops", (g_base + "/d").c_str());
        if (k == 3) FileSystem::ReadFileByLines(g_base + "/d", [&](string&& s) { lines += s; });
      });
      expect(k == 0 || k == 3 ? "cannot read" : "file", k == 0 ? "read-dir" : k == 1 ? "size-of-dir" : k == 2 ? "write-dir" : "lines-of-dir");
    }
    history += what + ", ";
    Sure(g_escaped.empty(), "escapes", history + " " + (g_escaped.empty() ? "" : g_escaped[0]));
    // The whole state, as it is, and as the wrapper sees it.
    std::map<string, string> want;
    want[""] = "dir";
    if (have_dir) want["/d"] = "dir";
    for (const auto& f : files) want[f.first] = "file:" + f.second;
    const auto got = Listing(g_base);
    Sure(got == want, "state", history + ": expected " + Show(want) + " got " + Show(got));
    for (const auto& n : names) {
      string s;
      run([&]() { s = FileSystem::ReadFileAsString(g_base + n); });
      what = "read " + n;
      expect(files.count(n) ? "no" : "cannot read", "read");
      if (files.count(n)) Sure(s == files[n], "read-contents", history + n);
      std::vector<string> lines, expected;
      run([&]() { FileSystem::ReadFileByLines(g_base + n, [&](string&& l) { lines.push_back(std::move(l)); }); });
      what = "lines of " + n;
      expect(files.count(n) ? "no" : "cannot read", "lines");
      string line;
      for (char c : files.count(n) ? files[n] : string()) {
        if (c == '\n') { expected.push_back(line); line.clear(); } else line += c;
      }
      if (!line.empty()) expected.push_back(line);
      Sure(lines == expected, "lines-contents", history + n);
      uint64_t size = 0;
      run([&]() { size = FileSystem::GetFileSize(g_base + n); });
      what = "size of " + n;
      expect(files.count(n) ? "no" : "file", "size");
      if (files.count(n)) Sure(size == files[n].size(), "size-value", history + n);
      bool is_dir = true;
      run([&]() { is_dir = FileSystem::IsDir(g_base + n); });
      what = "is directory " + n;
      expect(files.count(n) ? "no" : "file", "is-dir");
      if (files.count(n)) Sure(!is_dir, "is-dir-value", history + n);
    }
    if (have_dir) Sure(FileSystem::IsDir(g_base + "/d"), "is-dir-of-dir", history);
    en::State(Show(want));
    en::Transition();
  }
}

namespace {
string AnyName(const char* alphabet, int max) {
  const int n = en::Choose(max + 1);
  string s;
  for (int i = 0; i < n; ++i) s += alphabet[en::Choose(static_cast<int>(strlen(alphabet)))];
  return s;
}
}  // namespace

EN_SCENARIO(names) {
  const int length = static_cast<int>(en::Param("name_length", 4));
  const string path = AnyName("ab./", length), name = AnyName("ab./", length);
  en::Note("`" + path + "` + `" + name + "`");
  string joined;
  bool thrown = false;
  try {
    joined = FileSystem::JoinPath(path, name);
  } catch (const current::FileException&) {
    thrown = true;
  }
  Sure(thrown == name.empty(), "join-empty", "");
  if (!name.empty()) {
    if (name[0] == '/' || path.empty()) Sure(joined == name, "join-absolute", joined);
    else {
      // The name is below the path, with exactly one separator added unless it is there.
      Sure(joined.compare(0, path.size(), path) == 0, "join-prefix", joined);
      const string rest = joined.substr(path.size());
      Sure(rest == (path.back() == '/' ? name : "/" + name), "join", joined);
    }
  }
  // The extension is what follows the last dot of the last component.
  string last;
  bool dot = false;
  for (char c : name) {
    if (c == '/') { last.clear(); dot = false; }
    else if (c == '.') { last.clear(); dot = true; }
    else last += c;
  }
  Sure(FileSystem::GetFileExtension(name) == (dot ? last : ""), "extension", FileSystem::GetFileExtension(name));
}
