// The ENUM engine. Depth-first enumeration of all answers to `en::Choose()`, work-shared over forked workers.
// The DFS stack of each worker lives in shared memory, so when a worker crashes, hangs or is stopped by a sanitizer,
// the parent knows exactly which choices led there, records a violation, and a fresh worker goes on from the next one.
#include "enum.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <map>
#include <set>
#include <typeinfo>
#include <cxxabi.h>

namespace {

constexpr int kMaxDepth = 4096;
constexpr int kMaxWorkers = 16;
constexpr int kQueueCap = 8192;
constexpr int kPrefixCap = 256;
constexpr int kMaxViolations = 256;
constexpr int kNoteCap = 3000;
constexpr size_t kStateSlots = size_t(1) << 25;

struct Level { int32_t choice, n, limit; };

struct WorkerShm {
  std::atomic<int> busy;           // has a subtree
  std::atomic<uint64_t> execs, transitions, extra;
  std::atomic<uint64_t> skipped;
  std::atomic<int64_t> exec_start_ms;  // 0 when not executing
  int base;                        // levels below are fixed
  int depth;                       // valid levels of the current execution
  Level lv[kMaxDepth];
  int note_len;
  char note[kNoteCap];
};
struct Item { int len; int16_t c[kPrefixCap]; };
struct Viol {
  char sig[200];
  char msg[2000];
  char note[kNoteCap];
  int nchoices;
  int16_t c[kMaxDepth];
  uint64_t count;
};
struct Sample { char s[1200]; };
struct Shm {
  std::atomic<int> lock;
  std::atomic<int> lock_owner;
  std::atomic<int> outstanding;  // items queued or being processed
  std::atomic<int> qlen;
  std::atomic<int> stop;
  Item q[kQueueCap];
  int nviol;
  Viol v[kMaxViolations];
  std::atomic<uint64_t> viol_total;
  int nsamples;
  Sample samples[12];
  std::atomic<uint64_t> nstates;
  std::atomic<uint64_t> states[kStateSlots];
  WorkerShm w[kMaxWorkers];
};

Shm* S = nullptr;
WorkerShm* W = nullptr;
int g_worker = -1;
std::vector<int> g_replay;
bool g_replaying = false;
std::map<std::string, long> g_params;
bool g_thorough = false;
std::string g_tmp_root;
std::string g_tmp_dir;
bool g_skipped = false;

struct Scn { std::string name; en::body_t f; en::Opts o; };
std::vector<Scn>& Scns() { static std::vector<Scn> v; return v; }

int64_t NowMs() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return int64_t(t.tv_sec) * 1000 + t.tv_nsec / 1000000;
}

struct Lock {
  Lock() {
    int e = 0, spins = 0;
    while (!S->lock.compare_exchange_weak(e, 1)) {
      e = 0;
      if (++spins > 200) usleep(50);
    }
    S->lock_owner = g_worker + 1;
  }
  ~Lock() { S->lock_owner = 0; S->lock.store(0); }
};

void MaybeDonate() {
  if (S->qlen.load(std::memory_order_relaxed) >= 16) return;
  for (int i = W->base; i < W->depth && i < kPrefixCap - 1; ++i) {
    Level& l = W->lv[i];
    if (l.choice + 1 < l.limit) {
      Lock lk;
      int k = l.limit - 1;
      int given = 0;
      while (k > l.choice && S->qlen < kQueueCap && given < 64) {
        Item& it = S->q[S->qlen];
        it.len = i + 1;
        for (int j = 0; j < i; ++j) it.c[j] = W->lv[j].choice;
        it.c[i] = k;
        S->outstanding++;
        S->qlen++;
        --k;
        ++given;
      }
      l.limit = k + 1;
      return;
    }
  }
}

int g_pos = 0;  // next Choose position of this execution

void RecordViolation(const std::string& sig, const std::string& msg, const Level* lv, int depth, const char* note, int note_len) {
  Lock lk;
  S->viol_total++;
  for (int i = 0; i < S->nviol; ++i) {
    if (sig.substr(0, 199) == S->v[i].sig) {
      S->v[i].count++;
      if (depth >= S->v[i].nchoices) return;
      // a shorter one: replace
      Viol& v = S->v[i];
      v.nchoices = depth;
      for (int j = 0; j < depth; ++j) v.c[j] = lv[j].choice;
      snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
      snprintf(v.note, sizeof v.note, "%.*s", note_len, note);
      return;
    }
  }
  if (S->nviol >= kMaxViolations) return;
  Viol& v = S->v[S->nviol];
  snprintf(v.sig, sizeof v.sig, "%s", sig.c_str());
  snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
  snprintf(v.note, sizeof v.note, "%.*s", note_len, note);
  v.nchoices = depth;
  v.count = 1;
  for (int j = 0; j < depth; ++j) v.c[j] = lv[j].choice;
  S->nviol++;
}

std::string g_scn;

void RunOne(const Scn& s) {
  g_pos = 0;
  g_skipped = false;
  W->note_len = 0;
  W->exec_start_ms = NowMs();
  try {
    s.f();
  } catch (const en::Stop&) {
  } catch (const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string tn = d ? d : typeid(e).name();
    free(d);
    if (W->depth > g_pos) W->depth = g_pos;
    RecordViolation(g_scn + ":uncaught-exception", tn + ": " + e.what(), W->lv, W->depth, W->note, W->note_len);
  } catch (...) {
    if (W->depth > g_pos) W->depth = g_pos;
    RecordViolation(g_scn + ":uncaught-exception", "unknown exception type", W->lv, W->depth, W->note, W->note_len);
  }
  W->exec_start_ms = 0;
  if (g_pos < W->depth) {
    // Fewer choices than the prefix had: the space is not a function of the choices. This is a harness defect.
    if (g_pos < W->base) {
      RecordViolation(g_scn + ":ENGINE-nondeterminism", "the execution asked for fewer choices than its prefix", W->lv, W->depth, W->note, W->note_len);
    }
    W->depth = g_pos;
  }
  if (!g_skipped) {
    W->execs++;
    uint64_t e = W->execs;
    if (W->note_len && (e == 3 || e == 1000 || e == 50000)) {
      Lock lk;
      if (S->nsamples < 12) snprintf(S->samples[S->nsamples++].s, sizeof(Sample), "%s: %.*s", g_scn.c_str(), W->note_len, W->note);
    }
  } else {
    W->skipped++;
  }
}

// Advances the DFS stack. Returns false when the subtree is exhausted.
bool Advance() {
  int d = W->depth;
  while (d > W->base) {
    Level& l = W->lv[d - 1];
    if (l.choice + 1 < l.limit) {
      l.choice++;
      W->depth = d;
      return true;
    }
    --d;
  }
  W->depth = W->base;
  return false;
}

bool TakeItem() {
  Lock lk;
  if (S->qlen == 0) return false;
  // Take the shortest-prefix item available among the oldest: order does not matter for exhaustiveness.
  S->qlen--;
  Item& it = S->q[S->qlen];
  W->base = it.len;
  W->depth = it.len;
  for (int i = 0; i < it.len; ++i) W->lv[i] = Level{it.c[i], -1, it.c[i] + 1};
  W->busy = 1;
  return true;
}

void WorkerLoop(const Scn& s, bool resume) {
  int since = 0;
  bool have = resume && W->busy;
  if (have) {
    if (!Advance()) { W->busy = 0; S->outstanding--; have = false; }
  }
  for (;;) {
    if (S->stop) _exit(0);
    if (!have) {
      if (!TakeItem()) {
        if (S->outstanding == 0) _exit(0);
        usleep(200);
        continue;
      }
      have = true;
    }
    RunOne(s);
    if (++since >= 1) { since = 0; MaybeDonate(); }
    if (!Advance()) { W->busy = 0; S->outstanding--; have = false; }
  }
}

std::string JsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

void RmTree(const std::string& d) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) RmTree(p);
    else unlink(p.c_str());
  }
  closedir(dir);
  rmdir(d.c_str());
}

std::string ReadTail(const std::string& f, size_t n) {
  int fd = open(f.c_str(), O_RDONLY);
  if (fd < 0) return "";
  std::string s;
  char b[65536];
  ssize_t r;
  while ((r = read(fd, b, sizeof b)) > 0) { s.append(b, size_t(r)); if (s.size() > 4000000) break; }
  close(fd);
  // Prefer the sanitizer's summary.
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error:");
  if (p == std::string::npos) p = s.find("terminate called");
  if (p == std::string::npos) p = s.find("Assertion");
  if (p != std::string::npos) { size_t b2 = s.rfind('\n', p); if (b2 == std::string::npos) b2 = 0; return s.substr(b2, n); }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

std::string CrashKind(int status, const std::string& text) {
  auto has = [&](const char* x) { return text.find(x) != std::string::npos; };
  if (has("AddressSanitizer")) {
    const char* kinds[] = {"heap-use-after-free", "heap-buffer-overflow", "stack-buffer-overflow", "stack-use-after-return", "stack-use-after-scope", "global-buffer-overflow",
                           "double-free", "stack-overflow", "alloc-dealloc-mismatch", "out-of-memory", "allocation-size-too-big", "requested allocation size", "negative-size-param", "container-overflow", "SEGV"};
    for (auto k : kinds) if (has(k)) return std::string("asan-") + k;
    return "asan";
  }
  if (has("runtime error:")) return "ubsan";
  if (has("terminate called")) return "terminate";
  if (has("Assertion")) return "assert";
  if (WIFSIGNALED(status)) return std::string("signal-") + strsignal(WTERMSIG(status));
  return "exit-" + std::to_string(WEXITSTATUS(status));
}

pid_t Spawn(const Scn& s, int k, bool resume) {
  std::string errf = g_tmp_root + "/w" + std::to_string(k) + ".err";
  pid_t p = fork();
  if (p) return p;
  g_worker = k;
  W = &S->w[k];
  int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600);
  dup2(fd, 2);
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  setpgid(0, 0);
  WorkerLoop(s, resume);
  _exit(0);
}

}  // namespace

namespace en {

void RegisterScenario(const char* name, body_t f, Opts o) { Scns().push_back(Scn{name, f, o}); }

int Choose(int n) {
  if (n <= 0) Violation("ENGINE-choose", "Choose() of an empty set");
  const int pos = g_pos++;
  if (g_replaying) {
    int c = pos < static_cast<int>(g_replay.size()) ? g_replay[pos] : 0;
    if (c >= n) c = n - 1;
    W->lv[pos] = Level{c, n, c + 1};
    W->depth = pos + 1;
    return c;
  }
  if (pos >= kMaxDepth - 1) Violation("ENGINE-depth", "too many choices in one execution");
  if (pos < W->depth) {
    Level& l = W->lv[pos];
    if (l.n == -1) l.n = n;
    if (l.n != n) {
      std::string m = "position " + std::to_string(pos) + " had " + std::to_string(l.n) + " answers, now " + std::to_string(n);
      l.n = n;
      W->depth = pos + 1;
      Violation("ENGINE-nondeterminism", m);
    }
    return l.choice;
  }
  W->lv[pos] = Level{0, n, n};
  W->depth = pos + 1;
  return 0;
}

void Violation(const std::string& signature, const std::string& message) {
  if (g_pos < W->depth) W->depth = std::max(g_pos, W->base);
  RecordViolation(g_scn + ":" + signature, message, W->lv, std::min(g_pos, W->depth), W->note, W->note_len);
  throw Stop();
}
void Skip() { g_skipped = true; throw Stop(); }
void State(uint64_t h) {
  if (!h) h = 1;
  size_t i = size_t((h * 0x9E3779B97F4A7C15ull) >> 39);
  for (int k = 0; k < 64; ++k) {
    uint64_t e = S->states[(i + k) & (kStateSlots - 1)].load(std::memory_order_relaxed);
    if (e == h) return;
    if (e == 0) {
      if (S->states[(i + k) & (kStateSlots - 1)].compare_exchange_strong(e, h)) { S->nstates++; return; }
      if (e == h) return;
    }
  }
}
uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
  return h;
}
void State(const std::string& s) { State(Hash(s)); }
void Transition(uint64_t n) { W->transitions += n; }
void Evaluations(uint64_t n) { W->extra += n; }
void Note(const std::string& s) {
  int room = kNoteCap - 1 - W->note_len;
  int n = std::min<int>(room, static_cast<int>(s.size()) + 1);
  if (n <= 0) return;
  int m = std::min<int>(n, static_cast<int>(s.size()));
  memcpy(W->note + W->note_len, s.data(), m);
  W->note_len += m;
  if (m < n) W->note[W->note_len++] = ' ';
}
long Param(const char* name, long dflt) {
  auto it = g_params.find(name);
  return it == g_params.end() ? dflt : it->second;
}
bool Thorough() { return g_thorough; }
const std::string& TmpDir() {
  if (g_tmp_dir.empty()) {
    g_tmp_dir = g_tmp_root + "/d" + std::to_string(g_worker) + "_" + std::to_string(getpid());
    mkdir(g_tmp_dir.c_str(), 0700);
  }
  return g_tmp_dir;
}

}  // namespace en

int main(int argc, char** argv) {
  std::string out, only, replay;
  double time_limit = 600;
  int workers = 8;
  bool list = false;
  std::set<std::string> known;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(++i < argc ? argv[i] : ""); };
    if (a == "--out") out = next();
    else if (a == "--scenario") only = next();
    else if (a == "--time") time_limit = atof(next().c_str());
    else if (a == "--workers") workers = std::min(kMaxWorkers, atoi(next().c_str()));
    else if (a == "--known") known.insert(next());
    else if (a == "--replay") replay = next();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--list") list = true;
    else if (a == "--param") { std::string p = next(); size_t e = p.find('='); g_params[p.substr(0, e)] = atol(p.substr(e + 1).c_str()); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (list) { for (auto& s : Scns()) printf("%s\n", s.name.c_str()); return 0; }
  S = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  char tmpl[64] = "/tmp/enumXXXXXX";
  if (const char* t = getenv("TMPDIR")) snprintf(tmpl, sizeof tmpl, "%.50s/enumXXXXXX", t);
  g_tmp_root = mkdtemp(tmpl);
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    static char line[200000];
    while (fgets(line, sizeof line, f)) {
      std::string l = line;
      while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
      if (l.compare(0, 9, "scenario=") == 0) only = l.substr(9);
      else if (l.compare(0, 8, "choices=") == 0) {
        std::istringstream is(l.substr(8));
        int c;
        while (is >> c) g_replay.push_back(c);
      } else if (l.compare(0, 6, "param=") == 0) {
        std::string p = l.substr(6); size_t e = p.find('='); g_params[p.substr(0, e)] = atol(p.substr(e + 1).c_str());
      } else if (l == "thorough=1") g_thorough = true;
    }
    fclose(f);
    for (auto& s : Scns()) if (s.name == only) {
      g_replaying = true;
      g_scn = s.name;
      int st = 0;
      pid_t p = fork();
      if (!p) {
        g_worker = 0; W = &S->w[0]; W->base = 0; W->depth = 0;
        alarm(static_cast<unsigned>(s.o.hang_seconds) + 5);
        RunOne(s);
        printf("note: %.*s\n", W->note_len, W->note);
        for (int i = 0; i < S->nviol; ++i) printf("VIOLATES %s\n  %s\n", S->v[i].sig, S->v[i].msg);
        fflush(stdout);
        _exit(S->nviol ? 1 : 0);
      }
      waitpid(p, &st, 0);
      RmTree(g_tmp_root);
      if (WIFSIGNALED(st)) { printf("VIOLATES %s:crash (signal %d)\n  note: %.*s\n", only.c_str(), WTERMSIG(st), S->w[0].note_len, S->w[0].note); return 1; }
      if (WEXITSTATUS(st) > 1) { printf("VIOLATES %s:crash (exit %d)\n  note: %.*s\n", only.c_str(), WEXITSTATUS(st), S->w[0].note_len, S->w[0].note); return 1; }
      return WEXITSTATUS(st);
    }
    fprintf(stderr, "no such scenario %s\n", only.c_str());
    RmTree(g_tmp_root);
    return 2;
  }
  std::ostringstream js;
  js << "[";
  bool first = true, bad = false, engine_error = false;
  int64_t t_all = NowMs();
  int nsc = 0, done = 0;
  for (auto& s : Scns()) if (only.empty() || s.name == only) ++nsc;
  for (auto& s : Scns()) {
    if (!only.empty() && s.name != only) continue;
    g_scn = s.name;
    // Whatever time earlier scenarios left unused is available to the later ones.
    double budget = std::max(1.0, (time_limit - (NowMs() - t_all) / 1000.0) / (nsc - done));
    ++done;
    memset(static_cast<void*>(S), 0, offsetof(Shm, states));
    if (madvise(&S->states[0], sizeof(S->states) & ~size_t(4095), MADV_REMOVE) != 0) for (auto& x : S->states) if (x.load(std::memory_order_relaxed)) x = 0;
    for (auto& x : S->w) memset(static_cast<void*>(&x), 0, offsetof(WorkerShm, lv));
    S->nstates = 0;
    S->qlen = 1;
    S->q[0].len = 0;
    S->outstanding = 1;
    int64_t t0 = NowMs();
    std::vector<pid_t> pid(workers);
    std::vector<int> crashes(workers, 0);
    for (int k = 0; k < workers; ++k) pid[k] = Spawn(s, k, false);
    int alive = workers, total_crashes = 0;
    bool timed_out = false;
    std::string fatal;
    while (alive > 0) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p > 0) {
        int k = int(std::find(pid.begin(), pid.end(), p) - pid.begin());
        if (k >= workers) continue;
        kill(-p, SIGKILL);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !S->w[k].busy) { pid[k] = -1; --alive; continue; }
        if (timed_out) { pid[k] = -1; --alive; continue; }
        WorkerShm& w = S->w[k];
        // If it died holding the queue lock, release it (a death inside the lock is practically excluded: no user code runs there).
        if (S->lock && S->lock_owner == k + 1) { S->lock_owner = 0; S->lock = 0; }
        std::string text = ReadTail(g_tmp_root + "/w" + std::to_string(k) + ".err", 1900);
        bool was_hang = crashes[k] == -1;
        std::string kind = was_hang ? "hang" : "crash-" + CrashKind(st, text);
        crashes[k] = 0;
        RecordViolation(s.name + ":" + kind, text, w.lv, w.depth, w.note, w.note_len);
        w.execs++;
        w.exec_start_ms = 0;
        if (++total_crashes > (was_hang ? 30 : 2000)) { S->stop = 1; fatal = "too many crashes; stopped"; }
        for (auto const& d : std::vector<std::string>{g_tmp_root + "/d" + std::to_string(k) + "_" + std::to_string(p)}) RmTree(d);
        if (S->stop) { pid[k] = -1; --alive; continue; }
        pid[k] = Spawn(s, k, true);
        continue;
      }
      int64_t now = NowMs();
      for (int k = 0; k < workers; ++k) if (pid[k] > 0) {
        int64_t e = S->w[k].exec_start_ms;
        if (e && now - e > s.o.hang_seconds * 1000 && crashes[k] != -1) { crashes[k] = -1; kill(-pid[k], SIGKILL); kill(pid[k], SIGKILL); }
      }
      if (now - t0 > budget * 1000 && !S->stop) S->stop = 1, timed_out = true;
      if (timed_out && now - t0 > budget * 1000 + 3000) for (int k = 0; k < workers; ++k) if (pid[k] > 0) { kill(-pid[k], SIGKILL); kill(pid[k], SIGKILL); }
      usleep(2000);
    }
    uint64_t execs = 0, trans = 0, skipped = 0, extra = 0;
    for (int k = 0; k < workers; ++k) execs += S->w[k].execs, trans += S->w[k].transitions, skipped += S->w[k].skipped, extra += S->w[k].extra;
    js << (first ? "\n" : ",\n") << "{\"scenario\":\"" << s.name << "\",\"executions\":" << execs << ",\"evaluations\":" << execs + extra << ",\"skipped\":" << skipped
       << ",\"transitions\":" << trans << ",\"states\":" << S->nstates.load() << ",\"exhaustive\":" << (timed_out || !fatal.empty() ? "false" : "true")
       << ",\"wall\":" << (NowMs() - t0) / 1000.0 << ",\"error\":\"" << JsonEsc(fatal) << "\",\"samples\":[";
    for (int i = 0; i < S->nsamples; ++i) js << (i ? "," : "") << "\"" << JsonEsc(S->samples[i].s) << "\"";
    js << "],\"violations\":[";
    for (int i = 0; i < S->nviol; ++i) {
      Viol& v = S->v[i];
      bool k = known.count(v.sig) > 0;
      if (strstr(v.sig, ":ENGINE-")) engine_error = true;
      if (!k) bad = true;
      js << (i ? ",\n  " : "\n  ") << "{\"sig\":\"" << JsonEsc(v.sig) << "\",\"known\":" << (k ? "true" : "false") << ",\"count\":" << v.count << ",\"msg\":\"" << JsonEsc(v.msg)
         << "\",\"note\":\"" << JsonEsc(v.note) << "\",\"choices\":\"";
      for (int j = 0; j < v.nchoices; ++j) js << (j ? " " : "") << v.c[j];
      js << "\"}";
    }
    js << "]}";
    first = false;
  }
  js << "\n]\n";
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    fputs(js.str().c_str(), f);
    fclose(f);
  } else fputs(js.str().c_str(), stdout);
  RmTree(g_tmp_root);
  return engine_error ? 2 : bad ? 1 : 0;
}
