// SCHED engine: runtime + explorer. Compiled WITHOUT -fsanitize=thread; linked into a harness that is compiled
// with it. Provides the __tsan_* entry points and interposes pthread/malloc/clock functions. See DESIGN.md.
#include "mc.h"
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <map>
#include <set>
#include <string>
#include <vector>

extern "C" char __libc_single_threaded;

namespace mc { static int stamp_counter; }
namespace rt {

// ------------------------------------------------------------------ configuration
constexpr int MAXT = 40;            // thread slots
constexpr int MAXCH = 10000;         // choices per execution
constexpr uint64_t ARENA_BASE = 0x100000000000ull;
constexpr uint64_t ARENA_SIZE = 1ull << 30;
constexpr uint64_t SHADOW_BASE = 0x180000000000ull;  // 1 byte per 16 bytes of arena
constexpr uint64_t STACK_BASE = 0x1c0000000000ull;
constexpr uint64_t STACK_SIZE = 16ull << 20;

static inline uint64_t mix(uint64_t x) {
  x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
  return x;
}
static inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15); }

static long futex(int* a, int op, int v) { return syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }

// ------------------------------------------------------------------ shared memory
enum Status { kNone = 0, kOk, kPruned, kViolation, kDiverged, kHorizon, kTimeout, kEngineError };
struct Choice { uint8_t chosen, n; uint8_t costs[14]; };  // costs[k]: cost of alternative k
struct RunResult {
  volatile int status;
  int nchoices;
  uint32_t steps;
  uint32_t newstates;
  uint64_t outcome_hash;
  char outcome[1024];
  char sig[256];
  char msg[8192];
  Choice ch[MAXCH];
};
struct Viol { char sig[256]; char msg[8192]; int nch; uint8_t ch[MAXCH]; int bound; int known; int unstable; };
constexpr uint64_t VIS_SIZE = 1ull << 25;
constexpr int SHSET = 1 << 16;
constexpr int MAXVIOL = 24;
constexpr int QCAP = 1024;
constexpr int OUTCAP = 1 << 14;
struct QItem { int len; uint8_t c[MAXCH]; };
struct Shm {
  volatile int lock;
  volatile int stop;
  volatile int dirty;
  volatile double dirty_at;
  volatile int64_t pending;
  volatile int64_t executions, steps, states, pruned, horizons, timeouts, engine_errors, points;
  volatile int64_t maxchoices;
  volatile int nviol;
  volatile int unknown_viol;
  volatile int nslots;
  uint64_t slot_names[64];
  volatile int qn;
  volatile int64_t noutcomes;
  uint64_t shared_set[SHSET];   // frozen during a round
  uint64_t pending_set[SHSET];  // discovered during the round; merged before the next one
  uint64_t outcomes[OUTCAP];
  char outcome_samples[8][512];
  volatile int nsamples;
  char errmsg[2048];
  Viol viol[MAXVIOL];
  RunResult res[64];
  QItem q[QCAP];
};
static Shm* shm;
static uint64_t* vis;  // VIS_SIZE entries: 56 bit tag | 8 bit (remaining+1)

static void Lock() { while (__atomic_exchange_n(&shm->lock, 1, __ATOMIC_ACQUIRE)) syscall(SYS_sched_yield); }
static void Unlock() { __atomic_store_n(&shm->lock, 0, __ATOMIC_RELEASE); }

// returns true if already covered with >= remaining
static bool VisitState(uint64_t key, int remaining, bool* isnew) {
  uint64_t tag = key >> 8 << 8;
  if (!tag) tag = 256;
  uint64_t i = mix(key) & (VIS_SIZE - 1);
  for (int probe = 0; probe < 64; ++probe, i = (i + 1) & (VIS_SIZE - 1)) {
    uint64_t cur = __atomic_load_n(&vis[i], __ATOMIC_RELAXED);
    if (!cur) {
      uint64_t want = tag | (uint64_t)(remaining + 1);
      if (__atomic_compare_exchange_n(&vis[i], &cur, want, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { *isnew = true; return false; }
    }
    if ((cur >> 8 << 8) == tag) {
      while (true) {
        if ((int)(cur & 255) >= remaining + 1) return true;
        if (__atomic_compare_exchange_n(&vis[i], &cur, tag | (uint64_t)(remaining + 1), false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return false;
      }
    }
  }
  return false;  // Table full around here: explore without caching.
}

// ------------------------------------------------------------------ per execution state
struct VC { uint32_t c[MAXT]; };
static inline void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Obj;
struct Thr {
  bool used, finished, detached, yielded, timed, timed_out, signaled;
  int slot;
  int fut;
  uint64_t name;
  uint32_t nchildren;
  uint32_t points;  // Points passed since the last event: two of them in a row are two different states.
  pthread_t real;
  VC vc;
  uint64_t hist;
  bool (*pred)(void*);
  void* parg;
  const char* what;
  int64_t deadline;
  Obj* waitcond;
  Obj* waitmutex;
  void* (*start)(void*);
  void* arg;
  void* retval;
  uint32_t run_len;
  uint32_t nstack;
  void* stack[256];
};
struct Obj {
  uint64_t addr;
  int toucher;  // slot + 1
  bool shared;
  bool destroyed;
  Thr* owner;
  int count;
  Thr* waiters[MAXT];
  int nw;
  VC vc;
  uint64_t wlast, rsum;
};
constexpr int NOBJ = 1 << 14;
static Obj* objs;
static int nobjs;

struct Cell { uint32_t clk; uint8_t tid, mask; uint8_t flags; uint8_t pad; void* pc; };  // flags: 1 write, 2 atomic, 4 free
constexpr int NCELL = 5;
struct Word { uint64_t a; Cell c[NCELL]; };
constexpr int NWORD = 1 << 20;
static Word* words;
static int nwords;

static Thr thr[MAXT];
static __thread Thr* self;
static bool active;
static bool g_race = true;
static mc::Opts opts;
static bool delay;
static Thr* cur;
static RunResult* R;
static const uint8_t* prefix;
static int prefix_len;
static int bound_;
static int cost_;
static uint64_t total_hash;
static int64_t vclock;  // ns
static uint64_t clock_obj_dummy;
static bool use_vis;
static int in_rt;
static bool verbose;
static char outcome_buf[4096];
static int outcome_len;
static pthread_key_t fin_key;

static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_pthread_join)(pthread_t, void**);
static int (*real_pthread_detach)(pthread_t);
static int (*real_clock_gettime)(clockid_t, struct timespec*);

static void Dump(const char* fmt, ...) {
  if (!verbose) return;
  va_list ap;
  va_start(ap, fmt);
  char b[2048];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n > 0) { ssize_t r = write(2, b, n < (int)sizeof b ? n : (int)sizeof b - 1); (void)r; }
}

[[noreturn]] static void Finish(int status) {
  R->outcome_hash = 0;
  for (int i = 0; i < outcome_len; ++i) R->outcome_hash = hcomb(R->outcome_hash, (uint8_t)outcome_buf[i]);
  int n = outcome_len < 1023 ? outcome_len : 1023;
  memcpy(R->outcome, outcome_buf, n);
  R->outcome[n] = 0;
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
  R->status = status;
  _exit(0);
}

static int StackText(char* b, int cap, Thr* t) {
  int n = 0;
  uint32_t depth = t->nstack < 256 ? t->nstack : 256;
  for (uint32_t k = 0; k < 12 && k < depth; ++k) n += snprintf(b + n, cap - n, " pc:%p", t->stack[depth - 1 - k]);
  return n;
}

[[noreturn]] void Fail(const char* sig, const char* fmt, ...) {
  active = false;
  va_list ap;
  va_start(ap, fmt);
  snprintf(R->sig, sizeof R->sig, "%s", sig);
  int n = vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n > (int)sizeof R->msg - 1) n = sizeof R->msg - 1;
  for (int i = 0; i < MAXT; ++i)
    if (thr[i].used && n < (int)sizeof R->msg - 400) {
      n += snprintf(R->msg + n, sizeof R->msg - n, "\n  thread %d%s%s%s:", i, &thr[i] == self ? " (current)" : "", thr[i].finished ? " finished" : "",
                    thr[i].pred && thr[i].what ? thr[i].what : "");
      if (n < (int)sizeof R->msg - 400) n += StackText(R->msg + n, (int)sizeof R->msg - n, &thr[i]);
    }
  Dump("FAIL %s: %s\n", R->sig, R->msg);
  Finish(kViolation);
}
[[noreturn]] void EngineError(const char* fmt, ...) {
  active = false;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  Dump("ENGINE ERROR %s\n", R->msg);
  Finish(kEngineError);
}

static inline bool On() { return active && self && !self->finished && !in_rt; }
bool IsOn() { return On(); }

// ------------------------------------------------------------------ heap
static char* bump[64];
static char* bump_end[64];
static __thread int my_slot_plus1;  // 0 = main arena
static uint8_t* ShadowOf(const void* p) { return (uint8_t*)(SHADOW_BASE + (((uint64_t)p - ARENA_BASE) >> 4)); }
static bool InArena(const void* p) { return (uint64_t)p >= ARENA_BASE && (uint64_t)p < ARENA_BASE + 64 * ARENA_SIZE; }

static void* MapFixed(uint64_t addr, size_t size) {
  void* p = mmap((void*)addr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)addr) { const char m[] = "mcrt: mmap failed\n"; ssize_t r = write(2, m, sizeof m); (void)r; _exit(3); }
  return p;
}
// Outside of executions (explorer, static initialization) blocks are recycled through size-class free lists.
static void* freelist[48];
static int ClassOf(size_t n) { int c = 4; while (c < 47 && (1ull << c) < n) ++c; return c; }
static void* Alloc(size_t n, size_t align) {
  int s = my_slot_plus1 ? my_slot_plus1 - 1 : 0;
  if (!active && !self && s == 0 && align <= 16) {
    int c = ClassOf(n);
    if (freelist[c]) {
      void* p = freelist[c];
      freelist[c] = *(void**)p;
      ((uint64_t*)p)[-1] = 0xa110c8edull;
      ((uint64_t*)p)[-2] = n;
      return p;
    }
    n = 1ull << c;
  }
  if (!bump[s]) {
    char* a = (char*)MapFixed(ARENA_BASE + s * ARENA_SIZE, ARENA_SIZE);
    MapFixed(SHADOW_BASE + s * (ARENA_SIZE >> 4), ARENA_SIZE >> 4);
    bump[s] = a + 64;
    bump_end[s] = a + ARENA_SIZE;
  }
  if (align < 16) align = 16;
  uint64_t p = (uint64_t)bump[s] + 16;
  p = (p + align - 1) & ~(uint64_t)(align - 1);
  uint64_t e = (p + (n ? n : 1) + 15) & ~15ull;
  if (e + 64 > (uint64_t)bump_end[s]) { errno = ENOMEM; return nullptr; }
  ((uint64_t*)p)[-2] = n;
  ((uint64_t*)p)[-1] = 0xa110c8edull;
  ShadowOf((void*)(p - 16))[0] = 3;
  bump[s] = (char*)e;
  return (void*)p;
}
static void CheckAccess(const void* a, unsigned size, int flags, void* pc);
static void Free(void* p, void* pc) {
  if (!p || !InArena(p)) return;
  uint64_t* h = (uint64_t*)p - 2;
  if (On()) {
    if (h[1] == 0xf4eedull) Fail("double-free", "double free of %p (pc:%p)", p, pc);
    if (h[1] != 0xa110c8edull) Fail("bad-free", "free of %p which is not the start of a heap block (pc:%p)", p, pc);
    size_t n = h[0];
    size_t lim = n < 2048 ? n : 2048;
    if (g_race && cur && self) {
      for (size_t k = 0; k < lim; k += 8) CheckAccess((char*)p + k, lim - k < 8 ? lim - k : 8, 1 | 4, pc);
    }
    h[1] = 0xf4eedull;
    memset(ShadowOf(p), 2, (n + 15) / 16);
  } else if (!active && !self && h[1] == 0xa110c8edull) {
    // Only blocks whose capacity is known to be that of their class (n was rounded up at allocation or reuse).
    int c = ClassOf(h[0]);
    h[1] = 0xf4eedull;
    *(void**)p = freelist[c];
    freelist[c] = p;
  }
}

// ------------------------------------------------------------------ race detection
static Word* GetWord(uint64_t a) {
  uint64_t i = ((a >> 3) + mix(a >> 22)) & (NWORD - 1);
  while (words[i].a && words[i].a != a) i = (i + 1) & (NWORD - 1);
  if (!words[i].a) {
    if (++nwords > NWORD * 3 / 4) Finish(kHorizon);
    words[i].a = a;
  }
  return &words[i];
}
static const char* AccName(int f) { return (f & 4) ? "free" : (f & 2) ? ((f & 1) ? "atomic write" : "atomic read") : ((f & 1) ? "write" : "read"); }
static void CheckWord(uint64_t w, uint8_t mask, int flags, void* pc) {
  Word* e = GetWord(w);
  Thr* t = self;
  int freei = -1, repl = -1;
  for (int i = 0; i < NCELL; ++i) {
    Cell& c = e->c[i];
    if (!c.clk) { if (freei < 0) freei = i; continue; }
    bool hb = t->vc.c[c.tid] >= c.clk || c.tid == t->slot;
    if (c.tid == t->slot && (c.mask & ~mask) == 0 && (c.flags & 3) == (flags & 3)) repl = i;
    else if (hb && (c.mask & ~mask) == 0 && (flags & 1) && !(flags & 2) && repl < 0) repl = i;
    if (hb) continue;
    if (!(c.mask & mask)) continue;
    if (!((c.flags | flags) & 1)) continue;
    if ((c.flags & 2) && (flags & 2)) continue;
    Fail("data-race", "data race on %p: %s by thread %d at pc:%p is not ordered with %s by thread %d at pc:%p", (void*)w, AccName(flags), t->slot, pc,
         AccName(c.flags), c.tid, c.pc);
  }
  int k = repl >= 0 ? repl : freei;
  if (k < 0) {
    for (int i = 0; i < NCELL && k < 0; ++i) if (t->vc.c[e->c[i].tid] >= e->c[i].clk) k = i;
    if (k < 0) k = 0;
  }
  e->c[k] = Cell{t->vc.c[t->slot], (uint8_t)t->slot, mask, (uint8_t)flags, 0, pc};
}
static void CheckAccess(const void* a, unsigned size, int flags, void* pc) {
  uint64_t x = (uint64_t)a;
  if (InArena(a) && !(flags & 4)) {
    uint8_t s = *ShadowOf(a);
    if (s == 2) Fail("use-after-free", "%s of %u bytes at %p in freed memory (pc:%p)", AccName(flags), size, a, pc);
    if (s == 3) Fail("heap-overflow", "%s of %u bytes at %p outside of its heap block (pc:%p)", AccName(flags), size, a, pc);
  }
  if (!g_race) return;
  while (size) {
    uint64_t w = x & ~7ull;
    unsigned off = x & 7, n = 8 - off < size ? 8 - off : size;
    CheckWord(w, (uint8_t)(((1u << n) - 1) << off), flags, pc);
    x += n;
    size -= n;
  }
}

// ------------------------------------------------------------------ objects
static bool InSharedSet(uint64_t a, bool insert, bool frozen = false) {
  uint64_t* set = insert && !frozen ? shm->pending_set : shm->shared_set;
  uint64_t i = mix(a) & (SHSET - 1);
  for (int probe = 0; probe < SHSET; ++probe, i = (i + 1) & (SHSET - 1)) {
    uint64_t c = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
    if (c == a) return true;
    if (!c) {
      if (!insert) return false;
      if (__atomic_compare_exchange_n(&set[i], &c, a, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
        shm->dirty = 1;
        return false;
      }
      if (c == a) return true;
    }
  }
  return true;
}
static Obj* GetObj(const void* p) {
  uint64_t a = (uint64_t)p;
  uint64_t i = mix(a) & (NOBJ - 1);
  while (objs[i].addr && objs[i].addr != a) i = (i + 1) & (NOBJ - 1);
  Obj* o = &objs[i];
  if (!o->addr) {
    if (++nobjs > NOBJ * 3 / 4) EngineError("object table full");
    o->addr = a;
    o->shared = opts.all_shared || InSharedSet(a, false);
  }
  if (self) {
    if (!o->toucher) o->toucher = self->slot + 1;
    else if (o->toucher != self->slot + 1 && !o->shared) {
      InSharedSet(a, true);
    }
  }
  return o;
}
static void CheckAlive(const void* p, const char* what, void* pc) {
  if (InArena(p) && *ShadowOf(p) == 2) Fail("use-after-free", "%s on %p in freed memory (pc:%p)", what, p, pc);
}
// Operations on the objects not known to be shared are not visible steps. A loop of these alone, such as one that polls what
// another thread has yet to touch, is cut here; this touch, in another schedule, makes its objects shared.
static int since_point;
constexpr int kMaxSincePoint = 50000;
static void Event(Obj* o, int kind, bool write) {
  if (++since_point > kMaxSincePoint) Finish(kHorizon);
  Thr* t = self;
  t->points = 0;
  if (write) {
    t->hist = hcomb(hcomb(t->hist, o->addr * 16 + kind), hcomb(o->wlast, o->rsum));
    o->wlast = t->hist;
    o->rsum = 0;
  } else {
    t->hist = hcomb(hcomb(t->hist, o->addr * 16 + kind), o->wlast);
    o->rsum += mix(t->hist + 1);
  }
  total_hash += mix(t->hist);
}
static void LocalEvent(uint64_t what) {
  self->hist = hcomb(self->hist, what);
  self->points = 0;
  total_hash += mix(self->hist);
}
static void Acquire(Obj* o) { join(self->vc, o->vc); }
static void Release(Obj* o) { join(o->vc, self->vc); self->vc.c[self->slot]++; }

// ------------------------------------------------------------------ choices
static int Pick(int n, const uint8_t* costs, uint64_t key) {
  if (n <= 1) return 0;
  if (n > 14) EngineError("too many alternatives (%d)", n);
  int i = R->nchoices;
  if (i >= MAXCH) Finish(kHorizon);
  int k = 0;
  if (i < prefix_len) {
    k = prefix[i];
    if (k >= n) {
      int m = snprintf(R->msg, sizeof R->msg, "diverged at choice %d: %d of %d; prefix", i, k, n);
      for (int j = 0; j < prefix_len && m < 1000; ++j) m += snprintf(R->msg + m, sizeof R->msg - m, " %d", prefix[j]);
      Finish(kDiverged);
    }
  } else if (use_vis) {
    bool isnew = false;
    bool seen = VisitState(hcomb(key, 77), bound_ - cost_, &isnew);
    if (isnew) R->newstates++;
    if (seen) Finish(kPruned);
  }
  Choice& c = R->ch[i];
  c.chosen = (uint8_t)k;
  c.n = (uint8_t)n;
  memset(c.costs, 0, sizeof c.costs);
  if (costs) memcpy(c.costs, costs, n);
  R->nchoices = i + 1;
  cost_ += c.costs[k];
  return k;
}

static bool Ready(Thr* t) { return t->used && !t->finished && (!t->pred || t->pred(t->parg)); }
static bool CanTimeout(Thr* t) { return t->used && !t->finished && t->timed && !t->timed_out && t->pred && !t->pred(t->parg) && !(t->waitmutex && t->waitmutex->owner); }

static void RunOn(Thr* next) {
  Thr* me = self;
  cur = next;
  if (next == me) return;
  next->run_len = 0;
  __atomic_store_n(&next->fut, 1, __ATOMIC_RELEASE);
  futex(&next->fut, FUTEX_WAKE, 1);
  if (me->finished) return;
  while (!__atomic_load_n(&me->fut, __ATOMIC_ACQUIRE)) futex(&me->fut, FUTEX_WAIT, 0);
  me->fut = 0;
}

static void Deadlock() {
  char sig[200] = "deadlock";
  int n = (int)strlen(sig);
  std::vector<std::string>* w = nullptr;
  (void)w;
  const char* names[MAXT];
  int k = 0;
  for (int i = 0; i < MAXT; ++i) if (thr[i].used && !thr[i].finished) names[k++] = thr[i].what ? thr[i].what : "?";
  for (int i = 0; i < k; ++i) for (int j = i + 1; j < k; ++j) if (strcmp(names[i], names[j]) > 0) { const char* x = names[i]; names[i] = names[j]; names[j] = x; }
  for (int i = 0; i < k; ++i) n += snprintf(sig + n, sizeof sig - n, "%c%s", i ? ',' : '[', names[i]);
  snprintf(sig + n, sizeof sig - n, "]");
  Fail(sig, "no thread can make progress");
}

// The scheduler. The calling thread has set self->pred (nullptr = can run right away).
static void Schedule() {
  Thr* me = self;
  if (++R->steps > (uint32_t)opts.max_steps) {
    if (opts.horizon_is_violation) Fail("livelock", "execution exceeds %d steps", opts.max_steps);
    Finish(kHorizon);
  }
  while (true) {
    Thr* alt[MAXT * 2];
    bool tmo[MAXT * 2];
    uint8_t costs[16] = {0};
    int n = 0;
    bool me_ready = !me->finished && Ready(me);
    bool unfair = me_ready && (me->yielded || me->run_len > 1500);
    if (!me->yielded && me->points < 1000) ++me->points;
    if (me_ready && !unfair) { alt[n] = me; tmo[n++] = false; }
    for (int j = 0; j < MAXT; ++j) {
      // Delay bounding: the threads take turns when the current one can't go on, and being out of turn is a deviation as well.
      const int i = delay ? (me->slot + 1 + j) % MAXT : j;
      if (&thr[i] != me && Ready(&thr[i])) { alt[n] = &thr[i]; tmo[n] = false; if (n < 16) costs[n] = (me_ready && !unfair) || (delay && n) ? 1 : 0; ++n; }
    }
    if (unfair) { alt[n] = me; if (delay && n && n < 16) costs[n] = 1; tmo[n++] = false; if (n > 1 && !me->yielded) n = 1; }
    me->yielded = false;
    if (!n) {
      Thr* best = nullptr;
      for (int i = 0; i < MAXT; ++i) if (CanTimeout(&thr[i]) && (!best || thr[i].deadline < best->deadline)) best = &thr[i];
      if (!best) {
        bool any = false;
        for (int i = 0; i < MAXT; ++i) if (thr[i].used && !thr[i].finished) any = true;
        if (!any) Finish(kOk);
        Deadlock();
      }
      best->timed_out = true;
      if (best->deadline > vclock) vclock = best->deadline;
      total_hash += mix(best->name + 0x7157 + R->steps);
      best->hist = hcomb(best->hist, 0x7157);
      continue;
    }
    if (opts.timeouts_anytime)
      for (int i = 0; i < MAXT; ++i)
        if (CanTimeout(&thr[i]) && n < 14) { alt[n] = &thr[i]; tmo[n] = true; costs[n] = 1; ++n; }
    // Canonical key: happens-before state + who is running (switching away from it costs).
    int k = Pick(n, costs, hcomb(total_hash, me_ready && !unfair ? hcomb(me->name, me->points) : delay ? hcomb(me->name, 0xde1a) : 1));
    if (verbose && n > 1) Dump("[%u] t%d at %s (%d alternatives) -> t%d%s\n", R->steps, me->slot, me->what ? me->what : "-", n, alt[k]->slot, tmo[k] ? " (timeout)" : "");
    Thr* nx = alt[k];
    if (tmo[k]) {
      nx->timed_out = true;
      nx->hist = hcomb(nx->hist, 0x7157);
      total_hash += mix(nx->name + 0x7157);
      if (nx->deadline > vclock) vclock = nx->deadline;
    }
    if (nx == me) me->run_len++;
    RunOn(nx);
    return;
  }
}

// A visible operation by the current thread: wait until `pred` and get scheduled.
static void Point(const char* what, bool (*pred)(void*), void* arg) {
  Thr* me = self;
  me->what = what;
  me->pred = pred;
  me->parg = arg;
  shm->points++;
  since_point = 0;
  Schedule();
  me->pred = nullptr;
}
static void PointObj(Obj* o, const char* what) {
  if (o->shared) Point(what, nullptr, nullptr);
}

// generic blocking with optional timeout; returns false on timeout
struct TP { bool (*pred)(void*); void* arg; Thr* t; };
static bool TPred(void* a) { TP* p = (TP*)a; return p->t->timed_out || p->pred(p->arg); }
static bool Never(void*) { return false; }
bool BlockTimed(const char* what, bool (*pred)(void*), void* arg, int64_t timeout_ns) {
  Thr* me = self;
  TP tp{pred, arg, me};
  me->timed = true;
  me->timed_out = false;
  me->deadline = vclock + (timeout_ns > 0 ? timeout_ns : 0);
  me->waitmutex = nullptr;
  Point(what, TPred, &tp);
  me->timed = false;
  bool r = !me->timed_out || pred(arg);
  me->timed_out = false;
  return r;
}
void Block(const char* what, bool (*pred)(void*), void* arg) { Point(what, pred, arg); }
void ObjOp(void* p, const char* what, bool write, bool acq, bool rel) {
  Obj* o = GetObj(p);
  PointObj(o, what);
  if (acq) Acquire(o);
  Event(o, 9, write);
  if (rel) Release(o);
}
void In(int d) { in_rt += d; }
void ObjEvent(void* p, bool write, bool acq, bool rel) {
  Obj* o = GetObj(p);
  if (acq) Acquire(o);
  Event(o, 9, write);
  if (rel) Release(o);
}

// ------------------------------------------------------------------ threads
static int SlotFor(uint64_t name) {
  Lock();
  int n = shm->nslots;
  int s = -1;
  for (int i = 0; i < n; ++i) if (shm->slot_names[i] == name) s = i;
  if (s < 0 && n < MAXT) { s = n; shm->slot_names[n] = name; shm->nslots = n + 1; }
  Unlock();
  if (s < 0) EngineError("too many threads");
  return s;
}
static void InitThr(Thr* t, int slot, uint64_t name) {
  memset((void*)t, 0, sizeof *t);
  t->used = true;
  t->slot = slot;
  t->name = name;
  t->hist = mix(name);
  t->vc.c[slot] = 1;
}
static void ThreadEnd(Thr* t) {
  // All thread_local destructors have run by now.
  LocalEvent(0xdead);
  Obj* o = GetObj(t);
  Release(o);
  t->finished = true;
  t->pred = nullptr;
  Schedule();
}
static void FinKey(void* p) {
  Thr* t = (Thr*)p;
  if (active && t == self && !t->finished) ThreadEnd(t);
}
static void* Trampoline(void* p) {
  Thr* t = (Thr*)p;
  self = t;
  my_slot_plus1 = t->slot + 1;
  pthread_setspecific(fin_key, t);
  while (!__atomic_load_n(&t->fut, __ATOMIC_ACQUIRE)) futex(&t->fut, FUTEX_WAIT, 0);
  t->fut = 0;
  t->retval = t->start(t->arg);
  return t->retval;
}
static bool PredFinished(void* a) { return ((Thr*)a)->finished; }
static bool PredAllOthersFinished(void* a) {
  for (int i = 0; i < MAXT; ++i) if (thr[i].used && &thr[i] != a && !thr[i].finished) return false;
  return true;
}

// ------------------------------------------------------------------ mutex / cond
static bool PredMutex(void* a) { return ((Obj*)a)->owner == nullptr; }
static bool Recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void MutexLock(pthread_mutex_t* m, void* pc) {
  CheckAlive(m, "mutex lock", pc);
  Obj* o = GetObj(m);
  if (o->owner == self && Recursive(m)) { o->count++; return; }
  if (o->shared || o->owner) Point("mutex_lock", PredMutex, o);
  CheckAlive(m, "mutex lock", pc);
  o->owner = self;
  o->count = 1;
  Acquire(o);
  Event(o, 1, true);
}
static void MutexUnlock(pthread_mutex_t* m, void* pc) {
  CheckAlive(m, "mutex unlock", pc);
  Obj* o = GetObj(m);
  if (o->owner != self) Fail("mutex-misuse", "unlock of a mutex the thread does not hold (pc:%p)", pc);
  if (--o->count) return;
  Event(o, 2, true);
  Release(o);
  o->owner = nullptr;
}
struct CW { Thr* t; Obj* m; };
static bool PredCond(void* a) { CW* c = (CW*)a; return (c->t->signaled || c->t->timed_out) && c->m->owner == nullptr; }
static void RemoveWaiter(Obj* c, Thr* t) {
  for (int i = 0; i < c->nw; ++i) if (c->waiters[i] == t) { memmove(&c->waiters[i], &c->waiters[i + 1], sizeof(Thr*) * (c->nw - i - 1)); c->nw--; return; }
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t timeout_ns /* -1: none */, void* pc) {
  CheckAlive(c, "condition wait", pc);
  Obj* co = GetObj(c);
  Obj* mo = GetObj(m);
  if (mo->owner != self) Fail("mutex-misuse", "condition wait without holding the mutex (pc:%p)", pc);
  if (co->destroyed) Fail("cond-destroyed", "wait on a destroyed condition variable (pc:%p)", pc);
  if (co->shared) Point("cond_wait_enter", nullptr, nullptr);
  Thr* me = self;
  if (opts.spurious) {
    static const uint8_t cs[2] = {0, 1};
    if (Pick(2, cs, hcomb(total_hash, me->name ^ 0x59))) {
      // spurious wakeup: unlock, let others run, relock
      int cnt = mo->count; Event(mo, 2, true); Release(mo); mo->owner = nullptr; mo->count = 0;
      Point("spurious_wakeup", PredMutex, mo);
      mo->owner = me; mo->count = cnt; Acquire(mo); Event(mo, 1, true);
      return 0;
    }
  }
  Event(co, 3, true);
  int cnt = mo->count;
  mo->count = 0;
  Event(mo, 2, true);
  Release(mo);
  mo->owner = nullptr;
  me->signaled = false;
  me->timed_out = false;
  me->timed = timeout_ns >= 0;
  me->deadline = vclock + (timeout_ns > 0 ? timeout_ns : 0);
  me->waitcond = co;
  me->waitmutex = mo;
  co->waiters[co->nw++] = me;
  CW cw{me, mo};
  Point(timeout_ns >= 0 ? "cond_timedwait" : "cond_wait", PredCond, &cw);
  me->timed = false;
  me->waitcond = nullptr;
  me->waitmutex = nullptr;
  CheckAlive(c, "condition wait", pc);
  CheckAlive(m, "mutex relock", pc);
  bool to = me->timed_out && !me->signaled;
  me->timed_out = false;
  if (!me->signaled) RemoveWaiter(co, me);
  else Acquire(co);
  me->signaled = false;
  mo->owner = me;
  mo->count = cnt;
  Acquire(mo);
  Event(co, 4, true);
  Event(mo, 1, true);
  return to ? ETIMEDOUT : 0;
}
static void CondSignal(pthread_cond_t* c, bool all, void* pc) {
  CheckAlive(c, "condition notify", pc);
  Obj* o = GetObj(c);
  if (o->shared || o->nw) Point("cond_notify", nullptr, nullptr);
  CheckAlive(c, "condition notify", pc);
  if (o->destroyed) Fail("cond-destroyed", "notify on a destroyed condition variable (pc:%p)", pc);
  Event(o, 5, true);
  Release(o);
  if (all) {
    for (int i = 0; i < o->nw; ++i) o->waiters[i]->signaled = true;
    o->nw = 0;
  } else if (o->nw) {
    int k = o->nw > 1 ? Pick(o->nw, nullptr, hcomb(total_hash, 0x516)) : 0;
    LocalEvent(k);
    o->waiters[k]->signaled = true;
    RemoveWaiter(o, o->waiters[k]);
  }
}

// ------------------------------------------------------------------ clock
static int64_t ReadClock() {
  Obj* o = GetObj(&clock_obj_dummy);
  PointObj(o, "clock");
  Event(o, 6, true);
  if (opts.clock_choice) {
    int k = Pick(2, nullptr, hcomb(total_hash, 0xc10c));
    LocalEvent(k);
    vclock += k * 1000;
  } else {
    vclock += 1000;
  }
  return vclock;
}

// ------------------------------------------------------------------ execution of one schedule (in the child)
static void OnSignal(int sig, siginfo_t* si, void*) {
  if (sig == SIGPROF || sig == SIGALRM) { R->status = kTimeout; _exit(0); }
  char s[64];
  active = false;
  if (InArena(si->si_addr) && sig == SIGSEGV) {}
  snprintf(s, sizeof s, "%s", sig == SIGSEGV ? "crash-SIGSEGV" : sig == SIGABRT ? "crash-abort" : sig == SIGBUS ? "crash-SIGBUS" : sig == SIGFPE ? "crash-SIGFPE" : "crash");
  Fail(s, "signal %d, address %p", sig, si->si_addr);
}
struct Scenario { const char* name; mc::body_t f; mc::Opts o; };
static Scenario scen[128] = {};  // (Constant initialization: the scenarios register themselves from constructors.)
static int nscen;

static void RunChild(Scenario& sc) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = OnSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  static char altstack[65536];
  stack_t ss;
  ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGALRM}) sigaction(s, &sa, nullptr);
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = 20;
  setitimer(ITIMER_PROF, &it, nullptr);
  it.it_value.tv_sec = 240;
  setitimer(ITIMER_REAL, &it, nullptr);
  if (!verbose) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    dup2(fd, 1);
  }
  opts = sc.o;
  g_race = sc.o.races;
  R->status = kNone;
  R->nchoices = 0;
  R->steps = 0;
  R->newstates = 0;
  R->sig[0] = R->msg[0] = 0;
  outcome_len = 0;
  cost_ = 0;
  total_hash = 0;
  vclock = 1500000000ll * 1000000000ll;
  ::mc::stamp_counter = 0;
  InitThr(&thr[0], 0, 1);
  self = &thr[0];
  cur = self;
  // Executions allocate from a fixed address on, whatever the explorer process has allocated before.
  if ((uint64_t)bump[0] > ARENA_BASE + ARENA_SIZE / 2) EngineError("explorer heap too big");
  bump[0] = (char*)(ARENA_BASE + ARENA_SIZE / 2);
  __libc_single_threaded = 0;
  active = true;
  sc.f();
  LocalEvent(0xe0d);
  self->what = "main_end";
  Point("main_waits_for_remaining_threads", PredAllOthersFinished, self);
  active = false;
  Finish(kOk);
}

// ------------------------------------------------------------------ explorer
static int wid;
static double t_limit;
static double Now() {
  struct timespec ts;
  real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static int Execute(Scenario& sc, const std::vector<uint8_t>& pre, int bound, bool vis_on, int slot, bool verb) {
  R = &shm->res[slot];
  R->status = kNone;
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prefix = pre.data();
    prefix_len = (int)pre.size();
    bound_ = bound;
    use_vis = vis_on;
    verbose = verb;
    RunChild(sc);
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == kNone) {
    if (WIFSIGNALED(st)) {
      snprintf(R->sig, sizeof R->sig, "crash-signal-%d", WTERMSIG(st));
      snprintf(R->msg, sizeof R->msg, "the execution was killed by signal %d", WTERMSIG(st));
      R->status = WTERMSIG(st) == SIGKILL ? kTimeout : kViolation;
    } else {
      snprintf(R->sig, sizeof R->sig, "exit-%d", WEXITSTATUS(st));
      snprintf(R->msg, sizeof R->msg, "the execution called exit(%d)", WEXITSTATUS(st));
      R->status = kViolation;
    }
  }
  return R->status;
}

static std::vector<std::string> known;
static std::set<uint64_t> seen_out;

static bool IsKnown(const std::string& s) {
  for (auto& k : known) if (k == s) return true;
  return false;
}

static void RecordViolation(Scenario& sc, int bound) {
  std::string full = std::string(sc.name) + ":" + R->sig;
  Lock();
  for (int i = 0; i < shm->nviol; ++i) if (!strcmp(shm->viol[i].sig, full.c_str())) { Unlock(); return; }
  Unlock();
  // Replay before report.
  std::vector<uint8_t> c;
  std::string msg = R->msg;
  for (int i = 0; i < R->nchoices; ++i) c.push_back(R->ch[i].chosen);
  std::string sig0 = R->sig;
  int unstable = 0;
  Execute(sc, c, 1000, false, wid, false);
  if (R->status != kViolation || sig0 != R->sig) unstable = 1;
  Lock();
  for (int i = 0; i < shm->nviol; ++i) if (!strcmp(shm->viol[i].sig, full.c_str())) { Unlock(); return; }
  if (shm->nviol < MAXVIOL) {
    Viol& v = shm->viol[shm->nviol];
    snprintf(v.sig, sizeof v.sig, "%s", full.c_str());
    snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
    v.nch = (int)c.size();
    memcpy(v.ch, c.data(), c.size());
    v.bound = bound;
    v.known = IsKnown(full);
    v.unstable = unstable;
    if (unstable) {
      snprintf(shm->errmsg, sizeof shm->errmsg, "violation %s did not replay: got status %d %s", full.c_str(), R->status, R->sig);
      shm->engine_errors++;
    } else if (!v.known) {
      shm->unknown_viol++;
    }
    shm->nviol++;
  }
  Unlock();
}

static void WorkerLoop(Scenario& sc, int bound) {
  std::vector<std::vector<uint8_t>> st;
  double last_q = 0;
  (void)last_q;
  while (!shm->stop) {
    if (st.empty()) {
      Lock();
      if (shm->qn > 0) {
        QItem& q = shm->q[--shm->qn];
        st.emplace_back(q.c, q.c + q.len);
      }
      Unlock();
      if (st.empty()) {
        if (shm->pending == 0) return;
        usleep(300);
        continue;
      }
    }
    if (shm->qn < 32 && st.size() > 8) {
      Lock();
      size_t give = st.size() / 2;
      size_t g = 0;
      while (g < give && shm->qn < QCAP && g < 32) {
        QItem& q = shm->q[shm->qn++];
        q.len = (int)st[g].size();
        memcpy(q.c, st[g].data(), st[g].size());
        ++g;
      }
      Unlock();
      st.erase(st.begin(), st.begin() + g);
    }
    std::vector<uint8_t> pre = std::move(st.back());
    st.pop_back();
    int status = Execute(sc, pre, bound, true, wid, false);
    int64_t ex = __atomic_add_fetch(&shm->executions, 1, __ATOMIC_RELAXED);
    (void)ex;
    __atomic_fetch_add(&shm->steps, R->steps, __ATOMIC_RELAXED);
    __atomic_fetch_add(&shm->states, R->newstates, __ATOMIC_RELAXED);
    if (R->nchoices > shm->maxchoices) shm->maxchoices = R->nchoices;
    int nch = R->nchoices;
    std::vector<Choice> ch(R->ch, R->ch + nch);
    if (status == kOk || status == kHorizon) {
      if (seen_out.insert(R->outcome_hash).second) {
        Lock();
        uint64_t i = mix(R->outcome_hash) % OUTCAP;
        int probes = 0;
        uint64_t h = R->outcome_hash ? R->outcome_hash : 1;
        while (shm->outcomes[i] && shm->outcomes[i] != h && probes++ < OUTCAP) i = (i + 1) % OUTCAP;
        if (!shm->outcomes[i]) {
          shm->outcomes[i] = h;
          shm->noutcomes++;
          if (shm->nsamples < 8) snprintf(shm->outcome_samples[shm->nsamples++], 512, "%.500s", R->outcome);
        }
        Unlock();
      }
    }
    if (status == kHorizon) __atomic_fetch_add(&shm->horizons, 1, __ATOMIC_RELAXED);
    if (status == kPruned) __atomic_fetch_add(&shm->pruned, 1, __ATOMIC_RELAXED);
    if (status == kTimeout) {
      // Re-run alone with the full choice list before calling it anything.
      std::vector<uint8_t> c;
      for (auto& x : ch) c.push_back(x.chosen);
      if (Execute(sc, c, 1000, false, wid, false) == kTimeout) {
        snprintf(R->sig, sizeof R->sig, "hang");
        snprintf(R->msg, sizeof R->msg, "the execution does not finish and makes no visible step (endless loop)");
        // Record directly: the replay above already confirmed it.
        std::string full = std::string(sc.name) + ":hang";
        Lock();
        bool dup = false;
        for (int i = 0; i < shm->nviol; ++i) if (!strcmp(shm->viol[i].sig, full.c_str())) dup = true;
        if (!dup && shm->nviol < MAXVIOL) {
          Viol& v = shm->viol[shm->nviol];
          snprintf(v.sig, sizeof v.sig, "%s", full.c_str());
          snprintf(v.msg, sizeof v.msg, "%s", R->msg);
          v.nch = (int)c.size();
          memcpy(v.ch, c.data(), c.size());
          v.bound = bound;
          v.known = IsKnown(full);
          v.unstable = 0;
          if (!v.known) shm->unknown_viol++;
          shm->nviol++;
        }
        Unlock();
      } else {
        __atomic_fetch_add(&shm->timeouts, 1, __ATOMIC_RELAXED);
      }
    }
    if (status == kDiverged || status == kEngineError) {
      Lock();
      shm->engine_errors++;
      if (!shm->errmsg[0]) snprintf(shm->errmsg, sizeof shm->errmsg, "%s: %.1500s", sc.name, R->msg);
      shm->stop = 1;
      Unlock();
      break;
    }
    if (status == kViolation) RecordViolation(sc, bound);
    // Expand.
    int64_t added = 0;
    int cost = 0;
    for (size_t i = 0; i < (size_t)nch; ++i) {
      if (i >= pre.size()) {
        for (int alt = ch[i].n - 1; alt >= 1; --alt) {
          if (cost + ch[i].costs[alt] > bound) continue;
          std::vector<uint8_t> np;
          np.reserve(i + 1);
          for (size_t j = 0; j < i; ++j) np.push_back(ch[j].chosen);
          np.push_back((uint8_t)alt);
          st.push_back(std::move(np));
          ++added;
        }
      }
      cost += ch[i].costs[ch[i].chosen];
    }
    __atomic_fetch_add(&shm->pending, added - 1, __ATOMIC_SEQ_CST);
    if (shm->unknown_viol) shm->stop = 1;
    double t = Now();
    if (shm->dirty && shm->dirty_at == 0) shm->dirty_at = t;
    if (shm->dirty && t - shm->dirty_at > 0.5) shm->stop = 1;
    if (t > t_limit) shm->stop = 1;
  }
}

static std::string JsonEsc(const char* s) {
  std::string o;
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

}  // namespace rt

using namespace rt;

// ==================================================================== public API
namespace mc {
void RegisterScenario(const char* name, body_t f, Opts o) { scen[nscen++] = Scenario{name, f, o}; }
void Violation(const std::string& sig, const std::string& msg) {
  if (!self) { fprintf(stderr, "Violation outside of a scenario: %s %s\n", sig.c_str(), msg.c_str()); abort(); }
  Fail(sig.c_str(), "%s", msg.c_str());
}
void Done() {
  if (!On()) { fprintf(stderr, "Done outside of a scenario\n"); abort(); }
  active = false;
  Finish(kOk);
}
int Choose(int n) {
  if (!On() || n <= 1) return 0;
  int k = 0;
  // Split big domains into a tree of small choices.
  if (n > 14) {
    int hi = Choose((n + 13) / 14);
    int lo = Choose(std::min(14, n - hi * 14));
    return hi * 14 + lo;
  }
  k = Pick(n, nullptr, hcomb(total_hash, hcomb(self->name, 0xda7a)));
  LocalEvent(0x1000 + k);
  return k;
}
int ChooseDeviation(int n) {
  if (!On() || n <= 1) return 0;
  static const uint8_t costs[14] = {0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1};
  int k = Pick(n, costs, hcomb(total_hash, hcomb(self->name, 0xda7b)));
  LocalEvent(0x2000 + k);
  return k;
}
void Observe(const std::string& s) {
  for (char c : s) if (outcome_len < (int)sizeof outcome_buf) outcome_buf[outcome_len++] = c;
}
void Yield() { if (On()) { self->yielded = true; Point("yield", nullptr, nullptr); } }
int64_t VirtualNowNs() { return vclock; }
void AdvanceClockNs(int64_t d) { vclock += d; if (On()) { Obj* o = GetObj(&clock_obj_dummy); Event(o, 6, true); } }
bool Active() { return On(); }
// User predicates are evaluated by the scheduler with instrumentation off (in whatever thread runs the scheduler), and
// once more, instrumented, by the waiting thread itself: that is where its happens-before edges come from.
struct UP { bool (*pred)(void*); void* arg; };
static bool UPred(void* a) {
  UP* u = (UP*)a;
  in_rt++;
  bool r = u->pred(u->arg);
  in_rt--;
  return r;
}
void BlockUntil(bool (*pred)(void*), void* arg, const char* what) {
  UP u{pred, arg};
  if (On()) do { Block(what, UPred, &u); } while (!pred(arg));
}
bool BlockUntilTimed(bool (*pred)(void*), void* arg, const char* what, int64_t ns) {
  UP u{pred, arg};
  if (!On()) return true;
  return BlockTimed(what, UPred, &u, ns) && pred(arg);
}
void VisibleOp(void* obj, const char* what, bool write) { if (On()) ObjOp(obj, what, write, true, true); }
static int stamp_obj_dummy;

int Stamp() {
  if (On()) ObjOp(&stamp_obj_dummy, "stamp", true, false, false);
  return ++stamp_counter;
}
void AcquireFrom(void* obj) { if (On()) Acquire(GetObj(obj)); }
void ReleaseTo(void* obj) { if (On()) Release(GetObj(obj)); }
}  // namespace mc

// ==================================================================== interposition
#define PC __builtin_return_address(0)
static void ResolveReal() {
  if (!real_pthread_create) {
    real_pthread_join = (decltype(real_pthread_join))dlsym(RTLD_NEXT, "pthread_join");
    real_pthread_detach = (decltype(real_pthread_detach))dlsym(RTLD_NEXT, "pthread_detach");
    real_clock_gettime = (decltype(real_clock_gettime))dlsym(RTLD_NEXT, "clock_gettime");
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  }
}

extern "C" {
void* malloc(size_t n) { return Alloc(n, 16); }
void free(void* p) { Free(p, PC); }
void* calloc(size_t a, size_t b) { void* p = Alloc(a * b, 16); if (p && !active) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) {
  if (!p) return Alloc(n, 16);
  void* q = Alloc(n, 16);
  size_t old = ((uint64_t*)p)[-2];
  memcpy(q, p, old < n ? old : n);
  Free(p, PC);
  return q;
}
void* memalign(size_t a, size_t n) { return Alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return Alloc(n, a); }
int posix_memalign(void** out, size_t a, size_t n) { *out = Alloc(n, a); return 0; }
size_t malloc_usable_size(void* p) { return p ? ((uint64_t*)p)[-2] : 0; }

int pthread_mutex_lock(pthread_mutex_t* m) { if (On()) MutexLock(m, PC); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (On()) MutexUnlock(m, PC); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!On()) return 0;
  Obj* o = GetObj(m);
  if (o->owner == self && Recursive(m)) { o->count++; return 0; }
  Point("mutex_trylock", nullptr, nullptr);
  if (o->owner) { Event(o, 7, false); return EBUSY; }
  o->owner = self;
  o->count = 1;
  Acquire(o);
  Event(o, 1, true);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (On()) { Obj* o = GetObj(m); if (o->owner) Fail("mutex-misuse", "destruction of a locked mutex (pc:%p)", PC); }
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return On() ? CondWait(c, m, -1, PC) : 0; }
static int64_t AbsToRel(const struct timespec* ts) {
  int64_t d = ts->tv_sec * 1000000000ll + ts->tv_nsec - vclock;
  return d > 0 ? d : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return On() ? CondWait(c, m, AbsToRel(ts), PC) : 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return On() ? CondWait(c, m, AbsToRel(ts), PC) : 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (On()) CondSignal(c, false, PC); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (On()) CondSignal(c, true, PC); return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { if (On()) { Obj* o = GetObj(c); o->destroyed = false; o->nw = 0; } return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (On()) {
    Obj* o = GetObj(c);
    if (o->nw) Fail("cond-destroyed", "destruction of a condition variable with waiters (pc:%p)", PC);
    o->destroyed = true;
  }
  return 0;
}
int pthread_once(pthread_once_t* once, void (*f)(void)) {
  if (!On()) { if (!*once) { *once = 2; f(); } return 0; }
  Obj* o = GetObj(once);
  Point("once", PredMutex, o);
  if (*once == 2) { Acquire(o); Event(o, 7, false); return 0; }
  o->owner = self;
  f();
  *once = 2;
  o->owner = nullptr;
  Event(o, 2, true);
  Release(o);
  return 0;
}
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*f)(void*), void* arg) {
  ResolveReal();
  if (!On()) return real_pthread_create(out, attr, f, arg);
  uint64_t name = hcomb(self->name, 1000 + self->nchildren++);
  int slot = SlotFor(name);
  Thr* t = &thr[slot];
  if (t->used) EngineError("thread slot reused");
  InitThr(t, slot, name);
  join(t->vc, self->vc);
  self->vc.c[self->slot]++;
  t->start = f;
  t->arg = arg;
  t->hist = hcomb(self->hist, name);
  LocalEvent(name);
  int detach = PTHREAD_CREATE_JOINABLE;
  if (attr) pthread_attr_getdetachstate(attr, &detach);
  t->detached = detach == PTHREAD_CREATE_DETACHED;
  in_rt++;
  pthread_attr_t a;
  pthread_attr_init(&a);
  void* stk = (void*)(STACK_BASE + slot * STACK_SIZE);
  MapFixed((uint64_t)stk, STACK_SIZE);
  pthread_attr_setstack(&a, stk, STACK_SIZE);
  int r = real_pthread_create(&t->real, &a, Trampoline, t);
  in_rt--;
  if (r) EngineError("pthread_create failed: %d", r);
  *out = t->real;
  Point("thread_create", nullptr, nullptr);
  return 0;
}
static Thr* FindThr(pthread_t p) {
  for (int i = 0; i < MAXT; ++i) if (thr[i].used && thr[i].real == p && i) return &thr[i];
  return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
  ResolveReal();
  if (!On()) return real_pthread_join(p, ret);
  Thr* t = FindThr(p);
  if (!t) EngineError("join of an unknown thread");
  if (t == self) return EDEADLK;
  Point("thread_join", PredFinished, t);
  Obj* o = GetObj(t);
  Acquire(o);
  Event(o, 8, true);
  LocalEvent(t->hist);
  if (ret) *ret = t->retval;
  in_rt++;
  real_pthread_join(p, nullptr);
  in_rt--;
  return 0;
}
int pthread_detach(pthread_t p) {
  ResolveReal();
  if (!On()) return real_pthread_detach(p);
  Thr* t = FindThr(p);
  if (t) t->detached = true;
  return 0;
}
int sched_yield(void) { if (On()) mc::Yield(); else syscall(SYS_sched_yield); return 0; }
static void SleepNs(int64_t ns) { BlockTimed("sleep", Never, nullptr, ns); Obj* o = GetObj(&clock_obj_dummy); Event(o, 6, true); }
int nanosleep(const struct timespec* a, struct timespec*) {
  if (!On()) { struct timespec r; return (int)syscall(SYS_nanosleep, a, &r); }
  SleepNs(a->tv_sec * 1000000000ll + a->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* a, struct timespec*) {
  if (!On()) { struct timespec r; return (int)syscall(SYS_nanosleep, a, &r); }
  int64_t v = a->tv_sec * 1000000000ll + a->tv_nsec;
  if (flags & TIMER_ABSTIME) v -= vclock;
  SleepNs(v);
  return 0;
}
int usleep(useconds_t us) {
  struct timespec a{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&a, nullptr);
}
unsigned sleep(unsigned s) {
  struct timespec a{(time_t)s, 0};
  nanosleep(&a, nullptr);
  return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!On() || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) { ResolveReal(); return real_clock_gettime(id, ts); }
  int64_t v = ReadClock();
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  time_t v;
  if (On()) v = vclock / 1000000000ll;
  else { struct timespec ts; ResolveReal(); real_clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  if (t) *t = v;
  return v;
}

// C++ function-local statics.
int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  if (b[0]) { if (On()) Acquire(GetObj(g)); return 0; }
  if (!On()) { b[1] = 1; return 1; }
  Obj* o = GetObj(g);
  Point("static_guard", PredMutex, o);
  if (b[0]) { Acquire(o); Event(o, 7, false); return 0; }
  o->owner = self;
  Event(o, 1, true);
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  volatile uint8_t* b = (volatile uint8_t*)g;
  b[0] = 1;
  if (On()) { Obj* o = GetObj(g); o->owner = nullptr; Event(o, 2, true); Release(o); }
}
void __cxa_guard_abort(uint64_t* g) {
  if (On()) { Obj* o = GetObj(g); o->owner = nullptr; Event(o, 2, true); Release(o); }
}
// condition_variable is constructed and destroyed out of line in libstdc++.
void _ZNSt18condition_variableC1Ev(pthread_cond_t* c) { memset((void*)c, 0, sizeof *c); if (On()) { Obj* o = GetObj(c); o->destroyed = false; o->nw = 0; } }
void _ZNSt18condition_variableC2Ev(pthread_cond_t* c) { _ZNSt18condition_variableC1Ev(c); }
void _ZNSt18condition_variableD1Ev(pthread_cond_t* c) {
  if (On()) {
    CheckAlive(c, "condition variable destruction", PC);
    Obj* o = GetObj(c);
    PointObj(o, "cond_destroy");
    if (o->nw) Fail("cond-destroyed", "destruction of a condition variable with waiters (pc:%p)", PC);
    Event(o, 5, true);
    o->destroyed = true;
  }
}
void _ZNSt18condition_variableD2Ev(pthread_cond_t* c) { _ZNSt18condition_variableD1Ev(c); }
// std::future waits on a futex word through these two.
struct FutW { unsigned* a; unsigned v; };
static bool PredFut(void* p) { FutW* w = (FutW*)p; return *(volatile unsigned*)w->a != w->v; }
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* addr, unsigned val, bool has_timeout, int64_t s, int64_t ns) {
  FutW w{addr, val};
  if (!On()) return true;
  if (!has_timeout) { Block("future_wait", PredFut, &w); return true; }
  return BlockTimed("future_timedwait", PredFut, &w, s * 1000000000ll + ns - vclock);
}
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void* t, unsigned* addr, unsigned val, bool has_timeout, int64_t s, int64_t ns) {
  return _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(t, addr, val, has_timeout, s, ns);
}
void _ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(void*, unsigned*) {}

// ------------------------------------------------------------------ tsan entry points
void __tsan_init() {}
void __tsan_func_entry(void* pc) { Thr* t = self; if (t && active) { if (t->nstack < 256) t->stack[t->nstack] = pc; t->nstack++; } }
void __tsan_func_exit() { Thr* t = self; if (t && active && t->nstack) t->nstack--; }
#define ACC(n, f) { if (On()) CheckAccess(p, n, f, PC); }
void __tsan_read1(void* p) ACC(1, 0)
void __tsan_read2(void* p) ACC(2, 0)
void __tsan_read4(void* p) ACC(4, 0)
void __tsan_read8(void* p) ACC(8, 0)
void __tsan_read16(void* p) ACC(16, 0)
void __tsan_write1(void* p) ACC(1, 1)
void __tsan_write2(void* p) ACC(2, 1)
void __tsan_write4(void* p) ACC(4, 1)
void __tsan_write8(void* p) ACC(8, 1)
void __tsan_write16(void* p) ACC(16, 1)
void __tsan_unaligned_read2(void* p) ACC(2, 0)
void __tsan_unaligned_read4(void* p) ACC(4, 0)
void __tsan_unaligned_read8(void* p) ACC(8, 0)
void __tsan_unaligned_read16(void* p) ACC(16, 0)
void __tsan_unaligned_write2(void* p) ACC(2, 1)
void __tsan_unaligned_write4(void* p) ACC(4, 1)
void __tsan_unaligned_write8(void* p) ACC(8, 1)
void __tsan_unaligned_write16(void* p) ACC(16, 1)
void __tsan_volatile_read1(void* p) ACC(1, 2)
void __tsan_volatile_read2(void* p) ACC(2, 2)
void __tsan_volatile_read4(void* p) ACC(4, 2)
void __tsan_volatile_read8(void* p) ACC(8, 2)
void __tsan_volatile_write1(void* p) ACC(1, 3)
void __tsan_volatile_write2(void* p) ACC(2, 3)
void __tsan_volatile_write4(void* p) ACC(4, 3)
void __tsan_volatile_write8(void* p) ACC(8, 3)
void __tsan_read_range(void* p, unsigned long n) ACC((unsigned)(n > 4096 ? 4096 : n), 0)
void __tsan_write_range(void* p, unsigned long n) ACC((unsigned)(n > 4096 ? 4096 : n), 1)
void __tsan_vptr_read(void* p) ACC(8, 0)
void __tsan_vptr_update(void** p, void* v) { if (On() && *p != v) CheckAccess(p, 8, 1, PC); }

static inline bool IsAcq(int mo) { mo &= 7; return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool IsRel(int mo) { mo &= 7; return mo == 3 || mo == 4 || mo == 5; }
}
template <class T, class F>
static T AtomicRMW(volatile T* p, int mo, void* pc, F f) {
  if (!On()) return f();
  CheckAccess((void*)p, sizeof(T), 3, pc);
  Obj* o = GetObj((void*)p);
  PointObj(o, "atomic_rmw");
  CheckAlive((void*)p, "atomic operation", pc);
  if (IsAcq(mo)) Acquire(o);
  Event(o, 10, true);
  if (IsRel(mo)) Release(o);
  return f();
}
template <class T>
static T AtomicLoad(const volatile T* p, int mo, void* pc) {
  if (!On()) return *p;
  CheckAccess((void*)p, sizeof(T), 2, pc);
  Obj* o = GetObj((void*)p);
  PointObj(o, "atomic_load");
  CheckAlive((void*)p, "atomic load", pc);
  if (IsAcq(mo)) Acquire(o);
  Event(o, 11, false);
  return *p;
}
template <class T>
static void AtomicStore(volatile T* p, T v, int mo, void* pc) {
  if (!On()) { *p = v; return; }
  CheckAccess((void*)p, sizeof(T), 3, pc);
  Obj* o = GetObj((void*)p);
  PointObj(o, "atomic_store");
  CheckAlive((void*)p, "atomic store", pc);
  Event(o, 12, true);
  if (IsRel(mo)) Release(o);
  *p = v;
}
template <class T>
static bool AtomicCAS(volatile T* p, T* e, T v, int mo, void* pc) {
  if (!On()) { T old = *p; if (old == *e) { *p = v; return true; } *e = old; return false; }
  CheckAccess((void*)p, sizeof(T), 3, pc);
  Obj* o = GetObj((void*)p);
  PointObj(o, "atomic_cas");
  CheckAlive((void*)p, "atomic operation", pc);
  if (IsAcq(mo)) Acquire(o);
  T old = *p;
  bool ok = old == *e;
  Event(o, ok ? 13 : 14, ok);
  if (ok) { if (IsRel(mo)) Release(o); *p = v; } else *e = old;
  return ok;
}
#define ATOMICS(N, T)                                                                                                                   \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) { return AtomicLoad<T>(p, mo, PC); }                                           \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { AtomicStore<T>(p, v, mo, PC); }                                           \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return AtomicRMW<T>(p, mo, PC, [&] { T o = *p; *p = v; return o; }); }     \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return AtomicRMW<T>(p, mo, PC, [&] { T o = *p; *p = o + v; return o; }); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return AtomicRMW<T>(p, mo, PC, [&] { T o = *p; *p = o - v; return o; }); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return AtomicRMW<T>(p, mo, PC, [&] { T o = *p; *p = o & v; return o; }); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return AtomicRMW<T>(p, mo, PC, [&] { T o = *p; *p = o | v; return o; }); }  \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return AtomicRMW<T>(p, mo, PC, [&] { T o = *p; *p = o ^ v; return o; }); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return AtomicRMW<T>(p, mo, PC, [&] { T o = *p; *p = ~(o & v); return o; }); } \
  bool __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { return AtomicCAS<T>(p, e, v, mo, PC); }        \
  bool __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { return AtomicCAS<T>(p, e, v, mo, PC); }          \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { AtomicCAS<T>(p, &e, v, mo, PC); return e; }
extern "C" {
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
static uint64_t fence_obj;
void __tsan_atomic_thread_fence(int) { if (On()) { Obj* o = GetObj(&fence_obj); Acquire(o); Event(o, 10, true); Release(o); } }
void __tsan_atomic_signal_fence(int) {}
}

// ==================================================================== main
int main(int argc, char** argv) {
  if (!getenv("MCRT_REEXEC")) {
    setenv("MCRT_REEXEC", "1", 1);
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  ResolveReal();
  std::string only, out, replay;
  int bound = 2, workers = 8, minbound = 0;
  double tlimit = 60;
  bool list = false, verb = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
    if (a == "--scenario") only = next();
    else if (a == "--bound") bound = atoi(next().c_str());
    else if (a == "--minbound") minbound = atoi(next().c_str());
    else if (a == "--workers") workers = atoi(next().c_str());
    else if (a == "--time") tlimit = atof(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--replay") replay = next();
    else if (a == "--known") known.push_back(next());
    else if (a == "--list") list = true;
    else if (a == "--delay") delay = atoi(next().c_str());
    else if (a == "--verbose") verb = true;
  }
  if (list) { for (int i = 0; i < nscen; ++i) printf("%s\n", scen[i].name); return 0; }
  shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  vis = (uint64_t*)mmap(nullptr, VIS_SIZE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  objs = (Obj*)mmap(nullptr, sizeof(Obj) * NOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  words = (Word*)mmap(nullptr, sizeof(Word) * NWORD, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_key_create(&fin_key, FinKey);
  shm->nslots = 1;
  shm->slot_names[0] = 1;
  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) { perror("replay"); return 2; }
    char line[65536];
    std::vector<uint8_t> c;
    std::string sname;
    while (fgets(line, sizeof line, f)) {
      std::string s(line);
      if (s.compare(0, 9, "scenario=") == 0) sname = s.substr(9, s.find_first_of("\r\n") - 9);
      if (s.compare(0, 6, "slots=") == 0) {
        char* p = line + 6;
        shm->nslots = 0;
        while (true) { char* e; uint64_t v = strtoull(p, &e, 10); if (e == p) break; shm->slot_names[shm->nslots++] = v; p = e; }
      }
      if (s.compare(0, 7, "shared=") == 0) {
        char* p = line + 7;
        while (true) { char* e; uint64_t v = strtoull(p, &e, 10); if (e == p) break; InSharedSet(v, true, true); p = e; }
      }
      if (s.compare(0, 8, "choices=") == 0) {
        char* p = line + 8;
        while (true) { char* e; long v = strtol(p, &e, 10); if (e == p) break; c.push_back((uint8_t)v); p = e; }
      }
    }
    fclose(f);
    for (int i = 0; i < nscen; ++i)
      if (sname == scen[i].name) {
        int st = Execute(scen[i], c, 1000, false, 0, verb);
        printf("replay of %s: status %d sig=%s\n%s\noutcome: %s\n", sname.c_str(), st, R->sig, R->msg, R->outcome);
        return st == kViolation || st == kTimeout ? 1 : 0;
      }
    fprintf(stderr, "no such scenario: %s\n", sname.c_str());
    return 2;
  }
  FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(fo, "[");
  bool first = true;
  int rc = 0;
  double t_all = Now();
  int todo = 0;
  for (int i = 0; i < nscen; ++i) if (only.empty() || only == scen[i].name) ++todo;
  for (int si = 0; si < nscen; ++si) {
    fflush(fo);  // For the executions that call `exit()` not to write it once again.
    Scenario& sc = scen[si];
    if (!only.empty() && only != sc.name) continue;
    double t0 = Now();
    double share = (tlimit - (t0 - t_all)) / (todo > 0 ? todo : 1);
    --todo;
    if (share < 1) share = 1;
    t_limit = t0 + share;
    int done_bound = -1;
    int64_t tot_exec = 0, tot_steps = 0, last_states = 0, last_exec = 0, tot_pruned = 0, tot_h = 0, tot_to = 0, maxch = 0, restarts = 0, last_h = 0;
    memset(shm->shared_set, 0, sizeof shm->shared_set);
    memset(shm->pending_set, 0, sizeof shm->pending_set);
    shm->nslots = 1;
    memset(shm->outcomes, 0, sizeof shm->outcomes);
    shm->noutcomes = 0;
    shm->nsamples = 0;
    shm->nviol = 0;
    shm->unknown_viol = 0;
    shm->engine_errors = 0;
    shm->errmsg[0] = 0;
    int maxb = bound < sc.o.max_bound ? bound : sc.o.max_bound;
    std::string per_bound;
    for (int b = minbound; b <= maxb;) {
      madvise(vis, VIS_SIZE * 8, MADV_REMOVE);
      shm->stop = 0;
      shm->dirty = 0;
      shm->dirty_at = 0;
      shm->executions = shm->steps = shm->states = shm->pruned = shm->horizons = shm->timeouts = 0;
      shm->maxchoices = 0;
      shm->qn = 1;
      shm->q[0].len = 0;
      shm->pending = 1;
      std::vector<pid_t> ps;
      for (int w = 0; w < workers; ++w) {
        pid_t p = fork();
        if (p == 0) {
          wid = w;
          WorkerLoop(sc, b);
          _exit(0);
        }
        ps.push_back(p);
      }
      for (pid_t p : ps) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { shm->engine_errors++; snprintf(shm->errmsg, sizeof shm->errmsg, "worker died, status %d", st); } }
      tot_exec += shm->executions;
      tot_steps += shm->steps;
      tot_pruned += shm->pruned;
      tot_h += shm->horizons;
      tot_to += shm->timeouts;
      if (shm->maxchoices > maxch) maxch = shm->maxchoices;
      if (shm->engine_errors || shm->unknown_viol) break;
      if (shm->dirty) {
        ++restarts;
        for (int k = 0; k < SHSET; ++k) if (shm->pending_set[k]) InSharedSet(shm->pending_set[k], true, true);
        if (Now() > t_limit) break;
        continue;
      }
      if (shm->stop) { last_states = shm->states > last_states ? shm->states : last_states; break; }
      last_states = shm->states;
      last_exec = shm->executions;
      last_h = shm->horizons;
      done_bound = b;
      char pb[200];
      snprintf(pb, sizeof pb, "%s{\"bound\":%d,\"executions\":%ld,\"states\":%ld,\"steps\":%ld}", per_bound.empty() ? "" : ",", b, (long)shm->executions, (long)shm->states, (long)shm->steps);
      per_bound += pb;
      ++b;
      if (Now() > t_limit) break;
    }
    double wall = Now() - t0;
    fprintf(fo, "%s\n{\"scenario\":\"%s\",\"completed_bound\":%d,\"requested_bound\":%d,\"executions\":%ld,\"executions_at_bound\":%ld,\"steps\":%ld,\"states\":%ld,\"pruned\":%ld,\"horizons\":%ld,\"horizons_at_bound\":%ld,\"timeouts\":%ld,"
            "\"max_choices\":%ld,\"restarts\":%ld,\"outcomes\":%ld,\"wall\":%.2f,\"engine_errors\":%ld,\"error\":\"%s\",\"per_bound\":[%s],\"samples\":[",
            first ? "" : ",", sc.name, done_bound, maxb, (long)tot_exec, (long)last_exec, (long)tot_steps, (long)last_states, (long)tot_pruned, (long)tot_h, (long)last_h, (long)tot_to, (long)maxch, (long)restarts, (long)shm->noutcomes,
            wall, (long)shm->engine_errors, JsonEsc(shm->errmsg).c_str(), per_bound.c_str());
    first = false;
    for (int i = 0; i < shm->nsamples; ++i) fprintf(fo, "%s\"%s\"", i ? "," : "", JsonEsc(shm->outcome_samples[i]).c_str());
    fprintf(fo, "],\"violations\":[");
    for (int i = 0; i < shm->nviol; ++i) {
      Viol& v = shm->viol[i];
      fprintf(fo, "%s{\"sig\":\"%s\",\"bound\":%d,\"known\":%d,\"unstable\":%d,\"msg\":\"%s\",\"choices\":[", i ? "," : "", JsonEsc(v.sig).c_str(), v.bound, v.known, v.unstable, JsonEsc(v.msg).c_str());
      for (int k = 0; k < v.nch; ++k) fprintf(fo, "%s%d", k ? "," : "", v.ch[k]);
      fprintf(fo, "],\"slots\":[");
      for (int k = 0; k < shm->nslots; ++k) fprintf(fo, "%s%llu", k ? "," : "", (unsigned long long)shm->slot_names[k]);
      fprintf(fo, "],\"shared\":[");
      bool f1 = true;
      for (int k = 0; k < SHSET; ++k) if (shm->shared_set[k]) { fprintf(fo, "%s%llu", f1 ? "" : ",", (unsigned long long)shm->shared_set[k]); f1 = false; }
      fprintf(fo, "]}");
    }
    fprintf(fo, "]}");
    fflush(fo);
    if (shm->unknown_viol) rc = 1;
    if (shm->engine_errors) rc = 2;
  }
  fprintf(fo, "]\n");
  fflush(fo);
  return rc;
}
