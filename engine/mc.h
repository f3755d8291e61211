// Harness API of the SCHED engine (stateless model checker for real C++ code). See mcrt.cc.
#pragma once
#include <cstdint>
#include <cstdio>
#include <sstream>
#include <string>
#include <thread>

namespace mc {

struct Opts {
  bool races = true;             // Report data races as violations.
  bool timeouts_anytime = false; // A timed wait / sleep may elapse at any moment (one deviation each).
  bool clock_choice = false;     // Each clock read may or may not advance (data choice).
  bool horizon_is_violation = false;
  bool spurious = false;         // Condition waits may wake spuriously (one deviation each).
  int max_steps = 20000;
  bool all_shared = false;       // Every operation is a scheduling point, there is no need to learn what objects are shared.
  int max_bound = 99;            // Do not go beyond this many deviations (even if the tier asks for more).
};

using body_t = void (*)();
void RegisterScenario(const char* name, body_t f, Opts o);
struct Reg {
  Reg(const char* n, body_t f, Opts o = Opts()) { RegisterScenario(n, f, o); }
};

// To be called from within a scenario body (any of its threads).
[[noreturn]] void Violation(const std::string& signature, const std::string& message);
int Choose(int n);                 // free data choice, fully enumerated
int ChooseDeviation(int n);        // 0 is the default answer, anything else costs one deviation
void Observe(const std::string&);  // appended to the observed outcome of this execution (call under the scheduler)
void ResetHeapEpoch();
void Yield();                      // non-preemptive yield: lets others run
int64_t VirtualNowNs();
void AdvanceClockNs(int64_t);
bool Active();
void BlockUntil(bool (*pred)(void*), void* arg, const char* what);  // generic blocking visible operation
bool BlockUntilTimed(bool (*pred)(void*), void* arg, const char* what, int64_t timeout_ns);
void VisibleOp(void* obj, const char* what, bool write = true);     // generic visible operation on a named object
int Stamp();  // A globally ordered counter: a visible operation, but not a synchronization (it hides no data race).
void AcquireFrom(void* obj);
void ReleaseTo(void* obj);
[[noreturn]] void Done();  // The execution is over, whatever the other threads are at (to be called instead of returning).

}  // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, ...)                                       \
  static void name##_body();                                         \
  static ::mc::Reg name##_reg(#name, name##_body, ##__VA_ARGS__);    \
  static void name##_body()

#define MC_CHECK(cond, sig)                                                       \
  do {                                                                            \
    if (!(cond)) {                                                                \
      std::ostringstream mc_os;                                                   \
      mc_os << "check failed: " #cond " at " << __FILE__ << ":" << __LINE__;      \
      ::mc::Violation(sig, mc_os.str());                                          \
    }                                                                             \
  } while (false)

#define MC_CHECK_EQ(a, b, sig)                                                                   \
  do {                                                                                           \
    const auto mc_a = (a);                                                                       \
    const auto mc_b = (b);                                                                       \
    if (!(mc_a == mc_b)) {                                                                       \
      std::ostringstream mc_os;                                                                  \
      mc_os << "check failed: " #a " == " #b ": " << mc_a << " vs. " << mc_b << " at "           \
            << __FILE__ << ":" << __LINE__;                                                      \
      ::mc::Violation(sig, mc_os.str());                                                         \
    }                                                                                            \
  } while (false)
