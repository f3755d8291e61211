// Harness API of the ENUM engine: exhaustive in-process enumeration of bounded input / operation-sequence spaces
// on the real code, against a reference model written in the harness. See enumrt.cc.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace en {

struct Stop {};  // Thrown to end an execution. Deliberately not a std::exception.

using body_t = void (*)();
struct Opts {
  double hang_seconds = 20;  // An execution longer than this is a violation.
};
void RegisterScenario(const char* name, body_t f, Opts o);
struct Reg {
  Reg(const char* n, body_t f, Opts o = Opts()) { RegisterScenario(n, f, o); }
};

int Choose(int n);  // 0 .. n-1, every answer is explored. The first answer is always 0.
inline bool Flip() { return Choose(2) != 0; }
template <class C>
const typename C::value_type& Pick(const C& c) {
  return c[static_cast<size_t>(Choose(static_cast<int>(c.size())))];
}
[[noreturn]] void Violation(const std::string& signature, const std::string& message);
[[noreturn]] void Skip();                 // this combination is not part of the space; not counted as an evaluation
void State(uint64_t hash);                // count a distinct model state
void State(const std::string& s);
void Transition(uint64_t n = 1);          // count model transitions replayed against the implementation
void Evaluations(uint64_t n);             // this execution carries out `n` additional evaluations of its own (inner loops)
void Note(const std::string& s);          // appended to the description of this execution (samples, violation reports)
long Param(const char* name, long dflt);  // --param name=value
bool Thorough();
const std::string& TmpDir();  // A scratch directory private to this worker (created on demand, removed by the parent).
uint64_t Hash(const std::string& s);

}  // namespace en

#define EN_CAT2(a, b) a##b
#define EN_CAT(a, b) EN_CAT2(a, b)
#define EN_SCENARIO(name, ...)                                    \
  static void name##_body();                                      \
  static ::en::Reg name##_reg(#name, name##_body, ##__VA_ARGS__); \
  static void name##_body()

#define EN_CHECK(cond, sig)                                                       \
  do {                                                                            \
    if (!(cond)) {                                                                \
      std::ostringstream en_os;                                                   \
      en_os << "check failed: " #cond " at " << __FILE__ << ":" << __LINE__;      \
      ::en::Violation(sig, en_os.str());                                          \
    }                                                                             \
  } while (false)

#define EN_CHECK_EQ(a, b, sig)                                                              \
  do {                                                                                      \
    const auto en_a = (a);                                                                  \
    const auto en_b = (b);                                                                  \
    if (!(en_a == en_b)) {                                                                  \
      std::ostringstream en_os;                                                             \
      en_os << "check failed: " #a " == " #b ": `" << en_a << "` vs. `" << en_b << "` at "  \
            << __FILE__ << ":" << __LINE__;                                                 \
      ::en::Violation(sig, en_os.str());                                                    \
    }                                                                                       \
  } while (false)
