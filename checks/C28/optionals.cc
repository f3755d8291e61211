// C28: all short sequences of operations on optionals, against a plain model.
#include "typesystem/struct.h"
#include "typesystem/optional.h"
#include "typesystem/optional_result.h"
#include "typesystem/helpers.h"

#include <optional>
#include <utility>

#include "enum.h"

namespace {

int g_live = 0;
struct Probe {
  Probe* self = this;
  Probe() { ++g_live; }
  Probe(const Probe& p) { p.Check(); ++g_live; }
  Probe(Probe&& p) { p.Check(); ++g_live; }
  Probe& operator=(const Probe& p) { Check(); p.Check(); return *this; }
  Probe& operator=(Probe&& p) { Check(); p.Check(); return *this; }
  ~Probe() { Check(); self = nullptr; --g_live; }
  void Check() const { if (self != this) en::Violation("dead-object", "a destroyed object is used"); }
};

// A movable object whose value is gone from the moved-from one.
struct Obj {
  int v = -1;
  Probe probe;
  std::vector<int> heap;
  Obj() = default;
  Obj(int v) : v(v), heap(3, v) {}
  Obj(const Obj&) = default;
  Obj(Obj&& o) : v(o.v), probe(std::move(o.probe)), heap(std::move(o.heap)) { o.v = -1; }
  Obj& operator=(const Obj&) = default;
  Obj& operator=(Obj&& o) {
    if (this != &o) { v = o.v; probe = std::move(o.probe); heap = std::move(o.heap); o.v = -1; }
    return *this;
  }
  bool operator==(const Obj& o) const { return v == o.v; }
  bool operator!=(const Obj& o) const { return v != o.v; }
  bool operator<(const Obj& o) const { return v < o.v; }
  bool operator>(const Obj& o) const { return v > o.v; }
  bool operator<=(const Obj& o) const { return v <= o.v; }
  bool operator>=(const Obj& o) const { return v >= o.v; }
};

struct PodS {
  int a;
  char b;
  bool operator==(const PodS& o) const { return a == o.a && b == o.b; }
  bool operator!=(const PodS& o) const { return !(*this == o); }
  bool operator<(const PodS& o) const { return a < o.a; }
  bool operator>(const PodS& o) const { return o < *this; }
  bool operator<=(const PodS& o) const { return !(o < *this); }
  bool operator>=(const PodS& o) const { return !(*this < o); }
};

template <class T> struct Make { static T Do(int i) { return static_cast<T>(i); } static int Get(const T& t) { return static_cast<int>(t); } };
template <> struct Make<bool> { static bool Do(int i) { return i & 1; } static int Get(bool t) { return t; } };
template <> struct Make<std::string> { static std::string Do(int i) { return std::string(i ? 20 : 0, 'a') + std::to_string(i); } static int Get(const std::string& s) { return s.empty() ? -1 : s.back() - '0'; } };
template <> struct Make<Obj> { static Obj Do(int i) { return Obj(i); } static int Get(const Obj& o) { o.probe.Check(); return o.v; } };
template <> struct Make<PodS> { static PodS Do(int i) { return {i, 'x'}; } static int Get(const PodS& p) { return p.a; } };

// -1: none. 100 + k: refers to the external object `k`. Otherwise the value.
template <class T>
struct World {
  T ext[2] = {Make<T>::Do(0), Make<T>::Do(1)};
  Optional<T> x, y;
};
struct Model {
  int ext[2] = {0, 1};
  int x = -1, y = -1;
};
int Norm(const Model& m, int v) { return v >= 100 ? m.ext[v - 100] : v; }

template <class T>
void CheckOne(Optional<T>& o, int v) {
  const Optional<T>& c = o;
  EN_CHECK_EQ(Exists(o), v >= 0, "exists");
  EN_CHECK_EQ(Exists(c), v >= 0, "exists");
  for (int k = 0; k < 2; ++k) {
    int got = -1;
    try {
      got = k ? Make<T>::Get(Value(c)) : Make<T>::Get(Value(o));
    } catch (const current::NoValueOfTypeException<T>&) {
    }
    EN_CHECK_EQ(got, v, "value");
  }
}

#define CMP(a, b, p, q, sig)                        \
  do {                                              \
    EN_CHECK_EQ((a) == (b), (p) == (q), sig "-eq"); \
    EN_CHECK_EQ((a) != (b), (p) != (q), sig "-ne"); \
    EN_CHECK_EQ((a) < (b), (p) < (q), sig "-lt");   \
    EN_CHECK_EQ((a) > (b), (p) > (q), sig "-gt");   \
    EN_CHECK_EQ((a) <= (b), (p) <= (q), sig "-le"); \
    EN_CHECK_EQ((a) >= (b), (p) >= (q), sig "-ge"); \
  } while (false)

template <class T>
int Val(int i) { return Make<T>::Get(Make<T>::Do(i)); }  // `bool` has but two values.

template <class T>
void Compare(const Optional<T>& x, int vx, const Optional<T>& y, int vy) {
  CMP(x, y, vx, vy, "compare");
  for (int i = 0; i < 3; ++i) {
    const T t = Make<T>::Do(i);
    CMP(x, t, vx, Val<T>(i), "compare-value");
    CMP(t, x, Val<T>(i), vx, "compare-value-left");
  }
}

template <class T>
ImmutableOptional<T> Immutable(int v) {
  if (v < 0) return ImmutableOptional<T>(nullptr);
  return ImmutableOptional<T>(Make<T>::Do(v));
}

const int kOps = 24;
template <class T>
void Apply(World<T>& w, Model& m, int op) {
  constexpr bool pod = std::is_pod<T>::value;
  Optional<T>& x = w.x;
  Optional<T>& y = w.y;
  const auto copied = [&](int v) { return Norm(m, v); };
  switch (op) {
    case 0: x = Make<T>::Do(1); m.x = Val<T>(1); break;
    case 1: { const T t = Make<T>::Do(2); x = t; m.x = Val<T>(2); break; }
    case 2: x = nullptr; m.x = -1; break;
    case 3: x = y; m.x = copied(m.y); break;
    case 4: x = std::move(y); m.x = m.y; m.y = -1; break;
    case 5: { Optional<T>& self = x; x = self; m.x = copied(m.x); break; }
    case 6: {
      Optional<T>& self = x;
      x = std::move(self);
      if (!Exists(x)) m.x = -1;  // May be left empty, but has to be left valid.
      break;
    }
    case 7: std::swap(x, y); std::swap(m.x, m.y); break;
    case 8: { Optional<T> c(x); CheckOne(c, copied(m.x)); c = Make<T>::Do(0); break; }
    case 9: { Optional<T> c(std::move(x)); CheckOne(c, copied(m.x)); y = std::move(c); m.y = m.x; m.x = -1; break; }
    case 10: if (Exists(x)) { Value(x) = Make<T>::Do(0); if (m.x >= 100) m.ext[m.x - 100] = Val<T>(0); else m.x = Val<T>(0); } break;
    case 11: if (Exists(x)) { x = static_cast<const T&>(Value(x)); m.x = copied(m.x); } break;
    case 12: x = Immutable<T>(-1); m.x = -1; break;
    case 13: x = Immutable<T>(1); m.x = Val<T>(1); break;
    case 14: { Optional<T> c(Immutable<T>(2)); CheckOne(c, Val<T>(2)); Optional<T> d(Immutable<T>(-1)); CheckOne(d, -1); y = d; m.y = -1; x = c; m.x = Val<T>(2); break; }
    case 15: { std::vector<Optional<T>> v; v.push_back(x); v.push_back(nullptr); v.push_back(y); v.erase(v.begin()); CheckOne(v[0], -1); CheckOne(v[1], copied(m.y)); break; }
    case 16: if (Exists(x)) { Optional<T> c(Value(x)); y = c; m.y = copied(m.x); } break;
    case 17: if (Exists(x)) { T t = std::move(Value(x)); x = std::move(t); if (m.x >= 100) { w.ext[m.x - 100] = Make<T>::Do(m.ext[m.x - 100]); m.x = copied(m.x); } } break;
    default:
      if constexpr (!pod) {
        switch (op) {
          case 18: x = std::make_unique<T>(Make<T>::Do(3)); m.x = 3; break;
          case 19: x = std::unique_ptr<T>(); m.x = -1; break;
          case 20: x = &w.ext[0]; m.x = 100; break;
          case 21: { Optional<T> b(FromBarePointer(), &w.ext[1]); CheckOne(b, m.ext[1]); x = std::move(b); m.x = 101; break; }
          case 22: { Optional<T> c(std::make_unique<T>(Make<T>::Do(2))); x = c; m.x = 2; break; }
          case 23: { Optional<T> c(FromBarePointer(), static_cast<T*>(nullptr)); CheckOne(c, -1); x = static_cast<T*>(nullptr); m.x = -1; break; }
        }
      } else if constexpr (std::is_arithmetic<T>::value) {
        switch (op) {
          case 18: x = 0; m.x = 0; break;
          case 19: x = 1; m.x = 1; break;
          default: en::Skip();
        }
      } else {
        en::Skip();
      }
  }
}

template <class T>
void Run() {
  const int depth = static_cast<int>(en::Param("depth", 4));
  {
    World<T> w;
    Model m;
    for (int i = 0; i < depth; ++i) {
      const int op = en::Choose(kOps);
      en::Note(std::to_string(op));
      Apply(w, m, op);
      CheckOne(w.x, Norm(m, m.x));
      CheckOne(w.y, Norm(m, m.y));
      for (int k = 0; k < 2; ++k) EN_CHECK_EQ(Make<T>::Get(w.ext[k]), m.ext[k], "external-object");
      if (std::is_same<T, Obj>::value) EN_CHECK_EQ(g_live, 2 + (m.x >= 0 && m.x < 100) + (m.y >= 0 && m.y < 100), "live-objects");
      Compare<T>(w.x, Norm(m, m.x), w.y, Norm(m, m.y));
      en::Transition();
      en::State(std::to_string(m.x) + "," + std::to_string(m.y) + "," + std::to_string(m.ext[0]) + "," + std::to_string(m.ext[1]));
    }
  }
  EN_CHECK_EQ(g_live, 0, "leaked-objects");
}

}  // namespace

EN_SCENARIO(of_object) { Run<Obj>(); }
EN_SCENARIO(of_string) { Run<std::string>(); }
EN_SCENARIO(of_int) { Run<int32_t>(); }
EN_SCENARIO(of_bool) { Run<bool>(); }
EN_SCENARIO(of_double) { Run<double>(); }
EN_SCENARIO(of_pod_struct) { Run<PodS>(); }

namespace {
template <class T>
void CheckImmutable() {
  const int a = en::Choose(4) - 1, b = en::Choose(4) - 1;
  {
    const ImmutableOptional<T> x = Immutable<T>(a), y = Immutable<T>(b);
    const int vx = a < 0 ? -1 : Val<T>(a), vy = b < 0 ? -1 : Val<T>(b);
    EN_CHECK_EQ(Exists(x), a >= 0, "immutable-exists");
    int got = -1;
    try { got = Make<T>::Get(Value(x)); } catch (const current::NoValueOfTypeException<T>&) {}
    EN_CHECK_EQ(got, vx, "immutable-value");
    CMP(x, y, vx, vy, "immutable-compare");
    for (int i = 0; i < 3; ++i) {
      const T t = Make<T>::Do(i);
      CMP(x, t, vx, Val<T>(i), "immutable-compare-value");
      CMP(t, x, Val<T>(i), vx, "immutable-compare-value-left");
    }
    if constexpr (!std::is_pod<T>::value) {
      T ext = Make<T>::Do(1);
      const ImmutableOptional<T> p(FromBarePointer(), &ext), q(std::make_unique<T>(Make<T>::Do(2))), r(FromBarePointer(), nullptr);
      EN_CHECK_EQ(Make<T>::Get(Value(p)), 1, "immutable-bare");
      EN_CHECK(&Value(p) == &ext, "immutable-bare");
      EN_CHECK_EQ(Make<T>::Get(Value(q)), 2, "immutable-unique");
      EN_CHECK_EQ(Exists(r), false, "immutable-null");
      Optional<T> c(p);
      Value(c) = Make<T>::Do(0);
      EN_CHECK_EQ(Make<T>::Get(ext), 1, "immutable-copy-is-independent");
    }
  }
  EN_CHECK_EQ(g_live, 0, "leaked-objects");
}
}  // namespace

EN_SCENARIO(immutable) {
  switch (en::Choose(6)) {
    case 0: return CheckImmutable<Obj>();
    case 1: return CheckImmutable<std::string>();
    case 2: return CheckImmutable<int32_t>();
    case 3: return CheckImmutable<bool>();
    case 4: return CheckImmutable<double>();
    case 5: return CheckImmutable<PodS>();
  }
}

EN_SCENARIO(results) {
  using current::OptionalResult;
  {
    OptionalResult<Obj> x((current::OptionalResultMissing()));
    int m = -1;
    for (int i = 0; i < 4; ++i) {
      switch (en::Choose(5)) {
        case 0: x = OptionalResult<Obj>(Obj(1)); m = 1; break;
        case 1: x = Obj(2); m = 2; break;
        case 2: x = OptionalResult<Obj>(current::OptionalResultMissing()); m = -1; break;
        case 3: { OptionalResult<Obj> t(std::move(x)); EN_CHECK_EQ(Exists(t), m >= 0, "result-move"); x = std::move(t); break; }
        case 4:
          if (m >= 0) {
            Obj o = Value(x);
            EN_CHECK_EQ(o.v, m, "result-value");
            x = std::move(o);
          } else {
            try { Value(x); en::Violation("result-no-value", ""); } catch (const current::NoValueOfTypeException<Obj>&) {}
          }
          break;
      }
      EN_CHECK_EQ(Exists(x), m >= 0, "result-exists");
      const OptionalResult<Obj>& c = x;
      int got = -1;
      try { got = Value(c).v; } catch (const current::NoValueOfTypeException<Obj>&) {}
      EN_CHECK_EQ(got, m, "result-value");
    }
    EN_CHECK(Exists(OptionalResult<void>(current::OptionalResultExists())), "void-result");
    EN_CHECK(!Exists(OptionalResult<void>(current::OptionalResultMissing())), "void-result");
  }
  EN_CHECK_EQ(g_live, 0, "leaked-objects");
}
