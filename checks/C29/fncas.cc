// C29: every small expression, recorded, differentiated, and compiled, against the plain C++ and forward-mode derivatives.
#include "fncas/fncas.h"

#include <cmath>
#include <thread>

#include "enum.h"

using std::string;
using fncas::impl::JIT;
using fncas::impl::V;
using fncas::impl::X;

namespace {

constexpr int kDim = 2;
const double kPoints[][2] = {{0.5, 2.0}, {-1.5, 0.25}, {0.0, 1.0}, {3.0, -2.0}, {-0.3, 0.7}, {1.0, 0.0}};
constexpr int kNumPoints = 6;
const std::vector<double> kConstants = {0, 1, -1, 2, 0.5};

// Derivatives, carried along. Of interest only where everything on the way is smooth, and not too large or too small.
struct D {
  long double v = 0, g[kDim] = {0, 0};
  bool defined = true, smooth = true, differentiable = true;
  D() = default;
  D(double c) : v(c) {}
};
D Finish(D r, std::initializer_list<const D*> args, double value_in_double) {
  for (const D* a : args) r.defined &= a->defined, r.smooth &= a->smooth, r.differentiable &= a->differentiable;
  if (!std::isfinite(value_in_double)) r.defined = false;
  if (!(fabsl(r.v) < 1e5)) r.smooth = false;
  for (const auto& e : r.g)
    if (!(fabsl(e) < 1e5)) r.smooth = false;
  return r;
}

enum Op { VAR, CONST, ADD, SUB, MUL, DIV, NEG, SQR, SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, UNIT_STEP, RAMP, OPS };
const char* const kName[] = {"x", "c", "+", "-", "*", "/", "-", "sqr", "sqrt", "exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "unit_step", "ramp"};

template <class T>
T Binary(int op, const T& a, const T& b) {
  return op == ADD ? a + b : op == SUB ? a - b : op == MUL ? a * b : a / b;
}
template <class T>
T Unary(int op, const T& a) {
  switch (op) {
    case NEG: return -a;
    case SQR: return fncas::sqr(a);
    case SQRT: return fncas::sqrt(a);
    case EXP: return fncas::exp(a);
    case LOG: return fncas::log(a);
    case SIN: return fncas::sin(a);
    case COS: return fncas::cos(a);
    case TAN: return fncas::tan(a);
    case ASIN: return fncas::asin(a);
    case ACOS: return fncas::acos(a);
    case ATAN: return fncas::atan(a);
    case UNIT_STEP: return fncas::unit_step(a);
    default: return fncas::ramp(a);
  }
}
D BinaryD(int op, const D& a, const D& b) {
  D r;
  const double x = static_cast<double>(a.v), y = static_cast<double>(b.v);
  if (op == ADD || op == SUB) {
    const int s = op == ADD ? 1 : -1;
    r.v = a.v + s * b.v;
    for (int i = 0; i < kDim; ++i) r.g[i] = a.g[i] + s * b.g[i];
    return Finish(r, {&a, &b}, Binary<double>(op, x, y));
  }
  if (op == MUL) {
    r.v = a.v * b.v;
    for (int i = 0; i < kDim; ++i) r.g[i] = a.v * b.g[i] + b.v * a.g[i];
    return Finish(r, {&a, &b}, x * y);
  }
  r.v = a.v / b.v;
  for (int i = 0; i < kDim; ++i) r.g[i] = (b.v * a.g[i] - a.v * b.g[i]) / (b.v * b.v);
  if (!(fabsl(b.v) > 1e-3)) r.smooth = false;
  return Finish(r, {&a, &b}, x / y);
}
D UnaryD(int op, const D& a) {
  D r;
  const long double x = a.v;
  long double d = 0;
  bool smooth = true;
  switch (op) {
    case NEG: r.v = -x, d = -1; break;
    case SQR: r.v = x * x, d = 2 * x; break;
    case SQRT: r.v = sqrtl(x), d = 0.5l / sqrtl(x), smooth = x > 1e-3; break;
    case EXP: r.v = expl(x), d = expl(x); break;
    case LOG: r.v = logl(x), d = 1 / x, smooth = x > 1e-3; break;
    case SIN: r.v = sinl(x), d = cosl(x); break;
    case COS: r.v = cosl(x), d = -sinl(x); break;
    case TAN: r.v = tanl(x), d = 1 / (cosl(x) * cosl(x)), smooth = fabsl(cosl(x)) > 1e-2; break;
    case ASIN: r.v = asinl(x), d = 1 / sqrtl(1 - x * x), smooth = fabsl(x) < 0.999; break;
    case ACOS: r.v = acosl(x), d = -1 / sqrtl(1 - x * x), smooth = fabsl(x) < 0.999; break;
    case ATAN: r.v = atanl(x), d = 1 / (1 + x * x); break;
    case UNIT_STEP: r.v = x >= 0 ? 1 : 0, smooth = fabsl(x) > 1e-6; break;
    default: r.v = x > 0 ? x : 0, d = x > 0 ? 1 : 0, smooth = fabsl(x) > 1e-6; break;
  }
  for (int i = 0; i < kDim; ++i) r.g[i] = d * a.g[i];
  r = Finish(r, {&a}, Unary<double>(op, static_cast<double>(x)));
  r.smooth &= smooth;
  if (op == UNIT_STEP) r.differentiable = false;  // An exception, as documented.
  return r;
}
template <>
D Binary<D>(int op, const D& a, const D& b) { return BinaryD(op, a, b); }
template <>
D Unary<D>(int op, const D& a) { return UnaryD(op, a); }

struct Node {
  int op, a = -1, b = -1;
  double c = 0;
};
using Tree = std::vector<Node>;
template <class T, class XS>
T Eval(const Tree& t, int i, const XS& x) {
  const Node& n = t[static_cast<size_t>(i)];
  if (n.op == VAR) return x[static_cast<size_t>(n.a)];
  if (n.op == CONST) return T(n.c);
  if (n.op <= DIV) {
    const T lhs = Eval<T>(t, n.a, x);
    return Binary<T>(n.op, lhs, Eval<T>(t, n.b, x));
  }
  return Unary<T>(n.op, Eval<T>(t, n.a, x));
}
template <class T, class XS>
T Eval(const Tree& t, const XS& x) { return Eval<T>(t, static_cast<int>(t.size()) - 1, x); }
string Text(const Tree& t, int i) {
  const Node& n = t[static_cast<size_t>(i)];
  if (n.op == VAR) return "x" + std::to_string(n.a);
  if (n.op == CONST) {
    std::ostringstream os;
    os << n.c;
    return os.str();
  }
  if (n.op <= DIV) return "(" + Text(t, n.a) + kName[n.op] + Text(t, n.b) + ")";
  return string(kName[n.op]) + "(" + Text(t, n.a) + ")";
}
string Text(const Tree& t) { return Text(t, static_cast<int>(t.size()) - 1); }

// Every tree with this many operations.
int Gen(Tree& t, int size, int leaves) {
  Node n;
  if (!size) {
    const int c = en::Choose(leaves);
    if (c < 2) n.op = VAR, n.a = c;
    else n.op = CONST, n.c = kConstants[static_cast<size_t>(c - 2)];
  } else {
    const int c = en::Choose((OPS - NEG) + 4 * size);
    if (c < OPS - NEG) {
      n.op = NEG + c;
      n.a = Gen(t, size - 1, leaves);
    } else {
      n.op = ADD + (c - (OPS - NEG)) % 4;
      const int left = (c - (OPS - NEG)) / 4;
      n.a = Gen(t, left, leaves);
      n.b = Gen(t, size - 1 - left, leaves);
    }
  }
  t.push_back(n);
  return static_cast<int>(t.size()) - 1;
}

bool Same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
string Show(double v) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
void Fail(const string& sig, const string& f, int p, double got, double want) {
  en::Violation(sig, f + " at (" + Show(kPoints[p][0]) + ", " + Show(kPoints[p][1]) + "): " + Show(got) + " vs. " + Show(want));
}
std::vector<D> Seeded(int p) {
  std::vector<D> x = {D(kPoints[p][0]), D(kPoints[p][1])};
  x[0].g[0] = x[1].g[1] = 1;
  return x;
}
std::vector<double> Point(int p) { return {kPoints[p][0], kPoints[p][1]}; }

// What is expected of a function at each of the points.
struct Expected {
  string text;
  D d[kNumPoints];
  double f[kNumPoints];
  bool differentiable = true;
  template <class E>
  Expected(const string& text, E eval) : text(text) {
    for (int p = 0; p < kNumPoints; ++p) {
      d[p] = eval(Seeded(p));
      f[p] = eval(Point(p));
      differentiable &= d[p].differentiable;
    }
  }
  void Value(const char* sig, int p, double got) const {
    if (d[p].defined && !Same(got, f[p])) Fail(sig, text, p, got, f[p]);
  }
  void Gradient(const char* sig, int p, const std::vector<double>& got) const {
    if (got.size() != kDim) en::Violation(sig, text + ": dimension " + std::to_string(got.size()));
    if (!d[p].defined || !d[p].smooth) return;
    for (int i = 0; i < kDim; ++i) {
      const double want = static_cast<double>(d[p].g[i]);
      if (!(std::fabs(got[static_cast<size_t>(i)] - want) <= 1e-6 * (1 + std::fabs(want)))) Fail(sig, text + " d/dx" + std::to_string(i), p, got[static_cast<size_t>(i)], want);
    }
  }
};

struct Recorded {
  const fncas::function_t<JIT::Blueprint> f;
  std::unique_ptr<fncas::gradient_t<JIT::Blueprint>> g;
  explicit Recorded(const V& v) : f(v) {}
  // Differentiates, if this is possible.
  bool Differentiate(const Expected& e, const X& x) {
    try {
      g = std::make_unique<fncas::gradient_t<JIT::Blueprint>>(x, f);
      if (!e.differentiable) en::Violation("step-differentiated", e.text);
      return true;
    } catch (const fncas::exceptions::FnCASFunctionNonDifferentiable&) {
      if (e.differentiable) en::Violation("not-differentiated", e.text);
      return false;
    }
  }
};

// The recorded, the differentiated, and the natively compiled are all the same thing.
void CheckAll(const Expected& e, const X& x, const V& v) {
  Recorded r(v);
  for (int p = 0; p < kNumPoints; ++p) e.Value("value", p, r.f(Point(p)));
  fncas::function_t<JIT::X64NativeJIT> jf(r.f);
  for (int p = 0; p < kNumPoints; ++p) {
    e.Value("compiled-value", p, jf(Point(p)));
    if (!Same(jf(Point(p)), r.f(Point(p)))) Fail("compiled-value", e.text, p, jf(Point(p)), r.f(Point(p)));
  }
  if (!r.Differentiate(e, x)) return;
  fncas::gradient_t<JIT::X64NativeJIT> jg(r.f, *r.g);
  for (int p = 0; p < kNumPoints; ++p) {
    const auto g = (*r.g)(Point(p)), c = jg(Point(p));
    e.Gradient("gradient", p, g);
    e.Gradient("compiled-gradient", p, c);
    for (size_t i = 0; i < kDim; ++i)
      if (!Same(g[i], c[i])) Fail("compiled-gradient", e.text, p, c[i], g[i]);
    // Differentiation does not change what has been recorded or compiled.
    e.Value("value-after-gradient", p, r.f(Point(p)));
    e.Value("compiled-value-after-gradient", p, jf(Point(p)));
  }
  en::Transition(kNumPoints * 4);
}

}  // namespace

// Programs: variables that are updated in place, reused, and copied, so that what is recorded is not a tree.
namespace {
struct Step {
  int what, i, j;
};
template <class T>
struct Assign {
  static void Do(int op, T& a, const T& b) { a = Binary<T>(op, a, b); }
};
template <class T>
void DoAssign(int op, T& a, const T& b) {
  if (op == ADD) a += b;
  if (op == SUB) a -= b;
  if (op == MUL) a *= b;
  if (op == DIV) a /= b;
}
template <>
struct Assign<V> {
  static void Do(int op, V& a, const V& b) { DoAssign(op, a, b); }
};
template <>
struct Assign<double> {
  static void Do(int op, double& a, const double& b) { DoAssign(op, a, b); }
};
template <class T, class XS>
T Run(const std::vector<Step>& steps, const XS& x) {
  T r[3] = {x[0], x[1], T(2.0)};
  for (const auto& s : steps) {
    if (s.what < 4) Assign<T>::Do(ADD + s.what, r[s.i], r[s.j]);
    else if (s.what == 4) r[s.i] = r[s.j];
    else r[s.i] = Unary<T>(NEG + s.what - 5, r[s.j]);
  }
  return r[0];
}
}  // namespace
EN_SCENARIO(programs) {
  std::vector<Step> steps;
  const int n = static_cast<int>(en::Param("steps", 3));
  static const std::vector<int> ops = {0, 1, 2, 3, 4, 5 + SQR - NEG, 5 + EXP - NEG, 5 + SIN - NEG, 5 + RAMP - NEG, 5};
  string text;
  for (int k = 0; k < n; ++k) {
    Step s;
    s.what = en::Pick(ops);
    s.i = k + 1 == n ? 0 : en::Choose(3);
    s.j = en::Choose(3);
    steps.push_back(s);
    const string a = "r" + std::to_string(s.i), b = "r" + std::to_string(s.j);
    text += s.what < 4 ? a + " " + kName[ADD + s.what] + "= " + b + "; " : s.what == 4 ? a + " = " + b + "; " : a + " = " + kName[NEG + s.what - 5] + "(" + b + "); ";
  }
  const Expected e(text, [&steps](const auto& x) { return Run<typename std::decay_t<decltype(x)>::value_type>(steps, x); });
  X x(kDim);
  CheckAll(e, x, Run<V>(steps, static_cast<const std::vector<V>&>(x)));
  en::Note(text);
}

// Local variables and vectors, as C++ has them.
namespace {
template <class T>
T Locals(int kind, int n, const std::vector<T>& x) {
  switch (kind) {
    case 0: {
      T sum = T();
      for (int i = 0; i < n; ++i) sum += fncas::sqr(x[static_cast<size_t>(i % 2)]);
      return sum;
    }
    case 1: {
      std::vector<T> a(static_cast<size_t>(n) + 1);
      for (int i = 0; i < n; ++i) a[static_cast<size_t>(i)] += x[static_cast<size_t>(i % 2)] * T(i);
      T r = a[0];
      for (size_t i = 1; i < a.size(); ++i) r += a[i] * a[i - 1] + a[i];
      return r;
    }
    case 2: {
      std::vector<T> a(static_cast<size_t>(n) + 1, x[1]);
      a[0] = a[0] * x[0];
      T r = T(1.0);
      for (size_t i = 0; i < a.size(); ++i) r = r * a[i] + T(1.0);
      return r;
    }
    case 3: {
      std::vector<T> a;
      a.resize(static_cast<size_t>(n) + 1);
      a[0] = x[0];
      for (size_t i = 1; i < a.size(); ++i) a[i] = a[i] + a[i - 1] * x[1];
      T r = T(0.0);
      for (const auto& e : a) r += e;
      return r;
    }
    case 4: {
      std::vector<T> a = x;
      for (auto& e : a) e = fncas::exp(e * T(0.25));
      std::vector<T> b = a;
      b[0] = b[0] + b[1];
      return a[0] * b[0] - b[1] / T(n + 1);
    }
    case 5: {  // Shared over and over.
      T r = x[0] + x[1];
      for (int i = 0; i < n * 12; ++i) r = (r + r) * T(0.5);
      return fncas::sin(r);
    }
    case 6: {
      T r = T(0.0);
      for (int i = 0; i < n * 1000; ++i) r += x[static_cast<size_t>(i % 2)] * T(0.001);
      return r;
    }
    case 7: {  // Vectors on their own.
      std::vector<std::vector<T>> m(2, std::vector<T>(2, x[0]));
      m[1][0] = x[1];
      m[0][1] = T(n);
      return m[0][0] * m[1][1] - m[0][1] * m[1][0];
    }
    default: {
      T best = x[0];
      for (int i = 0; i < n; ++i) best = best + fncas::ramp(x[1] * T(i) - best);
      return best;
    }
  }
}
template <>
D Locals<D>(int kind, int n, const std::vector<D>& x) {
  const auto A = [](const D& a, const D& b) { return BinaryD(ADD, a, b); };
  const auto M = [](const D& a, const D& b) { return BinaryD(MUL, a, b); };
  const auto U = [](int op, const D& a) { return UnaryD(op, a); };
  D r(0.0);
  switch (kind) {
    case 0:
      for (int i = 0; i < n; ++i) r = A(r, U(SQR, x[static_cast<size_t>(i % 2)]));
      return r;
    case 1: {
      std::vector<D> a(static_cast<size_t>(n) + 1, D(0.0));
      for (int i = 0; i < n; ++i) a[static_cast<size_t>(i)] = M(x[static_cast<size_t>(i % 2)], D(i));
      r = a[0];
      for (size_t i = 1; i < a.size(); ++i) r = A(r, A(M(a[i], a[i - 1]), a[i]));
      return r;
    }
    case 2:
      r = D(1.0);
      for (int i = 0; i <= n; ++i) r = A(M(r, i ? x[1] : M(x[0], x[1])), D(1.0));
      return r;
    case 3: {
      D last = x[0];
      for (int i = 0; i <= n; ++i) r = A(r, last), last = M(last, x[1]);
      return r;
    }
    case 4: {
      const D a = U(EXP, M(x[0], D(0.25))), b = U(EXP, M(x[1], D(0.25)));
      return BinaryD(SUB, M(a, A(a, b)), BinaryD(DIV, b, D(n + 1)));
    }
    case 5: return U(SIN, A(x[0], x[1]));
    case 6:
      for (int i = 0; i < n * 1000; ++i) r = A(r, M(x[static_cast<size_t>(i % 2)], D(0.001)));
      return r;
    case 7: return BinaryD(SUB, M(x[0], x[0]), M(D(n), x[1]));
    default: {
      r = x[0];
      for (int i = 0; i < n; ++i) r = A(r, U(RAMP, BinaryD(SUB, M(x[1], D(i)), r)));
      return r;
    }
  }
}
}  // namespace
EN_SCENARIO(locals) {
  const int kind = en::Choose(9), n = en::Choose(6);
  const Expected e("locals " + std::to_string(kind) + " " + std::to_string(n), [&](const auto& x) { return Locals<typename std::decay_t<decltype(x)>::value_type>(kind, n, x); });
  X x(kDim);
  CheckAll(e, x, Locals<V>(kind, n, static_cast<const std::vector<V>&>(x)));
  en::Note(e.text);
}

// Histories: functions recorded, differentiated, compiled, and evaluated in any order do not affect each other.
EN_SCENARIO(histories) {
  struct Alive {
    std::shared_ptr<Expected> e;
    std::unique_ptr<Recorded> r;
    std::unique_ptr<fncas::function_t<JIT::X64NativeJIT>> jf;
    std::unique_ptr<fncas::gradient_t<JIT::X64NativeJIT>> jg;
  };
  const auto function = [](int k, const auto& x) {
    using T = typename std::decay_t<decltype(x)>::value_type;
    const T a = x[0], b = x[1];
    const auto bin = [](int op, const T& l, const T& r) { return Binary<T>(op, l, r); };
    switch (k % 4) {
      case 0: return bin(ADD, Unary<T>(SQR, a), bin(MUL, b, T(3.0)));
      case 1: return bin(MUL, Unary<T>(EXP, bin(MUL, a, T(0.5))), Unary<T>(COS, bin(SUB, b, a)));
      case 2: return bin(ADD, bin(DIV, b, bin(ADD, Unary<T>(SQR, a), T(1.0))), Unary<T>(ATAN, bin(MUL, a, b)));
      default: return bin(SUB, T(1.0), Unary<T>(RAMP, bin(ADD, a, bin(MUL, T(0.0), b))));
    }
  };
  const auto make = [&function](int k) {
    auto e = std::make_shared<Expected>("f" + std::to_string(k), [&](const auto& x) { return function(k, x); });
    return e;
  };
  std::unique_ptr<X> x;
  std::vector<Alive> all;
  std::vector<size_t> current;  // Of the present recording.
  string note;
  int recorded = 0;
  const auto check = [&]() {
    for (int p = 0; p < 3; ++p) {
      for (const size_t i : current) {
        const auto& a = all[i];
        a.e->Value("history-value", p, a.r->f(Point(p)));
        if (a.r->g) a.e->Gradient("history-gradient", p, (*a.r->g)(Point(p)));
      }
      for (const auto& a : all) {
        if (a.jf) a.e->Value("history-compiled-value", p, (*a.jf)(Point(p)));
        if (a.jg) a.e->Gradient("history-compiled-gradient", p, (*a.jg)(Point(p)));
      }
    }
    en::Transition();
  };
  const int steps = static_cast<int>(en::Param("history", 6));
  for (int s = 0; s < steps; ++s) {
    const int op = en::Choose(7);
    note += "xeRgfGt"[op];
    if (op == 0) {
      bool thrown = false;
      try {
        auto n = std::make_unique<X>(kDim);
        if (!x) x = std::move(n);
      } catch (const fncas::exceptions::FnCASConcurrentEvaluationAttemptException&) {
        thrown = true;
      }
      if (thrown != (note.find('x') + 1 != note.size() && note.find_last_of("xe", note.size() - 2) != string::npos && note[note.find_last_of("xe", note.size() - 2)] == 'x')) en::Violation("concurrent-recording", note);
    } else if (op == 1) {
      if (!x) en::Skip();
      for (const size_t i : current) all[i].r = nullptr;
      current.clear();
      x = nullptr;
    } else if (op == 2) {
      if (!x) en::Skip();
      Alive a;
      a.e = make(recorded);
      a.r = std::make_unique<Recorded>(function(recorded, static_cast<const std::vector<V>&>(*x)));
      ++recorded;
      current.push_back(all.size());
      all.push_back(std::move(a));
    } else if (op == 3) {
      if (current.empty() || all[current.back()].r->g) en::Skip();
      all[current.back()].r->Differentiate(*all[current.back()].e, *x);
    } else if (op == 4) {
      if (current.empty() || all[current[0]].jf) en::Skip();
      all[current[0]].jf = std::make_unique<fncas::function_t<JIT::X64NativeJIT>>(all[current[0]].r->f);
    } else if (op == 5) {
      if (current.empty() || !all[current.back()].r->g || all[current.back()].jg) en::Skip();
      auto& a = all[current.back()];
      a.jg = std::make_unique<fncas::gradient_t<JIT::X64NativeJIT>>(a.r->f, *a.r->g);
    } else {
      std::thread([&]() {
        X other(kDim);
        const auto e = make(s);
        Recorded r(function(s, static_cast<const std::vector<V>&>(other)));
        for (int p = 0; p < 2; ++p) e->Value("thread-value", p, r.f(Point(p)));
        r.Differentiate(*e, other);
        for (int p = 0; p < 2; ++p) e->Gradient("thread-gradient", p, (*r.g)(Point(p)));
        for (const auto& a : all)
          if (a.jf) a.e->Value("thread-compiled-value", 1, (*a.jf)(Point(1)));
      }).join();
    }
    check();
  }
  en::Note(note);
  en::State(note);
}

// Optimizers never make it worse.
namespace {
struct Objective {
  int kind;
  bool negate;
  explicit Objective(int kind, bool negate) : kind(kind), negate(negate) {}
  template <typename T>
  T Value(const std::vector<T>& x) const {
    const T a = x[0], b = x[1];
    switch (kind) {
      case 0: return fncas::sqr(a - 1.0) + fncas::sqr(b + 2.0);
      case 1: return fncas::sqr(b - fncas::sqr(a)) * 10.0 + fncas::sqr(a - 1.0);
      case 2: return fncas::ramp(a) * 2.0 + fncas::ramp(-a) + fncas::sqr(b);
      case 3: return fncas::sqr(fncas::sqr(a)) * 100.0 + fncas::sqr(b);
      case 4: return fncas::exp(a) + fncas::exp(-a) + fncas::sqr(b);
      case 5: return a - fncas::log(a) + fncas::sqr(b);
      case 6: return fncas::sin(a * 3.0) + fncas::cos(b * 2.0);
      case 7: return fncas::sqrt(fncas::sqr(a) + fncas::sqr(b) + 1.0);
      case 8: return a + b;
      case 9: return a * 0.0 + 5.0;
      case 10: return fncas::exp(fncas::sqr(a)) + fncas::sqr(b);
      default: return fncas::sqrt(a + 1.0) * fncas::sqr(b) + fncas::ramp(b - a);
    }
  }
  template <typename T>
  T ObjectiveFunction(const std::vector<T>& x) const { return negate ? T(0.0) - Value(x) : Value(x); }
};
using fncas::OptimizationDirection;
using fncas::optimize::OptimizationResult;
using fncas::optimize::OptimizerParameters;
bool RunAny(int which, bool maximize, bool jit, const OptimizerParameters& p, int kind, bool negate, const std::vector<double>& start, OptimizationResult& out) {
  const auto run = [&](auto* o) {
    std::remove_reference_t<decltype(*o)> optimizer(p, kind, negate);
    out = optimizer.Optimize(start);
  };
  using namespace fncas::optimize;
  constexpr auto MIN = OptimizationDirection::Minimize, MAX = OptimizationDirection::Maximize;
  try {
#define RUN(O)                                                                                                                              \
  jit ? maximize ? run(static_cast<O<Objective, MAX>*>(nullptr)) : run(static_cast<O<Objective, MIN>*>(nullptr)) : maximize ? run(static_cast<O<Objective, MAX, JIT::Blueprint>*>(nullptr)) : run(static_cast<O<Objective, MIN, JIT::Blueprint>*>(nullptr))
    if (which == 0) RUN(GradientDescentOptimizer);
    if (which == 1) RUN(GradientDescentOptimizerBT);
    if (which == 2) RUN(ConjugateGradientOptimizer);
#undef RUN
    return true;
  } catch (const fncas::exceptions::FnCASOptimizationException&) {
    return false;
  }
}
}  // namespace
EN_SCENARIO(optimizers) {
  const int which = en::Choose(3), kind = en::Choose(12), params = en::Choose(7);
  static const std::vector<double> grid = {-3, -1, 0, 0.5, 2};
  const std::vector<double> start = {en::Pick(grid), en::Pick(grid)};
  OptimizerParameters p;
  if (params == 1) p.SetValue("max_steps", 1);
  if (params == 2) p.SetValue("max_steps", 3);
  if (params == 3) p.SetValue("bt_max_steps", 1);
  if (params == 4) p.SetValue("bt_max_steps", 3).SetValue("max_steps", 2);
  if (params == 5) p.SetValue("min_relative_per_step_improvement", 0.1).SetValue("no_improvement_steps_to_terminate", 1);
  if (params == 6) p.SetValue("no_improvement_steps_to_terminate", 5).SetValue("bt_max_steps", 5);
  const string note = "optimizer " + std::to_string(which) + " function " + std::to_string(kind) + " parameters " + std::to_string(params) + " from (" + Show(start[0]) + ", " + Show(start[1]) + ")";
  const Objective f(kind, false);
  const double before = f.Value(start);
  if (!std::isfinite(before)) en::Skip();
  const auto fail = [&note](const string& sig, double got, double want) { en::Violation(sig, note + ": " + Show(got) + " vs. " + Show(want)); };
  bool first_ok = false;
  double first = 0;
  for (int how = 0; how < 4; ++how) {
    OptimizationResult r{fncas::ValueAndPoint(0.0, {})};
    const bool maximize = how & 1, jit = how & 2;
    const bool ok = RunAny(which, maximize, jit, p, kind, maximize, start, r);
    if (maximize) r.value = -r.value;
    if (ok) {
      if (r.point.size() != kDim) en::Violation("result-point", note);
      const double at = f.Value(r.point);
      if (!(std::fabs(at - r.value) <= 1e-12 * (1 + std::fabs(at)))) fail("result-value", r.value, at);
      if (!(r.value <= before)) fail("made-worse", r.value, before);
      if (kind == 0 && !params && (std::fabs(r.point[0] - 1) > 1e-3 || std::fabs(r.point[1] + 2) > 1e-3)) fail("not-found", r.point[0], r.point[1]);
    }
    if (!how) first_ok = ok, first = r.value;
    if (first_ok != ok) en::Violation("inconsistent", note);
    if (ok && !(std::fabs(first - r.value) <= 1e-6 * (1 + std::fabs(r.value)))) fail("inconsistent", r.value, first);
  }
  en::Note(note);
  en::Transition(4);
}

// The other compilers.
namespace {
template <class F>
void Remove(const F& f) {
  string base = f.lib_filename();
  base.resize(base.size() - 3);
  for (const char* e : {".so", ".s", ".asm", ".o", ".c"}) std::remove((base + e).c_str());
}
template <JIT J>
void CheckCompiler(const Expected& e, const X& x, const V& v) {
  Recorded r(v);
  const bool g = r.Differentiate(e, x);
  fncas::function_t<J> jf(r.f);
  Remove(jf);
  if (jf.dim() != kDim) en::Violation("dim", e.text);
  for (int p = 0; p < kNumPoints; ++p) {
    e.Value("other-compiled-value", p, jf(Point(p)));
    if (!Same(jf(Point(p)), r.f(Point(p)))) Fail("other-compiled-value", e.text, p, jf(Point(p)), r.f(Point(p)));
  }
  fncas::function_t<J> mf(std::move(jf));
  e.Value("moved-value", 0, mf(Point(0)));
  if (!g) return;
  fncas::gradient_t<J> jg(r.f, *r.g);
  Remove(jg);
  if (jg.dim() != kDim) en::Violation("dim", e.text);
  const auto check = [&](const char* sig, const fncas::gradient_t<J>& jg) {
    for (int p = 0; p < kNumPoints; ++p) {
      const auto a = (*r.g)(Point(p)), c = jg(Point(p));
      e.Gradient(sig, p, c);
      for (size_t i = 0; i < kDim; ++i)
        if (!Same(a[i], c[i])) Fail(sig, e.text, p, c[i], a[i]);
      e.Value("other-compiled-value", p, mf(Point(p)));
    }
  };
  check("other-compiled-gradient", jg);
  const fncas::gradient_t<J> mg(std::move(jg));
  check("moved-gradient", mg);
}
}  // namespace
EN_SCENARIO(compilers) {
  const int compiler = en::Choose(3);
  Tree t;
  const int what = en::Choose(2);
  if (what == 0) {
    Gen(t, 1, 4);
  } else {
    // Every operation over something that is itself computed.
    Node x0{VAR, 0}, x1{VAR, 1}, c{CONST};
    c.c = 0.5;
    t = {x0, x1, Node{MUL, 0, 1}, c, Node{SUB, 2, 3}};
    const int op = en::Choose(OPS - ADD);
    t.push_back(Node{ADD + op, 4, 2});
    const int op2 = en::Choose(en::Thorough() ? OPS - ADD : 3);
    t.push_back(Node{en::Thorough() ? ADD + op2 : op2 == 0 ? ADD : op2 == 1 ? EXP : RAMP, 5, 4});
  }
  const Expected e(Text(t), [&t](const auto& x) { return Eval<typename std::decay_t<decltype(x)>::value_type>(t, x); });
  X x(kDim);
  const V v = Eval<V>(t, static_cast<const std::vector<V>&>(x));
  if (compiler == 0) CheckCompiler<JIT::AS>(e, x, v);
  if (compiler == 1) CheckCompiler<JIT::NASM>(e, x, v);
  if (compiler == 2) CheckCompiler<JIT::CLANG>(e, x, v);
  en::Note(e.text);
}

// Any number of variables, and of nodes.
EN_SCENARIO(dimensions) {
  const int dim = 1 + en::Choose(40), k = en::Choose(5), copies = en::Pick(std::vector<int>{1, 2, 5, 40});
  const auto other = [&](int i) { return static_cast<size_t>((i * k + 1) % dim); };
  std::vector<double> at, want(static_cast<size_t>(dim));
  for (int i = 0; i < dim; ++i) at.push_back(0.25 * (i % 7) - 0.5);
  for (int c = 0; c < copies; ++c)
    for (int i = 0; i < dim; ++i) {
      want[static_cast<size_t>(i)] += (i + 1 + c) * at[other(i)];
      want[other(i)] += (i + 1 + c) * at[static_cast<size_t>(i)];
    }
  const auto f = [&](const auto& x) {
    using T = typename std::decay_t<decltype(x)>::value_type;
    T sum = T(0.0);
    for (int c = 0; c < copies; ++c)
      for (int i = 0; i < dim; ++i) sum += T(i + 1 + c) * x[static_cast<size_t>(i)] * x[other(i)];
    return sum;
  };
  const string note = "dimension " + std::to_string(dim) + " step " + std::to_string(k) + " copies " + std::to_string(copies);
  const double value = f(at);
  X x(static_cast<size_t>(dim));
  Recorded r(f(static_cast<const std::vector<V>&>(x)));
  if (r.f.dim() != static_cast<size_t>(dim)) en::Violation("dimension", note);
  fncas::function_t<JIT::X64NativeJIT> jf(r.f);
  r.g = std::make_unique<fncas::gradient_t<JIT::Blueprint>>(x, r.f);
  fncas::gradient_t<JIT::X64NativeJIT> jg(r.f, *r.g);
  if (!Same(r.f(at), value) || !Same(jf(at), value)) en::Violation("dimension-value", note + ": " + Show(r.f(at)) + ", " + Show(jf(at)) + " vs. " + Show(value));
  const auto g = (*r.g)(at), c = jg(at);
  if (g.size() != want.size() || c != g) en::Violation("dimension-gradient", note);
  for (size_t i = 0; i < g.size(); ++i)
    if (!(std::fabs(g[i] - want[i]) <= 1e-9 * (1 + std::fabs(want[i])))) en::Violation("dimension-gradient", note + ": " + Show(g[i]) + " vs. " + Show(want[i]));
  en::Transition(4);
  en::Note(note);
}

EN_SCENARIO(trees) {
  Tree t;
  const int max = static_cast<int>(en::Param("size", 2));
  const int size = en::Choose(max + 1);
  Gen(t, size, size <= 2 ? 7 : static_cast<int>(en::Param("leaves", 4)));
  const Expected e(Text(t), [&t](const auto& x) { return Eval<typename std::decay_t<decltype(x)>::value_type>(t, x); });
  X x(kDim);
  CheckAll(e, x, Eval<V>(t, static_cast<const std::vector<V>&>(x)));
  en::Note(e.text);
}
