// C28: all short sequences of operations on variants (same, other and nested lists of cases), against a plain model.
#include "typesystem/struct.h"
#include "typesystem/variant.h"
#include "typesystem/optional.h"
#include "typesystem/helpers.h"

#include <utility>

#include "enum.h"

namespace {

int g_live = 0;

// Counts the objects in existence. Knows whether it is alive.
struct Probe {
  Probe* self = this;
  Probe() { ++g_live; }
  Probe(const Probe& p) { p.Check(); ++g_live; }
  Probe(Probe&& p) { p.Check(); ++g_live; }
  Probe& operator=(const Probe& p) { Check(); p.Check(); return *this; }
  Probe& operator=(Probe&& p) { Check(); p.Check(); return *this; }
  ~Probe() { Check(); self = nullptr; --g_live; }
  void Check() const { if (self != this) en::Violation("dead-object", "a destroyed object is used"); }
};

CURRENT_STRUCT(A) {
  CURRENT_FIELD(i, int32_t, 0);
  Probe probe;
  CURRENT_DEFAULT_CONSTRUCTOR(A) {}
  CURRENT_CONSTRUCTOR(A)(int32_t i) : i(i) {}
};
CURRENT_STRUCT(B) {
  CURRENT_FIELD(s, std::string);
  Probe probe;
  CURRENT_DEFAULT_CONSTRUCTOR(B) {}
  CURRENT_CONSTRUCTOR(B)(const std::string& s) : s(s) {}
};
CURRENT_STRUCT(D, A) {
  CURRENT_FIELD(j, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(D) {}
  CURRENT_CONSTRUCTOR(D)(int32_t i, int32_t j) : SUPER(i), j(j) {}
};
CURRENT_STRUCT(C) {
  CURRENT_FIELD(v, std::vector<std::string>);
  Probe probe;
  CURRENT_DEFAULT_CONSTRUCTOR(C) {}
  CURRENT_CONSTRUCTOR(C)(const std::string& s) : v({s, s}) {}
};

using X = Variant<A, B, D>;     // `D` is derived from `A`, and both are among the cases.
using Y = Variant<C, A, B>;     // Overlaps with `X`.
CURRENT_VARIANT(Named, A, B, D);  // Same cases, another type.

struct Model {
  char c = 0;  // 'A', 'B', 'C', 'D', or 0 for none.
  std::string v;
  bool operator==(const Model& m) const { return c == m.c && v == m.v; }
  std::string Show() const { return c ? std::string(1, c) + ":" + v : "none"; }
};

struct Visit {
  Model m;
  int calls = 0;
  void operator()(const A& a) { m = {'A', std::to_string(a.i)}; ++calls; a.probe.Check(); }
  void operator()(const B& b) { m = {'B', b.s}; ++calls; b.probe.Check(); }
  void operator()(const D& d) { m = {'D', std::to_string(d.i) + "," + std::to_string(d.j)}; ++calls; d.probe.Check(); }
  void operator()(const C& c) { m = {'C', c.v.empty() ? "-" : c.v[0] + c.v[1]}; ++calls; c.probe.Check(); }
};
struct MutableVisit {
  int calls = 0;
  void operator()(A& a) { a.i += 100; ++calls; }
  void operator()(B& b) { b.s += "!"; ++calls; }
  void operator()(D& d) { d.i += 100; ++calls; }
  void operator()(C& c) { if (!c.v.empty()) c.v[0] += "!"; ++calls; }
};
Model Bumped(Model m) {
  if (m.c == 'A') m.v = std::to_string(atoi(m.v.c_str()) + 100);
  if (m.c == 'B') m.v += "!";
  if (m.c == 'D') m.v = std::to_string(atoi(m.v.c_str()) + 100) + m.v.substr(m.v.find(','));
  if (m.c == 'C' && m.v != "-") { const size_t n = m.v.find_last_not_of("!") + 1; m.v = m.v.substr(0, m.v.size() - 1) + "!" + m.v.substr(m.v.size() - 1); (void)n; }
  return m;
}

template <typename T, class V>
void CheckTyped(V& v, const Model& m, bool expected, const char* sig) {
  const V& c = v;
  EN_CHECK_EQ(Exists<T>(v), expected, sig);
  EN_CHECK_EQ(Exists<T>(c), expected, sig);
  for (int k = 0; k < 2; ++k) {
    bool got = false;
    try {
      const T& r = k ? Value<T>(c) : Value<T>(v);
      r.probe.Check();
      Visit visit;
      visit(r);
      if (expected && m.c != 'D') EN_CHECK_EQ(visit.m.Show(), m.Show(), sig);
      got = true;
    } catch (const current::NoValueOfTypeException<T>&) {
    }
    EN_CHECK_EQ(got, expected, sig);
  }
}

template <class V>
void CheckOne(V& v, const Model& m) {
  const V& c = v;
  EN_CHECK_EQ(Exists(v), m.c != 0, "exists");
  EN_CHECK_EQ(Exists(c), m.c != 0, "exists");
  EN_CHECK_EQ(static_cast<bool>(v), m.c != 0, "operator-bool");
  CheckTyped<A>(v, m, m.c == 'A' || m.c == 'D', "typed-A");
  CheckTyped<B>(v, m, m.c == 'B', "typed-B");
  CheckTyped<C>(v, m, m.c == 'C', "typed-C");
  CheckTyped<D>(v, m, m.c == 'D', "typed-D");
  for (int k = 0; k < 2; ++k) {
    Visit visit;
    bool thrown = false;
    try {
      if (k) c.Call(visit); else v.Call(visit);
    } catch (const current::UninitializedVariantException&) {
      thrown = true;
    }
    EN_CHECK_EQ(thrown, m.c == 0, "call-on-empty");
    EN_CHECK_EQ(visit.calls, m.c ? 1 : 0, "call-count");
    EN_CHECK_EQ(visit.m.Show(), m.Show(), "contents");
  }
}

struct Objects {
  X x, y;
  Y z;
  Named n;
};
struct Models {
  Model x, y, z, n;
};

// Cross-assignment: refused if the case is not among those of the target, which then keeps its value.
template <class TO, class FROM>
void Cross(TO& to, Model& mto, FROM& from, Model& mfrom, bool move, char missing) {
  bool thrown = false;
  try {
    if (move) to = std::move(from); else to = from;
  } catch (const current::IncompatibleVariantTypeException<C>&) {
    thrown = true;
  } catch (const current::IncompatibleVariantTypeException<D>&) {
    thrown = true;
  }
  EN_CHECK_EQ(thrown, mfrom.c != 0 && mfrom.c == missing, "incompatible");
  if (!thrown) {
    mto = mfrom;
    if (move) mfrom = Model();
  }
}

// Returns false if this operation is no use here.
const int kOps = 42;
void Apply(Objects& o, Models& m, int op) {
  X& x = o.x;
  switch (op) {
    case 0: x = A(1); m.x = {'A', "1"}; break;
    case 1: x = B("b"); m.x = {'B', "b"}; break;
    case 2: x = D(2, 3); m.x = {'D', "2,3"}; break;
    case 3: x = nullptr; m.x = Model(); break;
    case 4: x = o.y; m.x = m.y; break;
    case 5: x = std::move(o.y); m.x = m.y; m.y = Model(); break;
    case 6: o.y = x; m.y = m.x; break;
    case 7: o.y = std::move(x); m.y = m.x; m.x = Model(); break;
    case 8: { X& self = x; x = self; break; }
    case 9: {
      X& self = x;
      x = std::move(self);
      if (!Exists(x)) m.x = Model();  // May be left empty, but has to be left valid.
      break;
    }
    case 10: { X copy(x); MutableVisit v; if (m.x.c) { copy.Call(v); CheckOne(copy, Bumped(m.x)); } break; }
    case 11: { X moved(std::move(x)); CheckOne(moved, m.x); o.y = moved; m.y = m.x; m.x = Model(); break; }
    case 12: { MutableVisit v; if (m.x.c) { x.Call(v); m.x = Bumped(m.x); } else { try { x.Call(v); en::Violation("call-on-empty", ""); } catch (const current::UninitializedVariantException&) {} } break; }
    case 13: if (m.x.c == 'A') x = Value<A>(x); else if (m.x.c == 'B') x = Value<B>(x); else if (m.x.c == 'D') x = Value<D>(x); break;  // Assigned from its own contents.
    case 14: if (m.x.c == 'A') x = std::move(Value<A>(x)); else if (m.x.c == 'D') x = std::move(Value<D>(x)); break;
    case 15: if (m.x.c == 'D') { x = static_cast<const A&>(Value<D>(x)); m.x = {'A', m.x.v.substr(0, m.x.v.find(','))}; } break;  // Sliced on purpose.
    case 16: { A& a = x.Construct<A>(5); a.i = 6; m.x = {'A', "6"}; break; }
    case 17: { B& b = x.Construct<B>("c"); b.s += "d"; m.x = {'B', "cd"}; break; }
    case 18: { const B b("e"); x = b; m.x = {'B', "e"}; break; }
    case 19: { B b("f"); x = std::move(b); m.x = {'B', "f"}; break; }
    case 20: std::swap(x, o.y); std::swap(m.x, m.y); break;
    case 21: Cross(x, m.x, o.z, m.z, false, 'C'); break;
    case 22: Cross(x, m.x, o.z, m.z, true, 'C'); break;
    case 23: Cross(o.z, m.z, x, m.x, false, 'D'); break;
    case 24: Cross(o.z, m.z, x, m.x, true, 'D'); break;
    case 25: Cross(x, m.x, o.n, m.n, false, 0); break;
    case 26: Cross(x, m.x, o.n, m.n, true, 0); break;
    case 27: Cross(o.n, m.n, x, m.x, false, 0); break;
    case 28: Cross(o.n, m.n, x, m.x, true, 0); break;
    case 29: o.z = C("z"); m.z = {'C', "zz"}; break;
    case 30: o.z = A(7); m.z = {'A', "7"}; break;
    case 31: { MutableVisit v; if (m.z.c) { o.z.Call(v); m.z = Bumped(m.z); } break; }
    case 32: { bool thrown = false; try { X t(o.z); CheckOne(t, m.z); } catch (const current::IncompatibleVariantTypeException<C>&) { thrown = true; } EN_CHECK_EQ(thrown, m.z.c == 'C', "incompatible"); break; }
    case 33: { bool thrown = false; try { X t(std::move(o.z)); CheckOne(t, m.z); m.z = Model(); } catch (const current::IncompatibleVariantTypeException<C>&) { thrown = true; } EN_CHECK_EQ(thrown, m.z.c == 'C', "incompatible"); break; }
    case 34: o.z = nullptr; m.z = Model(); break;
    case 35: { std::unique_ptr<current::variant::object_base_t> p = std::make_unique<D>(8, 9); x.UncheckedMoveFromUniquePtr(std::move(p)); m.x = {'D', "8,9"}; break; }
    case 36: { X t(current::BypassVariantTypeCheck(), std::make_unique<A>(11)); x = std::move(t); m.x = {'A', "11"}; break; }
    case 37: { std::vector<X> v; v.push_back(x); v.push_back(o.y); v.push_back(x); v.erase(v.begin()); CheckOne(v[0], m.y); CheckOne(v[1], m.x); o.y = v[1]; m.y = m.x; break; }
    case 38: { A a(12); X t(a); a.i = 13; CheckOne(t, {'A', "12"}); x = t; m.x = {'A', "12"}; break; }
    case 39: o.n = D(20, 21); m.n = {'D', "20,21"}; break;
    case 40: o.n = B("n"); m.n = {'B', "n"}; break;
    case 41: if (m.x.c == 'B') { Value<B>(x).s += "+"; m.x.v += "+"; } break;
  }
}

}  // namespace

EN_SCENARIO(variants) {
  const int depth = static_cast<int>(en::Param("depth", 3));
  {
    Objects o;
    Models m;
    for (int i = 0; i < depth; ++i) {
      const int op = en::Choose(kOps);
      en::Note(std::to_string(op));
      Apply(o, m, op);
      CheckOne(o.x, m.x);
      CheckOne(o.y, m.y);
      CheckOne(o.z, m.z);
      CheckOne(o.n, m.n);
      en::Transition();
      en::State(m.x.Show() + "|" + m.y.Show() + "|" + m.z.Show() + "|" + m.n.Show());
      const auto one = [](const Model& q) { return q.c ? 1 : 0; };
      EN_CHECK_EQ(g_live, one(m.x) + one(m.y) + one(m.z) + one(m.n), "live-objects");
    }
  }
  EN_CHECK_EQ(g_live, 0, "leaked-objects");
}

namespace {
using Inner = Variant<A, B>;
CURRENT_VARIANT(Inner2, C, D);
using Outer = Variant<Inner, Inner2, C>;
struct OuterVisit {
  std::string r;
  int calls = 0;
  void operator()(const Inner& v) { ++calls; r = "I:"; if (Exists(v)) { Visit w; v.Call(w); r += w.m.Show(); } }
  void operator()(const Inner2& v) { ++calls; r = "J:"; if (Exists(v)) { Visit w; v.Call(w); r += w.m.Show(); } }
  void operator()(const C& c) { ++calls; Visit w; w(c); r = w.m.Show(); }
};
void CheckOuter(Outer& o, const std::string& m) {
  const Outer& c = o;
  EN_CHECK_EQ(Exists(c), !m.empty(), "nested-exists");
  EN_CHECK_EQ(Exists<Inner>(c), m.substr(0, 2) == "I:", "nested-exists-inner");
  EN_CHECK_EQ(Exists<Inner2>(c), m.substr(0, 2) == "J:", "nested-exists-inner");
  EN_CHECK_EQ(Exists<C>(c), m.substr(0, 2) == "C:", "nested-exists-plain");
  EN_CHECK_EQ(Exists<A>(c), false, "nested-exists-innermost");
  if (!m.empty()) {
    OuterVisit v;
    c.Call(v);
    EN_CHECK_EQ(v.calls, 1, "nested-call");
    EN_CHECK_EQ(v.r, m, "nested-contents");
  }
}
}  // namespace

EN_SCENARIO(nested) {
  const int depth = static_cast<int>(en::Param("nested_depth", 4));
  {
    Outer o, p;
    std::string m, n;
    for (int i = 0; i < depth; ++i) {
      const int op = en::Choose(18);
      en::Note(std::to_string(op));
      switch (op) {
        case 0: o = Inner(A(1)); m = "I:A:1"; break;
        case 1: o = Inner(); m = "I:"; break;
        case 2: { Inner2 j; j = D(2, 3); o = j; m = "J:D:2,3"; break; }
        case 3: { Inner2 j; j = C("q"); o = std::move(j); m = "J:C:qq"; break; }
        case 4: o = C("c"); m = "C:cc"; break;
        case 5: o = nullptr; m = ""; break;
        case 6: p = o; n = m; break;
        case 7: p = std::move(o); n = m; m = ""; break;
        case 8: o = p; m = n; break;
        case 9: std::swap(o, p); std::swap(m, n); break;
        case 10: { Outer c(o); if (Exists<Inner>(c)) Value<Inner>(c) = B("changed"); CheckOuter(o, m); break; }
        case 11: if (Exists<Inner>(o)) { Value<Inner>(o) = B("b"); m = "I:B:b"; } break;
        case 12: if (Exists<Inner>(o)) { Inner t(Value<Inner>(o)); p = t; n = m; } break;
        case 13: if (Exists<Inner>(o)) { o = Value<Inner>(o); } break;
        case 14: if (Exists<Inner>(o)) { Inner t(std::move(Value<Inner>(o))); m = "I:"; p = std::move(t); n = n; OuterVisit v; p.Call(v); n = v.r; } break;
        case 15: { Outer& self = o; o = self; break; }
        case 16: { Outer t(std::move(p)); o = t; m = n; n = ""; break; }
        case 17: if (Exists<Inner2>(o)) { Value<Inner2>(o) = nullptr; m = "J:"; } break;
      }
      CheckOuter(o, m);
      CheckOuter(p, n);
      en::Transition();
      en::State(m + "|" + n);
    }
  }
  EN_CHECK_EQ(g_live, 0, "leaked-objects");
}
