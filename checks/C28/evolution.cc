// C28: all small values of a schema evolved into a wider one, through every generic evolver.
#include "typesystem/struct.h"
#include "typesystem/variant.h"
#include "typesystem/optional.h"
#include "typesystem/evolution/type_evolution.h"
#include "typesystem/serialization/json.h"

#include "enum.h"

namespace ns1 {
CURRENT_ENUM(E, uint32_t){zero = 0, one = 1, big = 4000000000u};
CURRENT_STRUCT(P) {
  CURRENT_FIELD(x, int32_t, 101);
  CURRENT_FIELD(s, std::string, "foo");
  CURRENT_FIELD(e, E, E::one);
};
CURRENT_STRUCT(Q, P) {
  CURRENT_FIELD(d, double, 0.5);
  CURRENT_FIELD(t, std::chrono::microseconds);
};
CURRENT_VARIANT(V, P, Q);
CURRENT_STRUCT(W) {
  CURRENT_FIELD(list, std::vector<P>);
  CURRENT_FIELD(grid, std::vector<std::vector<int32_t>>);
  CURRENT_FIELD(m, (std::map<std::string, P>));
  CURRENT_FIELD(mm, (std::map<int32_t, std::vector<std::string>>));
  CURRENT_FIELD(p, (std::pair<Q, std::string>));
  CURRENT_FIELD(o, Optional<std::string>);
  CURRENT_FIELD(oi, Optional<int32_t>);
  CURRENT_FIELD(b, bool, false);
  CURRENT_FIELD(u, uint64_t, 1);
};
CURRENT_STRUCT(VW) {
  CURRENT_FIELD(v, V);
  CURRENT_FIELD(vs, std::vector<V>);
  CURRENT_FIELD(w, (Variant<W, P>));
};
}  // namespace ns1

namespace ns2 {
CURRENT_ENUM(E, uint32_t){zero = 0, one = 1, big = 4000000000u, more = 2};
CURRENT_STRUCT(P) {
  CURRENT_FIELD(x, int32_t, 201);
  CURRENT_FIELD(s, std::string, "bar");
  CURRENT_FIELD(e, E, E::more);
  CURRENT_FIELD(extra, std::string, "default");  // New.
};
CURRENT_STRUCT(Q, P) {
  CURRENT_FIELD(d, double, 1.5);
  CURRENT_FIELD(t, std::chrono::microseconds);
};
CURRENT_STRUCT(N) { CURRENT_FIELD(n, int32_t, 0); };
CURRENT_VARIANT(V, N, Q, P);  // One more case, another order.
CURRENT_STRUCT(W) {
  CURRENT_FIELD(list, std::vector<P>);
  CURRENT_FIELD(grid, std::vector<std::vector<int32_t>>);
  CURRENT_FIELD(m, (std::map<std::string, P>));
  CURRENT_FIELD(mm, (std::map<int32_t, std::vector<std::string>>));
  CURRENT_FIELD(p, (std::pair<Q, std::string>));
  CURRENT_FIELD(o, Optional<std::string>);
  CURRENT_FIELD(oi, Optional<int32_t>);
  CURRENT_FIELD(b, bool, true);
  CURRENT_FIELD(u, uint64_t, 2);
  // Defaults that have to give way to what is evolved.
  CURRENT_DEFAULT_CONSTRUCTOR(W) : list(3), grid({{1}, {2, 3}, {}}), m({{"default", P()}}), mm({{5, {"five"}}}), o("default"), oi(42) {}
};
CURRENT_STRUCT(VW) {
  CURRENT_FIELD(v, V);
  CURRENT_FIELD(vs, std::vector<V>);
  CURRENT_FIELD(w, (Variant<W, P>));
  CURRENT_FIELD(added, std::vector<int32_t>);
  CURRENT_DEFAULT_CONSTRUCTOR(VW) : v(N()), vs({V(N())}), added({1, 2, 3}) {}
};
}  // namespace ns2

#define FIELD(ns, T) CURRENT_NAMESPACE_TYPE(T, ns::T)
CURRENT_NAMESPACE(S1) {
  FIELD(ns1, E); FIELD(ns1, P); FIELD(ns1, Q); FIELD(ns1, V); FIELD(ns1, W); FIELD(ns1, VW);
  using Variant_W_P = Variant<ns1::W, ns1::P>;
};
CURRENT_NAMESPACE(S2) {
  FIELD(ns2, E); FIELD(ns2, P); FIELD(ns2, Q); FIELD(ns2, N); FIELD(ns2, V); FIELD(ns2, W); FIELD(ns2, VW);
  using Variant_W_P = Variant<ns2::W, ns2::P>;
};

// The same shape as the evolvers the framework generates from a schema.
namespace current {
namespace type_evolution {
template <typename NS, typename EVOLVER>
struct Evolve<NS, ns1::E, EVOLVER> {
  template <typename INTO>
  static void Go(ns1::E from, typename INTO::E& into) { into = static_cast<typename INTO::E>(from); }
};
#define EVOLVER_OF(T, ...)                                                \
  template <typename CURRENT_ACTIVE_EVOLVER>                              \
  struct Evolve<S1, S1::T, CURRENT_ACTIVE_EVOLVER> {                      \
    using FROM = S1;                                                      \
    template <typename INTO>                                              \
    static void Go(const FROM::T& from, typename INTO::T& into) {         \
      __VA_ARGS__                                                         \
    }                                                                     \
  };
EVOLVER_OF(P, CURRENT_COPY_FIELD(x); CURRENT_COPY_FIELD(s); CURRENT_COPY_FIELD(e);)
EVOLVER_OF(Q, CURRENT_COPY_SUPER(P); CURRENT_COPY_FIELD(d); CURRENT_COPY_FIELD(t);)
EVOLVER_OF(W, CURRENT_COPY_FIELD(list); CURRENT_COPY_FIELD(grid); CURRENT_COPY_FIELD(m); CURRENT_COPY_FIELD(mm); CURRENT_COPY_FIELD(p); CURRENT_COPY_FIELD(o); CURRENT_COPY_FIELD(oi);
           CURRENT_COPY_FIELD(b); CURRENT_COPY_FIELD(u);)
EVOLVER_OF(VW, CURRENT_COPY_FIELD(v); CURRENT_COPY_FIELD(vs); CURRENT_COPY_FIELD(w);)

template <typename DST, typename FROM, typename INTO, typename EVOLVER>
struct VCases {
  DST& into;
  void operator()(const typename FROM::P& value) const {
    using into_t = typename INTO::P;
    into = into_t();
    Evolve<FROM, typename FROM::P, EVOLVER>::template Go<INTO>(value, Value<into_t>(into));
  }
  void operator()(const typename FROM::Q& value) const {
    using into_t = typename INTO::Q;
    into = into_t();
    Evolve<FROM, typename FROM::Q, EVOLVER>::template Go<INTO>(value, Value<into_t>(into));
  }
  void operator()(const typename FROM::W& value) const {
    using into_t = typename INTO::W;
    into = into_t();
    Evolve<FROM, typename FROM::W, EVOLVER>::template Go<INTO>(value, Value<into_t>(into));
  }
};
template <typename EVOLVER>
struct Evolve<S1, Variant<ns1::W, ns1::P>, EVOLVER> {
  template <typename INTO, typename INTO_VARIANT>
  static void Go(const Variant<ns1::W, ns1::P>& from, INTO_VARIANT& into) {
    from.Call(VCases<INTO_VARIANT, S1, INTO, EVOLVER>{into});
  }
};
struct Custom;
template <>
struct Evolve<S1, ns1::V, NaturalEvolver> {
  template <typename INTO, typename INTO_VARIANT>
  static void Go(const ns1::V& from, INTO_VARIANT& into) { from.Call(VCases<INTO_VARIANT, S1, INTO, NaturalEvolver>{into}); }
};
}  // namespace type_evolution
}  // namespace current

// A user-defined one, through the macros.
CURRENT_STRUCT_EVOLVER(Custom, S1, P, {
  CURRENT_COPY_FIELD(x);
  CURRENT_NATURAL_EVOLVE(S1, INTO, from.s, into.s);
  CURRENT_COPY_FIELD(e);
  into.extra = "custom";
});
CURRENT_VARIANT_EVOLVER(Custom, S1, V, S2) {
  CURRENT_COPY_CASE(P);
  CURRENT_EVOLVE_CASE(Q, {
    typename INTO::N n;
    n.n = from.x;
    into = n;
  });
};

namespace {
// What is expected, written out by hand.
struct Expect {
  bool custom;
  ns2::P Of(const ns1::P& p) const {
    ns2::P r;
    Fill(p, r);
    return r;
  }
  void Fill(const ns1::P& p, ns2::P& r) const {
    r.x = p.x;
    r.s = p.s;
    r.e = static_cast<ns2::E>(p.e);
    r.extra = custom ? "custom" : "default";
  }
  ns2::Q Of(const ns1::Q& q) const {
    ns2::Q r;
    Fill(q, r);
    r.d = q.d;
    r.t = q.t;
    return r;
  }
  ns2::W Of(const ns1::W& w) const {
    ns2::W r;
    r.list.clear();
    for (const auto& p : w.list) r.list.push_back(Of(p));
    r.grid = w.grid;
    r.m.clear();
    for (const auto& e : w.m) r.m[e.first] = Of(e.second);
    r.mm = w.mm;
    r.p = {Of(w.p.first), w.p.second};
    r.o = w.o;
    r.oi = w.oi;
    r.b = w.b;
    r.u = w.u;
    return r;
  }
  ns2::V Of(const ns1::V& v) const {
    if (Exists<ns1::Q>(v)) {
      if (custom) { ns2::N n; n.n = Value<ns1::Q>(v).x; return n; }
      return Of(Value<ns1::Q>(v));
    }
    return Of(Value<ns1::P>(v));
  }
};

std::string AnyText() { static const std::vector<std::string> v = {"", "a", std::string("\0\"\n", 3)}; return en::Pick(v); }
void FillP(ns1::P& p) {
  static const std::vector<int32_t> xs = {0, -1, INT32_MAX};
  static const std::vector<ns1::E> es = {ns1::E::zero, ns1::E::big};
  p.x = en::Pick(xs);
  p.s = AnyText();
  p.e = en::Pick(es);
}
ns1::P SmallP(int i) { ns1::P p; p.x = i; p.s = std::string(i, 'p'); p.e = i % 2 ? ns1::E::zero : ns1::E::big; return p; }
ns1::Q SmallQ(int i) { ns1::Q q; q.x = i; q.s = "q"; q.d = i / 8.0; q.t = std::chrono::microseconds(i * 1000003); return q; }
ns1::V SmallV(int i) { ns1::V v; if (i % 2) v = SmallP(i); else v = SmallQ(i); return v; }

template <class T>
void Same(const T& got, const T& want, const char* sig) {
  EN_CHECK_EQ(JSON(got), JSON(want), sig);
}
template <class EVOLVER, class FROM, class INTO>
void Check(const FROM& from, INTO& into, const INTO& want, const char* sig) {
  const std::string before = JSON(from);
  en::Note(before);
  current::type_evolution::Evolve<S1, FROM, EVOLVER>::template Go<S2>(from, into);
  Same(into, want, sig);
  EN_CHECK_EQ(JSON(from), before, "evolving-changes-the-source");
  en::State(before);
  en::Transition();
}
ns1::W AnyW() {
  ns1::W w;
  const int nl = en::Choose(3), ng = en::Choose(3), nm = en::Choose(3), nmm = en::Choose(2);
  for (int i = 0; i < nl; ++i) w.list.push_back(SmallP(i + 1));
  for (int i = 0; i < ng; ++i) w.grid.push_back(std::vector<int32_t>(i, i + 7));
  for (int i = 0; i < nm; ++i) w.m[std::string(i, 'k')] = SmallP(i);
  for (int i = 0; i < nmm; ++i) w.mm[i - 1] = {"", "x"};
  w.p = {SmallQ(nl), nm ? "pair" : ""};
  if (en::Flip()) w.o = AnyText();
  if (en::Flip()) w.oi = nl;
  w.b = en::Flip();
  w.u = w.b ? ~0ull : 0;
  return w;
}
}  // namespace

EN_SCENARIO(structs) {
  if (en::Flip()) {
    ns1::P p;
    FillP(p);
    ns2::P into;
    Check<current::type_evolution::NaturalEvolver>(p, into, Expect{false}.Of(p), "struct");
    ns2::P into2;
    Check<current::type_evolution::Custom>(p, into2, Expect{true}.Of(p), "struct-custom");
  } else {
    ns1::Q q;
    FillP(q);
    static const std::vector<double> ds = {0, -0.125, 1e300};
    static const std::vector<int64_t> ts = {0, 1, -1, INT64_MAX};
    q.d = en::Pick(ds);
    q.t = std::chrono::microseconds(en::Pick(ts));
    ns2::Q into;
    Check<current::type_evolution::NaturalEvolver>(q, into, Expect{false}.Of(q), "derived");
    ns2::Q into2;
    Check<current::type_evolution::Custom>(q, into2, Expect{true}.Of(q), "derived-custom");
  }
}

EN_SCENARIO(containers) {
  const ns1::W w = AnyW();
  ns2::W into;
  Check<current::type_evolution::NaturalEvolver>(w, into, Expect{false}.Of(w), "containers");
  ns2::W into2;
  Check<current::type_evolution::Custom>(w, into2, Expect{true}.Of(w), "containers-custom");
}

EN_SCENARIO(variants) {
  ns1::VW vw;
  vw.v = SmallV(en::Choose(4));
  const int n = en::Choose(4);
  for (int i = 0; i < n; ++i) vw.vs.push_back(SmallV(en::Choose(4)));
  if (en::Flip()) {
    ns1::W w;
    w.list.push_back(SmallP(n));
    w.m["x"] = SmallP(1);
    vw.w = w;
  } else {
    vw.w = SmallP(n);
  }
  for (const bool custom : {false, true}) {
    const Expect e{custom};
    ns2::VW want, into;
    want.v = e.Of(vw.v);
    want.vs.clear();
    for (const auto& v : vw.vs) want.vs.push_back(e.Of(v));
    if (Exists<ns1::W>(vw.w)) want.w = e.Of(Value<ns1::W>(vw.w)); else want.w = e.Of(Value<ns1::P>(vw.w));
    if (custom) Check<current::type_evolution::Custom>(vw, into, want, "variants-custom");
    else Check<current::type_evolution::NaturalEvolver>(vw, into, want, "variants");
  }
}
