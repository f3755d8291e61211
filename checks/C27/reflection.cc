// C27: type IDs, reflected types, and the schemas exported from them, over an exhaustively generated family of types,
// against an independent description of the same types.
#include "current.h"
#include "typesystem/schema/schema.h"

#include <algorithm>
#include <fstream>
#include <set>
#include <thread>
#include <tuple>

#include "enum.h"

using namespace current::reflection;

// ---------------------------------------------------------------------------------------------------------------------
// The user types.

namespace ut {

CURRENT_ENUM(E8, uint8_t){A = 1, B = 2};
CURRENT_ENUM(E64, int64_t){A = 1, B = 2};

CURRENT_STRUCT(Empty){};
CURRENT_STRUCT(S0) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_FIELD(s, std::string);
  CURRENT_FIELD_DESCRIPTION(s, "One | two\nthree \"four\".");
};
CURRENT_STRUCT(D0, S0) {
  CURRENT_FIELD(d, double, 0.0);
  CURRENT_FIELD_DESCRIPTION(d, "Own.");
};
CURRENT_STRUCT(D1, D0){};
CURRENT_STRUCT(Renamed) {
  CURRENT_FIELD(y, int32_t, 0);
  CURRENT_FIELD_NAME(y, "x");
  CURRENT_FIELD(s, std::string);
};
CURRENT_VARIANT(V, S0, Empty, D0);
using VS = Variant<S0, D1>;
using VN = Variant<V, S0>;

CURRENT_STRUCT_T(H) { CURRENT_FIELD(h, T); };
CURRENT_STRUCT_T(TD, S0) {
  CURRENT_FIELD(k, int32_t, 0);
  CURRENT_FIELD(t, T);
};
CURRENT_STRUCT(OfTemplated, H<S0>) { CURRENT_FIELD(z, H<H<int32_t>>); };

// Cyclic ones.
CURRENT_STRUCT(Self) {
  CURRENT_FIELD(v, std::vector<Self>);
  CURRENT_FIELD(m, (std::map<std::string, Self>));
};
CURRENT_STRUCT(SelfOther) { CURRENT_FIELD(v, std::vector<SelfOther>); };
CURRENT_FORWARD_DECLARE_STRUCT(Pong);
CURRENT_STRUCT(Ping) { CURRENT_FIELD(pong, std::vector<Pong>); };
CURRENT_STRUCT(Pong) {
  CURRENT_FIELD(ping, std::vector<Ping>);
  CURRENT_FIELD(more, (std::map<std::string, Pong>));
};
CURRENT_STRUCT(Tail, Pong) {
  CURRENT_FIELD(ping, Ping);
  CURRENT_FIELD(self, (std::vector<Tail>));
};
using CV = Variant<Ping, Tail, Self>;

CURRENT_STRUCT(Root) {
  CURRENT_FIELD(e, E8);
  CURRENT_FIELD(f, E64);
  CURRENT_FIELD(d1, D1);
  CURRENT_FIELD(v, Optional<V>);
  CURRENT_FIELD(vs, std::vector<VS>);
  CURRENT_FIELD(a, (std::array<S0, 2>));
  CURRENT_FIELD(b, (std::array<S0, 3>));
  CURRENT_FIELD(c, std::vector<S0>);
  CURRENT_FIELD(n, (std::map<std::string, std::vector<std::pair<E8, Optional<S0>>>>));
  CURRENT_FIELD_DESCRIPTION(n, "Nested.");
  CURRENT_FIELD(u, (std::unordered_map<std::string, std::set<int32_t>>));
  CURRENT_FIELD(us, std::unordered_set<std::string>);
  CURRENT_FIELD(hs, H<S0>);
  CURRENT_FIELD(hv, H<V>);
  CURRENT_FIELD(td, TD<E8>);
};

// Same names, different structure.
namespace other {
CURRENT_STRUCT(S0) {
  CURRENT_FIELD(x, int32_t, 0);
  CURRENT_FIELD(t, std::string);
};
CURRENT_STRUCT(D0, Empty) { CURRENT_FIELD(d, double, 0.0); };
CURRENT_STRUCT(D1, S0){};
CURRENT_STRUCT(Empty, S0){};
CURRENT_STRUCT(H_Z) { CURRENT_FIELD(h, int32_t); };
CURRENT_VARIANT(V, S0, Empty);
CURRENT_STRUCT(Self) {
  CURRENT_FIELD(v, std::vector<Self>);
  CURRENT_FIELD(m, (std::unordered_map<std::string, Self>));
};
}  // namespace other
// Same names, same structure.
namespace same {
CURRENT_STRUCT(Empty){};
CURRENT_STRUCT(S0) {
  CURRENT_FIELD(x, int32_t, 5);
  CURRENT_FIELD(s, std::string, "default");
};
CURRENT_STRUCT(D0, S0) { CURRENT_FIELD(d, double, 1.0); };
CURRENT_VARIANT(V, S0, Empty, D0);
CURRENT_STRUCT_T(H) { CURRENT_FIELD(h, T); };
CURRENT_STRUCT(Self) {
  CURRENT_FIELD(v, std::vector<Self>);
  CURRENT_FIELD(m, (std::map<std::string, Self>));
};
}  // namespace same

}  // namespace ut

// ---------------------------------------------------------------------------------------------------------------------
// The independent description of types.

namespace td {

struct N;
struct F {
  std::string name;
  const N* type;
  std::string description;
};
struct N {
  std::string kind;  // prim enum array vector set uset pair map umap optional variant struct
  std::string name;  // prim: C++ name; enum, variant, struct: the name.
  std::string full;  // Unique within the program.
  std::vector<const N*> kids;
  size_t size = 0;
  std::vector<F> fields;
  const N* super = nullptr;
  const N* inner = nullptr;
  std::string fs, md, ts;  // For the primitive types.
  TypeID (*id)() = nullptr;
  const ReflectedType& (*reflect)() = nullptr;
};

template <class T>
const ReflectedType& Reflect() {
  return Reflector().ReflectType<T>();
}

template <class T>
struct D;

template <class T>
const N* Of() {
  static N n;
  static bool first = true;
  if (first) {
    first = false;
    n.id = CurrentTypeID<T>;
    n.reflect = Reflect<T>;
    D<T>::Fill(n);
    if (n.full.empty()) {
      n.full = n.kind + "(" + n.name;
      for (const N* k : n.kids) n.full += "," + k->full;
      if (n.size) n.full += "," + std::to_string(n.size);
      n.full += ")";
    }
  }
  return &n;
}

template <class T>
void AddField(N& n, const char* name, const char* description = "") {
  n.fields.push_back({name, Of<T>(), description});
}

#define TD_PRIM(T, FS, MD, TS)                    \
  template <>                                     \
  struct D<T> {                                   \
    static void Fill(N& n) {                      \
      n.kind = "prim", n.name = #T;               \
      n.fs = FS, n.md = MD, n.ts = TS;            \
    }                                             \
  }
TD_PRIM(bool, "bool", "`true` or `false`", "boolean");
TD_PRIM(uint8_t, "byte", "Integer (8-bit unsigned)", "number");
TD_PRIM(uint16_t, "uint16", "Integer (16-bit unsigned)", "number");
TD_PRIM(uint32_t, "uint32", "Integer (32-bit unsigned)", "number");
TD_PRIM(uint64_t, "uint64", "Integer (64-bit unsigned)", "number");
TD_PRIM(int8_t, "sbyte", "Integer (8-bit signed)", "number");
TD_PRIM(int16_t, "int16", "Integer (16-bit signed)", "number");
TD_PRIM(int32_t, "int32", "Integer (32-bit signed)", "number");
TD_PRIM(int64_t, "int64", "Integer (64-bit signed)", "number");
TD_PRIM(char, "char", "Character", "number");
TD_PRIM(std::string, "string", "String", "string");
TD_PRIM(float, "float", "Number (floating point, single precision)", "number");
TD_PRIM(double, "double", "Number (floating point, double precision)", "number");
TD_PRIM(std::chrono::microseconds, "int64  // microseconds.", "Time (microseconds since epoch)", "number");
TD_PRIM(std::chrono::milliseconds, "int64  // milliseconds.", "Time (milliseconds since epoch)", "number");

#define TD_ENUM(NS, T, U)                \
  template <>                            \
  struct D<NS::T> {                      \
    static void Fill(N& n) {             \
      n.kind = "enum", n.name = #T;      \
      n.kids = {Of<U>()};                \
      n.full = #NS "::" #T;              \
    }                                    \
  }
TD_ENUM(ut, E8, uint8_t);
TD_ENUM(ut, E64, int64_t);

#define TD_UNARY(T, KIND)                                                     \
  template <class X>                                                          \
  struct D<T<X>> {                                                            \
    static void Fill(N& n) { n.kind = KIND, n.kids = {Of<X>()}; }             \
  }
#define TD_BINARY(T, KIND)                                                    \
  template <class X, class Y>                                                 \
  struct D<T<X, Y>> {                                                         \
    static void Fill(N& n) { n.kind = KIND, n.kids = {Of<X>(), Of<Y>()}; }    \
  }
TD_UNARY(std::vector, "vector");
TD_UNARY(std::set, "set");
TD_UNARY(std::unordered_set, "uset");
TD_UNARY(Optional, "optional");
TD_BINARY(std::pair, "pair");
TD_BINARY(std::map, "map");
TD_BINARY(std::unordered_map, "umap");
template <class X, size_t SIZE>
struct D<std::array<X, SIZE>> {
  static void Fill(N& n) { n.kind = "array", n.kids = {Of<X>()}, n.size = SIZE; }
};

#define TD_STRUCT(NS, S, SUPER, ...)              \
  template <>                                     \
  struct D<NS::S> {                               \
    static void Fill(N& n) {                      \
      n.kind = "struct", n.name = #S;             \
      n.full = #NS "::" #S;                       \
      n.super = SUPER;                            \
      __VA_ARGS__;                                \
    }                                             \
  }

TD_STRUCT(ut, Empty, nullptr, );
TD_STRUCT(ut, S0, nullptr, AddField<int32_t>(n, "x"), AddField<std::string>(n, "s", "One | two\nthree \"four\"."));
TD_STRUCT(ut, D0, Of<ut::S0>(), AddField<double>(n, "d", "Own."));
TD_STRUCT(ut, D1, Of<ut::D0>(), );
TD_STRUCT(ut, Renamed, nullptr, AddField<int32_t>(n, "x"), AddField<std::string>(n, "s"));
TD_STRUCT(ut, Self, nullptr, AddField<std::vector<ut::Self>>(n, "v"), AddField<std::map<std::string, ut::Self>>(n, "m"));
TD_STRUCT(ut, SelfOther, nullptr, AddField<std::vector<ut::SelfOther>>(n, "v"));
TD_STRUCT(ut, Ping, nullptr, AddField<std::vector<ut::Pong>>(n, "pong"));
TD_STRUCT(ut, Pong, nullptr, AddField<std::vector<ut::Ping>>(n, "ping"), AddField<std::map<std::string, ut::Pong>>(n, "more"));
TD_STRUCT(ut, Tail, Of<ut::Pong>(), AddField<ut::Ping>(n, "ping"), AddField<std::vector<ut::Tail>>(n, "self"));
TD_STRUCT(ut::other, S0, nullptr, AddField<int32_t>(n, "x"), AddField<std::string>(n, "t"));
TD_STRUCT(ut::other, D0, Of<ut::Empty>(), AddField<double>(n, "d"));
TD_STRUCT(ut::other, D1, Of<ut::other::S0>(), );
TD_STRUCT(ut::other, Empty, Of<ut::other::S0>(), );
TD_STRUCT(ut::other, H_Z, nullptr, AddField<int32_t>(n, "h"));
TD_STRUCT(ut::other, Self, nullptr, AddField<std::vector<ut::other::Self>>(n, "v"), AddField<std::unordered_map<std::string, ut::other::Self>>(n, "m"));

template <class T>
struct D<ut::H<T>> {
  static void Fill(N& n) {
    n.kind = "struct", n.name = "H", n.inner = Of<T>();
    n.full = "H<" + n.inner->full + ">";
    AddField<T>(n, "h");
  }
};
template <class T>
struct D<ut::TD<T>> {
  static void Fill(N& n) {
    n.kind = "struct", n.name = "TD", n.inner = Of<T>(), n.super = Of<ut::S0>();
    n.full = "TD<" + n.inner->full + ">";
    AddField<int32_t>(n, "k");
    AddField<T>(n, "t");
  }
};
TD_STRUCT(ut, OfTemplated, Of<ut::H<ut::S0>>(), AddField<ut::H<ut::H<int32_t>>>(n, "z"));

#define TD_VARIANT(T, NAME, FULL, ...)               \
  template <>                                        \
  struct D<T> {                                      \
    static void Fill(N& n) {                         \
      n.kind = "variant", n.name = NAME;             \
      n.full = FULL;                                 \
      n.kids = {__VA_ARGS__};                        \
    }                                                \
  }
TD_VARIANT(ut::V, "V", "ut::V", Of<ut::S0>(), Of<ut::Empty>(), Of<ut::D0>());
TD_VARIANT(ut::other::V, "V", "ut::other::V", Of<ut::other::S0>(), Of<ut::other::Empty>());
TD_VARIANT(ut::VS, "Variant_B_S0_D1_E", "ut::VS", Of<ut::S0>(), Of<ut::D1>());
TD_VARIANT(ut::VN, "Variant_B_V_S0_E", "ut::VN", Of<ut::V>(), Of<ut::S0>());
TD_VARIANT(ut::CV, "Variant_B_Ping_Tail_Self_E", "ut::CV", Of<ut::Ping>(), Of<ut::Tail>(), Of<ut::Self>());

using nest_t = std::map<std::string, std::vector<std::pair<ut::E8, Optional<ut::S0>>>>;
using uset_t = std::unordered_map<std::string, std::set<int32_t>>;
using a2_t = std::array<ut::S0, 2>;
using a3_t = std::array<ut::S0, 3>;
TD_STRUCT(ut, Root, nullptr, AddField<ut::E8>(n, "e"), AddField<ut::E64>(n, "f"), AddField<ut::D1>(n, "d1"),
          AddField<Optional<ut::V>>(n, "v"), AddField<std::vector<ut::VS>>(n, "vs"), AddField<a2_t>(n, "a"),
          AddField<a3_t>(n, "b"), AddField<std::vector<ut::S0>>(n, "c"), AddField<nest_t>(n, "n", "Nested."),
          AddField<uset_t>(n, "u"), AddField<std::unordered_set<std::string>>(n, "us"), AddField<ut::H<ut::S0>>(n, "hs"),
          AddField<ut::H<ut::V>>(n, "hv"), AddField<ut::TD<ut::E8>>(n, "td"));

// ---------------------------------------------------------------------------------------------------------------------
// The family of types.

using list_t = std::vector<const N*>;

template <class X>
void Unary(list_t& l) {
  for (const N* n : {Of<std::vector<X>>(), Of<std::set<X>>(), Of<std::unordered_set<X>>(), Of<Optional<X>>(),
                     Of<std::array<X, 1>>(), Of<std::array<X, 2>>(), Of<std::array<X, 17>>()})
    l.push_back(n);
}
template <class X, class Y>
void Binary(list_t& l) {
  for (const N* n : {Of<std::pair<X, Y>>(), Of<std::map<X, Y>>(), Of<std::unordered_map<X, Y>>()}) l.push_back(n);
}
template <class X, class... YS>
void BinaryEach(list_t& l) {
  (Binary<X, YS>(l), ...);
}
template <class X>
void Unary2(list_t& l) {
  Unary<std::vector<X>>(l);
  Unary<std::set<X>>(l);
  Unary<std::unordered_set<X>>(l);
  Unary<Optional<X>>(l);
  Unary<std::array<X, 2>>(l);
  Unary<std::pair<X, X>>(l);
  Unary<std::map<std::string, X>>(l);
  Unary<std::unordered_map<std::string, X>>(l);
  BinaryEach<std::string, std::vector<X>, std::set<X>, Optional<X>, std::array<X, 2>, std::pair<X, std::string>, std::map<std::string, X>>(l);
}
template <class... XS>
struct Types {
  static void Leaves(list_t& l) { (l.push_back(Of<XS>()), ...); }
  static void UnaryAll(list_t& l) { (Unary<XS>(l), ...); }
  static void Unary2All(list_t& l) { (Unary2<XS>(l), ...); }
  static void BinaryAll(list_t& l) { (BinaryEach<XS, XS...>(l), ...); }
  static void Holders(list_t& l) { (l.push_back(Of<ut::H<XS>>()), ...); }
};

using prims_t = Types<bool, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t, char, std::string, float,
                      double, std::chrono::microseconds, std::chrono::milliseconds>;
using users_t = Types<ut::E8, ut::E64, ut::Empty, ut::S0, ut::D0, ut::D1, ut::Renamed, ut::V, ut::VS, ut::VN, ut::H<int32_t>, ut::H<ut::S0>,
                      ut::TD<ut::E8>, ut::OfTemplated>;
using cyclic_t = Types<ut::Self, ut::SelfOther, ut::Ping, ut::Pong, ut::Tail, ut::CV>;
using others_t = Types<ut::other::S0, ut::other::D0, ut::other::D1, ut::other::Empty, ut::other::H_Z, ut::other::V, ut::other::Self, ut::Root>;
using some_t = Types<int32_t, std::string, ut::E8, ut::S0, ut::V>;
using pairs_t = Types<uint8_t, int32_t, std::string, double, ut::E8, ut::S0, ut::V>;
using nested_t = Types<int32_t, ut::E8, ut::S0, ut::V>;

inline const list_t& All() {
  static const list_t l = [] {
    list_t all;
    prims_t::Leaves(all);
    users_t::Leaves(all);
    others_t::Leaves(all);
    cyclic_t::Leaves(all);
    prims_t::UnaryAll(all);
    users_t::UnaryAll(all);
    cyclic_t::UnaryAll(all);
    pairs_t::BinaryAll(all);
    nested_t::Unary2All(all);
    prims_t::Holders(all);
    users_t::Holders(all);
    cyclic_t::Holders(all);
    list_t unique;
    std::set<std::string> seen;
    for (const N* n : all)
      if (seen.insert(n->full).second) unique.push_back(n);
    return unique;
  }();
  return l;
}

// The types to export the schemas of.
template <class... XS>
void HoldersOfUnary(list_t& l) {
  (l.insert(l.end(), {Of<ut::H<std::vector<XS>>>(), Of<ut::H<std::set<XS>>>(), Of<ut::H<std::unordered_set<XS>>>(),
                      Of<ut::H<Optional<XS>>>(), Of<ut::H<std::array<XS, 2>>>(), Of<ut::H<std::pair<XS, std::string>>>(),
                      Of<ut::H<std::map<std::string, XS>>>(), Of<ut::H<std::unordered_map<XS, std::string>>>()}),
   ...);
}

// Everything reachable.
inline void Reach(const N* n, std::map<TypeID, const N*>& into) {
  if (!into.emplace(n->id(), n).second) return;
  for (const N* k : n->kids) Reach(k, into);
  for (const F& f : n->fields) Reach(f.type, into);
  if (n->super) Reach(n->super, into);
}

}  // namespace td

using td::N;

namespace {

std::string Hex(TypeID id) { return std::to_string(static_cast<uint64_t>(id)); }

template <class F>
void InFreshThread(F f) {
  // The state of the reflector is thread-local.
  bool stop = false;
  std::thread([&] {
    try {
      f();
    } catch (const en::Stop&) {
      stop = true;
    }
  }).join();
  if (stop) throw en::Stop();
}

const std::map<std::string, uint64_t>& Prefixes() {
  static const std::map<std::string, uint64_t> m = {{"prim", 900}, {"enum", 901}, {"struct", 920}, {"optional", 921}, {"variant", 922}, {"array", 930}, {"vector", 931}, {"set", 932}, {"pair", 933}, {"map", 934}, {"uset", 935}, {"umap", 936}};
  return m;
}

std::string NativeName(const N* n) { return n->inner ? n->name + "_Z" : n->name; }
std::string ExpandedName(const N* n) { return n->inner ? n->name + "_T" + Hex(n->inner->id()) : n->name; }

template <class R>
const R& As(const ReflectedType& t, const N* n) {
  if (!Exists<R>(t)) en::Violation("reflected-kind", n->full + " is reflected as another kind of a type");
  return Value<R>(t);
}

void CheckReflected(const N* n, const ReflectedType& t) {
  const auto id = [](const N* m) { return m->id(); };
  const auto same = [n](const char* what, TypeID got, TypeID want) {
    if (got != want) en::Violation("reflected-type", n->full + ": the " + what + " is " + Hex(got) + " instead of " + Hex(want));
  };
  const auto text = [n](const char* what, const std::string& got, const std::string& want) {
    if (got != want) en::Violation("reflected-name", n->full + ": the " + what + " is `" + got + "` instead of `" + want + "`");
  };
  const auto opt = [n, &same, &text](const char* what, const Optional<TypeID>& got, const Optional<std::string>& name, const N* want) {
    if (Exists(got) != (want != nullptr) || Exists(name) != (want != nullptr)) en::Violation("reflected-super", n->full + ": the presence of the " + what + " is wrong");
    if (want) {
      same(what, Value(got), want->id());
      if (want->kind == "struct" || want->kind == "variant" || want->kind == "enum") text(what, Value(name), NativeName(want));
    }
  };
  TypeID own = TypeID::UninitializedType;
  if (n->kind == "prim") {
    own = As<ReflectedType_Primitive>(t, n).type_id;
  } else if (n->kind == "enum") {
    const auto& r = As<ReflectedType_Enum>(t, n);
    own = r.type_id;
    text("name", r.name, n->name);
    same("underlying type", r.underlying_type, id(n->kids[0]));
  } else if (n->kind == "array") {
    const auto& r = As<ReflectedType_Array>(t, n);
    own = r.type_id;
    same("element type", r.element_type, id(n->kids[0]));
    EN_CHECK_EQ(r.size, n->size, "reflected-size");
  } else if (n->kind == "vector") {
    const auto& r = As<ReflectedType_Vector>(t, n);
    own = r.type_id;
    same("element type", r.element_type, id(n->kids[0]));
  } else if (n->kind == "set") {
    const auto& r = As<ReflectedType_Set>(t, n);
    own = r.type_id;
    same("value type", r.value_type, id(n->kids[0]));
  } else if (n->kind == "uset") {
    const auto& r = As<ReflectedType_UnorderedSet>(t, n);
    own = r.type_id;
    same("value type", r.value_type, id(n->kids[0]));
  } else if (n->kind == "pair") {
    const auto& r = As<ReflectedType_Pair>(t, n);
    own = r.type_id;
    same("first type", r.first_type, id(n->kids[0]));
    same("second type", r.second_type, id(n->kids[1]));
  } else if (n->kind == "map") {
    const auto& r = As<ReflectedType_Map>(t, n);
    own = r.type_id;
    same("key type", r.key_type, id(n->kids[0]));
    same("value type", r.value_type, id(n->kids[1]));
  } else if (n->kind == "umap") {
    const auto& r = As<ReflectedType_UnorderedMap>(t, n);
    own = r.type_id;
    same("key type", r.key_type, id(n->kids[0]));
    same("value type", r.value_type, id(n->kids[1]));
  } else if (n->kind == "optional") {
    const auto& r = As<ReflectedType_Optional>(t, n);
    own = r.type_id;
    same("underlying type", r.optional_type, id(n->kids[0]));
  } else if (n->kind == "variant") {
    const auto& r = As<ReflectedType_Variant>(t, n);
    own = r.type_id;
    text("name", r.name, n->name);
    EN_CHECK_EQ(r.cases.size(), n->kids.size(), "reflected-cases");
    for (size_t i = 0; i < n->kids.size(); ++i) same("case", r.cases[i], id(n->kids[i]));
  } else {
    const auto& r = As<ReflectedType_Struct>(t, n);
    own = r.type_id;
    text("name", r.native_name, NativeName(n));
    text("expanded name", r.TemplateInnerTypeExpandedName(), ExpandedName(n));
    opt("super", r.super_id, r.super_name, n->super);
    opt("template inner type", r.template_inner_id, r.template_inner_name, n->inner);
    EN_CHECK_EQ(r.fields.size(), n->fields.size(), "reflected-fields");
    for (size_t i = 0; i < n->fields.size(); ++i) {
      text("name of the field", r.fields[i].name, n->fields[i].name);
      same("type of the field", r.fields[i].type_id, id(n->fields[i].type));
      if (Exists(r.fields[i].description) != !n->fields[i].description.empty()) en::Violation("reflected-description", n->full + "." + n->fields[i].name);
      if (Exists(r.fields[i].description)) text("description", Value(r.fields[i].description), n->fields[i].description);
    }
  }
  same("type ID", own, n->id());
  EN_CHECK_EQ(TypePrefix(own), Prefixes().at(n->kind), "type-id-prefix");
}

// ---------------------------------------------------------------------------------------------------------------------
// What the types look like in the other languages.

std::string Cpp(const N* n, const std::string& ns) {
  const auto q = [&](const std::string& name) { return (ns == "t" ? "t" + Hex(n->id()) + "::" : ns) + name; };
  if (n->kind == "prim") return n->name;
  if (n->kind == "enum" || n->kind == "variant") return q(n->name);
  if (n->kind == "struct") return q(NativeName(n));
  const std::string a = Cpp(n->kids[0], ns);
  const std::string b = n->kids.size() > 1 ? Cpp(n->kids[1], ns) : "";
  if (n->kind == "array") return "std::array<" + a + "," + std::to_string(n->size) + ">";
  if (n->kind == "vector") return "std::vector<" + a + ">";
  if (n->kind == "set") return "std::set<" + a + ">";
  if (n->kind == "uset") return "std::unordered_set<" + a + ">";
  if (n->kind == "optional") return "Optional<" + a + ">";
  if (n->kind == "pair") return "std::pair<" + a + ", " + b + ">";
  if (n->kind == "map") return "std::map<" + a + ", " + b + ">";
  return "std::unordered_map<" + a + ", " + b + ">";
}

std::string FSharp(const N* n) {
  if (n->kind == "prim") return n->fs;
  if (n->kind == "enum" || n->kind == "variant") return n->name;
  if (n->kind == "struct") return ExpandedName(n);
  const std::string a = FSharp(n->kids[0]);
  const std::string b = n->kids.size() > 1 ? FSharp(n->kids[1]) : "";
  if (n->kind == "array" || n->kind == "vector") return a + " array";
  if (n->kind == "set") return "System.Collections.Generic.OrderedSet<" + a + ">";
  if (n->kind == "uset") return "System.Collections.Generic.UnorderedSet<" + a + ">";
  if (n->kind == "optional") return a + " option";
  if (n->kind == "pair") return a + " * " + b;
  return "System.Collections.Generic.Dictionary<" + a + ", " + b + ">";
}

std::string Markdown(const N* n) {
  if (n->kind == "prim") return n->md;
  if (n->kind == "enum") return "Index `" + n->name + "`, underlying type `" + n->kids[0]->md + "`";
  if (n->kind == "struct") return "`" + ExpandedName(n) + "`";
  if (n->kind == "variant") {
    std::string s;
    for (const N* k : n->kids) s += (s.empty() ? "" : " / ") + Markdown(k);
    return "Algebraic " + s + " (a.k.a. `" + n->name + "`)";
  }
  const std::string a = Markdown(n->kids[0]);
  const std::string b = n->kids.size() > 1 ? Markdown(n->kids[1]) : "";
  if (n->kind == "array" || n->kind == "vector") return "Array of " + a;
  if (n->kind == "set") return "Ordered set of " + a;
  if (n->kind == "uset") return "Unordered set of " + a;
  if (n->kind == "optional") return "`null` or " + a;
  if (n->kind == "pair") return "Pair of " + a + " and " + b;
  return (n->kind == "map" ? "Ordered map of " : "Unordered map of ") + a + " into " + b;
}

std::string TSVariantName(const N* n) { return n->name.substr(0, 10) == "Variant_B_" ? "C5TCurrentVariant_T" + Hex(n->id()) : n->name; }
std::string TypeScript(const N* n, bool part = false) {
  if (n->kind == "prim") return n->ts;
  if (n->kind == "enum") return n->name;
  if (n->kind == "variant") return TSVariantName(n);
  if (n->kind == "struct") return ExpandedName(n);
  if (n->kind == "optional") return (part ? "(" : "") + TypeScript(n->kids[0]) + " | null" + (part ? ")" : "");
  if (n->kind == "pair") return "[" + TypeScript(n->kids[0]) + ", " + TypeScript(n->kids[1]) + "]";
  if (n->kind == "map" || n->kind == "umap") return "Record<" + TypeScript(n->kids[0]) + ", " + TypeScript(n->kids[1]) + ">";
  return TypeScript(n->kids[0], true) + "[]";
}

std::string Comment(const std::string& description) {
  std::string s = "  // ";
  for (char c : description) s += c == '\n' ? std::string("\n  // ") : std::string(1, c);
  return s + "\n";
}

void FieldsWithSuper(const N* n, std::vector<std::pair<td::F, bool>>& into) {
  if (n->super) FieldsWithSuper(n->super, into);
  bool first = true;
  for (const auto& f : n->fields) into.emplace_back(f, first), first = false;
}

// The block of text which defines the type; empty if the type needs no definition.
std::string CppBlock(const N* n, bool current) {
  std::ostringstream os;
  if (n->kind == "enum") {
    if (current) os << "CURRENT_ENUM(" << n->name << ", " << n->kids[0]->name << ") {};\n";
    else os << "enum class " << n->name << " : " << n->kids[0]->name << " {};\n";
  } else if (n->kind == "variant") {
    os << (current ? "CURRENT_VARIANT(" + n->name + ", " : "using " + n->name + " = Variant<");
    for (size_t i = 0; i < n->kids.size(); ++i) os << (i ? ", " : "") << Cpp(n->kids[i], current ? "t" : "");
    os << (current ? ");\n" : ">;\n");
  } else if (n->kind == "struct" && current) {
    os << "CURRENT_STRUCT(" << NativeName(n) << (n->super ? ", " + Cpp(n->super, "t") : "") << ") {\n";
    if (n->inner) os << "  CURRENT_EXPORTED_TEMPLATED_STRUCT(" << n->name << ", " << Cpp(n->inner, "t") << ");\n";
    for (const auto& f : n->fields) {
      const std::string t = Cpp(f.type, "t");
      os << "  CURRENT_FIELD(" << f.name << ", " << (t.find(',') == std::string::npos ? t : "(" + t + ")") << ");\n";
      if (!f.description.empty()) {
        std::string e;
        for (char c : f.description) e += c == '\n' ? "\\n" : c == '"' ? "\\\"" : std::string(1, c);
        os << "  CURRENT_FIELD_DESCRIPTION(" << f.name << ", \"" << e << "\");\n";
      }
    }
    os << "};\n";
  } else if (n->kind == "struct") {
    os << "struct " << ExpandedName(n) << (n->super ? " : " + Cpp(n->super, "") : "") << " {\n";
    bool first = true;
    for (const auto& f : n->fields) {
      if (!f.description.empty()) os << (first ? "" : "\n") << Comment(f.description);
      os << "  " << Cpp(f.type, "") << " " << f.name << ";\n";
      first = false;
    }
    os << "};\n";
  }
  return os.str();
}

bool NoFields(const N* n) { return n->kind == "struct" && n->fields.empty() && (!n->super || NoFields(n->super)); }

std::string FSharpBlock(const N* n) {
  std::ostringstream os;
  if (n->kind == "enum") {
    os << "\ntype " << n->name << " = " << n->kids[0]->fs << "\n";
  } else if (n->kind == "variant") {
    os << "\ntype " << n->name << " =\n";
    for (const N* k : n->kids) os << "| " << FSharp(k) << (NoFields(k) ? "" : " of " + FSharp(k)) << "\n";
  } else if (n->kind == "struct" && !NoFields(n)) {
    os << "\ntype " << ExpandedName(n) << " = {\n";
    std::vector<std::pair<td::F, bool>> fields;
    FieldsWithSuper(n, fields);
    for (const auto& f : fields) {
      if (!f.first.description.empty()) os << (f.second ? "" : "\n") << Comment(f.first.description);
      os << "  " << f.first.name << " : " << FSharp(f.first.type) << "\n";
    }
    os << "}\n";
  }
  return os.str();
}

std::string MarkdownBlock(const N* n) {
  std::ostringstream os;
  if (n->kind == "variant") {
    os << "\n### `" << n->name << "`\nAlgebraic type, ";
    for (size_t i = 0; i < n->kids.size(); ++i) os << (i ? " or " : "") << Markdown(n->kids[i]);
    os << "\n\n";
  } else if (n->kind == "struct") {
    os << "\n### `" << ExpandedName(n) << "`" << (n->super ? ", extends `" + ExpandedName(n->super) + "`" : "");
    std::vector<std::pair<td::F, bool>> fields;
    FieldsWithSuper(n, fields);
    if (fields.empty()) {
      os << "\n_No own fields._\n";
    } else {
      os << "\n| **Field** | **Type** | **Description** |\n| ---: | :--- | :--- |\n";
      for (const auto& f : fields) {
        os << "| `" << f.first.name << "` | " << Markdown(f.first.type) << " |";
        if (!f.first.description.empty()) {
          os << " ";
          for (char c : f.first.description) os << (c == '\n' ? "<br>" : c == '|' ? "&#124;" : std::string(1, c));
          os << " |";
        }
        os << "\n";
      }
    }
  }
  return os.str();
}

std::string TypeScriptBlock(const N* n) {
  std::ostringstream os;
  if (n->kind == "enum") {
    os << "\nexport type " << n->name << " = number;\n";
  } else if (n->kind == "variant") {
    os << "\nexport type " << TSVariantName(n) << " = {\n";
    for (const N* k : n->kids) os << "  " << TypeScript(k) << "?: " << TypeScript(k) << ";\n";
    os << "};\n";
  } else if (n->kind == "struct") {
    os << "\nexport type " << ExpandedName(n) << " = ";
    if (n->super) os << ExpandedName(n->super);
    if (!n->fields.empty()) {
      os << (n->super ? " & " : "") << "{\n";
      bool first = true;
      for (const auto& f : n->fields) {
        if (!f.description.empty()) os << (first ? "" : "\n") << Comment(f.description);
        os << "  " << f.name << ": " << TypeScript(f.type) << ";\n";
        first = false;
      }
      os << "}";
    } else if (!n->super) {
      os << "{}";
    }
    os << ";\n";
  }
  return os.str();
}

namespace v = variant_clean_type_names;

void CheckJSON(const N* n, const v::type_variant_t& t);
template <class T>
const T& JAs(const N* n, const v::type_variant_t& t) {
  if (!Exists<T>(t)) en::Violation("json-schema", n->full + ": another kind of a type in the JSON schema");
  return Value<T>(t);
}
void CheckJSON(const N* n, const v::type_variant_t& t) {
  if (n->kind == "prim") {
    EN_CHECK_EQ(JAs<v::primitive>(n, t).type, n->name, "json-schema");
    EN_CHECK_EQ(JAs<v::primitive>(n, t).text, n->md, "json-schema");
  } else if (n->kind == "enum") {
    const auto& k = JAs<v::key>(n, t);
    EN_CHECK_EQ(k.name, n->name, "json-schema");
    EN_CHECK_EQ(k.type, n->kids[0]->name, "json-schema");
    EN_CHECK_EQ(k.text, n->kids[0]->md, "json-schema");
  } else if (n->kind == "array") {
    EN_CHECK_EQ(JAs<v::fixed_size_array>(n, t).size, n->size, "json-schema");
    CheckJSON(n->kids[0], Value<v::fixed_size_array>(t).element);
  } else if (n->kind == "vector") {
    CheckJSON(n->kids[0], JAs<v::array>(n, t).element);
  } else if (n->kind == "set") {
    CheckJSON(n->kids[0], JAs<v::ordered_set>(n, t).of);
  } else if (n->kind == "uset") {
    CheckJSON(n->kids[0], JAs<v::unordered_set>(n, t).of);
  } else if (n->kind == "optional") {
    CheckJSON(n->kids[0], JAs<v::optional>(n, t).underlying);
  } else if (n->kind == "pair") {
    CheckJSON(n->kids[0], JAs<v::pair>(n, t).first);
    CheckJSON(n->kids[1], Value<v::pair>(t).second);
  } else if (n->kind == "map") {
    CheckJSON(n->kids[0], JAs<v::ordered_dictionary>(n, t).from);
    CheckJSON(n->kids[1], Value<v::ordered_dictionary>(t).into);
  } else if (n->kind == "umap") {
    CheckJSON(n->kids[0], JAs<v::unordered_dictionary>(n, t).from);
    CheckJSON(n->kids[1], Value<v::unordered_dictionary>(t).into);
  } else if (n->kind == "variant") {
    EN_CHECK_EQ(JAs<v::algebraic>(n, t).cases.size(), n->kids.size(), "json-schema");
    for (size_t i = 0; i < n->kids.size(); ++i) CheckJSON(n->kids[i], Value<v::algebraic>(t).cases[i]);
  } else {
    EN_CHECK_EQ(JAs<v::object>(n, t).kind, ExpandedName(n), "json-schema");
  }
}

std::vector<std::string> Describe(const SchemaInfo& s) {
  return {s.Describe<Language::Current>(), s.Describe<Language::CPP>(), s.Describe<Language::FSharp>(),
          s.Describe<Language::Markdown>(), s.Describe<Language::TypeScript>(), s.Describe<Language::JSON>(),
          s.Describe<Language::InternalFormat>()};
}


void CheckSchema(const SchemaInfo& s, const std::vector<const N*>& roots) {
  std::map<TypeID, const N*> all;
  for (const N* r : roots) td::Reach(r, all);
  // The types.
  for (const auto& kv : all) {
    const auto cit = s.types.find(kv.first);
    if (cit == s.types.end()) en::Violation("schema-types", "the schema of " + roots[0]->full + " does not contain " + kv.second->full);
    CheckReflected(kv.second, cit->second);
  }
  EN_CHECK_EQ(s.types.size(), all.size(), "schema-types");
  // The order: all but the primitive types, once each, and what is a part of the type is before the type, except for cycles.
  std::map<TypeID, size_t> position;
  for (size_t i = 0; i < s.order.size(); ++i) {
    if (!all.count(s.order[i]) || !position.emplace(s.order[i], i).second) en::Violation("schema-order", "wrong order of types in the schema of " + roots[0]->full);
  }
  for (const auto& kv : all) {
    if (kv.second->kind == "prim") continue;
    if (!position.count(kv.first)) en::Violation("schema-order", kv.second->full + " is not in the order of types of the schema of " + roots[0]->full);
    std::vector<const N*> parts = kv.second->kids;
    for (const auto& f : kv.second->fields) parts.push_back(f.type);
    if (kv.second->super) parts.push_back(kv.second->super);
    for (const N* part : parts) {
      std::map<TypeID, const N*> reach;
      td::Reach(part, reach);
      if (part->kind != "prim" && !reach.count(kv.first) && position.at(part->id()) > position.at(kv.first))
        en::Violation("schema-order", kv.second->full + " goes before its part, " + part->full);
    }
  }
  // The schema survives its own serialization, and then describes the same types anywhere else.
  const std::string json = JSON(s);
  SchemaInfo parsed;
  try {
    parsed = ParseJSON<SchemaInfo>(json);
  } catch (const current::Exception& e) {
    en::Violation("schema-roundtrip", "the schema of " + roots[0]->full + " can not be parsed: " + e.OriginalDescription());
  }
  EN_CHECK_EQ(JSON(parsed), json, "schema-roundtrip");
  const SchemaInfo minimalistic = ParseJSON<SchemaInfo, JSONFormat::Minimalistic>(s.Describe<Language::InternalFormat>());
  EN_CHECK_EQ(JSON(minimalistic), json, "schema-roundtrip");
  const auto text = Describe(s);
  InFreshThread([&] {
    std::vector<std::string> again;
    try {
      again = Describe(parsed);
    } catch (const current::Exception& e) {
      en::Violation("schema-roundtrip-describe", "the parsed schema of " + roots[0]->full + " can not be exported: " + e.OriginalDescription());
    }
    for (size_t i = 0; i < text.size(); ++i)
      if (again[i] != text[i]) en::Violation("schema-roundtrip-describe", "the parsed schema of " + roots[0]->full + " is exported differently: " + again[i]);
  });
  // The languages.
  std::set<std::string> blocks[5];
  for (const auto& kv : all) {
    const N* n = kv.second;
    const std::string block[5] = {CppBlock(n, true), CppBlock(n, false), FSharpBlock(n), MarkdownBlock(n), TypeScriptBlock(n)};
    static const char* name[5] = {"schema-current", "schema-cpp", "schema-fsharp", "schema-markdown", "schema-typescript"};
    for (int l = 0; l < 5; ++l) {
      if (block[l].empty()) continue;
      size_t count = 0;
      for (size_t pos = text[l].find(block[l]); pos != std::string::npos; pos = text[l].find(block[l], pos + 1)) ++count;
      // Empty structs and variants may be followed or preceded by something of the same text, the fields may not.
      if (count != 1) en::Violation(name[l], "the schema of " + roots[0]->full + " mentions " + std::to_string(count) + " times: " + block[l] + "in: " + text[l]);
      en::Evaluations(1);
    }
  }
  for (int l = 0; l < 5; ++l)
    if (text[l].find("UNKNOWN") != std::string::npos || text[l].find("Unknown") != std::string::npos) en::Violation("schema-unknown", text[l]);
  std::map<std::string, JSONSchemaObject> objects;
  for (const auto& o : ParseJSON<JSONSchema, JSONFormat::Minimalistic>(text[5])) {
    const auto cit = objects.find(o.object);
    if (cit != objects.end()) EN_CHECK_EQ(JSON(cit->second), JSON(o), "json-schema");
    objects[o.object] = o;
  }
  size_t structs = 0;
  for (const auto& kv : all) {
    const N* n = kv.second;
    if (n->kind != "struct") continue;
    ++structs;
    const auto cit = objects.find(ExpandedName(n));
    if (cit == objects.end()) en::Violation("json-schema", n->full + " is not in the JSON schema of " + roots[0]->full);
    std::vector<std::pair<td::F, bool>> fields;
    FieldsWithSuper(n, fields);
    EN_CHECK_EQ(cit->second.contains.size(), fields.size(), "json-schema");
    for (size_t i = 0; i < fields.size(); ++i) {
      const auto& got = cit->second.contains[i];
      EN_CHECK_EQ(got.field, fields[i].first.name, "json-schema");
      EN_CHECK_EQ(Exists(got.description) ? Value(got.description) : "", fields[i].first.description, "json-schema");
      CheckJSON(fields[i].first.type, got.as);
    }
  }
  EN_CHECK_EQ(objects.size(), structs, "json-schema");
}

template <class... XS>
struct Roots {
  using add_t = void (*)(StructSchema&);
  struct R {
    const N* n;
    add_t add;
  };
  template <class T>
  static void Add(StructSchema& s) {
    s.AddType<T>();
  }
  static std::vector<R> Make() { return {R{td::Of<XS>(), Add<XS>}...}; }
};

template <template <class...> class W, class... XS>
struct X8 {};

using u_t = Roots<ut::Root, ut::OfTemplated, ut::VN, ut::CV, ut::Tail, ut::Self, ut::D1, ut::Renamed, ut::Empty>;

template <class T>
using RootsOf = Roots<ut::H<T>, ut::H<std::vector<T>>, ut::H<std::set<T>>, ut::H<std::unordered_set<T>>, ut::H<Optional<T>>, ut::H<std::array<T, 2>>,
                      ut::H<std::pair<T, std::string>>, ut::H<std::map<std::string, T>>, ut::H<std::unordered_map<T, std::string>>,
                      ut::H<std::vector<Optional<T>>>, ut::H<Optional<std::array<T, 3>>>, ut::H<std::map<T, std::vector<T>>>, ut::TD<std::pair<std::vector<T>, Optional<T>>>>;

template <class... XS>
auto AllRoots() {
  auto r = u_t::Make();
  std::vector<std::vector<u_t::R>> parts = {};
  const auto add = [&](auto v) {
    for (const auto& x : v) r.push_back({x.n, x.add});
  };
  (add(RootsOf<XS>::Make()), ...);
  return r;
}
const std::vector<u_t::R>& TheRoots() {
  static const auto r = AllRoots<bool, uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t, char, std::string, float, double,
                                 std::chrono::microseconds, std::chrono::milliseconds, ut::E8, ut::S0, ut::V, ut::VS, ut::H<ut::S0>, ut::Self>();
  return r;
}

}  // namespace

#include "C27/golden_ids.h"

// Different types have different IDs; the IDs are the same as they have ever been, as they are part of what is persisted.
EN_SCENARIO(type_ids) {
  static const std::map<std::string, uint64_t> golden(std::begin(kGoldenIDs), std::end(kGoldenIDs));
  if (const char* path = getenv("C27_DUMP")) {
    FILE* f = fopen(path, "w");
    for (const N* n : td::All()) fprintf(f, "  {\"%s\", %lluull},\n", n->full.c_str(), static_cast<unsigned long long>(n->id()));
    fclose(f);
    _exit(0);
  }
  const N* n = td::All()[static_cast<size_t>(en::Choose(static_cast<int>(td::All().size())))];
  en::State(n->full);
  InFreshThread([n] {
    CheckReflected(n, n->reflect());
    if (&n->reflect() != &Reflector().ReflectedTypeByTypeID(n->id())) en::Violation("by-type-id", n->full);
  });
  const auto cit = golden.find(n->full);
  EN_CHECK(cit != golden.end(), "harness");
  if (cit->second != static_cast<uint64_t>(n->id())) en::Violation("type-id-changed", "the type ID of " + n->full + " is " + Hex(n->id()) + ", used to be " + std::to_string(cit->second));
}

// Different types have different IDs. The known collisions are told from any other ones by the complete list of them.
EN_SCENARIO(collisions) {
  std::map<TypeID, std::set<std::string>> by_id;
  for (const N* n : td::All()) by_id[n->id()].insert(n->full);
  std::set<std::string> groups;
  for (const auto& kv : by_id) {
    en::Evaluations(1);
    if (kv.second.size() == 1) continue;
    std::string group;
    for (const std::string& s : kv.second) group += (group.empty() ? "" : " = ") + s;
    groups.insert(group);
  }
  std::string all;
  for (const std::string& g : groups) all += g + "\n";
  char sig[64];
  snprintf(sig, sizeof(sig), "type-id-collisions-%zu-%08x", groups.size(), current::CRC32(all));
  if (!groups.empty()) en::Violation(sig, all);
}

// Types of the same name and structure have the same IDs.
EN_SCENARIO(equal_types) {
  const auto check = [](TypeID a, TypeID b, const char* what) {
    if (a != b) en::Violation("equal-types", std::string("equal types, different IDs: ") + what);
    en::Evaluations(1);
  };
  check(CurrentTypeID<ut::Empty>(), CurrentTypeID<ut::same::Empty>(), "Empty");
  check(CurrentTypeID<ut::S0>(), CurrentTypeID<ut::same::S0>(), "S0");
  check(CurrentTypeID<ut::D0>(), CurrentTypeID<ut::same::D0>(), "D0");
  check(CurrentTypeID<ut::V>(), CurrentTypeID<ut::same::V>(), "V");
  check(CurrentTypeID<ut::Self>(), CurrentTypeID<ut::same::Self>(), "Self");
  check(CurrentTypeID<ut::H<ut::S0>>(), CurrentTypeID<ut::same::H<ut::same::S0>>(), "H<S0>");
  check(CurrentTypeID<std::vector<ut::S0>>(), CurrentTypeID<std::vector<ut::same::S0>>(), "std::vector<S0>");
  check(CurrentTypeID<std::map<ut::V, ut::Self>>(), CurrentTypeID<std::map<ut::same::V, ut::same::Self>>(), "std::map<V, Self>");
}

// The IDs and the reflected types do not depend on what was asked for before. Every order, in a thread of its own.
EN_SCENARIO(order_of_reflection) {
  static const std::vector<const N*> types = {td::Of<ut::Ping>(), td::Of<ut::Pong>(), td::Of<ut::Tail>(), td::Of<std::vector<ut::Ping>>(),
                                              td::Of<ut::Self>(), td::Of<ut::CV>(), td::Of<ut::H<ut::Pong>>()};
  std::vector<const N*> order;
  std::vector<const N*> left = types;
  const size_t n = static_cast<size_t>(en::Param("order", 5));
  while (order.size() < n) {
    const int i = en::Choose(static_cast<int>(left.size()));
    order.push_back(left[static_cast<size_t>(i)]);
    left.erase(left.begin() + i);
  }
  std::map<std::string, uint64_t> golden(std::begin(kGoldenIDs), std::end(kGoldenIDs));
  const int reflect = en::Choose(3);
  InFreshThread([&] {
    for (const N* t : order) {
      if (reflect == 0 || (reflect == 2 && t == order[0])) {
        EN_CHECK_EQ(Hex(t->id()), std::to_string(golden.at(t->full)), "order-type-id");
      } else {
        const ReflectedType r = t->reflect();
        CheckReflected(t, r);
      }
    }
    for (const N* t : types) {
      EN_CHECK_EQ(Hex(t->id()), std::to_string(golden.at(t->full)), "order-type-id");
      CheckReflected(t, t->reflect());
    }
  });
  en::Transition(order.size());
}

// Over the synthetic types: the pieces of what is hashed do not cancel each other.
EN_SCENARIO(synthetic) {
  const auto prims = [] {
    std::vector<const N*> l;
    td::prims_t::Leaves(l);
    return l;
  }();
  const TypeID string = TypeID::String;
  const int family = en::Choose(5);
  std::map<TypeID, std::string> seen;
  uint64_t evaluations = 0;
  std::string collisions;
  size_t n_collisions = 0;
  const auto add = [&](TypeID id, const std::string& what, bool list = false) {
    ++evaluations;
    const auto inserted = seen.emplace(id, what);
    if (inserted.second) return;
    if (!list) en::Violation("type-id-collision", what + " has the same type ID as " + inserted.first->second);
    collisions += what + " = " + inserted.first->second + "\n";
    ++n_collisions;
  };
  const auto field = [](ReflectedType_Struct& s, TypeID id, const char* name) { s.fields.emplace_back(id, name, nullptr); };
  if (family == 0) {
    // Two fields of primitive types. The hash of two primitive types has always been prone to collisions.
    for (const N* a : prims) {
      for (const N* b : prims) {
        ReflectedType_Struct s;
        s.native_name = "S";
        field(s, a->id(), "a");
        field(s, b->id(), "b");
        add(CalculateTypeID(s), a->name + "+" + b->name, true);
      }
    }
    if (n_collisions) {
      char sig[64];
      snprintf(sig, sizeof(sig), "primitive-fields-%zu-%08x", n_collisions, current::CRC32(collisions));
      en::Violation(sig, "structs of the same name, with two fields of the same names and of different primitive types, have the same type IDs: " + collisions);
    }
  } else if (family == 1) {
    // Names, supers, template parameters, number and names and order of fields; types from a sparse set.
    const std::vector<TypeID> types = {TypeID::Int32, TypeID::String, CurrentTypeID<ut::S0>(), CurrentTypeID<std::vector<std::string>>(), CurrentTypeID<Optional<int32_t>>()};
    const std::vector<const char*> names = {"a", "b", "ab", "ba"};
    for (const char* name : {"S", "T", "ST_Z"}) {
      for (int super = 0; super < 4; ++super) {
        for (int inner = 0; inner < (name[1] ? 3 : 1); ++inner) {
          ReflectedType_Struct s;
          s.native_name = name;
          if (inner) s.template_inner_id = types[static_cast<size_t>(inner)];
          if (super) s.super_id = super == 1 ? CurrentTypeID<ut::Empty>() : super == 2 ? CurrentTypeID<ut::S0>() : CurrentTypeID<ut::D0>();
          const std::string prefix = std::string(name) + "/" + std::to_string(super) + "/" + std::to_string(inner);
          add(CalculateTypeID(s), prefix);
          const std::function<void(ReflectedType_Struct&, const std::string&, int)> rec = [&](ReflectedType_Struct& r, const std::string& what, int depth) {
            for (size_t t = 0; t < types.size(); ++t) {
              for (const char* f : names) {
                if (std::any_of(r.fields.begin(), r.fields.end(), [&](const ReflectedType_Struct_Field& x) { return x.name == f; })) continue;
                field(r, types[t], f);
                const std::string w = what + " " + f + ":" + std::to_string(t);
                add(CalculateTypeID(r), w);
                if (depth > 1) rec(r, w, depth - 1);
                r.fields.pop_back();
              }
            }
          };
          rec(s, prefix, 3);
        }
      }
    }
  } else if (family == 2) {
    // Variants.
    const std::vector<TypeID> types = {CurrentTypeID<ut::S0>(), CurrentTypeID<ut::Empty>(), CurrentTypeID<ut::D0>(), CurrentTypeID<ut::D1>(), CurrentTypeID<ut::V>(), CurrentTypeID<ut::H<int32_t>>()};
    for (const char* name : {"V", "W"}) {
      const std::function<void(std::vector<size_t>)> rec = [&](std::vector<size_t> cases) {
        ReflectedType_Variant r;
        r.name = name;
        std::string what = name;
        for (size_t c : cases) r.cases.push_back(types[c]), what += "/" + std::to_string(c);
        add(CalculateTypeID(r), what);
        if (cases.size() == 4) return;
        for (size_t c = 0; c < types.size(); ++c) {
          if (std::find(cases.begin(), cases.end(), c) != cases.end()) continue;
          auto next = cases;
          next.push_back(c);
          rec(next);
        }
      };
      rec({});
    }
  } else if (family == 3) {
    // The containers over all the types there are.
    for (const N* n : td::All()) {
      // Containers of containers are the subject of `type_ids`.
      if (n->kind != "prim" && n->kind != "enum" && n->kind != "struct" && n->kind != "variant") continue;
      const TypeID t = n->id();
      add(CalculateTypeID(ReflectedType_Vector(t)), "vector " + n->full);
      add(CalculateTypeID(ReflectedType_Set(t)), "set " + n->full);
      add(CalculateTypeID(ReflectedType_UnorderedSet(t)), "uset " + n->full);
      add(CalculateTypeID(ReflectedType_Optional(t)), "optional " + n->full);
      for (size_t size : {0, 1, 2, 3, 4, 5, 8, 16, 64, 256, 4096}) add(CalculateTypeID(ReflectedType_Array(t, size)), "array " + n->full + " " + std::to_string(size));
      for (const N* p : prims) {
        add(CalculateTypeID(ReflectedType_Map(p->id(), t)), "map " + p->name + " " + n->full);
        add(CalculateTypeID(ReflectedType_UnorderedMap(p->id(), t)), "umap " + p->name + " " + n->full);
        add(CalculateTypeID(ReflectedType_Pair(p->id(), t)), "pair " + p->name + " " + n->full);
        if (n->kind != "prim") add(CalculateTypeID(ReflectedType_Pair(t, p->id())), "pair " + n->full + " " + p->name);
      }
    }
  } else {
    // Enums: the underlying type has never been a part of the type ID.
    for (const char* name : {"E", "F", "EE"}) {
      add(ReflectedType_Enum(name, TypeID::UInt8).type_id, name);
    }
    if (ReflectedType_Enum("E", TypeID::UInt8).type_id == ReflectedType_Enum("E", TypeID::UInt16).type_id)
      en::Violation("enum-underlying-type", "enums of the same name, but of different underlying types, have the same type ID");
  }
  static_cast<void>(string);
  en::Evaluations(evaluations);
}

// The exported schemas: single types.
EN_SCENARIO(schemas) {
  const auto& r = TheRoots();
  const auto& root = r[static_cast<size_t>(en::Choose(static_cast<int>(r.size())))];
  StructSchema s;
  root.add(s);
  CheckSchema(s.GetSchemaInfo(), {root.n});
  root.add(s);
  CheckSchema(s.GetSchemaInfo(), {root.n});
  en::State(root.n->full);
}

// The exported schemas: pairs of types.
EN_SCENARIO(schemas_of_pairs) {
  const auto& r = TheRoots();
  const int n = static_cast<int>(en::Param("pairs", 30));
  const size_t step = std::max<size_t>(1, r.size() / static_cast<size_t>(n));
  const auto& a = r[(static_cast<size_t>(en::Choose(n)) * step) % r.size()];
  const auto& b = r[(static_cast<size_t>(en::Choose(n)) * step + static_cast<size_t>(en::Choose(2)) * (step / 2)) % r.size()];
  if (a.n == b.n) en::Skip();
  StructSchema s;
  a.add(s);
  b.add(s);
  CheckSchema(s.GetSchemaInfo(), {a.n, b.n});
  StructSchema loaded(ParseJSON<SchemaInfo>(JSON(StructSchema(s).GetSchemaInfo())));
  b.add(loaded);
  CheckSchema(loaded.GetSchemaInfo(), {a.n, b.n});
}
