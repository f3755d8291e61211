// The family of types the JSON checks work on.
#pragma once
#include "common/json_model.h"

namespace jt {
CURRENT_ENUM(ESmall, uint8_t){Zero = 0, One = 1};
CURRENT_ENUM(EShort, int16_t){Zero = 0, One = 1};
CURRENT_ENUM(EBig, uint64_t){Zero = 0, One = 1};
CURRENT_ENUM(ESigned, int64_t){Zero = 0, One = 1};

CURRENT_STRUCT(Empty){};
CURRENT_STRUCT(Leaf) {
  CURRENT_FIELD(i, int32_t, 0);
  CURRENT_FIELD(s, std::string);
};
CURRENT_STRUCT(Derived, Leaf) {
  CURRENT_FIELD(b, bool, false);
  CURRENT_FIELD(o, Optional<int32_t>);
};
CURRENT_STRUCT(DerivedEmpty, Derived){};
CURRENT_STRUCT(Prims) {
  CURRENT_FIELD(u8, uint8_t, 0);
  CURRENT_FIELD(i16, int16_t, 0);
  CURRENT_FIELD(c, char, 'c');
  CURRENT_FIELD(e, ESmall, ESmall::Zero);
  CURRENT_FIELD(us, std::chrono::microseconds, std::chrono::microseconds(0));
};
using Var = Variant<Leaf, Empty, Derived>;
CURRENT_VARIANT(InnerVar, Leaf, Empty);
using VarOfVar = Variant<InnerVar, Derived>;
CURRENT_STRUCT(Rich) {
  CURRENT_FIELD(o, Optional<std::string>);
  CURRENT_FIELD(v, Var);
  CURRENT_FIELD(ov, Optional<Var>);
  CURRENT_FIELD(l, std::vector<Leaf>);
};
CURRENT_STRUCT(Conts) {
  CURRENT_FIELD(v, std::vector<int32_t>);
  CURRENT_FIELD(s, std::set<int32_t>);
  CURRENT_FIELD(m, (std::map<int32_t, int32_t>));
  CURRENT_FIELD(ms, (std::map<std::string, int32_t>));
  CURRENT_FIELD(p, (std::pair<int32_t, bool>));
  CURRENT_FIELD(a, (std::array<bool, 1>));
};
CURRENT_STRUCT(UConts) {
  CURRENT_FIELD(us, std::unordered_set<int32_t>);
  CURRENT_FIELD(um, (std::unordered_map<int32_t, int32_t>));
  CURRENT_FIELD(ums, (std::unordered_map<std::string, int32_t>));
  CURRENT_FIELD(t, (std::tuple<int32_t, bool>));
  CURRENT_FIELD(vb, std::vector<bool>);
};
CURRENT_STRUCT(Tree) {
  CURRENT_FIELD(n, int32_t, 0);
  CURRENT_FIELD(c, std::vector<Tree>);
};
}  // namespace jt

namespace jm {
using namespace jt;
JM_FIELDS(Empty, void, true, );
JM_FIELDS(Leaf, void, true, JM_F(i) JM_F(s));
JM_FIELDS(Derived, Leaf, true, JM_F(b) JM_F(o));
JM_FIELDS(DerivedEmpty, Derived, true, );
JM_FIELDS(Prims, void, true, JM_F(u8) JM_F(i16) JM_F(c) JM_F(e) JM_F(us));
JM_FIELDS(Rich, void, true, JM_F(o) JM_F(v) JM_F(ov) JM_F(l));
JM_FIELDS(Conts, void, true, JM_F(v) JM_F(s) JM_F(m) JM_F(ms) JM_F(p) JM_F(a));
JM_FIELDS(UConts, void, false, JM_F(us) JM_F(um) JM_F(ums) JM_F(t) JM_F(vb));
JM_FIELDS(Tree, void, true, JM_F(n) JM_F(c));
}  // namespace jm
