// Containers of every kind, and a reference model of a container: a plain map.
#pragma once
#include "storage/storage.h"
#include "storage/persister/stream.h"

#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#ifndef SM_VIOLATION
#define SM_VIOLATION(sig, msg) ::en::Violation(sig, msg)
#endif

CURRENT_STRUCT(VItem) {
  CURRENT_FIELD(key, int32_t, 0);
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VItem) {}
  CURRENT_CONSTRUCTOR(VItem)(int32_t key, int32_t v) : key(key), v(v) {}
};
CURRENT_STRUCT(VNamed) {
  CURRENT_FIELD(key, std::string);
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VNamed) {}
  CURRENT_CONSTRUCTOR(VNamed)(std::string key, int32_t v) : key(std::move(key)), v(v) {}
};
CURRENT_STRUCT(VCell) {
  CURRENT_FIELD(row, int32_t, 0);
  CURRENT_FIELD(col, std::string);
  CURRENT_FIELD(v, int32_t, 0);
  CURRENT_DEFAULT_CONSTRUCTOR(VCell) {}
  CURRENT_CONSTRUCTOR(VCell)(int32_t row, std::string col, int32_t v) : row(row), col(std::move(col)), v(v) {}
};

namespace vst {
CURRENT_STORAGE_FIELD_ENTRY(OrderedDictionary, VItem, EOD);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedDictionary, VNamed, EUD);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedOne, VCell, EOO1);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedMany, VCell, EUU2);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToUnorderedMany, VCell, EOU3);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToUnorderedOne, VCell, EUU1);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedOne, VCell, EUO1);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedOne, VCell, EOU1);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToOrderedMany, VCell, EOO2);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedOneToOrderedMany, VCell, EUO2);
CURRENT_STORAGE_FIELD_ENTRY(OrderedOneToUnorderedMany, VCell, EOU2);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToUnorderedMany, VCell, EUU3);
CURRENT_STORAGE_FIELD_ENTRY(OrderedManyToOrderedMany, VCell, EOO3);
CURRENT_STORAGE_FIELD_ENTRY(UnorderedManyToOrderedMany, VCell, EUO3);

// A container of its own.
template <class E>
using container_of = typename E::template field_t<typename E::entry_t, typename E::persisted_event_1_t, typename E::persisted_event_2_t>;

#define SM_CHECK(cond, sig)                                                                  \
  do {                                                                                       \
    if (!(cond)) {                                                                           \
      std::ostringstream sm_os;                                                              \
      sm_os << "check failed: " #cond " at " << __FILE__ << ":" << __LINE__ << Dump(f, m);   \
      SM_VIOLATION(sig, sm_os.str());                                                        \
    }                                                                                        \
  } while (false)

enum Kind { DICT, ONE_ONE, ONE_MANY, MANY_MANY };
using K = std::pair<int, int>;  // (row, col), or (key, 0).
struct Rec {
  int v = 0;
  bool exists = false;
  int64_t us = -1;  // When last modified, -1 if never.
  bool operator==(const Rec& r) const { return v == r.v && exists == r.exists && us == r.us; }
};
struct Model {
  std::map<K, Rec> all;  // Including the erased ones, for their times.
  std::set<K> touched;   // By the last operation.
  size_t Size() const {
    size_t n = 0;
    for (const auto& e : all) n += e.second.exists;
    return n;
  }
  bool Has(K k) const {
    const auto it = all.find(k);
    return it != all.end() && it->second.exists;
  }
  void Put(K k, int v) {
    all[k].v = v;
    all[k].exists = true;
    touched.insert(k);
  }
  void Drop(K k) {
    if (!Has(k)) return;
    all[k].v = 0;
    all[k].exists = false;
    touched.insert(k);
  }
  void Add(Kind kind, K k, int v) {
    touched.clear();
    if (kind != DICT) {
      std::vector<K> gone;
      for (const auto& e : all)
        if (e.second.exists && e.first != k)
          if ((kind == ONE_ONE && e.first.first == k.first) || (kind != MANY_MANY && e.first.second == k.second)) gone.push_back(e.first);
      for (const auto& g : gone) Drop(g);
    }
    Put(k, v);
  }
  void Erase(K k) {
    touched.clear();
    Drop(k);
  }
  void EraseRow(int r) {
    touched.clear();
    for (auto& e : all) if (e.first.first == r) Drop(e.first);
  }
  void EraseCol(int c) {
    touched.clear();
    for (auto& e : all) if (e.first.second == c) Drop(e.first);
  }
  std::string Key() const {
    std::string s;
    for (const auto& e : all) s += std::to_string(e.first.first) + "/" + std::to_string(e.first.second) + (e.second.exists ? "=" + std::to_string(e.second.v) : "-") + " ";
    return s;
  }
};

inline std::string Col(int c) { return std::string(1, static_cast<char>('a' + c)); }
inline int UnCol(const std::string& s) { return s.size() == 1 ? s[0] - 'a' : -1; }

// How the containers are accessed.
template <class F>
struct Acc;
template <class F>
using entry_of = typename std::decay_t<F>::entry_t;

inline VItem Make(const VItem*, K k, int v) { return VItem(k.first, v); }
inline VNamed Make(const VNamed*, K k, int v) { return VNamed(Col(k.first), v); }
inline VCell Make(const VCell*, K k, int v) { return VCell(k.first, Col(k.second), v); }
inline K KeyOf(const VItem& e) { return K(e.key, 0); }
inline K KeyOf(const VNamed& e) { return K(UnCol(e.key), 0); }
inline K KeyOf(const VCell& e) { return K(e.row, UnCol(e.col)); }
template <class E>
struct IsCell { static constexpr bool value = false; };
template <>
struct IsCell<VCell> { static constexpr bool value = true; };

template <class F>
constexpr Kind KindOf() {
  using S = typename std::decay_t<F>::semantics_t;
  return std::is_same_v<S, current::storage::semantics::Dictionary>  ? DICT
         : std::is_same_v<S, current::storage::semantics::OneToOne>  ? ONE_ONE
         : std::is_same_v<S, current::storage::semantics::OneToMany> ? ONE_MANY
                                                                      : MANY_MANY;
}
template <class F>
auto NativeKey(const F&, K k) {
  if constexpr (std::is_same_v<entry_of<F>, VItem>) return static_cast<int32_t>(k.first);
  else if constexpr (std::is_same_v<entry_of<F>, VNamed>) return Col(k.first);
  else return std::make_pair(static_cast<int32_t>(k.first), Col(k.second));
}

template <class F>
std::string Dump(const F& f, const Model& m) {
  std::string s = "; the model: " + m.Key() + "; the container `" + f.FieldName() + "`: ";
  for (const auto& e : f) s += std::to_string(KeyOf(e).first) + "/" + std::to_string(KeyOf(e).second) + "=" + std::to_string(e.v) + " ";
  return s;
}

// Are the keys of this map-like thing in order, if it has an order?
template <class MAP>
constexpr bool IsOrdered() {
  return !current::stl_wrappers::sfinae::is_unordered_map<MAP>::value;
}

template <class F, class IMM>
void CheckOptional(const F& f, const Model& m, const IMM& o, K k, const char* sig) {
  SM_CHECK(Exists(o) == m.Has(k), sig);
  if (Exists(o)) {
    SM_CHECK(KeyOf(Value(o)) == k, sig);
    SM_CHECK(Value(o).v == m.all.at(k).v, sig);
  }
}

// One row or one column: `expected` maps the other coordinate to the record.
template <class F, class A, class KF>
void CheckLine(const F& f, const Model& m, const A& a, const std::map<int, K>& expected, KF to_native, const char* sig) {
  SM_CHECK(a.Size() == expected.size(), sig);
  SM_CHECK(a.Empty() == expected.empty(), sig);
  std::set<int> seen;
  std::vector<K> order;
  for (auto it = a.begin(); it != a.end(); ++it) {
    const auto& e = *it;
    order.push_back(KeyOf(e));
    bool ok = false;
    for (const auto& x : expected) if (x.second == KeyOf(e)) { ok = true; SM_CHECK(it.key() == to_native(x.first), sig); }
    SM_CHECK(ok, sig);
    SM_CHECK(m.Has(KeyOf(e)) && m.all.at(KeyOf(e)).v == e.v, sig);
    SM_CHECK(it->v == e.v, sig);
  }
  SM_CHECK(order.size() == expected.size(), sig);
  SM_CHECK((std::set<K>(order.begin(), order.end()).size() == order.size()), sig);
  if constexpr (IsOrdered<std::decay_t<decltype(a.map_)>>()) {
    SM_CHECK(std::is_sorted(order.begin(), order.end()), sig);
    std::vector<K> back;
    for (auto it = a.rbegin(); it != a.rend(); ++it) back.push_back(KeyOf(*it));
    std::reverse(back.begin(), back.end());
    SM_CHECK(back == order, sig);
    for (int i = -1; i <= 3; ++i) {
      if (i < 0) continue;
      const auto lb = a.LowerBound(to_native(i)), ub = a.UpperBound(to_native(i));
      const auto elb = expected.lower_bound(i), eub = expected.upper_bound(i);
      SM_CHECK((lb == a.end()) == (elb == expected.end()), sig);
      SM_CHECK((ub == a.end()) == (eub == expected.end()), sig);
      if (elb != expected.end()) SM_CHECK(KeyOf(*lb) == elb->second, sig);
      if (eub != expected.end()) SM_CHECK(KeyOf(*ub) == eub->second, sig);
    }
  }
  for (int i = 0; i <= 3; ++i) SM_CHECK(a.Has(to_native(i)) == (expected.count(i) != 0), sig);
}

// The whole container against the model. `R`, `C`: the keys are 0 .. R-1 and 0 .. C-1.
template <class F>
void CheckField(const F& f, const Model& m, int R, int C) {
  constexpr Kind kind = KindOf<F>();
  const size_t size = m.Size();
  SM_CHECK(f.Size() == size, "size");
  SM_CHECK(f.Empty() == (size == 0), "empty");
  // Iteration over everything.
  std::vector<K> order;
  for (auto it = f.begin(); it != f.end(); ++it) {
    const auto& e = *it;
    order.push_back(KeyOf(e));
    SM_CHECK(m.Has(KeyOf(e)) && m.all.at(KeyOf(e)).v == e.v, "iteration");
    SM_CHECK(it.key() == NativeKey(f, KeyOf(e)), "iteration-key");
  }
  SM_CHECK(order.size() == size, "iteration");
  SM_CHECK((std::set<K>(order.begin(), order.end()).size() == size), "iteration-twice");
  if constexpr (kind == DICT) {
    if constexpr (IsOrdered<typename std::decay_t<F>::map_t>()) SM_CHECK(std::is_sorted(order.begin(), order.end()), "iteration-order");
  }
  // Lookup by key.
  for (int r = 0; r < R; ++r) {
    for (int c = 0; c < (kind == DICT ? 1 : C); ++c) {
      const K k(r, c);
      const auto nk = NativeKey(f, k);
      CheckOptional(f, m, f[nk], k, "lookup");
      const auto lm = f.LastModified(nk);
      const auto mit = m.all.find(k);
      SM_CHECK(Exists(lm) == (mit != m.all.end()), "last-modified-presence");
      if (Exists(lm)) SM_CHECK(Value(lm).count() == mit->second.us, "last-modified");
      if constexpr (kind != ONE_ONE) SM_CHECK(f.Has(nk) == m.Has(k), "has");
      if constexpr (kind != DICT) {
        CheckOptional(f, m, f.Get(nk.first, nk.second), k, "lookup");
        const auto lm2 = f.LastModified(nk.first, nk.second);
        SM_CHECK(Exists(lm2) == Exists(lm), "last-modified-presence");
        if (Exists(lm)) SM_CHECK(Value(lm2) == Value(lm), "last-modified");
        if constexpr (kind != ONE_ONE) SM_CHECK(f.Has(nk.first, nk.second) == m.Has(k), "has");
        if constexpr (kind != MANY_MANY) {
          bool conflict = false;
          for (const auto& e : m.all) if (e.second.exists && (e.first.second == c || (kind == ONE_ONE && e.first.first == r))) conflict = true;
          SM_CHECK(f.DoesNotConflict(nk) == !conflict, "does-not-conflict");
          SM_CHECK(f.DoesNotConflict(nk.first, nk.second) == !conflict, "does-not-conflict");
        }
      }
    }
  }
  if constexpr (kind != DICT) {
    std::map<int, std::map<int, K>> rows, cols;
    for (const auto& e : m.all) if (e.second.exists) rows[e.first.first][e.first.second] = e.first, cols[e.first.second][e.first.first] = e.first;
    const auto nrow = [](int r) { return static_cast<int32_t>(r); };
    const auto ncol = [](int c) { return Col(c); };
    const auto vrows = f.Rows();
    const auto vcols = f.Cols();
    SM_CHECK(vrows.Size() == rows.size() && vrows.Empty() == rows.empty(), "rows");
    SM_CHECK(vcols.Size() == cols.size() && vcols.Empty() == cols.empty(), "cols");
    for (int r = 0; r < R; ++r) SM_CHECK(vrows.Has(nrow(r)) == (rows.count(r) != 0), "rows");
    for (int c = 0; c < C; ++c) SM_CHECK(vcols.Has(ncol(c)) == (cols.count(c) != 0), "cols");
    // Rows.
    if constexpr (kind == ONE_ONE) {
      std::map<int, K> er;
      for (const auto& r : rows) er[r.first] = r.second.begin()->second;
      CheckLine(f, m, vrows, er, nrow, "rows");
      for (int r = 0; r < R; ++r) {
        const auto o = f.GetEntryFromRow(nrow(r));
        SM_CHECK(Exists(o) == (rows.count(r) != 0), "entry-from-row");
        if (Exists(o)) CheckOptional(f, m, o, rows[r].begin()->second, "entry-from-row");
      }
    } else {
      std::vector<int> seen;
      size_t total = 0;
      auto end = vrows.end();
      for (auto it = vrows.begin(); it != end; ++it) {
        const int r = it.OuterKeyForPartialHypermediaCollectionView();
        seen.push_back(r);
        SM_CHECK(rows.count(r), "rows");
        CheckLine(f, m, *it, rows[r], ncol, "row");
        total += it.TotalElementsForHypermediaCollectionView();
      }
      SM_CHECK(total == size, "rows");
      SM_CHECK(seen.size() == rows.size(), "rows");
      if constexpr (IsOrdered<typename std::decay_t<F>::forward_map_t>()) SM_CHECK(std::is_sorted(seen.begin(), seen.end()), "rows-order");
      for (int r = 0; r < R; ++r) {
        CheckLine(f, m, f.Row(nrow(r)), rows.count(r) ? rows[r] : std::map<int, K>(), ncol, "row");
        const auto o = vrows[nrow(r)];
        SM_CHECK(Exists(o) == (rows.count(r) != 0), "rows");
        if (Exists(o)) CheckLine(f, m, Value(o), rows[r], ncol, "row");
      }
    }
    // Columns.
    if constexpr (kind != MANY_MANY) {
      std::map<int, K> ec;
      for (const auto& c : cols) ec[c.first] = c.second.begin()->second;
      for (const auto& c : cols) SM_CHECK(c.second.size() == 1, "one-side-not-unique");
      // The order of a line of distinct columns is the order of columns, not of (row, col): compare as such.
      std::vector<int> seen;
      for (auto it = vcols.begin(); it != vcols.end(); ++it) {
        const K k = KeyOf(*it);
        seen.push_back(k.second);
        SM_CHECK(it.key() == ncol(k.second), "cols");
        SM_CHECK(ec.count(k.second) && ec[k.second] == k && m.all.at(k).v == it->v, "cols");
      }
      SM_CHECK(seen.size() == ec.size(), "cols");
      SM_CHECK((std::set<int>(seen.begin(), seen.end()).size() == seen.size()), "cols");
      if constexpr (IsOrdered<typename std::decay_t<F>::transposed_map_t>()) SM_CHECK(std::is_sorted(seen.begin(), seen.end()), "cols-order");
      for (int c = 0; c < C; ++c) {
        const auto o = f.GetEntryFromCol(ncol(c));
        SM_CHECK(Exists(o) == (cols.count(c) != 0), "entry-from-col");
        if (Exists(o)) CheckOptional(f, m, o, ec[c], "entry-from-col");
      }
    } else {
      std::vector<int> seen;
      size_t total = 0;
      auto end = vcols.end();
      for (auto it = vcols.begin(); it != end; ++it) {
        const int c = UnCol(it.OuterKeyForPartialHypermediaCollectionView());
        seen.push_back(c);
        SM_CHECK(cols.count(c), "cols");
        CheckLine(f, m, *it, cols[c], nrow, "col");
        total += it.TotalElementsForHypermediaCollectionView();
      }
      SM_CHECK(total == size, "cols");
      SM_CHECK(seen.size() == cols.size(), "cols");
      if constexpr (IsOrdered<typename std::decay_t<F>::transposed_map_t>()) SM_CHECK(std::is_sorted(seen.begin(), seen.end()), "cols-order");
      for (int c = 0; c < C; ++c) {
        CheckLine(f, m, f.Col(ncol(c)), cols.count(c) ? cols[c] : std::map<int, K>(), nrow, "col");
        const auto o = vcols[ncol(c)];
        SM_CHECK(Exists(o) == (cols.count(c) != 0), "cols");
        if (Exists(o)) CheckLine(f, m, Value(o), cols[c], nrow, "col");
      }
    }
  }
}

// The operations of a container, numbered.
template <class F>
constexpr int OpsCount(int R, int C, bool aliased) {
  constexpr Kind kind = KindOf<F>();
  const int cells = kind == DICT ? R : R * C;
  return cells * (aliased ? 4 : 2) + (kind == ONE_ONE ? R : 0) + (kind == ONE_ONE || kind == ONE_MANY ? C : 0);
}
// Applies operation `op` to the container and to the model. False if it makes no sense now (and nothing was done).
// `now` is called to learn the time right before and right after, exclusively.
template <class F>
bool ApplyOp(F& f, Model& m, int op, int R, int C, int v, std::string* text, int64_t* last_us) {
  constexpr Kind kind = KindOf<F>();
  const int cols = kind == DICT ? 1 : C, cells = R * cols;
  const auto cell = [&](int i) { return K(i / cols, i % cols); };
  const auto name = [&](K k) { return kind == DICT ? std::to_string(k.first) : std::to_string(k.first) + "," + Col(k.second); };
  const int64_t before = current::time::Now().count();
  if (op < cells) {
    const K k = cell(op);
    *text = "Add(" + name(k) + ")";
    f.Add(Make(static_cast<entry_of<F>*>(nullptr), k, v));
    m.Add(kind, k, v);
  } else if ((op -= cells) < cells) {
    const K k = cell(op);
    *text = "Erase(" + name(k) + ")";
    f.Erase(NativeKey(f, k));
    m.Erase(k);
  } else {
    op -= cells;
    bool done = false;
    if constexpr (kind == ONE_ONE) {
      if (op < R) {
        *text = "EraseRow(" + std::to_string(op) + ")";
        f.EraseRow(op);
        m.EraseRow(op);
        done = true;
      } else op -= R;
    }
    if constexpr (kind == ONE_ONE || kind == ONE_MANY) {
      if (!done && op < C) {
        *text = "EraseCol(" + Col(op) + ")";
        f.EraseCol(Col(op));
        m.EraseCol(op);
        done = true;
      } else if (!done) op -= C;
    }
    if (!done) {
      // The argument is a reference to what is in the container.
      const K k = cell(op % cells);
      if (!m.Has(k)) return false;
      const auto o = f[NativeKey(f, k)];
      const auto& e = Value(o);
      if (op < cells) {
        *text = "Add(own " + name(k) + ")";
        f.Add(e);
        m.Add(kind, k, m.all[k].v);
      } else {
        *text = "Erase(own " + name(k) + ")";
        if constexpr (kind == DICT) f.Erase(e.key);
        else f.Erase(e.row, e.col);
        m.Erase(k);
      }
    }
  }
  const int64_t after = current::time::Now().count();
  // What was touched has been touched now.
  for (const K& k : m.touched) {
    const auto lm = f.LastModified(NativeKey(f, k));
    SM_CHECK(Exists(lm), "last-modified-presence");
    SM_CHECK(Value(lm).count() > before && Value(lm).count() < after, "last-modified-time");
    m.all[k].us = Value(lm).count();
  }
  if (last_us) *last_us = after;
  return true;
}

}  // namespace vst
