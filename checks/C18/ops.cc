// C18, sequential part: all sequences of handle operations against a model of who borrows what.
#include "enum.h"

#include "bricks/sync/owned_borrowed.h"

#include <map>
#include <memory>
#include <optional>

using namespace current;

namespace {
struct Obj {
  int id;
  int* destroyed;
  Obj(int id, int* d) : id(id), destroyed(d) {}
  ~Obj() { ++*destroyed; }
};
struct H {  // a slot that may hold a plain or a callback borrower, or nothing
  std::unique_ptr<Borrowed<Obj>> b;
  std::unique_ptr<BorrowedWithCallback<Obj>> c;
  std::unique_ptr<BorrowedOfGuaranteedLifetime<Obj>> g;
};
}  // namespace

EN_SCENARIO(handle_operations, en::Opts{5}) {
  const int kOps = static_cast<int>(en::Param("ops", 4));
  constexpr int N = 3;
  int destroyed[2] = {0, 0};
  std::vector<std::unique_ptr<Owned<Obj>>> owned;
  for (int i = 0; i < 2; ++i) owned.push_back(std::make_unique<Owned<Obj>>(ConstructOwned<Obj>(), i, &destroyed[i]));
  H h[N];
  int owner_of[N] = {-1, -1, -1};    // -1: the slot's handle is null (released or moved away) or there is none
  int called[N] = {0, 0, 0};
  size_t spawned[2] = {0, 0};
  auto reset_slot = [&](int s) { h[s].b = nullptr; h[s].c = nullptr; h[s].g = nullptr; owner_of[s] = -1; called[s] = 0; };
  auto check = [&]() {
    size_t n[2] = {0, 0};
    std::string st;
    for (int s = 0; s < N; ++s) {
      if (owner_of[s] >= 0) ++n[owner_of[s]];
      st += std::to_string(owner_of[s]) + (h[s].b ? "b" : h[s].c ? "c" : h[s].g ? "g" : "-");
      const WeakBorrowed<Obj>* w = h[s].b ? static_cast<WeakBorrowed<Obj>*>(h[s].b.get()) : h[s].c ? static_cast<WeakBorrowed<Obj>*>(h[s].c.get()) : h[s].g ? static_cast<WeakBorrowed<Obj>*>(h[s].g.get()) : nullptr;
      if (w) {
        EN_CHECK_EQ(static_cast<bool>(*w), owner_of[s] >= 0, "handle-validity");
        if (owner_of[s] >= 0) EN_CHECK_EQ((**w).id, owner_of[s], "handle-target");
      }
      EN_CHECK_EQ(called[s], 0, "callback-called-while-owner-lives");
    }
    for (int i = 0; i < 2; ++i) {
      EN_CHECK_EQ(owned[i]->NumberOfActiveBorrowers(), n[i], "number-of-active-borrowers");
      EN_CHECK_EQ(owned[i]->TotalBorrowersSpawnedThroughoutLifetime(), spawned[i], "total-borrowers-spawned");
      EN_CHECK_EQ(destroyed[i], 0, "object-destroyed-early");
      EN_CHECK((*owned[i])->id == i, "owner-target");
    }
    en::State(st);
  };
  for (int k = 0; k < kOps; ++k) {
    en::Transition();
    const int s = en::Choose(N);
    const int op = en::Choose(9);
    auto plain = [&](int t) { return h[t].b && owner_of[t] >= 0; };
    const int o2 = (op == 0 || op == 1 || op == 2) ? en::Choose(2) : 0;
    const int t = op >= 3 && op <= 7 ? en::Choose(N) : 0;
    en::Note("op" + std::to_string(op) + "(s" + std::to_string(s) + (op <= 2 ? ",o" + std::to_string(o2) : op <= 7 ? ",t" + std::to_string(t) : "") + ")");
    if (op == 0) {  // borrow from the owner
      reset_slot(s);
      h[s].b = std::make_unique<Borrowed<Obj>>(*owned[o2]);
      owner_of[s] = o2, ++spawned[o2];
    } else if (op == 1) {
      reset_slot(s);
      h[s].c = std::make_unique<BorrowedWithCallback<Obj>>(*owned[o2], [&called, s]() { ++called[s]; });
      owner_of[s] = o2, ++spawned[o2];
    } else if (op == 2) {
      reset_slot(s);
      h[s].g = std::make_unique<BorrowedOfGuaranteedLifetime<Obj>>(*owned[o2]);
      owner_of[s] = o2, ++spawned[o2];
    } else if (op == 3) {  // copy
      if (t == s || !plain(t)) en::Skip();
      reset_slot(s);
      h[s].b = std::make_unique<Borrowed<Obj>>(*h[t].b);
      owner_of[s] = owner_of[t], ++spawned[owner_of[t]];
    } else if (op == 4) {  // move construct
      if (t == s || !plain(t)) en::Skip();
      reset_slot(s);
      h[s].b = std::make_unique<Borrowed<Obj>>(std::move(*h[t].b));
      owner_of[s] = owner_of[t], owner_of[t] = -1;
    } else if (op == 5) {  // move assign, onto a live or a null handle of the same type
      if (t == s) en::Skip();
      if (plain(t) && h[s].b) {
        *h[s].b = std::move(*h[t].b);
      } else if (h[t].g && owner_of[t] >= 0 && h[s].g) {
        *h[s].g = std::move(*h[t].g);
      } else {
        en::Skip();
      }
      owner_of[s] = owner_of[t], owner_of[t] = -1;
    } else if (op == 6) {  // move a plain one into a callback one
      if (t == s || !plain(t)) en::Skip();
      reset_slot(s);
      h[s].c = std::make_unique<BorrowedWithCallback<Obj>>(std::move(*h[t].b), [&called, s]() { ++called[s]; });
      owner_of[s] = owner_of[t], owner_of[t] = -1;
    } else if (op == 7) {  // move a guaranteed-lifetime one
      if (t == s || !h[t].g || owner_of[t] < 0) en::Skip();
      reset_slot(s);
      h[s].g = std::make_unique<BorrowedOfGuaranteedLifetime<Obj>>(std::move(*h[t].g));
      owner_of[s] = owner_of[t], owner_of[t] = -1;
    } else {  // release
      if (h[s].b) *h[s].b = nullptr;
      else if (h[s].c) *h[s].c = nullptr;
      else if (h[s].g) *h[s].g = nullptr;
      else en::Skip();
      owner_of[s] = -1;
    }
    check();
  }
  // Release all but one callback borrower, which releases itself when its callback tells it to.
  int keep = -1;
  for (int s = 0; s < N; ++s) if (keep < 0 && h[s].c && owner_of[s] >= 0) keep = s; else reset_slot(s);
  const int ko = keep >= 0 ? owner_of[keep] : -1;
  int cb = 0;
  if (keep >= 0) {
    auto self = std::make_unique<std::unique_ptr<BorrowedWithCallback<Obj>>>();
    auto* p = self.get();
    *p = std::make_unique<BorrowedWithCallback<Obj>>(*owned[ko], [&cb, p]() { ++cb; **p = nullptr; });
    reset_slot(keep);
    owned[ko] = nullptr;
    EN_CHECK_EQ(cb, 1, "callback-count");
    EN_CHECK_EQ(destroyed[ko], 1, "object-not-destroyed");
  }
  for (auto& o : owned) o = nullptr;
  EN_CHECK(destroyed[0] == 1 && destroyed[1] == 1, "object-not-destroyed");
}
