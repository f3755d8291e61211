// C18: Owned / Borrowed / BorrowedWithCallback under every schedule (bounded).
#include "mc.h"

#include "bricks/sync/owned_borrowed.h"

#include <memory>

using namespace current;

namespace {

struct Obj {
  int* destroyed;
  int value = 0;
  explicit Obj(int* d) : destroyed(d) {}
  ~Obj() { ++*destroyed; }
};

// A borrower with a destruction callback, the way the subscriber threads of the library use it: the callback refers to
// the state of the borrower, which is gone once the borrower is.
struct CallbackBorrower {
  std::unique_ptr<std::atomic<int>> called = std::make_unique<std::atomic<int>>(0);
  std::mutex m;
  std::condition_variable cv;
  bool terminate = false;
  BorrowedWithCallback<Obj> b;
  template <class B>
  explicit CallbackBorrower(B&& from) : b(std::forward<B>(from), [this]() { OnDestruction(); }) {}
  void OnDestruction() {
    MC_CHECK_EQ(++*called, 1, "callback-called-more-than-once");
    std::lock_guard<std::mutex> lock(m);
    terminate = true;
    cv.notify_one();
  }
  void WaitForTermination() {
    std::unique_lock<std::mutex> lock(m);
    cv.wait(lock, [this]() { return terminate; });
  }
};

}  // namespace

// The destructor of the owner waits for a borrower that is passed around in another thread.
MC_SCENARIO(borrower_outlives) {
  int destroyed = 0;
  {
    std::thread t;
    {
      Owned<Obj> o(ConstructOwned<Obj>(), &destroyed);
      const int how = mc::Choose(3);
      t = std::thread([&, how](Borrowed<Obj> b) {
        if (how == 0) {
          Borrowed<Obj> c(std::move(b));
          c->value = 1;
          MC_CHECK_EQ(destroyed, 0, "object-destroyed-while-borrowed");
        } else if (how == 1) {
          Borrowed<Obj> c(b);
          b = nullptr;
          c.ExclusiveUse([](Obj& x) { ++x.value; });
          MC_CHECK_EQ(destroyed, 0, "object-destroyed-while-borrowed");
          Borrowed<Obj> d(c);
          c = nullptr;
          MC_CHECK_EQ(d->value, 1, "object-destroyed-while-borrowed");
        } else {
          for (int i = 0; i < 2 && b; ++i) mc::Yield();
          MC_CHECK_EQ(b->value, 0, "object-destroyed-while-borrowed");
          b = nullptr;
        }
      }, Borrowed<Obj>(o));
    }
    MC_CHECK_EQ(destroyed, 1, "object-not-destroyed");
    t.join();
  }
}

// Two borrowers in two threads.
MC_SCENARIO(two_borrowers) {
  int destroyed = 0;
  std::thread t1, t2;
  {
    Owned<Obj> o(ConstructOwned<Obj>(), &destroyed);
    t1 = std::thread([&](Borrowed<Obj> b) { b.ExclusiveUse([](Obj& x) { ++x.value; }); Borrowed<Obj> c(b); }, Borrowed<Obj>(o));
    t2 = std::thread([&](Borrowed<Obj> b) { b.ExclusiveUse([](Obj& x) { ++x.value; }); (void)b.NumberOfActiveBorrowers(); b = nullptr; }, Borrowed<Obj>(o));
  }
  MC_CHECK_EQ(destroyed, 1, "object-not-destroyed");
  t1.join();
  t2.join();
}

// Validity goes from true to false exactly once, when the owner begins to be destroyed.
MC_SCENARIO(validity) {
  int destroyed = 0;
  auto o = std::make_unique<Owned<Obj>>(ConstructOwned<Obj>(), &destroyed);
  std::atomic<bool> begun{false};
  std::thread t([&](Borrowed<Obj> b) {
    const bool v1 = b;
    if (!v1) MC_CHECK(begun.load(), "invalid-while-the-owner-lives");
    Borrowed<Obj> c(b);
    const bool v2 = c;
    MC_CHECK(v1 || !v2, "valid-again-after-destruction-began");
    const bool v3 = b;
    MC_CHECK(v2 || !v3, "valid-again-after-destruction-began");
    mc::Observe(std::string(v1 ? "1" : "0") + (v2 ? "1" : "0") + (v3 ? "1" : "0"));
  }, Borrowed<Obj>(*o));
  begun = true;
  o = nullptr;
  t.join();
}

// The callback of a borrower that waits for it is called, and called once.
MC_SCENARIO(callback_terminates) {
  int destroyed = 0;
  std::thread t;
  {
    Owned<Obj> o(ConstructOwned<Obj>(), &destroyed);
    t = std::thread([&](std::unique_ptr<CallbackBorrower> cb) {
      cb->WaitForTermination();
      MC_CHECK(!cb->b, "valid-after-destruction-began");
      MC_CHECK_EQ(destroyed, 0, "object-destroyed-while-borrowed");
      cb->b = nullptr;
    }, std::make_unique<CallbackBorrower>(o));
  }
  MC_CHECK_EQ(destroyed, 1, "object-not-destroyed");
  t.join();
}

// The borrower goes away by itself while the owner is being destroyed: its callback is not called on a dead borrower.
MC_SCENARIO(callback_vs_release) {
  int destroyed = 0;
  std::thread t;
  {
    Owned<Obj> o(ConstructOwned<Obj>(), &destroyed);
    t = std::thread([&](std::unique_ptr<CallbackBorrower> cb) { cb->b = nullptr; }, std::make_unique<CallbackBorrower>(o));
  }
  MC_CHECK_EQ(destroyed, 1, "object-not-destroyed");
  t.join();
}

// A callback borrower made from a plain one while the owner may already be in its destructor.
MC_SCENARIO(late_callback_borrower) {
  int destroyed = 0;
  std::thread t;
  const bool move = mc::Choose(2);
  {
    Owned<Obj> o(ConstructOwned<Obj>(), &destroyed);
    t = std::thread([&](Borrowed<Obj> b) {
      std::unique_ptr<CallbackBorrower> cb;
      if (move) {
        cb = std::make_unique<CallbackBorrower>(std::move(b));
      } else {
        cb = std::make_unique<CallbackBorrower>(b);
        b = nullptr;
      }
      cb->WaitForTermination();
      cb->b = nullptr;
      cb = nullptr;
    }, Borrowed<Obj>(o));
  }
  MC_CHECK_EQ(destroyed, 1, "object-not-destroyed");
  t.join();
}

// The callback itself releases its borrower (as when it resets the object that holds it).
MC_SCENARIO(callback_releases) {
  int destroyed = 0;
  int called = 0;
  std::unique_ptr<BorrowedWithCallback<Obj>> b;
  {
    Owned<Obj> o(ConstructOwned<Obj>(), &destroyed);
    b = std::make_unique<BorrowedWithCallback<Obj>>(o, [&]() { ++called; *b = nullptr; });
    std::thread t([](Borrowed<Obj> x) { x = nullptr; }, Borrowed<Obj>(o));
    t.join();
  }
  MC_CHECK_EQ(called, 1, "callback-count");
  MC_CHECK_EQ(destroyed, 1, "object-not-destroyed");
}

// An owner replaced or moved while borrowed.
MC_SCENARIO(move_owner) {
  int d1 = 0, d2 = 0;
  std::thread t;
  {
    Owned<Obj> o(ConstructOwned<Obj>(), &d1);
    t = std::thread([&](Borrowed<Obj> b) { b.ExclusiveUse([](Obj& x) { ++x.value; }); MC_CHECK_EQ(d1, 0, "object-destroyed-while-borrowed"); }, Borrowed<Obj>(o));
    if (mc::Choose(2)) {
      Owned<Obj> p(std::move(o));
      MC_CHECK_EQ(d1, 0, "object-destroyed-while-borrowed");
      Borrowed<Obj> c(p);
      MC_CHECK(c, "borrow-from-moved-owner");
    } else {
      o = Owned<Obj>(ConstructOwned<Obj>(), &d2);
      MC_CHECK_EQ(d1, 1, "object-not-destroyed");
      MC_CHECK_EQ(d2, 0, "object-destroyed-early");
      Borrowed<Obj> c(o);
      MC_CHECK(c && c->destroyed == &d2, "borrow-from-assigned-owner");
    }
  }
  MC_CHECK_EQ(d1, 1, "object-not-destroyed");
  t.join();
}
