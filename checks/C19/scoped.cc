// C19, sequential part: scoped deleters, scope guards, lazily instantiated objects and strict futures against reference models.
#include "enum.h"

#include "bricks/util/accumulative_scoped_deleter.h"
#include "bricks/util/future.h"
#include "bricks/util/lazy_instantiation.h"
#include "bricks/util/make_scope_guard.h"
#include "bricks/time/chrono.h"

#include <sys/wait.h>
#include <unistd.h>

#include <functional>
#include <memory>
#include <vector>

using namespace current;

namespace {
struct Diff {};
template <bool B> using D = AccumulativeScopedDeleter<Diff, B>;
std::string Str(const std::vector<int>& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
}  // namespace

// Three scopes (deleting and not), with every sequence of: register a new action, move-assign, merge, move-construct, drop, sum.
EN_SCENARIO(accumulative_deleter, en::Opts{5}) {
  const int kOps = static_cast<int>(en::Param("ops", 4));
  std::vector<int> ran, expected;
  int next = 0;
  constexpr int N = 3;
  std::unique_ptr<D<true>> d[N];
  std::vector<int> m[N];
  for (int i = 0; i < N; ++i) d[i] = std::make_unique<D<true>>();
  auto release = [&](int i) { for (auto it = m[i].rbegin(); it != m[i].rend(); ++it) expected.push_back(*it); m[i].clear(); };
  auto fresh = [&]() { const int k = next++; return std::function<void()>([&ran, k]() { ran.push_back(k); }); };
  for (int k = 0; k < kOps; ++k) {
    en::Transition();
    const int op = en::Choose(9), i = en::Choose(N);
    const int j = (op >= 3 && op <= 6) ? en::Choose(N) : 0;
    if (op >= 3 && op <= 6 && i == j) en::Skip();
    en::Note("op" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")");
    switch (op) {
      case 0: m[i].push_back(next); *d[i] += D<true>(fresh()); break;
      case 1: release(i); m[i].push_back(next); *d[i] = D<true>(fresh()); break;
      case 2: release(i); *d[i] = nullptr; break;
      case 3: release(i); m[i] = m[j]; m[j].clear(); *d[i] = std::move(*d[j]); break;
      case 4: m[i].insert(m[i].end(), m[j].begin(), m[j].end()); m[j].clear(); *d[i] += std::move(*d[j]); break;
      case 5: {  // i takes j through a move construction
        release(i);
        d[i] = nullptr;
        d[i] = std::make_unique<D<true>>(std::move(*d[j]));
        m[i] = m[j];
        m[j].clear();
        break;
      }
      case 6: {  // i = i + j, the sum is a new scope
        auto sum = *d[i] + std::move(*d[j]);
        EN_CHECK_EQ(Str(ran), Str(expected), "deleter-order");
        d[i] = std::make_unique<D<true>>(std::move(sum));
        m[i].insert(m[i].end(), m[j].begin(), m[j].end());
        m[j].clear();
        break;
      }
      case 7: release(i); d[i] = nullptr; EN_CHECK_EQ(Str(ran), Str(expected), "deleter-order"); d[i] = std::make_unique<D<true>>(); break;
      case 8: {  // registered with a scope that does not delete: handed over, or dropped without running
        D<false> keep(fresh());
        const int id = next - 1;
        if (i == 0) { m[0].push_back(id); *d[0] += std::move(keep); }
        if (i == 1) { release(1); m[1].push_back(id); *d[1] = std::move(keep); }
        if (i == 2) { D<false> other; other += std::move(keep); }
        break;
      }
    }
    EN_CHECK_EQ(Str(ran), Str(expected), "deleter-order");
    en::State(Str(m[0]) + "|" + Str(m[1]) + "|" + Str(m[2]));
  }
  for (int i = N - 1; i >= 0; --i) { release(i); d[i] = nullptr; }
  EN_CHECK_EQ(Str(ran), Str(expected), "deleter-order");
}

EN_SCENARIO(scope_guard, en::Opts{5}) {
  int n = 0;
  auto f = [&]() { ++n; };
  using G = ScopeGuard<decltype(f)>;
  {
    const int moves = en::Choose(3);
    if (en::Choose(2)) {
      auto g = MakeScopeGuard(f);
      EN_CHECK_EQ(n, 0, "scope-guard-ran-early");
      if (moves >= 1) {
        auto h = std::move(g);
        EN_CHECK_EQ(n, 0, "scope-guard-ran-early");
        if (moves == 2) auto i = std::move(h);
      }
      EN_CHECK_EQ(n, moves ? 1 : 0, "scope-guard-run-count");
    } else {
      std::function<void()> sf(f);
      {
        std::vector<std::unique_ptr<ScopeGuard<std::function<void()>>>> v;
        v.push_back(std::make_unique<ScopeGuard<std::function<void()>>>(sf));
        for (int k = 0; k < moves; ++k) v.push_back(std::make_unique<ScopeGuard<std::function<void()>>>(std::move(*v.back())));
        EN_CHECK_EQ(n, 0, "scope-guard-ran-early");
      }
      EN_CHECK_EQ(n, 1, "scope-guard-run-count");
    }
  }
  EN_CHECK_EQ(n, 1, "scope-guard-run-count");
  {
    struct Del { int* n; void operator()(int*) const { ++*n; } };
    int x = 0, dn = 0;
    { auto p = MakePointerScopeGuard(&x, Del{&dn}); auto q = std::move(p); EN_CHECK_EQ(dn, 0, "scope-guard-ran-early"); }
    EN_CHECK_EQ(dn, 1, "scope-guard-run-count");
  }
}

namespace {
int built;
struct Lazy {
  int x;
  std::string s;
  Lazy(int x, std::string s) : x(x), s(std::move(s)) { ++built; }
  Lazy(const std::string& extra, int x, std::string s) : x(x), s(extra + s) { ++built; }
  Lazy(int& ref) : x(++ref), s("ref") { ++built; }
};
}  // namespace
// Nothing is built before it is asked for; each request builds exactly one object with the captured arguments; a shared slot is
// filled only once.
EN_SCENARIO(lazily_instantiated, en::Opts{5}) {
  built = 0;
  int expected = 0;
  std::string str = "a string long enough to be allocated separately";
  int target = 5;
  auto l1 = [&]() { std::string tmp = str; return DelayedInstantiate<Lazy>(1, tmp); }();
  auto l2 = [&]() { return DelayedInstantiateFromTuple<Lazy>(std::make_tuple(2, std::string(str))); }();
  auto l3 = DelayedInstantiateWithExtraParameter<Lazy, std::string>(3, str);
  auto l4 = DelayedInstantiate<Lazy>(std::ref(target));
  EN_CHECK_EQ(built, 0, "lazy-built-before-use");
  std::shared_ptr<Lazy> slot[2];
  str = "changed";
  const std::string orig = "a string long enough to be allocated separately";
  int refs = 0;
  for (int k = 0; k < static_cast<int>(en::Param("ops", 4)); ++k) {
    en::Transition();
    switch (en::Choose(7)) {
      case 0: { auto p = l1.InstantiateAsUniquePtr(); ++expected; EN_CHECK(p->x == 1 && p->s == orig, "lazy-arguments"); break; }
      case 1: { auto p = l2.InstantiateAsSharedPtr(); ++expected; EN_CHECK(p->x == 2 && p->s == orig, "lazy-arguments"); break; }
      case 2: { auto p = l3.InstantiateAsSharedPtrWithExtraParameter(std::string("E")); ++expected; EN_CHECK(p->x == 3 && p->s == "E" + orig, "lazy-arguments"); break; }
      case 3: { auto p = l3.InstantiateAsUniquePtrWithExtraParameter(std::string("F")); ++expected; EN_CHECK(p->x == 3 && p->s == "F" + orig, "lazy-arguments"); break; }
      case 4: { const bool had = slot[0] != nullptr; Lazy* was = slot[0].get(); Lazy& r = l1.InstantiateAsSharedPtr(slot[0]); if (!had) ++expected; EN_CHECK(&r == slot[0].get() && (!had || was == &r) && r.x == 1, "lazy-shared-slot"); break; }
      case 5: { const bool had = slot[1] != nullptr; Lazy& r = had ? l2.InstantiateAsSharedPtr(slot[1], LazyInstantiationStrategy::ShouldAlreadyBeInitialized) : l2.InstantiateAsSharedPtr(slot[1], LazyInstantiationStrategy::ShouldNotBeInitialized); if (!had) ++expected; EN_CHECK(&r == slot[1].get() && r.x == 2 && r.s == orig, "lazy-shared-slot"); break; }
      case 6: { auto p = l4.InstantiateAsUniquePtr(); ++expected; ++refs; EN_CHECK(p->x == 5 + refs && target == 5 + refs, "lazy-arguments"); break; }
    }
    EN_CHECK_EQ(built, expected, "lazy-build-count");
    en::State(std::to_string(slot[0] != nullptr) + std::to_string(slot[1] != nullptr) + std::to_string(refs));
  }
}

namespace {
// Runs f in a child; what its exit status was. A strict future left hanging exits the process.
template <class F>
int InChild(F&& f) {
  const pid_t pid = ::fork();
  if (!pid) {
    ::close(2);
    ::alarm(10);
    f();
    ::_exit(7);
  }
  int status = 0;
  ::waitpid(pid, &status, 0);
  return WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
}
template <class T> T Value();
template <> int Value<int>() { return 42; }
template <> std::string Value<std::string>() { return "value"; }
template <> void Value<void>() {}
template <class T> std::future<T> Make(bool throws) {
  std::promise<T> p;
  if (throws) p.set_exception(std::make_exception_ptr(std::runtime_error("from the task")));
  else if constexpr (std::is_void<T>::value) p.set_value();
  else p.set_value(Value<T>());
  return p.get_future();
}
template <class T, StrictFuture S> void UseFuture() {
  const bool throws = en::Flip();
  const int moves = en::Choose(3);      // how many times it is moved before it is used
  const int use = en::Choose(4);        // nothing, Go, Wait, Detach
  en::Note(std::string("T=") + typeid(T).name() + " strict=" + std::to_string(S == StrictFuture::Strict) + " throws=" + std::to_string(throws) + " moves=" + std::to_string(moves) + " use=" + std::to_string(use));
  const int code = InChild([&]() {
    auto f = Make<T>(throws);
    std::vector<std::unique_ptr<Future<T, S>>> v;
    v.push_back(std::make_unique<Future<T, S>>(std::move(f)));
    for (int i = 0; i < moves; ++i) v.push_back(std::make_unique<Future<T, S>>(std::move(*v.back())));
    auto& g = *v.back();
    if (use == 1) {
      bool thrown = false;
      try {
        if constexpr (std::is_void<T>::value) g.Go();
        else if (!(g.Go() == Value<T>())) ::_exit(50);
      } catch (const std::runtime_error& e) {
        thrown = (std::string(e.what()) == "from the task");
      }
      if (thrown != throws) ::_exit(51);
    } else if (use == 2) {
      g.Wait();
    } else if (use == 3) {
      g.Detach();
    }
    v.clear();
  });
  EN_CHECK(code != 50, "future-wrong-value");
  EN_CHECK(code != 51, "future-exception-lost-or-made-up");
  if (S == StrictFuture::Strict && use == 0) EN_CHECK_EQ(code, 255, "strict-future-left-hanging-unreported");
  else EN_CHECK_EQ(code, 7, "future-unexpected-exit");
}
}  // namespace
EN_SCENARIO(futures, en::Opts{15}) {
  switch (en::Choose(6)) {
    case 0: UseFuture<int, StrictFuture::Strict>(); break;
    case 1: UseFuture<int, StrictFuture::Forgiving>(); break;
    case 2: UseFuture<std::string, StrictFuture::Strict>(); break;
    case 3: UseFuture<std::string, StrictFuture::Forgiving>(); break;
    case 4: UseFuture<void, StrictFuture::Strict>(); break;
    case 5: UseFuture<void, StrictFuture::Forgiving>(); break;
  }
}
