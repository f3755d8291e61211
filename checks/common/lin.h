// Linearizability of a history of calls: is there an order of the calls, consistent with their real-time order, in which
// each of them does to the reference model what it was seen doing?
#pragma once
#include "mc.h"

#include <functional>
#include <string>
#include <vector>

namespace lin {

template <class MODEL>
struct Call {
  int start = 0, end = 0;
  std::string what;
  std::function<bool(MODEL&)> apply;  // whether the observed result is what the model gives
};

template <class MODEL>
bool Search(const MODEL& m, std::vector<Call<MODEL>*> left, const std::function<bool(const MODEL&)>& final_ok) {
  if (left.empty()) return final_ok(m);
  for (size_t i = 0; i < left.size(); ++i) {
    bool first = true;
    for (auto* c : left) if (c != left[i] && c->end < left[i]->start) first = false;
    if (!first) continue;
    MODEL m2 = m;
    if (!left[i]->apply(m2)) continue;
    auto rest = left;
    rest.erase(rest.begin() + static_cast<long>(i));
    if (Search(m2, rest, final_ok)) return true;
  }
  return false;
}

// The calls of the threads, each thread in its own vector (no sharing between threads while they run).
template <class MODEL>
struct History {
  std::vector<std::vector<Call<MODEL>>> threads;
  explicit History(size_t n) : threads(n) {}
  template <class F, class G>
  void Do(size_t t, const std::string& what, F&& call, G&& make_apply) {  // make_apply(result of call) -> bool(MODEL&)
    Call<MODEL> c;
    c.what = what;
    c.start = mc::Stamp();
    auto r = call();
    c.end = mc::Stamp();
    c.apply = make_apply(std::move(r));
    threads[t].push_back(std::move(c));
  }
  void Check(const MODEL& initial, std::function<bool(const MODEL&)> final_ok, const char* sig) {
    std::vector<Call<MODEL>*> all;
    std::string d;
    for (size_t t = 0; t < threads.size(); ++t)
      for (auto& c : threads[t]) {
        all.push_back(&c);
        d += " T" + std::to_string(t) + ":[" + std::to_string(c.start) + "," + std::to_string(c.end) + "] " + c.what + ";";
      }
    if (!Search<MODEL>(initial, all, final_ok)) mc::Violation(sig, "no sequential order explains" + d);
  }
};

}  // namespace lin
