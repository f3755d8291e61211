// C12: the mutations logged by a container of every kind, replayed into a fresh one (and on top of a partly built one),
// produce the same contents, including the times.
#include "enum.h"
#include "common/storage_model.h"

using namespace vst;

namespace {

template <class E>
void Body(const char* name, int R, int C, int ops, bool aliased) {
  current::time::ResetToZero();
  current::storage::MutationJournal journal, unused;
  container_of<E> f(name, journal), g("replayed", unused);
  using F = decltype(f);
  Model m;
  std::string history;
  if (KindOf<F>() == DICT) ops += 2;
  size_t replayed = 0;
  const auto replay = [&]() {
    for (; replayed < journal.commit_log.size(); ++replayed) {
      const current::CurrentStruct* e = journal.commit_log[replayed].get();
      if (const auto* u = dynamic_cast<const typename E::update_event_t*>(e)) g(*u);
      else if (const auto* d = dynamic_cast<const typename E::delete_event_t*>(e)) g(*d);
      else EN_CHECK(false, "unknown-mutation");
    }
    CheckField(g, m, R, C);
  };
  for (int i = 0; i < ops; ++i) {
    const int op = en::Choose(OpsCount<F>(R, C, aliased));
    std::string text;
    if (!ApplyOp(f, m, op, R, C, i + 1, &text, nullptr)) en::Skip();
    history += text + " ";
    en::Note(history);
    en::Transition();
    en::State(m.Key());
    replay();
  }
  EN_CHECK(unused.commit_log.empty(), "replaying-logs-mutations");
}

}  // namespace

#define KIND(x, E)                                                                             \
  EN_SCENARIO(x##_2x2) { Body<E>(#x, 2, 2, en::Param("ops22", 4), true); }                     \
  EN_SCENARIO(x##_3x3) { Body<E>(#x, 3, 3, en::Param("ops33", 3), false); }
KIND(od, EOD)
KIND(ud, EUD)
KIND(oo1, EOO1)
KIND(uu1, EUU1)
KIND(uo1, EUO1)
KIND(ou1, EOU1)
KIND(oo2, EOO2)
KIND(uu2, EUU2)
KIND(uo2, EUO2)
KIND(ou2, EOU2)
KIND(oo3, EOO3)
KIND(uu3, EUU3)
KIND(uo3, EUO3)
KIND(ou3, EOU3)
