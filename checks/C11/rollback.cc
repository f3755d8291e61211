// C11: rolling back is exact for every container kind: committed prefix, body, rollback, and more work afterwards.
#include "enum.h"
#include "common/storage_model.h"

using namespace vst;

namespace {

template <class E>
void Body(const char* name, int R, int C, int prefix, int body, int after, bool aliased) {
  current::time::ResetToZero();
  current::storage::MutationJournal journal;
  container_of<E> f(name, journal);
  using F = decltype(f);
  Model m;
  std::string history;
  int v = 0;
  const auto step = [&]() {
    const int op = en::Choose(OpsCount<F>(R, C, aliased));
    std::string text;
    const size_t logged = journal.commit_log.size();
    const bool done = ApplyOp(f, m, op, R, C, ++v, &text, nullptr);
    if (!done) en::Skip();
    EN_CHECK_EQ(journal.commit_log.size() - logged, m.touched.size(), "mutations-logged");
    EN_CHECK_EQ(journal.commit_log.size(), journal.rollback_log.size(), "rollback-logged");
    history += text + " ";
    en::Note(history);
    en::Transition();
  };
  for (int i = 0; i < prefix; ++i) step();
  journal.Clear();
  en::State(m.Key());
  const Model was = m;
  history += "{ ";
  for (int i = 0; i < body; ++i) step();
  history += "} ";
  journal.Rollback();
  EN_CHECK(journal.commit_log.empty() && journal.rollback_log.empty(), "journal-not-empty-after-rollback");
  m = was;
  CheckField(f, m, R, C);
  for (int i = 0; i < after; ++i) step();
  CheckField(f, m, R, C);
}

}  // namespace

#define KIND(x, E)                                                                                                                                                   \
  EN_SCENARIO(x##_2x2) { Body<E>(#x, 2, 2, en::Param("prefix", 2), en::Param("body", 2), en::Param("after", 1), false); }                                           \
  EN_SCENARIO(x##_own) { Body<E>(#x, 2, 2, en::Param("prefix", 2), en::Param("body", 2), 0, true); }                                           \
  EN_SCENARIO(x##_3x3) { Body<E>(#x, 3, 3, en::Param("prefix", 2), 1, 0, false); }                                                          \
  EN_SCENARIO(x##_long) { Body<E>(#x, 2, 2, 1, en::Param("body", 2) + 1, 0, false); }
KIND(od, EOD)
KIND(ud, EUD)
KIND(oo1, EOO1)
KIND(uu1, EUU1)
KIND(uo1, EUO1)
KIND(ou1, EOU1)
KIND(oo2, EOO2)
KIND(uu2, EUU2)
KIND(uo2, EUO2)
KIND(ou2, EOU2)
KIND(oo3, EOO3)
KIND(uu3, EUU3)
KIND(uo3, EUO3)
KIND(ou3, EOU3)
