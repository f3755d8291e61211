// C10: every container kind against a plain map, all operation sequences up to a depth, reading everything after each.
#include "enum.h"
#include "common/storage_model.h"

using namespace vst;

namespace {

template <class E>
void Body(const char* name, int R, int C, int ops, bool aliased) {
  current::time::ResetToZero();
  current::storage::MutationJournal journal;
  container_of<E> f(name, journal);
  using F = decltype(f);
  Model m;
  std::string history;
  EN_CHECK_EQ(f.FieldName(), std::string(name), "field-name");
  CheckField(f, m, R, C);
  if (KindOf<F>() == DICT) ops += 2;
  for (int i = 0; i < ops; ++i) {
    const int op = en::Choose(OpsCount<F>(R, C, aliased));
    std::string text;
    if (!ApplyOp(f, m, op, R, C, i + 1, &text, nullptr)) en::Skip();
    history += text + " ";
    en::Note(history);
    en::Transition();
    en::State(m.Key());
    CheckField(f, m, R, C);
    // As if committed; the containers should not depend on how operations are grouped.
    if (i & 1) journal.Clear();
  }
}

}  // namespace

#define KIND(x, E)                                                                             \
  EN_SCENARIO(x##_2x2) { Body<E>(#x, 2, 2, en::Param("ops22", 3), true); }                     \
  EN_SCENARIO(x##_3x3) { Body<E>(#x, 3, 3, en::Param("ops33", 3), false); }
KIND(od, EOD)
KIND(ud, EUD)
KIND(oo1, EOO1)
KIND(uu1, EUU1)
KIND(uo1, EUO1)
KIND(ou1, EOU1)
KIND(oo2, EOO2)
KIND(uu2, EUU2)
KIND(uo2, EUO2)
KIND(ou2, EOU2)
KIND(oo3, EOO3)
KIND(uu3, EUU3)
KIND(uo3, EUO3)
KIND(ou3, EOU3)
