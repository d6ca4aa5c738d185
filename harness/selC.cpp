#include "sel.hpp"
namespace sel
{
static const bool readBefore = readAllEarly();
SEL_CLASS(Model, KOmega, "kOmega")
SEL_CLASS(Nullary, NothingB, "b")
SEL_CLASS(Nullary, NothingHidden, "_hidden")
SEL_CLASS(Nullary, NothingSpaced, "a b")
SEL_CLASS(Owner, Own2, "own2")
SEL_CLASS(InterpD, OnlyDouble, "onlyDouble")
template class LinearI<double>;
static const bool readAfter = readAllEarly();
}
