#include "sel.hpp"
namespace sel
{
static const bool readBefore = readAllEarly();
SEL_CLASS(Shape, Circle, "circle")
SEL_CLASS(Shape, Square, "square")
SEL_CLASS(Model, ModelLinear, "linear")
SEL_CLASS(Nullary, NothingA, "a")
SEL_CLASS(Nullary, NothingQualified, "a::b<c>")
SEL_CLASS(Nullary, NothingNumber, "1")
template class Upwind<int>;
static const bool readAfter = readAllEarly();
}
