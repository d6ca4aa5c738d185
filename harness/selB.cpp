#include "sel.hpp"
namespace sel
{
static const bool readBefore = readAllEarly();
SEL_CLASS(Shape, ShapeLinear, "linear")
SEL_CLASS(Model, ModelCircle, "circle")
SEL_CLASS(Nullary, NothingEmptyName, "")
SEL_CLASS(Owner, Own, "own")
template class Upwind<double>;
template class LinearI<int>;
SEL_CLASS_TEXTS(Solo, SilentSolo, "solo", "", "")
SEL_CLASS_TEXTS(Nullary, NothingNone, "none", "none", "none")
SEL_CLASS_TEXTS(Nullary, NothingLong, "long", " doc\n\twith several lines\n\n", " { \"a\": \"b\" } ")
SEL_CLASS_TEXTS(Nullary, NothingNoDoc, "noDoc", "", "schema of NothingNoDoc")
SEL_CLASS_TEXTS(Nullary, NothingNoSchema, "noSchema", "doc of NothingNoSchema", "")
SEL_CLASS(Nullary, NothingMany10, "many10")
SEL_CLASS(Nullary, NothingMany11, "many11")
SEL_CLASS(Nullary, NothingMany12, "many12")
SEL_CLASS(Nullary, NothingMany13, "many13")
SEL_CLASS(Nullary, NothingMany14, "many14")
SEL_CLASS(Nullary, NothingMany15, "many15")
SEL_CLASS(Nullary, NothingMany16, "many16")
SEL_CLASS(Nullary, NothingMany17, "many17")
SEL_CLASS(Nullary, NothingMany18, "many18")
SEL_CLASS(Nullary, NothingMany19, "many19")
SEL_CLASS(Nullary, NothingMany20, "many20")
SEL_CLASS(Nullary, NothingMany21, "many21")
static const bool readAfter = readAllEarly();
}
