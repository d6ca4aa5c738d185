// a unit that registers a class and then selects it while the program is still starting
#include "sel.hpp"
namespace sel
{
static const bool readBefore = readAllEarly();
SEL_CLASS(Shape, Late, "late")
namespace
{
struct Early
{
    Early()
    {
        // registrations of template members are unordered within this unit: make sure of this one
        (void)Late::Reg::REGISTERED;
        if (!Shape::table().contains("late")) Late::Reg::addSubType();
        auto s = Shape::create("late", "early", 1, 2);
        startLog().push_back(s->what());
    }
} early;
}
std::vector<std::string>& startLog()
{
    static std::vector<std::string> l;
    return l;
}
static const bool readAfter = readAllEarly();
}
