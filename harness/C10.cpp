#include "selcommon.hpp"
using namespace sel;
using mc::choose;

MC_SCENARIO(every_class, "each base x each of its names x 3 argument sets x repeated after other creations and destructions")
{
    const auto& e = expected()[static_cast<size_t>(choose(static_cast<int>(expected().size()), "class"))];
    int k = choose(3, "args");
    int before = choose(static_cast<int>(expected().size()) + 1, "created before");
    if (before)
    {
        const auto& o = expected()[static_cast<size_t>(before - 1)];
        std::string w = withBase(o.base, [&](auto* b) { return createAndCheck<std::remove_pointer_t<decltype(b)>>(o.name, 4); });
        MC_CHECK(w == o.cls, "wrong-class", "'", o.name, "' of ", o.base, " gave ", w);
    }
    MC_STEP("create '", e.name, "' of ", e.base);
    std::string w = withBase(e.base, [&](auto* b) { return createAndCheck<std::remove_pointer_t<decltype(b)>>(e.name, k); });
    MC_CHECK(w == e.cls, "wrong-class", "'", e.name, "' of ", e.base, " gave ", w, " instead of ", e.cls);
    mc::noteState(mc::cat(e.base, e.cls, k, before));
}
MC_SCENARIO(unknown_names, "each base x every name not registered with it (names of other bases, near misses): an error naming the request and all alternatives, no object, nothing registered")
{
    const std::string& b = bases()[static_cast<size_t>(choose(static_cast<int>(bases().size()), "base"))];
    std::set<std::string> all = {"circle ", "Circle", "CIRCLE", "circl", "circlee", "unknown", "Shape", " ", "late\n", "", "0"};
    for (auto& e : expected()) all.insert(e.name);
    auto have = namesOf(b);
    std::vector<std::string> bad;
    for (auto& n : all)
        if (!std::count(have.begin(), have.end(), n)) bad.push_back(n);
    const std::string n = bad[static_cast<size_t>(choose(static_cast<int>(bad.size()), "name"))];
    MC_STEP("create unknown '", n, "' of ", b);
    withBase(b, [&](auto* p)
             {
                 using B = std::remove_pointer_t<decltype(p)>;
                 size_t size = B::size();
                 mc::keepOutput(true);
                 std::string why;
                 bool ended = false;
                 try
                 {
                     createAndCheck<B>(n, 1);
                 }
                 catch (const mc::ExitCalled& x)
                 {
                     ended = true;
                     MC_CHECK(x.code != 0, "unknown-name", "the failure ends the program with status 0");
                 }
                 catch (const mc::Violation&)
                 {
                     throw;
                 }
                 catch (const std::exception& x)
                 {
                     ended = true;
                     why = x.what();
                 }
                 std::string out = mc::drainOutput() + why;
                 mc::keepOutput(false);
                 MC_CHECK(ended, "unknown-name", "requesting '", n, "' from ", b, " delivered an object");
                 MC_CHECK(out.find(n) != std::string::npos, "unknown-name-message", "the message does not name the requested '", n, "'");
                 for (auto& h : have) MC_CHECK(out.find(h) != std::string::npos, "unknown-name-message", "the message for ", b, " does not list '", h, "'");
                 MC_CHECK(B::size() == size && size == have.size() && !B::table().contains(n), "unknown-name-registered", "the failed request changed the table of ", b);
                 return 0;
             });
    mc::noteState(b + "|" + n);
}
MC_SCENARIO(tables, "each base: size, entries and printed list are exactly the registered names")
{
    const std::string& b = bases()[static_cast<size_t>(choose(static_cast<int>(bases().size()), "base"))];
    auto have = namesOf(b);
    withBase(b, [&](auto* p)
             {
                 using B = std::remove_pointer_t<decltype(p)>;
                 MC_STEP(b);
                 MC_CHECK(sorted(B::entries()) == have, "entries", b, " lists ", B::entries().size(), " classes instead of ", have.size());
                 MC_CHECK(B::size() == have.size() && B::table().size() == have.size(), "size", b, ": ", B::size());
                 std::ostringstream os;
                 B::print(os);
                 for (auto& n : have) MC_CHECK(os.str().find(" - " + n) != std::string::npos, "print", b, ": '", n, "' not printed");
                 return 0;
             });
    mc::noteState(b);
}
MC_SCENARIO(start_up, "a class selected by a static initialiser during program start")
{
    MC_STEP("start-up log");
    MC_CHECK(startLog().size() == 1 && startLog()[0] == "Late", "start-up", "selection during program start gave ", startLog().size(), " objects");
    mc::noteState("s");
}
namespace
{
struct D1 : Shape
{
    using Shape::Shape;
    static std::string name() { return "dyn"; }
    static std::string doc() { return "d1"; }
    static std::string schema() { return "s1"; }
    std::string what() const override { return "D1"; }
};
}
// all histories of registering, creating and destroying
MC_SCENARIO(lifetimes, "every history of up to 4 create/destroy operations over 3 classes with up to 3 live objects: selection keeps working")
{
    std::vector<std::unique_ptr<Shape>> live;
    int len = choose(5, "len");
    static const char* N[] = {"circle", "square", "linear"};
    static const char* W[] = {"Circle", "Square", "ShapeLinear"};
    for (int i = 0; i < len; ++i)
    {
        int op = choose(5, "op");
        if (op < 3)
        {
            auto p = Shape::create(N[op], std::to_string(i), i, 7);
            MC_STEP("create ", N[op]);
            MC_CHECK(p && p->what() == W[op] && p->label == std::to_string(i) && p->a == i && p->b == 7, "wrong-class", "creation ", i);
            live.push_back(std::move(p));
        }
        else if (!live.empty())
        {
            MC_STEP("destroy");
            if (op == 3) live.erase(live.begin());
            else live.pop_back();
        }
    }
    for (int k = 0; k < 3; ++k) MC_CHECK(Shape::create(N[k], "x", 1, 2)->what() == W[k], "wrong-class", "after the history");
    MC_CHECK(Shape::size() == namesOf("Shape").size(), "size", "after the history");
    mc::noteState(std::to_string(live.size()));
}
