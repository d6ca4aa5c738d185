// Assertions, error reports and checked views, in every build configuration.
#include "mc.hpp"
#ifdef HV_MPI
// stand-in MPI: only the abort is used by the reporting code
#endif
namespace Kokkos
{
struct Aborted
{
    std::string msg;
};
[[noreturn]] inline void abort(const char* m) { throw Aborted {m}; }
}
#include "NeoFOAM/core/error.hpp"
#include "NeoFOAM/core/view.hpp"
#include "NeoFOAM/helpers/exceptions.hpp"
#include <limits>
#include <optional>

using mc::cat;
using mc::choose;
namespace
{
#ifdef NF_DEBUG
constexpr bool debugBuild = true;
#else
constexpr bool debugBuild = false;
#endif
#ifdef NF_DEBUG_MESSAGING
constexpr bool messaging = true;
#else
constexpr bool messaging = false;
#endif
#ifdef NF_WITH_MPI_SUPPORT
constexpr bool viaMpi = true;
#else
constexpr bool viaMpi = false;
#endif

int condEvals = 0, msgEvals = 0, elseRuns = 0, bodyRuns = 0, afterRuns = 0;
bool cond(bool b)
{
    ++condEvals;
    return b;
}
std::string longText()
{
    std::string s = "begin";
    for (int i = 0; i < 600; ++i) s += " " + std::to_string(i);
    return s + " end";
}
std::string message()
{
    ++msgEvals;
    return "caller says %d {} hello";
}
void reset()
{
    condEvals = msgEvals = elseRuns = bodyRuns = afterRuns = 0;
    mc::keepOutput(true);
}

struct Outcome
{
    enum Kind
    {
        passed,
        threw,
        exited
    } kind = passed;
    std::string text; // what() or the diagnostic output
    int code = 0;
    int line = 0;
};
const char* kindName(Outcome::Kind k)
{
    return k == Outcome::passed ? "continues" : k == Outcome::threw ? "throws" : "ends the program";
}
template<typename F>
Outcome run(F&& f)
{
    Outcome o;
    mc::keepOutput(true);
    try
    {
        o.line = f();
    }
    catch (const NeoFOAM::NeoFOAMException& e)
    {
        o.kind = Outcome::threw;
        o.text = e.what();
        return o;
    }
    catch (const mc::ExitCalled& e)
    {
        o.kind = Outcome::exited;
        o.code = e.code;
    }
    o.text = mc::drainOutput();
    return o;
}

int theLine = 0; // the line of the macro use
#define HERE theLine = __LINE__;

// macro kinds -------------------------------------------------------------------------------
enum Macro
{
    ASSERT,
    ASSERT_THROW,
    DASSERT,
    DASSERT_THROW,
    NMACRO
};
const char* macroName[] = {"NF_ASSERT", "NF_ASSERT_THROW", "NF_DEBUG_ASSERT", "NF_DEBUG_ASSERT_THROW"};
bool active(int m) { return m == ASSERT || m == ASSERT_THROW || debugBuild; }
Outcome::Kind onFailure(int m) { return m == ASSERT || m == DASSERT ? Outcome::exited : Outcome::threw; }

// every macro in every statement position; each lambda reports the line it is used at
#define SHAPES(USE)                                                                                \
    switch (shape)                                                                                 \
    {                                                                                              \
    case 0:                                                                                        \
    {                                                                                              \
        USE;                                                                                       \
        ++afterRuns;                                                                               \
        break;                                                                                     \
    }                                                                                              \
    case 1:                                                                                        \
        if (outer)                                                                                 \
            USE;                                                                                   \
        else                                                                                       \
            ++elseRuns;                                                                            \
        ++afterRuns;                                                                               \
        break;                                                                                     \
    case 2:                                                                                        \
        if (!outer)                                                                                \
            ++elseRuns;                                                                            \
        else                                                                                       \
            USE;                                                                                   \
        ++afterRuns;                                                                               \
        break;                                                                                     \
    case 3:                                                                                        \
        for (int i = 0; i < 2 && outer; ++i)                                                       \
            USE;                                                                                   \
        ++afterRuns;                                                                               \
        break;                                                                                     \
    case 4:                                                                                        \
        do                                                                                         \
            USE;                                                                                   \
        while (false);                                                                             \
        ++afterRuns;                                                                               \
        break;                                                                                     \
    case 5:                                                                                        \
        if (outer)                                                                                 \
            for (int i = 0; i < 2; ++i)                                                            \
                if (i == 1)                                                                        \
                    USE;                                                                           \
                else                                                                               \
                    ++bodyRuns;                                                                    \
        else                                                                                       \
            ++elseRuns;                                                                            \
        ++afterRuns;                                                                               \
        break;                                                                                     \
    case 6:                                                                                        \
        for (int i = 0; i < 3; ++i)                                                                \
        {                                                                                          \
            if (i == 1) continue;                                                                  \
            if (outer) USE;                                                                        \
            ++bodyRuns;                                                                            \
        }                                                                                          \
        ++afterRuns;                                                                               \
        break;                                                                                     \
    }
constexpr int nShapes = 7;
// how often the macro is reached, and the other effects of each shape, when nothing fails
struct Expect
{
    int uses, elses, bodies;
};
Expect expectShape(int shape, bool outer)
{
    switch (shape)
    {
    case 0: return {1, 0, 0};
    case 1:
    case 2: return {outer ? 1 : 0, outer ? 0 : 1, 0};
    case 3: return {outer ? 2 : 0, 0, 0};
    case 4: return {1, 0, 0};
    case 5: return {outer ? 1 : 0, outer ? 0 : 1, outer ? 1 : 0};
    default: return {outer ? 2 : 0, 0, 2};
    }
}

int useMacro(int m, int shape, bool outer, bool c)
{
    switch (m)
    {
    case ASSERT: theLine = __LINE__ + 1; // clang-format off
        SHAPES(NF_ASSERT(cond(c), "text " << message())) break;
    case ASSERT_THROW: theLine = __LINE__ + 1;
        SHAPES(NF_ASSERT_THROW(cond(c), "text " << message())) break;
    case DASSERT: theLine = __LINE__ + 1;
        SHAPES(NF_DEBUG_ASSERT(cond(c), "text " << message())) break;
    case DASSERT_THROW: theLine = __LINE__ + 1;
        SHAPES(NF_DEBUG_ASSERT_THROW(cond(c), "text " << message())) break; // clang-format on
    }
    return theLine;
}

void checkReport(const Outcome& o, int line, const std::string& must, const std::string& what)
{
    auto has = [&](const std::string& s) { return o.text.find(s) != std::string::npos; };
    MC_CHECK(has(must), "message", what, ": the report lacks the caller's text `", must, "`: ", o.text);
    MC_CHECK(has("C13.cpp"), "location", what, ": the report does not name the file: ", o.text);
    MC_CHECK(
        has(cat("Line: ", line, "\n")), "location", what, ": the report does not name line ", line, ": ", o.text
    );
    MC_CHECK(
        has("TRACE-OF-CALLS") == messaging, "trace", what, ": call trace ", messaging ? "missing" : "unexpected", " in: ", o.text
    );
    if (o.kind == Outcome::exited)
        MC_CHECK(o.code != 0, "exit-code", what, ": the program ends with status 0");
}
}

MC_SCENARIO(assert_shapes, "4 assertion macros x condition true/false x 7 statement positions x outer branch taken or not")
{
    int m = choose(NMACRO, "macro"), shape = choose(nShapes, "shape");
    bool c = choose(2, "cond"), outer = choose(2, "outer");
    reset();
    MC_STEP(macroName[m], " shape ", shape, " cond ", c, " outer ", outer);
    Outcome o = run([&] { return useMacro(m, shape, outer, c); });
    Expect e = expectShape(shape, outer);
    std::string what = cat(macroName[m], " (condition ", c, ", position ", shape, ")");
    bool fails = active(m) && !c && e.uses > 0;
    auto want = fails ? onFailure(m) : Outcome::passed;
    MC_CHECK(o.kind == want, "fires", what, " ", kindName(o.kind), ", should: ", kindName(want));
    int evals = !active(m) ? 0 : fails ? 1 : e.uses;
    MC_CHECK(condEvals == evals, "condition-once", what, " evaluates its condition ", condEvals, " times, not ", evals);
    MC_CHECK(msgEvals == (fails ? 1 : 0), "message-lazily", what, " evaluates its message ", msgEvals, " times");
    if (!fails)
    {
        MC_CHECK(o.text.empty(), "quiet", what, " prints: ", o.text);
        MC_CHECK(
            elseRuns == e.elses && bodyRuns == e.bodies && afterRuns == 1, "single-statement", what,
            " changes the enclosing control flow: else ", elseRuns, "/", e.elses, " body ", bodyRuns, "/", e.bodies,
            " after ", afterRuns
        );
    }
    else
    {
        MC_CHECK(afterRuns == 0, "stops", what, " continues after the failure");
        checkReport(o, theLine, "text caller says %d {} hello", what);
        MC_CHECK(o.text.find("cond(c)") != std::string::npos, "message", what, ": the failed condition is not named: ", o.text);
    }
    mc::noteState(cat(m, shape, c, outer, int(o.kind)));
}

// comparisons -----------------------------------------------------------------------------------
namespace
{
struct Num
{
    int v;
    friend bool operator==(const Num& a, const Num& b)
    {
        ++condEvals;
        return a.v == b.v;
    }
    friend std::ostream& operator<<(std::ostream& s, const Num& n) { return s << "<" << n.v << ">"; }
};
template<int M, typename A, typename B>
int useEqual(const A& a, const B& b)
{
    // clang-format off
    if constexpr (M == 0) { theLine = __LINE__; NF_ASSERT_EQUAL(a, b); }
    if constexpr (M == 1) { theLine = __LINE__; NF_ASSERT_EQUAL_THROW(a, b); }
    if constexpr (M == 2) { theLine = __LINE__; NF_DEBUG_ASSERT_EQUAL(a, b); }
    if constexpr (M == 3) { theLine = __LINE__; NF_DEBUG_ASSERT_EQUAL_THROW(a, b); }
    // clang-format on
    ++afterRuns;
    return theLine;
}
const char* eqName[] = {"NF_ASSERT_EQUAL", "NF_ASSERT_EQUAL_THROW", "NF_DEBUG_ASSERT_EQUAL", "NF_DEBUG_ASSERT_EQUAL_THROW"};
template<typename A, typename B>
void equalPair(int m, const A& a, const B& b, bool same)
{
    reset();
    Outcome o = run([&] {
        switch (m)
        {
        case 0: return useEqual<0>(a, b);
        case 1: return useEqual<1>(a, b);
        case 2: return useEqual<2>(a, b);
        default: return useEqual<3>(a, b);
        }
    });
    std::string what = cat(eqName[m], "(", a, ", ", b, ")");
    bool fails = active(m) && !same;
    auto want = fails ? onFailure(m) : Outcome::passed;
    MC_CHECK(o.kind == want, "fires", what, " ", kindName(o.kind), ", should: ", kindName(want));
    MC_CHECK(afterRuns == (fails ? 0 : 1), "stops", what, " after-count ", afterRuns);
    if (fails)
    {
        std::ostringstream ev, av; // as the stream of the report prints them
        ev << b;
        av << a;
        checkReport(o, theLine, "xpected " + ev.str(), what);
        checkReport(o, theLine, "got " + av.str(), what);
    }
    else
        MC_CHECK(o.text.empty(), "quiet", what, " prints: ", o.text);
    mc::noteState(cat(what, same));
}
}

MC_SCENARIO(equal_values, "4 comparison macros x all ordered pairs of 6 integers, 7 doubles (inf, nan, -0), 4 strings, 2 bools, 3 unsigned, 3 user-defined values")
{
    int m = choose(4, "macro");
    switch (choose(6, "type"))
    {
    case 0:
    {
        int v[] = {0, 1, -1, 7, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()};
        int i = choose(6), j = choose(6);
        equalPair(m, v[i], v[j], i == j);
        break;
    }
    case 1:
    {
        double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
        double v[] = {0.0, -0.0, 1.0, 1.0 + std::numeric_limits<double>::epsilon(), inf, -inf, nan};
        int i = choose(7), j = choose(7);
        equalPair(m, v[i], v[j], i != 6 && j != 6 && (i == j || (i < 2 && j < 2)));
        break;
    }
#ifndef NF_REDUCED // values that have nothing but == and <<
    case 2:
    {
        std::string v[] = {"", "a", "b", "ab"};
        int i = choose(4), j = choose(4);
        equalPair(m, v[i], v[j], i == j);
        break;
    }
#endif
    case 3:
    {
        int i = choose(2), j = choose(2);
        equalPair(m, bool(i), bool(j), i == j);
        break;
    }
    case 4:
    {
        size_t v[] = {0, 1, std::numeric_limits<size_t>::max()};
        int i = choose(3), j = choose(3);
        equalPair(m, v[i], v[j], i == j);
        break;
    }
#ifndef NF_REDUCED
    case 5:
    {
        int i = choose(3), j = choose(3);
        equalPair(m, Num {i}, Num {j}, i == j);
        MC_CHECK(condEvals == (active(m) ? 1 : 0), "condition-once", eqName[m], " compares ", condEvals, " times");
        break;
    }
#endif
    }
}

// operands that are expressions with operators of every precedence
MC_SCENARIO(equal_expressions, "4 comparison macros x operand expressions with ternary, bitwise, logical, shift, comparison, additive operators on either side x all values of 3 bits")
{
    int m = choose(4, "macro");
    int e = choose(7, "expression");
    int x = choose(3, "x"), y = choose(3, "y"), z = choose(3, "z");
    bool side = choose(2, "side");
    // clang-format off
    auto use = [&](auto tag)
    {
        constexpr int M = decltype(tag)::value;
#define BOTH(EXPR) \
        if (side) { if constexpr (M==0) NF_ASSERT_EQUAL(z, EXPR); if constexpr (M==1) NF_ASSERT_EQUAL_THROW(z, EXPR); \
                    if constexpr (M==2) NF_DEBUG_ASSERT_EQUAL(z, EXPR); if constexpr (M==3) NF_DEBUG_ASSERT_EQUAL_THROW(z, EXPR); } \
        else      { if constexpr (M==0) NF_ASSERT_EQUAL(EXPR, z); if constexpr (M==1) NF_ASSERT_EQUAL_THROW(EXPR, z); \
                    if constexpr (M==2) NF_DEBUG_ASSERT_EQUAL(EXPR, z); if constexpr (M==3) NF_DEBUG_ASSERT_EQUAL_THROW(EXPR, z); }
        switch (e)
        {
        case 0: BOTH(x ? y : 2) break;
        case 1: BOTH(x & y) break;
        case 2: BOTH(x || y) break;
        case 3: BOTH(x << y) break;
        case 4: BOTH(x < y) break;
        case 5: BOTH(x - y) break;
        case 6: BOTH(x == y) break;
        }
#undef BOTH
        return 0;
    };
    // clang-format on
    int val = 0;
    switch (e)
    {
    case 0: val = x ? y : 2; break;
    case 1: val = x & y; break;
    case 2: val = x || y; break;
    case 3: val = x << y; break;
    case 4: val = x < y; break;
    case 5: val = x - y; break;
    case 6: val = x == y; break;
    }
    MC_STEP(eqName[m], " expression ", e, " x=", x, " y=", y, " z=", z, " side ", side);
    Outcome o = run([&] {
        switch (m)
        {
        case 0: return use(std::integral_constant<int, 0> {});
        case 1: return use(std::integral_constant<int, 1> {});
        case 2: return use(std::integral_constant<int, 2> {});
        default: return use(std::integral_constant<int, 3> {});
        }
    });
    bool fails = active(m) && val != z;
    auto want = fails ? onFailure(m) : Outcome::passed;
    MC_CHECK(
        o.kind == want, "fires", eqName[m], " on expression ", e, " (", x, ",", y, ") against ", z, " ", kindName(o.kind),
        ", should: ", kindName(want)
    );
    mc::noteState(cat(m, e, x, y, z, side));
}

// assertion conditions that are expressions, messages that are stream expressions
MC_SCENARIO(assert_expressions, "4 assertion macros x 5 condition expressions x all values of two 3-valued operands")
{
    int m = choose(NMACRO), e = choose(5), x = choose(3), y = choose(3);
    bool val = false;
    // clang-format off
#define USE(EXPR) val = static_cast<bool>(EXPR); o = run([&]{ switch (m) { \
        case ASSERT: NF_ASSERT((EXPR), "v" << x << (y ? "p" : "q")); break; \
        case ASSERT_THROW: NF_ASSERT_THROW(EXPR, "v" << x << (y ? "p" : "q")); break; \
        case DASSERT: NF_DEBUG_ASSERT(EXPR, "v" << x << (y ? "p" : "q")); break; \
        default: NF_DEBUG_ASSERT_THROW(EXPR, "v" << x << (y ? "p" : "q")); break; } return 0; })
    // clang-format on
#ifdef NF_REDUCED
    if (e == 3) return;
#endif
    Outcome o;
    switch (e)
    {
    case 0: USE(x == y || x > 1); break;
    case 1: USE(x & y); break;
    case 2: USE(x ? y : !y); break;
#ifndef NF_REDUCED
    case 3: USE(x = y); break; // an assignment used as a condition keeps its value
#else
    case 3: val = true; break;
#endif
    case 4: USE((x, y)); break;
    }
    bool fails = active(m) && !val;
    auto want = fails ? onFailure(m) : Outcome::passed;
    MC_CHECK(o.kind == want, "fires", macroName[m], " on condition ", e, " (", x, ",", y, ") ", kindName(o.kind), ", should: ", kindName(want));
    if (fails)
        MC_CHECK(
            o.text.find(cat("v", x, y ? "p" : "q")) != std::string::npos, "message", macroName[m], ": the streamed message is lost: ", o.text
        );
    mc::noteState(cat(m, e, x, y));
}

MC_SCENARIO(reports, "error reports (throw, exit, message text) x message kinds x statement positions")
{
    int kind = choose(2, "kind"), text = choose(5, "text"), shape = choose(nShapes, "shape");
    bool outer = choose(2, "outer");
    reset();
    const std::string cs[] = {"plain", "", "with\nnewline", "100% {} \\", longText()};
    std::string s = cs[text];
    Outcome o = run([&] {
        // clang-format off
        if (kind == 0) { theLine = __LINE__; SHAPES(NF_THROW(s)) }
        else { theLine = __LINE__; SHAPES(NF_ERROR_EXIT(s << 42)) }
        // clang-format on
        return 0;
    });
    Expect e = expectShape(shape, outer);
    auto want = e.uses == 0 ? Outcome::passed : kind == 0 ? Outcome::threw : Outcome::exited;
    std::string what = cat(kind == 0 ? "NF_THROW" : "NF_ERROR_EXIT", " in position ", shape);
    MC_CHECK(o.kind == want, "fires", what, " ", kindName(o.kind), ", should: ", kindName(want));
    if (want != Outcome::passed) checkReport(o, theLine, kind == 0 ? s : s + "42", what);
    else
        MC_CHECK(
            o.text.empty() && elseRuns == e.elses && bodyRuns == e.bodies && afterRuns == 1, "single-statement", what,
            " changes the enclosing control flow"
        );
    mc::noteState(cat(kind, text, shape, outer));
}

MC_SCENARIO(repeated, "4 assertion macros, 2 error reports and 2 comparison macros at one place reached up to 4 times with every sequence of outcomes, short or long message: each violation is reported anew, none in between")
{
    int m = choose(8, "macro"), len = 1 + choose(4, "length");
    bool lengthy = choose(2, "long message");
    for (int k = 0; k < len; ++k)
    {
        bool ok = choose(2, "holds");
        reset();
        std::string text = (lengthy ? longText() : std::string("text")) + "/" + std::to_string(k);
        MC_STEP("pass ", k, ok ? " holds" : " violated");
        Outcome o = run([&] {
            // clang-format off
            switch (m)
            {
            case ASSERT: theLine = __LINE__; NF_ASSERT(cond(ok), text); break;
            case ASSERT_THROW: theLine = __LINE__; NF_ASSERT_THROW(cond(ok), text); break;
            case DASSERT: theLine = __LINE__; NF_DEBUG_ASSERT(cond(ok), text); break;
            case DASSERT_THROW: theLine = __LINE__; NF_DEBUG_ASSERT_THROW(cond(ok), text); break;
            case 4: theLine = __LINE__; if (!ok) NF_THROW(text); break;
            case 5: theLine = __LINE__; if (!ok) NF_ERROR_EXIT(text); break;
            case 6: theLine = __LINE__; NF_ASSERT_EQUAL(text, (ok ? text : std::string("other"))); break;
            default: theLine = __LINE__; NF_ASSERT_EQUAL_THROW(text, (ok ? text : std::string("other"))); break;
            }
            // clang-format on
            return 0;
        });
        auto want = ok ? Outcome::passed : m < 4 ? (active(m) ? onFailure(m) : Outcome::passed) : m % 2 == 0 ? (m == 4 ? Outcome::threw : Outcome::exited) : (m == 5 ? Outcome::exited : Outcome::threw);
        MC_CHECK(o.kind == want, "fires", "use ", m, ", pass ", k, ": ", kindName(o.kind), ", should: ", kindName(want));
        if (want != Outcome::passed) checkReport(o, theLine, text, cat("use ", m, ", pass ", k));
    }
    mc::noteState(cat(m, len, lengthy));
}

MC_SCENARIO(informational, "info and debug-info messages x statement positions")
{
    int kind = choose(2, "kind"), shape = choose(nShapes, "shape");
    bool outer = choose(2, "outer");
    reset();
    Outcome o = run([&] {
        if (kind == 0) { SHAPES(NF_INFO("note " << message())) }
        else { SHAPES(NF_DINFO("note " << message())) }
        return 0;
    });
    Expect e = expectShape(shape, outer);
    MC_CHECK(o.kind == Outcome::passed, "fires", "an informational message ends the program");
    MC_CHECK(elseRuns == e.elses && bodyRuns == e.bodies && afterRuns == 1, "single-statement", "info message in position ", shape, " changes the control flow");
    int n = kind == 0 || messaging ? e.uses : 0, got = 0;
    for (size_t p = 0; (p = o.text.find("note caller says", p)) != std::string::npos; ++p) ++got;
    MC_CHECK(got == n, "info", "message printed ", got, " times, expected ", n, ": ", o.text);
    MC_CHECK(msgEvals == n, "info", "message evaluated ", msgEvals, " times, expected ", n);
    mc::noteState(cat(kind, shape, outer));
}

MC_SCENARIO(exception_object, "the exception type keeps any message across copies and catches as std::exception")
{
    std::string v[] = {"", "x", std::string(200, 'y')};
    std::string s = v[choose(3)];
    int how = choose(3);
    auto hold = std::make_unique<NeoFOAM::NeoFOAMException>(s);
    std::optional<NeoFOAM::NeoFOAMException> copy;
    if (how == 0) copy.emplace(*hold);
    else if (how == 1) { copy.emplace(std::string("other")); *copy = *hold; }
    else
        try { throw *hold; } catch (const NeoFOAM::NeoFOAMException& e) { copy.emplace(e); }
    hold.reset();
    const std::exception& base = *copy;
    MC_CHECK(base.what() == s, "what", "exception text changed: ", base.what());
    mc::noteState(cat(s.size(), how));
}

namespace
{
struct Sized
{
    size_t n;
    size_t size() const { return n; }
};
}
MC_SCENARIO(equal_length, "length check over all pairs of sizes 0..3 x statement positions")
{
    Sized a {size_t(choose(4))}, b {size_t(choose(4))};
    int shape = choose(nShapes);
    bool outer = choose(2);
    reset();
    bool threw = false;
    std::string text;
    try
    {
        SHAPES(NeoFOAM_ASSERT_EQUAL_LENGTH(a, b))
    }
    catch (const NeoFOAM::DimensionMismatch& e)
    {
        threw = true;
        text = e.what();
    }
    Expect e = expectShape(shape, outer);
    MC_CHECK(threw == (a.n != b.n && e.uses > 0), "length", "sizes ", a.n, " and ", b.n, ": mismatch ", threw ? "reported" : "not reported");
    if (threw)
        MC_CHECK(text.find(cat(a.n, ", ", b.n)) != std::string::npos, "message", "the sizes are not reported: ", text);
    else
        MC_CHECK(elseRuns == e.elses && bodyRuns == e.bodies && afterRuns == 1, "single-statement", "the length check changes the control flow");
    mc::noteState(cat(a.n, b.n, shape, outer));
}

// views -------------------------------------------------------------------------------------------
MC_SCENARIO(view_sequences, "views of size 1..4 over a larger guarded buffer x element access sequences of length <=3 (indices 0..size+2) x read/write x stop/record mode, three ways of construction")
{
    size_t n = 1 + choose(4, "size");
    bool stop = choose(2, "mode");
    int make = choose(3, "construction");
    double buf[12];
    for (int i = 0; i < 12; ++i) buf[i] = 100 + i;
    double model[12];
    std::copy(buf, buf + 12, model);
    double* base = buf + 2;
    std::span<double> sp(base, n);
    NeoFOAM::View<double> v;
    if (make == 0) v = NeoFOAM::View<double>(base, n);
    else if (make == 1) v = NeoFOAM::View<double>(sp);
    else
    {
        NeoFOAM::View<double> w(base, base + n);
        v = w;
    }
    MC_CHECK(v.size() == n && v.data() == base, "view-extent", "view of size ", v.size(), " instead of ", n);
    MC_CHECK(v.failureIndex == 0 && v.abort, "view-fresh", "a fresh view reports a failure or does not stop");
    v.abort = stop;
    size_t first = 0;
    int len = 1 + choose(3, "length");
    for (int k = 0; k < len; ++k)
    {
        size_t i = choose(int(n) + 3, "index");
        bool write = choose(2, "write");
        MC_STEP(write ? "write " : "read ", i);
        bool bad = i >= n, aborted = false;
        double got = 0;
        try
        {
            if (write) { v[i] = 1000 + k; }
            else got = v[i];
        }
        catch (const Kokkos::Aborted&)
        {
            aborted = true;
        }
        MC_CHECK(
            aborted == (debugBuild && stop && bad), "view-abort", "view of size ", n, ", index ", i,
            aborted ? ": stopped" : ": not stopped", debugBuild ? " (debug build)" : " (release build)"
        );
        if (!aborted)
        {
            if (write) model[2 + i] = 1000 + k;
            else MC_CHECK(got == model[2 + i], "view-value", "index ", i, " reads ", got, " instead of ", model[2 + i]);
        }
        if (debugBuild && !stop && bad && first == 0) first = i;
        MC_CHECK(v.failureIndex == first, "view-record", "recorded index ", v.failureIndex, " instead of ", first, " after index ", i, " on size ", n);
        for (int q = 0; q < 12; ++q)
            MC_CHECK(buf[q] == model[q], "view-value", "access ", i, " changed position ", q - 2);
        if (aborted) break;
    }
    mc::noteState(cat(n, stop, v.failureIndex));
}

MC_SCENARIO(view_empty, "views of size 0 over a guarded buffer x access sequences of length <=3 (indices 0..2) x stop/record mode")
{
    bool stop = choose(2, "mode");
    double buf[6] = {1, 2, 3, 4, 5, 6};
    int make = choose(4, "construction");
    NeoFOAM::View<double> v(buf + 1, size_t(0));
    if (make == 1) v = NeoFOAM::View<double>(std::span<double>(buf + 1, size_t(0)));
    if (make == 2) v = NeoFOAM::View<double>(buf + 1, buf + 1);
    if (make == 3)
    {
        NeoFOAM::View<double> none;
        MC_CHECK(none.size() == 0 && none.failureIndex == 0 && none.abort, "view-fresh", "a default view reports a failure or does not stop");
        none = v;
        v = none;
    }
    MC_CHECK(v.size() == 0 && v.failureIndex == 0 && v.abort, "view-fresh", "a fresh empty view reports a failure or does not stop");
    v.abort = stop;
    size_t first = 0;
    bool any = false;
    int len = 1 + choose(3, "length");
    for (int k = 0; k < len; ++k)
    {
        size_t i = choose(3, "index");
        MC_STEP("read ", i);
        bool aborted = false;
        double got = 0;
        try
        {
            got = v[i];
        }
        catch (const Kokkos::Aborted&)
        {
            aborted = true;
        }
        MC_CHECK(aborted == (debugBuild && stop), "view-abort", "empty view, index ", i, aborted ? ": stopped" : ": not stopped", debugBuild ? " (debug build)" : " (release build)");
        if (aborted) break;
        MC_CHECK(got == buf[1 + i], "view-value", "index ", i, " reads ", got);
        if (debugBuild && !any) first = i;
        any = true;
        if (debugBuild && first == 0 && i != 0 && v.failureIndex == i)
            mc::fail("empty-view-index-zero", mc::cat("the first offending index 0 of an empty view is taken for none: ", i, " is recorded instead"));
        MC_CHECK(v.failureIndex == first, "view-record", "recorded index ", v.failureIndex, " instead of ", first, " on an empty view");
    }
    mc::noteState(cat(stop, v.failureIndex, any));
}

namespace
{
struct Wide
{
    double d[9];
};
template<typename T>
void farIndex()
{
    static T buf[8];
    const size_t far[] = {
        size_t(-1), size_t(-2), size_t(1) << 63, (size_t(1) << 63) - 1, size_t(1) << 61, size_t(1) << 32, (size_t(1) << 32) + 1,
        size_t(1) << 31, (size_t(1) << 31) - 1, size_t(1) << 16, (size_t(1) << 16) + 1, size_t(1) << 15, 256, 257, 128, 255
    };
    size_t n = choose(5, "size"), i = far[choose(16, "index")];
    NeoFOAM::View<T> v(buf + 2, n);
    MC_STEP("size ", n, " index ", i);
    bool aborted = false;
    try
    {
        (void)&v[i]; // stops before anything is touched
    }
    catch (const Kokkos::Aborted&)
    {
        aborted = true;
    }
    MC_CHECK(aborted, "view-abort", "view of size ", n, ", index ", i, ": not stopped (debug build)");
    MC_CHECK(v.size() == n && v.data() == buf + 2, "view-extent", "the stopped access changed the view");
    // recording: only the address is taken, nothing is touched
    NeoFOAM::View<T> w(buf + 2, n);
    w.abort = false;
    (void)&w[i];
    MC_CHECK(w.failureIndex == i, "view-record", "recorded index ", w.failureIndex, " instead of ", i, " on size ", n);
    mc::noteState(cat(sizeof(T), n, i));
}
}
MC_SCENARIO(view_far, "views of size 0..4 of elements of 1, 8 and 72 bytes x 16 far indices up to the largest, in debug builds: stopped, or recorded")
{
    if (!debugBuild)
    {
        MC_STEP("release build");
        mc::noteState("release");
        return;
    }
    switch (choose(3, "element"))
    {
    case 0: farIndex<char>(); break;
    case 1: farIndex<double>(); break;
    default: farIndex<Wide>(); break;
    }
}
MC_SCENARIO(view_const, "read-only views and copies: size 1..3, index 0..size+1, record carried by copies")
{
    size_t n = 1 + choose(3);
    const int buf[6] = {5, 6, 7, 8, 9, 10};
    NeoFOAM::View<const int> v(buf, n);
    v.abort = false;
    size_t i = choose(int(n) + 2), j = choose(int(n) + 2);
    MC_CHECK(v[i] == buf[i], "view-value", "index ", i);
    auto w = v;
    MC_CHECK(w[j] == buf[j], "view-value", "index ", j);
    size_t e1 = debugBuild && i >= n ? i : 0, e2 = e1 ? e1 : (debugBuild && j >= n ? j : 0);
    MC_CHECK(v.failureIndex == e1 && w.failureIndex == e2, "view-record", "records ", v.failureIndex, "/", w.failureIndex, " instead of ", e1, "/", e2);
    mc::noteState(cat(n, i, j));
}
