// Exhaustive choice-sequence explorer (stateless model checking of the real code).
//
// A scenario body is a deterministic function of the values returned by choose()/deviate().
// explore() runs it once for every choice sequence (depth-first, no sampling).  Work is split
// over forked workers by the first two choices.  Every oracle failure is re-executed from its
// recorded choices before it is believed, and written to a replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc
{
// ---- choices -----------------------------------------------------------------------------
int choose(int n, const char* label = "");  // 0..n-1, all explored
int deviate(int n, const char* label = ""); // 0 is the default; others use up the deviation budget
void setDeviationBound(int b);              // per execution, call at the start of a body
bool thorough();
bool tracing();                             // true while an execution is being re-run for a report

// ---- accounting ---------------------------------------------------------------------------
void countStep(uint64_t n = 1);             // transitions
void noteState(const std::string& canonical);
void noteStateHash(uint64_t h);
void trace(const std::string& line);
void prune();                               // abandon this execution (precondition not met)

// ---- oracle ---------------------------------------------------------------------------------
struct Violation
{
    std::string sig, msg;
};
struct Pruned
{
};
struct ExitCalled // thrown in place of process exit by instrumented code
{
    int code;
};
[[noreturn]] void fail(const std::string& sig, const std::string& msg);
// Records a failure without unwinding (usable from noexcept contexts); reported at the end.
void failLater(const std::string& sig, const std::string& msg);
bool failed();

template<typename... A>
std::string cat(const A&... a)
{
    std::ostringstream s;
    s.precision(17);
    (s << ... << a);
    return s.str();
}

#define MC_CHECK(cond, sig, ...)                                                                   \
    do                                                                                             \
    {                                                                                              \
        if (!(cond)) ::mc::fail(sig, ::mc::cat(__VA_ARGS__));                                      \
    } while (false)
#define MC_STEP(...)                                                                               \
    do                                                                                             \
    {                                                                                              \
        ::mc::countStep();                                                                         \
        if (::mc::tracing()) ::mc::trace(::mc::cat(__VA_ARGS__));                                  \
    } while (false)

// ---- scenarios ------------------------------------------------------------------------------
struct Scenario
{
    std::string name;
    std::function<void()> body;
    std::string bounds; // human readable description of the explored space
    bool thoroughOnly;
    bool isolated = false; // every execution runs in a process of its own (fresh statics)
};
std::vector<Scenario>& scenarios();
struct Reg
{
    Reg(const char* n, std::function<void()> f, const char* b, bool t = false, bool iso = false)
    {
        scenarios().push_back({n, std::move(f), b, t, iso});
    }
};
#define MC_SCENARIO(ID, BOUNDS)                                                                    \
    static void ID();                                                                              \
    static ::mc::Reg reg_##ID(#ID, ID, BOUNDS);                                                    \
    static void ID()
#define MC_SCENARIO_ISOLATED(ID, BOUNDS)                                                           \
    static void ID();                                                                              \
    static ::mc::Reg reg_##ID(#ID, ID, BOUNDS, false, true);                                       \
    static void ID()
#define MC_SCENARIO_THOROUGH(ID, BOUNDS)                                                           \
    static void ID();                                                                              \
    static ::mc::Reg reg_##ID(#ID, ID, BOUNDS, true);                                              \
    static void ID()

// expects body to throw E (or a subclass); anything else is a violation
template<typename E, typename F>
void expectThrow(const char* sig, F&& f, const std::string& what)
{
    bool got = false;
    std::string other;
    try
    {
        f();
    }
    catch (const E&)
    {
        got = true;
    }
    catch (const Violation&)
    {
        throw;
    }
    catch (const Pruned&)
    {
        throw;
    }
    catch (const ExitCalled&)
    {
        other = "process exit";
    }
    catch (const std::exception& e)
    {
        other = std::string("other exception: ") + e.what();
    }
    catch (...)
    {
        other = "other exception";
    }
    if (!got)
        fail(sig, what + (other.empty() ? ": no error was reported" : ": wrong error (" + other + ")"));
}
// expects body to report an error in any way (exception or process exit)
template<typename F>
void expectAnyError(const char* sig, F&& f, const std::string& what)
{
    bool got = false;
    try
    {
        f();
    }
    catch (const Violation&)
    {
        throw;
    }
    catch (const Pruned&)
    {
        throw;
    }
    catch (...)
    {
        got = true;
    }
    if (!got) fail(sig, what + ": no error was reported");
}

// stream capture (std::cout / std::cerr are silenced by default)
std::string drainOutput();
void keepOutput(bool on);
}
