// Stand-in of the explorer for demonstrations: one execution, every failure ends the program.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace mc
{
inline int choose(int, const char* = "") { return 0; }
inline int deviate(int, const char* = "") { return 0; }
inline void setDeviationBound(int) {}
inline bool thorough() { return false; }
inline bool tracing() { return false; }
inline void countStep(uint64_t = 1) {}
inline void noteState(const std::string&) {}
inline void noteStateHash(uint64_t) {}
inline void trace(const std::string&) {}
struct Violation
{
    std::string sig, msg;
};
struct Pruned
{
};
struct ExitCalled
{
    int code;
};
[[noreturn]] inline void prune() { std::_Exit(4); }
[[noreturn]] inline void fail(const std::string& s, const std::string& m)
{
    std::fprintf(stderr, "%s: %s\n", s.c_str(), m.c_str());
    std::_Exit(1);
}
inline void failLater(const std::string& s, const std::string& m) { fail(s, m); }
inline bool failed() { return false; }
template<typename... A>
std::string cat(const A&... a)
{
    std::ostringstream s;
    s.precision(17);
    (s << ... << a);
    return s.str();
}
}
#define MC_CHECK(cond, sig, ...)                                                                   \
    do                                                                                             \
    {                                                                                              \
        if (!(cond)) ::mc::fail(sig, ::mc::cat(__VA_ARGS__));                                      \
    } while (false)
#define MC_STEP(...)                                                                               \
    do                                                                                             \
    {                                                                                              \
    } while (false)
