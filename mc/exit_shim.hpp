// Pre-included in every instrumented translation unit: process exit becomes an observable event.
#pragma once
#include <algorithm>
#include <any>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <variant>
#include <vector>
namespace mc
{
struct ExitCalled;
[[noreturn]] void exitCalled(int code);
}
namespace std
{
[[noreturn]] inline void mc_exit(int c) { ::mc::exitCalled(c); }
}
[[noreturn]] inline void mc_exit(int c) { ::mc::exitCalled(c); }
#define exit(c) mc_exit(c)
