// Helpers for the checks of code that runs on executors (with the stand-in for Kokkos).
#pragma once
#include "mc.hpp"
#include <Kokkos_Core.hpp>
#include "NeoFOAM/core/executor/executor.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/fields/field.hpp"

namespace kh
{
using NeoFOAM::Executor;
using NeoFOAM::Field;
using NeoFOAM::label;
using NeoFOAM::localIdx;
using NeoFOAM::scalar;
using NeoFOAM::Vector;

inline const char* EXEC[] = {"serial", "host", "device"};
inline Executor execOf(int e)
{
    if (e == 0) return NeoFOAM::SerialExecutor {};
    if (e == 1) return NeoFOAM::CPUExecutor {};
    return NeoFOAM::GPUExecutor {};
}
inline int indexOf(const Executor& e) { return static_cast<int>(e.index()); }
// the executor and execution order of this execution: serial has one order
inline int pickExec() { return mc::choose(3, "executor"); }
// fixed orders only
inline int pickOrder(int e)
{
    int o = e == 0 ? 0 : mc::choose(kk::Orders, "order");
    kk::begin(o);
    return o;
}
struct Pick
{
    int e;
    Executor exec;
};
inline Pick pick() // executor x fixed order
{
    int e = pickExec();
    pickOrder(e);
    return {e, execOf(e)};
}
// sizes around the usual block lengths and index widths, for the fixed orders
inline constexpr size_t LARGE[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537};
inline size_t pickLarge(size_t upTo = size_t(-1))
{
    int n = 0;
    for (auto l : LARGE) n += l <= upTo;
    return LARGE[mc::choose(n, "large size")];
}
// forward and reverse only: both relative orders of every pair of iterations
inline Pick pick2(bool bothOrders = true)
{
    int c = bothOrders ? mc::choose(5, "executor and order") : 2 * mc::choose(3, "executor");
    static const int E[] = {0, 1, 1, 2, 2};
    if (!bothOrders && c == 2) c = 1;
    if (!bothOrders && c == 4) c = 3;
    kk::begin(c == 2 || c == 4 ? kk::Reverse : kk::Forward);
    return {E[c], execOf(E[c])};
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same(const Vector& a, const Vector& b) { return same(a[0], b[0]) && same(a[1], b[1]) && same(a[2], b[2]); }
template<typename T>
    requires std::is_integral_v<T>
bool same(T a, T b)
{
    return a == b;
}
inline std::string show(double d) { return mc::cat(d); }
inline std::string show(const Vector& v) { return mc::cat("(", v[0], " ", v[1], " ", v[2], ")"); }
template<typename T>
    requires std::is_integral_v<T>
std::string show(T v)
{
    return mc::cat(+v);
}
template<typename T>
std::string show(const std::vector<T>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + show(v[i]);
    return s + "]";
}
template<typename T>
bool same(const std::vector<T>& a, const std::vector<T>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i])) return false;
    return true;
}
// what the field stores, whatever memory it lives in
template<typename T>
std::vector<T> val(const Field<T>& f)
{
    return kk::peek(f.data(), f.size());
}
// storage lies in the memory of the executor the field reports
template<typename T>
void checkHome(const Field<T>& f, const char* what)
{
    if (f.size() == 0) return;
    std::size_t n = 0;
    int sp = kk::spaceOf(f.data());
    void* b = kk::blockOf(f.data(), &n);
    MC_CHECK(b == f.data() && n >= f.size() * sizeof(T), "storage", what, ": the storage of ", f.size(), " entries is a block of ", n, " bytes");
    MC_CHECK((sp == 2) == (f.exec().index() == 2), "storage-space", what, ": the field reports ", EXEC[f.exec().index()], " but its storage is ", EXEC[sp]);
}
template<typename T>
void checkField(const Field<T>& f, const std::vector<T>& want, const char* sig, const std::string& what)
{
    checkHome(f, what.c_str());
    MC_CHECK(f.size() == want.size(), sig, what, ": size is ", f.size(), ", expected ", want.size());
    auto got = val(f);
    MC_CHECK(same(got, want), sig, what, ": holds ", show(got), ", expected ", show(want));
    mc::noteState(show(got));
}
// a field with the given content, built without the library's copying
template<typename T>
Field<T> make(const Executor& ex, const std::vector<T>& v)
{
    Field<T> f(ex, v.size());
    if (!v.empty()) kk::pokeRaw(f.data(), v.data(), v.size() * sizeof(T));
    return f;
}
template<typename T>
void put(Field<T>& f, const std::vector<T>& v)
{
    if (!v.empty()) kk::pokeRaw(f.data(), v.data(), v.size() * sizeof(T));
}
}
