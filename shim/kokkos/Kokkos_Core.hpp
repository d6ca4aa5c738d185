// A small stand-in for the part of Kokkos that the library uses (see kk.hpp).
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <ostream>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include "kk.hpp"

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_IMPL_DEVICE_FUNCTION
#define KOKKOS_ASSERT(x) assert(x)
#define KOKKOS_VERSION 40400
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_ENABLE_OPENMP
#define KOKKOS_IF_ON_HOST(x) KOKKOS_IMPL_STRIP x
#define KOKKOS_IF_ON_DEVICE(x)
#define KOKKOS_IMPL_STRIP(...) __VA_ARGS__

namespace Kokkos
{
struct InitializationSettings
{
};
inline void initialize() {}
inline void initialize(int&, char**) {}
inline void initialize(const InitializationSettings&) {}
inline void finalize() {}
inline bool is_initialized() { return true; }
inline bool is_finalized() { return false; }
struct ScopeGuard
{
    template<typename... A>
    ScopeGuard(A&&...)
    {}
};
inline void fence() {}
inline void fence(const std::string&) {}
inline int device_id() { return 0; }
inline int num_threads() { return 1; }
[[noreturn]] inline void abort(const char* m) { kk::abortCalled(m); }
template<typename... A>
void printf(const char* f, A... a)
{
    std::printf(f, a...);
}

// ---- spaces ---------------------------------------------------------------------------------
struct HostSpace
{
    using memory_space = HostSpace;
    static constexpr bool device = false;
};
struct DeviceSpace_
{
    using memory_space = DeviceSpace_;
    static constexpr bool device = true;
};
using SharedSpace = HostSpace;
template<kk::Sp S>
struct ExecSpace_
{
    using execution_space = ExecSpace_;
    using memory_space = std::conditional_t<S == kk::Sp::Device, DeviceSpace_, HostSpace>;
    static constexpr kk::Sp space = S;
    static constexpr bool device = S == kk::Sp::Device;
    static const char* name() { return S == kk::Sp::Serial ? "Serial" : S == kk::Sp::Host ? "OpenMP" : "Cuda"; }
    void fence() const {}
    void fence(const std::string&) const {}
    int concurrency() const { return S == kk::Sp::Serial ? 1 : 8; }
    friend bool operator==(const ExecSpace_&, const ExecSpace_&) { return true; }
    friend bool operator!=(const ExecSpace_&, const ExecSpace_&) { return false; }
};
using Serial = ExecSpace_<kk::Sp::Serial>;
using DefaultHostExecutionSpace = ExecSpace_<kk::Sp::Host>;
using DefaultExecutionSpace = ExecSpace_<kk::Sp::Device>;
using OpenMP = DefaultHostExecutionSpace;
template<typename T>
constexpr bool is_execution_space_v = false;
template<kk::Sp S>
constexpr bool is_execution_space_v<ExecSpace_<S>> = true;

// ---- memory ---------------------------------------------------------------------------------
template<typename S = DefaultExecutionSpace>
void* kokkos_malloc(const std::string&, std::size_t n)
{
    return kk::alloc(S::space, n);
}
template<typename S = DefaultExecutionSpace>
void* kokkos_malloc(std::size_t n)
{
    return kk::alloc(S::space, n);
}
template<typename S = DefaultExecutionSpace>
void* kokkos_realloc(void* p, std::size_t n)
{
    return kk::realloc(S::space, p, n);
}
template<typename S = DefaultExecutionSpace>
void kokkos_free(void* p)
{
    kk::free(S::space, p);
}
struct MemoryUnmanaged
{
};
enum MemoryTraitsFlags
{
    Unmanaged = 1,
    RandomAccess = 2,
    Atomic = 4,
    Restrict = 8
};
template<unsigned F = 0>
struct MemoryTraits
{
};
struct LayoutLeft
{
};
struct LayoutRight
{
};
template<typename D, typename... P>
class View;
namespace impl_
{
template<typename... P>
struct PickSpace
{
    using type = DefaultExecutionSpace;
};
template<typename P0, typename... P>
struct PickSpace<P0, P...>
{
    template<typename Q>
    static constexpr bool isSpace = requires { Q::device; };
    static auto pick()
    {
        if constexpr (isSpace<P0>) return P0 {};
        else return typename PickSpace<P...>::type {};
    }
    using type = decltype(pick());
};
}
template<typename T, typename... P>
class View<T*, P...>
{
public:

    using value_type = T;
    using non_const_value_type = std::remove_const_t<T>;
    using memory_space = typename impl_::PickSpace<P...>::type::memory_space;
    using size_type = std::size_t;
    View() = default;
    View(T* p, std::size_t n) : p_(p), n_(n) {}
    View(const std::string&, std::size_t n) : n_(n)
    {
        constexpr kk::Sp s = memory_space::device ? kk::Sp::Device : kk::Sp::Host;
        void* q = kk::alloc(s, n * sizeof(T));
        std::vector<char> zero(n * sizeof(T), 0);
        if (n) kk::pokeRaw(q, zero.data(), zero.size());
        own_ = std::shared_ptr<void>(q, [](void* x) { kk::free(memory_space::device ? kk::Sp::Device : kk::Sp::Host, x); });
        p_ = static_cast<T*>(q);
    }
    T* data() const { return p_; }
    std::size_t size() const { return n_; }
    std::size_t extent(std::size_t r) const { return r == 0 ? n_ : 1; }
    T& operator()(std::size_t i) const { return p_[i]; }
    T& operator[](std::size_t i) const { return p_[i]; }

private:

    T* p_ = nullptr;
    std::size_t n_ = 0;
    std::shared_ptr<void> own_;
};
template<typename T, typename... P, typename U, typename... Q>
void deep_copy(const View<T*, P...>& dst, const View<U*, Q...>& src)
{
    static_assert(std::is_same_v<std::remove_const_t<T>, std::remove_const_t<U>>);
    static_assert(!std::is_const_v<T>);
    if (dst.size() != src.size()) kk::abortCalled("Kokkos::deep_copy extents of views don't match");
    if (dst.size() == 0) return;
    kk::copy(
        View<T*, P...>::memory_space::device, dst.data(), View<U*, Q...>::memory_space::device, src.data(),
        dst.size() * sizeof(T)
    );
}
template<typename T, typename... P>
void deep_copy(const View<T*, P...>& dst, const T& v)
{
    for (std::size_t i = 0; i < dst.size(); ++i) kk::pokeRaw(dst.data() + i, &v, sizeof v);
}

// ---- policies -------------------------------------------------------------------------------
template<typename... P>
class RangePolicy
{
public:

    using execution_space = typename impl_::PickSpace<P...>::type;
    RangePolicy(std::size_t b, std::size_t e) : b_(b), e_(e < b ? b : e) {}
    RangePolicy(const execution_space&, std::size_t b, std::size_t e) : RangePolicy(b, e) {}
    std::size_t begin() const { return b_; }
    std::size_t end() const { return e_; }

private:

    std::size_t b_, e_;
};
template<typename T>
struct isPolicy_ : std::false_type
{
};
template<typename... P>
struct isPolicy_<RangePolicy<P...>> : std::true_type
{
};

// ---- reducers -------------------------------------------------------------------------------
struct InvalidType
{
};
template<typename T>
struct is_reducer : std::bool_constant<requires { typename T::kk_reducer_; }>
{
};
template<typename T>
inline constexpr bool is_reducer_v = is_reducer<T>::value;
template<typename T>
struct reduction_identity
{
    static T sum() { return T(); }
    static T prod() { return T(1); }
    static T max() { return std::numeric_limits<T>::lowest(); }
    static T min() { return std::numeric_limits<T>::max(); }
};
#define KK_REDUCER(NAME, INIT, JOIN)                                                               \
    template<typename S, typename Space = HostSpace>                                               \
    class NAME                                                                                     \
    {                                                                                              \
    public:                                                                                        \
        using kk_reducer_ = void;                                                                  \
        using reducer = NAME;                                                                      \
        using value_type = std::remove_cv_t<S>;                                                    \
        NAME(value_type& v) : v_(&v) {}                                                            \
        void join(value_type& d, const value_type& s) const { JOIN; }                              \
        void init(value_type& v) const { v = reduction_identity<value_type>::INIT(); }             \
        value_type& reference() const { return *v_; }                                              \
                                                                                                   \
    private:                                                                                       \
        value_type* v_;                                                                            \
    };                                                                                             \
    template<typename S>                                                                           \
    NAME(S&) -> NAME<S>;
KK_REDUCER(Sum, sum, d += s)
KK_REDUCER(Prod, prod, d *= s)
KK_REDUCER(Max, max, if (d < s) d = s)
KK_REDUCER(Min, min, if (s < d) d = s)
#undef KK_REDUCER

// ---- kernels --------------------------------------------------------------------------------
template<typename... P, typename F>
void parallel_for(const std::string& name, const RangePolicy<P...>& pol, const F& f)
{
    using E = typename RangePolicy<P...>::execution_space;
    const F functor = f; // kernels run on their own copy
    kk::runFor(E::space, name, pol.begin(), pol.end(), [&](std::size_t i) { functor(i); });
}
template<typename... P, typename F>
void parallel_for(const RangePolicy<P...>& pol, const F& f)
{
    parallel_for(std::string(), pol, f);
}
template<typename F>
void parallel_for(const std::string& name, std::size_t n, const F& f)
{
    parallel_for(name, RangePolicy<DefaultExecutionSpace>(0, n), f);
}
template<typename F>
void parallel_for(std::size_t n, const F& f)
{
    parallel_for(std::string(), n, f);
}
template<typename... P, typename F, typename R>
void parallel_reduce(const std::string&, const RangePolicy<P...>& pol, const F& f, R&& result)
{
    using E = typename RangePolicy<P...>::execution_space;
    using RR = std::remove_cvref_t<R>;
    const F functor = f;
    auto go = [&](const auto& reducer)
    {
        using T = typename std::remove_cvref_t<decltype(reducer)>::value_type;
        kk::Plan plan = kk::planReduce(E::space, pol.begin(), pol.end());
        std::vector<T> part(plan.chunks.size());
        for (auto& p : part) reducer.init(p);
        kk::runChunks(E::space, plan.run, [&](std::size_t c) {
            for (std::size_t i : plan.chunks[c].idx) functor(i, part[c]);
        });
        T total;
        reducer.init(total);
        bool first = true;
        for (std::size_t c : plan.joined)
        {
            if (first) total = part[c];
            else reducer.join(total, part[c]);
            first = false;
        }
        reducer.reference() = total;
    };
    if constexpr (is_reducer<RR>::value) go(result);
    else
    {
        Sum<RR> s(result);
        go(s);
    }
}
template<typename... P, typename F, typename R>
    requires(!std::is_convertible_v<RangePolicy<P...>, std::string>)
void parallel_reduce(const RangePolicy<P...>& pol, const F& f, R&& result)
{
    parallel_reduce(std::string(), pol, f, std::forward<R>(result));
}
namespace impl_
{
template<typename F>
struct ScanArg : ScanArg<decltype(&F::operator())>
{
};
template<typename C, typename I, typename T>
struct ScanArg<void (C::*)(I, T&, bool) const>
{
    using type = T;
};
template<typename C, typename I, typename T>
struct ScanArg<void (C::*)(I, T&, const bool) const noexcept>
{
    using type = T;
};
template<typename E, typename T, typename F>
T scan(std::size_t b, std::size_t e, const F& functor)
{
    kk::Plan plan = kk::planScan(E::space, b, e);
    const std::size_t n = plan.chunks.size();
    std::vector<T> sum(n), before(n);
    if (n > 1) // first pass: totals of the chunks
        kk::runChunks(E::space, plan.run, [&](std::size_t c) {
            sum[c] = T();
            for (std::size_t i : plan.chunks[c].idx) functor(i, sum[c], false);
        });
    T acc = T();
    for (std::size_t c = 0; c < n; ++c)
    {
        before[c] = acc;
        acc += sum[c];
    }
    kk::runChunks(E::space, plan.joined, [&](std::size_t c) { // second pass
        T v = before[c];
        for (std::size_t i : plan.chunks[c].idx) functor(i, v, true);
        if (c + 1 == n) acc = v;
    });
    return acc;
}
}
template<typename... P, typename F>
void parallel_scan(const std::string&, const RangePolicy<P...>& pol, const F& f)
{
    const F functor = f;
    impl_::scan<typename RangePolicy<P...>::execution_space, typename impl_::ScanArg<F>::type>(pol.begin(), pol.end(), functor);
}
template<typename... P, typename F, typename T>
void parallel_scan(const std::string&, const RangePolicy<P...>& pol, const F& f, T& total)
{
    const F functor = f;
    total = impl_::scan<typename RangePolicy<P...>::execution_space, T>(pol.begin(), pol.end(), functor);
}
template<typename... P, typename F, typename T>
void parallel_scan(const RangePolicy<P...>& pol, const F& f, T& total)
{
    parallel_scan(std::string(), pol, f, total);
}

// ---- atomics --------------------------------------------------------------------------------
template<typename T>
T atomic_fetch_add(T* p, const std::type_identity_t<T>& v)
{
    kk::Atomic a(p, sizeof(T), true);
    T old = *p;
    *p = static_cast<T>(old + v);
    return old;
}
template<typename T>
T atomic_fetch_sub(T* p, const std::type_identity_t<T>& v)
{
    kk::Atomic a(p, sizeof(T), true);
    T old = *p;
    *p = static_cast<T>(old - v);
    return old;
}
#define KK_FETCH(NAME, EXPR)                                                                       \
    template<typename T>                                                                           \
    T atomic_fetch_##NAME(T* p, const std::type_identity_t<T>& v)                                  \
    {                                                                                              \
        kk::Atomic a(p, sizeof(T), true);                                                          \
        T old = *p;                                                                                \
        *p = (EXPR);                                                                               \
        return old;                                                                                \
    }                                                                                              \
    template<typename T>                                                                           \
    void atomic_##NAME(T* p, const std::type_identity_t<T>& v)                                     \
    {                                                                                              \
        atomic_fetch_##NAME(p, v);                                                                 \
    }
KK_FETCH(max, old < v ? v : old)
KK_FETCH(min, v < old ? v : old)
KK_FETCH(mul, old* v)
KK_FETCH(div, old / v)
KK_FETCH(and, old& v)
KK_FETCH(or, old | v)
KK_FETCH(xor, old ^ v)
#undef KK_FETCH
template<typename T>
void atomic_add(T* p, const std::type_identity_t<T>& v)
{
    atomic_fetch_add(p, v);
}
template<typename T>
void atomic_sub(T* p, const std::type_identity_t<T>& v)
{
    atomic_fetch_sub(p, v);
}
template<typename T>
void atomic_increment(T* p)
{
    atomic_fetch_add(p, T(1));
}
template<typename T>
void atomic_inc(T* p)
{
    atomic_fetch_add(p, T(1));
}
template<typename T>
void atomic_decrement(T* p)
{
    atomic_fetch_sub(p, T(1));
}
template<typename T>
void atomic_dec(T* p)
{
    atomic_fetch_sub(p, T(1));
}
template<typename T>
T atomic_add_fetch(T* p, const std::type_identity_t<T>& v)
{
    return static_cast<T>(atomic_fetch_add(p, v) + v);
}
template<typename T>
T atomic_sub_fetch(T* p, const std::type_identity_t<T>& v)
{
    return static_cast<T>(atomic_fetch_sub(p, v) - v);
}
template<typename T>
T atomic_fetch_inc(T* p)
{
    return atomic_fetch_add(p, T(1));
}
template<typename T>
T atomic_exchange(T* p, const std::type_identity_t<T>& v)
{
    kk::Atomic a(p, sizeof(T), true);
    T old = *p;
    *p = v;
    return old;
}
template<typename T>
T atomic_compare_exchange(T* p, const std::type_identity_t<T>& c, const std::type_identity_t<T>& v)
{
    kk::Atomic a(p, sizeof(T), true);
    T old = *p;
    if (old == c) *p = v;
    return old;
}
template<typename T>
void atomic_assign(T* p, const std::type_identity_t<T>& v)
{
    kk::Atomic a(p, sizeof(T), true);
    *p = v;
}
template<typename T>
void atomic_store(T* p, const std::type_identity_t<T>& v)
{
    atomic_assign(p, v);
}
template<typename T>
T atomic_load(const T* p)
{
    kk::Atomic a(p, sizeof(T), false);
    return *p;
}
inline void memory_fence() {}

// ---- small things ---------------------------------------------------------------------------
template<typename A, typename B>
struct pair
{
    using first_type = A;
    using second_type = B;
    A first {};
    B second {};
    pair() = default;
    pair(const A& a, const B& b) : first(a), second(b) {}
    template<typename C, typename D>
    pair(const std::pair<C, D>& p) : first(p.first), second(p.second)
    {}
    template<typename C, typename D>
    pair(const pair<C, D>& p) : first(p.first), second(p.second)
    {}
    std::pair<A, B> to_std_pair() const { return {first, second}; }
    friend bool operator==(const pair& x, const pair& y) { return x.first == y.first && x.second == y.second; }
    friend bool operator!=(const pair& x, const pair& y) { return !(x == y); }
};
template<typename A, typename B>
pair<A, B> make_pair(A a, B b)
{
    return {a, b};
}
template<std::size_t I, typename A, typename B>
auto& get(pair<A, B>& p)
{
    if constexpr (I == 0) return p.first;
    else return p.second;
}
template<std::size_t I, typename A, typename B>
const auto& get(const pair<A, B>& p)
{
    if constexpr (I == 0) return p.first;
    else return p.second;
}
template<std::size_t I, typename A, typename B>
auto get(pair<A, B>&& p)
{
    if constexpr (I == 0) return p.first;
    else return p.second;
}
template<typename T, std::size_t N>
using Array = std::array<T, N>;
using std::abs;
using std::cbrt;
using std::ceil;
using std::clamp;
using std::copysign;
using std::cos;
using std::exp;
using std::fabs;
using std::floor;
using std::fma;
using std::fmax;
using std::fmin;
using std::fmod;
using std::hypot;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::log;
using std::max;
using std::min;
using std::pow;
using std::round;
using std::sin;
using std::sqrt;
using std::swap;
using std::tan;
using std::trunc;
namespace numbers
{
inline constexpr double pi = 3.14159265358979323846;
}
}
template<typename A, typename B>
struct std::tuple_size<Kokkos::pair<A, B>> : std::integral_constant<std::size_t, 2>
{
};
template<typename A, typename B>
struct std::tuple_element<0, Kokkos::pair<A, B>>
{
    using type = A;
};
template<typename A, typename B>
struct std::tuple_element<1, Kokkos::pair<A, B>>
{
    using type = B;
};
