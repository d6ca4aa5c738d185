#include "sched.hpp"
#include "mc.hpp"
#include <array>
#include <cstdlib>
#include <execinfo.h>
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <malloc.h>
#include <map>
#include <mutex>
#include <new>
#include <pthread.h>
#include <thread>
#include <unordered_map>

extern "C" char __data_start, _end;

namespace mcs
{
namespace
{
constexpr int MAXT = 8;
using VC = std::array<uint32_t, MAXT>;
struct Task
{
    std::function<void()> fn;
    VC vc {};
    bool done = false;
    const void* waiting = nullptr; // blocked on this object
    std::exception_ptr error;
    const char *stackLo = nullptr, *stackHi = nullptr;
};
struct Cell
{
    int wTask = -1;
    uint32_t wClock = 0;
    uint8_t wMask = 0;
    std::array<uint32_t, MAXT> rClock {};
    std::array<uint8_t, MAXT> rMask {};
    std::array<uint32_t, MAXT> aClock {}; // atomic accesses
    std::array<uint8_t, MAXT> aMask {};
};
struct Sched
{
    std::vector<Task> t;
    std::mutex m;
    std::condition_variable cv;
    int turn = -1; // whose step it is (-2: the spawner)
    bool free = false; // run to completion without further choices
    std::unordered_map<uintptr_t, Cell> shadow;
    std::unordered_map<uintptr_t, VC> sync;
    std::unordered_map<const void*, int> owner; // locks, guards
};
Sched* S = nullptr;
thread_local int me = -1;
thread_local bool inside = false;
thread_local int atomicDepth = 0;
struct Enter
{
    bool was = inside;
    Enter() { inside = true; }
    ~Enter() { inside = was; }
};

bool isStatic(uintptr_t a)
{
    return a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end);
}
void join(VC& a, const VC& b)
{
    for (int i = 0; i < MAXT; ++i) a[static_cast<size_t>(i)] = std::max(a[static_cast<size_t>(i)], b[static_cast<size_t>(i)]);
}
bool enabled(const Task& t) { return !t.done && t.waiting == nullptr; }

void handTo(std::unique_lock<std::mutex>& l, int next)
{
    S->turn = next;
    S->cv.notify_all();
    int self = me;
    S->cv.wait(l, [&] { return S->turn == self; });
}
// the current task may lose the processor here
void point()
{
    if (S->free) return;
    mc::countStep();
    std::vector<int> others;
    for (int i = 0; i < static_cast<int>(S->t.size()); ++i)
        if (i != me && enabled(S->t[static_cast<size_t>(i)])) others.push_back(i);
    if (others.empty()) return;
    int c = mc::deviate(static_cast<int>(others.size()) + 1, "preempt");
    if (c == 0) return;
    if (mc::tracing()) mc::trace(mc::cat("    task ", me, " preempted by task ", others[static_cast<size_t>(c - 1)]));
    std::unique_lock l(S->m);
    handTo(l, others[static_cast<size_t>(c - 1)]);
}
bool gDelay = false;
std::vector<std::pair<uintptr_t, uintptr_t>> gIgnored;
// the current task cannot continue (blocked or done): someone else must
void leave(bool finished)
{
    std::vector<int> others;
    for (int i = 0; i < static_cast<int>(S->t.size()); ++i)
        if (i != me && enabled(S->t[static_cast<size_t>(i)])) others.push_back(i);
    int next = -2;
    if (!others.empty())
    {
        int c = S->free ? 0 : (gDelay ? mc::deviate : mc::choose)(static_cast<int>(others.size()), "next task");
        next = others[static_cast<size_t>(c)];
    }
    else if (!finished || [&]
             {
                 for (auto& t : S->t)
                     if (!t.done) return true;
                 return false;
             }())
    {
        mc::failLater("deadlock", "all threads wait for each other");
        std::fprintf(stderr, "deadlock\n");
        std::abort();
    }
    std::unique_lock l(S->m);
    if (finished)
    {
        S->turn = next;
        S->cv.notify_all();
    }
    else handTo(l, next);
}

void race(uintptr_t a, int other, bool w1, bool w2)
{
    if (std::getenv("MC_DEBUG_RACE"))
    {
        void* bt[24];
        backtrace_symbols_fd(bt, backtrace(bt, 24), 2);
        std::fprintf(stderr, "address %lx\n", static_cast<unsigned long>(a));
    }
    mc::failLater(
        "data-race", mc::cat(
                         "threads ", other, " and ", me, " access ", isStatic(a) ? "static" : "shared", " memory without synchronisation (",
                         w1 ? "write" : "read", " and ", w2 ? "write" : "read", ")"
                     )
    );
}
void shadowAccess(uintptr_t a, size_t n, bool write, bool atomic = false)
{
    Task& t = S->t[static_cast<size_t>(me)];
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
    {
        uint8_t mask = 0;
        for (int b = 0; b < 8; ++b)
            if ((g << 3) + static_cast<uintptr_t>(b) >= a && (g << 3) + static_cast<uintptr_t>(b) < a + n) mask |= static_cast<uint8_t>(1u << b);
        Cell& c = S->shadow[g];
        if (c.wTask >= 0 && c.wTask != me && (c.wMask & mask) && t.vc[static_cast<size_t>(c.wTask)] < c.wClock) race(a, c.wTask, true, write);
        if (atomic)
        {
            for (size_t o = 0; o < S->t.size(); ++o)
                if (static_cast<int>(o) != me && write && (c.rMask[o] & mask) && t.vc[o] < c.rClock[o]) race(a, static_cast<int>(o), false, true);
            c.aClock[static_cast<size_t>(me)] = t.vc[static_cast<size_t>(me)];
            c.aMask[static_cast<size_t>(me)] |= mask;
            continue;
        }
        for (size_t o = 0; o < S->t.size(); ++o)
            if (static_cast<int>(o) != me && (c.aMask[o] & mask) && t.vc[o] < c.aClock[o]) race(a, static_cast<int>(o), true, write);
        if (write)
        {
            for (size_t o = 0; o < S->t.size(); ++o)
                if (static_cast<int>(o) != me && (c.rMask[o] & mask) && t.vc[o] < c.rClock[o]) race(a, static_cast<int>(o), false, true);
            c.wTask = me;
            c.wClock = t.vc[static_cast<size_t>(me)];
            c.wMask = mask;
        }
        else
        {
            c.rClock[static_cast<size_t>(me)] = t.vc[static_cast<size_t>(me)];
            c.rMask[static_cast<size_t>(me)] |= mask;
        }
    }
}
bool ownStack(uintptr_t a)
{
    Task& t = S->t[static_cast<size_t>(me)];
    return a >= reinterpret_cast<uintptr_t>(t.stackLo) && a < reinterpret_cast<uintptr_t>(t.stackHi);
}
void access(const void* p, size_t n, bool write)
{
    if (!S || me < 0 || inside || n == 0) return;
    Enter e;
    auto a = reinterpret_cast<uintptr_t>(p);
    if (ownStack(a)) return;
    for (auto& r : gIgnored)
        if (a >= r.first && a + n <= r.second) return;
    // No switch here: every execution is equivalent to one that switches at synchronising
    // operations only, up to its first data race, and the first data race is reported.
    shadowAccess(a, n, write);
}
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
void atomicBefore()
{
    if (!S || me < 0 || inside) return;
    Enter e;
    point();
}
void atomicSync(const volatile void* p, int mo, bool load, bool store)
{
    if (!S || me < 0 || inside) return;
    Enter e;
    Task& t = S->t[static_cast<size_t>(me)];
    VC& s = S->sync[reinterpret_cast<uintptr_t>(p)];
    if (load && (mo == 1 || mo == 2 || mo >= 4)) join(t.vc, s);
    if (store)
    {
        if (mo >= 3) join(s, t.vc);
        else if (!load) s = VC {};
        ++t.vc[static_cast<size_t>(me)];
    }
}
void release(const void* p)
{
    Task& t = S->t[static_cast<size_t>(me)];
    join(S->sync[reinterpret_cast<uintptr_t>(p)], t.vc);
    ++t.vc[static_cast<size_t>(me)];
}
void acquire(const void* p) { join(S->t[static_cast<size_t>(me)].vc, S->sync[reinterpret_cast<uintptr_t>(p)]); }
void wake(const void* p)
{
    for (auto& t : S->t)
        if (t.waiting == p) t.waiting = nullptr;
}
void blockOn(const void* p)
{
    S->t[static_cast<size_t>(me)].waiting = p;
    leave(false);
}
}

int currentTask() { return me; }
void atomicBegin(const void* p, size_t n, bool write)
{
    if (!S || me < 0 || inside) return;
    inside = true;
    point();
    shadowAccess(reinterpret_cast<uintptr_t>(p), n, write, true);
    atomicDepth = 1;
}
void atomicEnd()
{
    if (!atomicDepth) return;
    atomicDepth = 0;
    inside = false;
}

void ignore(const void* p, size_t n) { gIgnored.push_back({reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + n}); }
void delayBounded(bool on) { gDelay = on; }
void parallel(std::vector<std::function<void()>> tasks)
{
    if (S || tasks.size() > MAXT) std::abort();
    Sched s;
    s.t.resize(tasks.size());
    for (size_t i = 0; i < tasks.size(); ++i)
    {
        s.t[i].fn = std::move(tasks[i]);
        s.t[i].vc[i] = 1;
    }
    std::vector<std::thread> th;
    int first = (gDelay ? mc::deviate : mc::choose)(static_cast<int>(s.t.size()), "first task");
    S = &s;
    for (size_t i = 0; i < s.t.size(); ++i)
        th.emplace_back(
            [i, &s]
            {
                inside = true;
                me = static_cast<int>(i);
                Task& t = s.t[i];
                pthread_attr_t at;
                pthread_getattr_np(pthread_self(), &at);
                void* lo = nullptr;
                size_t n = 0;
                pthread_attr_getstack(&at, &lo, &n);
                pthread_attr_destroy(&at);
                t.stackLo = static_cast<char*>(lo);
                t.stackHi = t.stackLo + n;
                {
                    std::unique_lock l(s.m);
                    s.cv.wait(l, [&] { return s.turn == static_cast<int>(i); });
                }
                try
                {
                    inside = false;
                    t.fn();
                    inside = true;
                }
                catch (...)
                {
                    inside = true;
                    t.error = std::current_exception();
                    s.free = true; // the rest runs to completion without choices
                }
                t.done = true;
                try
                {
                    leave(true);
                }
                catch (...)
                {
                    if (!t.error) t.error = std::current_exception();
                    s.free = true;
                    leave(true);
                }
            }
        );
    {
        std::unique_lock l(s.m);
        s.turn = first;
        s.cv.notify_all();
        s.cv.wait(l, [&] { return s.turn == -2; });
    }
    for (auto& t : th) t.join();
    S = nullptr;
    for (auto& t : s.t)
        if (t.error) std::rethrow_exception(t.error);
}
}

using namespace mcs;

// ---- instrumentation entry points ------------------------------------------------------------
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, sizeof *p, true); }
void __tsan_vptr_read(void** p) { access(p, sizeof *p, false); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
#define RW(N)                                                                                      \
    void __tsan_read##N(void* p) { access(p, N, false); }                                          \
    void __tsan_write##N(void* p) { access(p, N, true); }                                          \
    void __tsan_unaligned_read##N(const void* p) { access(p, N, false); }                          \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true); }                                \
    void __tsan_read##N##_pc(void* p, void*) { access(p, N, false); }                              \
    void __tsan_write##N##_pc(void* p, void*) { access(p, N, true); }                              \
    void __tsan_volatile_read##N(void* p) { access(p, N, false); }                                 \
    void __tsan_volatile_write##N(void* p) { access(p, N, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
#define ATOMIC(BITS, T)                                                                            \
    T __tsan_atomic##BITS##_load(const volatile T* p, int mo)                                      \
    {                                                                                              \
        atomicBefore();                                                                            \
        T r = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                \
        atomicSync(p, mo, true, false);                                                            \
        return r;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo)                                   \
    {                                                                                              \
        atomicBefore();                                                                            \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                  \
        atomicSync(p, mo, false, true);                                                            \
    }                                                                                              \
    T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo)                                   \
    {                                                                                              \
        atomicBefore();                                                                            \
        T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                         \
        atomicSync(p, mo, true, true);                                                             \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo)                                  \
    {                                                                                              \
        atomicBefore();                                                                            \
        T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                          \
        atomicSync(p, mo, true, true);                                                             \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo)                                  \
    {                                                                                              \
        atomicBefore();                                                                            \
        T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                          \
        atomicSync(p, mo, true, true);                                                             \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo)                                  \
    {                                                                                              \
        atomicBefore();                                                                            \
        T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                          \
        atomicSync(p, mo, true, true);                                                             \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo)                                   \
    {                                                                                              \
        atomicBefore();                                                                            \
        T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                           \
        atomicSync(p, mo, true, true);                                                             \
        return r;                                                                                  \
    }                                                                                              \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo)                                  \
    {                                                                                              \
        atomicBefore();                                                                            \
        T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                          \
        atomicSync(p, mo, true, true);                                                             \
        return r;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int)       \
    {                                                                                              \
        atomicBefore();                                                                            \
        bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        atomicSync(p, mo, true, ok);                                                               \
        return ok;                                                                                 \
    }                                                                                              \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int)         \
    {                                                                                              \
        atomicBefore();                                                                            \
        bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        atomicSync(p, mo, true, ok);                                                               \
        return ok;                                                                                 \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { atomicBefore(); }
void __tsan_atomic_signal_fence(int) {}

// one-time initialisation of function statics
int __real___cxa_guard_acquire(uint64_t* g);
void __real___cxa_guard_release(uint64_t* g);
void __real___cxa_guard_abort(uint64_t* g);
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    if (!S || me < 0 || inside) return __real___cxa_guard_acquire(g);
    Enter e;
    point();
    for (;;)
    {
        if (*reinterpret_cast<char*>(g))
        {
            acquire(g);
            return 0;
        }
        auto it = S->owner.find(g);
        if (it == S->owner.end())
        {
            S->owner[g] = me;
            return 1;
        }
        blockOn(g);
    }
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    if (!S || me < 0 || inside) return __real___cxa_guard_release(g);
    Enter e;
    *reinterpret_cast<char*>(g) = 1;
    release(g);
    S->owner.erase(g);
    wake(g);
    point();
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
    if (!S || me < 0 || inside) return __real___cxa_guard_abort(g);
    Enter e;
    release(g);
    S->owner.erase(g);
    wake(g);
}
// locks
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
int __real_pthread_mutex_trylock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!S || me < 0 || inside) return __real_pthread_mutex_lock(m);
    Enter e;
    point();
    while (S->owner.count(m)) blockOn(m);
    S->owner[m] = me;
    acquire(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!S || me < 0 || inside) return __real_pthread_mutex_trylock(m);
    Enter e;
    point();
    if (S->owner.count(m)) return 16; // EBUSY
    S->owner[m] = me;
    acquire(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!S || me < 0 || inside) return __real_pthread_mutex_unlock(m);
    Enter e;
    release(m);
    S->owner.erase(m);
    wake(m);
    point();
    return 0;
}
}

// ---- allocation: a fresh block has no history, wherever it is taken from ----------------------
extern "C"
{
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
}
static void* fresh(void* p)
{
    if (p && S && me >= 0 && !inside)
    {
        Enter e;
        auto a = reinterpret_cast<uintptr_t>(p);
        for (uintptr_t g = a >> 3, n = malloc_usable_size(p); g <= (a + n - 1) >> 3; ++g) S->shadow.erase(g);
    }
    return p;
}
extern "C"
{
void* malloc(size_t n) { return fresh(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return fresh(__libc_calloc(n, m)); }
void* aligned_alloc(size_t al, size_t n) { return fresh(__libc_memalign(al, n)); }
}
static void* allocate(size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return allocate(n); }
void* operator new[](size_t n) { return allocate(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
