#include "kk.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <numeric>
#ifdef KK_STANDALONE // demonstrations: fixed order, failures end the program
#include <atomic>
namespace mc
{
struct ExitCalled
{
    int code;
};
static int choose(int, const char* = "") { return 0; }
static int deviate(int, const char* = "") { return 0; }
static void countStep() {}
static bool tracing() { return false; }
static void trace(const std::string&) {}
static void failLater(const std::string& s, const std::string& m)
{
    std::fprintf(stderr, "%s: %s\n", s.c_str(), m.c_str());
    std::_Exit(99);
}
}
#else
#include "mc.hpp"
#endif
#ifdef KK_THREADS
#include "sched.hpp"
#endif
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) ((void)(p), (void)(n))
#define UNPOISON(p, n) ((void)(p), (void)(n))
#endif

namespace kk
{
namespace
{
struct Block
{
    std::size_t n;
    Sp s;
};
std::map<std::uintptr_t, Block>& blocks()
{
    static auto* b = new std::map<std::uintptr_t, Block>;
    return *b;
}
std::size_t nAlloc = 0;
int inDevice = 0; // > 0: a device kernel runs
int gOrder = Forward;
static bool gFixed = false;
bool gPerKernel = false;
std::size_t gAll = 5, gLaunch = 0, gConc = ~std::size_t(0);
bool gConcAll = false;

bool accessible(Sp s) { return (s == Sp::Device) == (inDevice > 0); }
void shade(std::uintptr_t p, const Block& b)
{
    if (accessible(b.s)) UNPOISON(reinterpret_cast<void*>(p), b.n);
    else POISON(reinterpret_cast<void*>(p), b.n);
}
void shadeAll()
{
    for (auto& [p, b] : blocks()) shade(p, b);
}
const char* nameOf(Sp s) { return s == Sp::Serial ? "serial" : s == Sp::Host ? "host" : "device"; }
std::map<std::uintptr_t, Block>::iterator find(const void* p)
{
    auto a = reinterpret_cast<std::uintptr_t>(p);
    auto it = blocks().upper_bound(a);
    if (it == blocks().begin()) return blocks().end();
    --it;
    if (a < it->first + std::max<std::size_t>(it->second.n, 1)) return it;
    return blocks().end();
}
__attribute__((no_sanitize("address"), no_sanitize("thread"))) void rawCopy(void* d, const void* s, std::size_t n)
{
    auto* dd = static_cast<volatile char*>(d);
    auto* ss = static_cast<const volatile char*>(s);
    for (std::size_t i = 0; i < n; ++i) dd[i] = ss[i];
}
}

void* alloc(Sp s, std::size_t n)
{
    if (n == 0) return nullptr; // as Kokkos does
    if (n > (std::size_t(1) << 33)) throw std::bad_alloc();
    void* p = std::malloc(n);
    std::memset(p, 0xff, n); // never zero by accident: NaN, -1, huge
    ++nAlloc;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    blocks()[a] = {n, s};
    shade(a, blocks()[a]);
    return p;
}
static void releaseBlock(Sp s, void* p, const char* what)
{
    auto it = blocks().find(reinterpret_cast<std::uintptr_t>(p));
    if (it == blocks().end())
    {
        mc::failLater("free-unowned", std::string(what) + " of memory that is not allocated (released twice, or not the start of a block)");
        return;
    }
    if ((it->second.s == Sp::Device) != (s == Sp::Device))
        mc::failLater("free-wrong-space", std::string(what) + " of a " + nameOf(it->second.s) + " block through the " + nameOf(s) + " space");
    std::size_t n = it->second.n;
    blocks().erase(it);
    UNPOISON(p, n);
    std::free(p);
}
void free(Sp s, void* p)
{
    if (!p) return;
    releaseBlock(s, p, "release");
}
void* realloc(Sp s, void* p, std::size_t n)
{
    auto it = blocks().find(reinterpret_cast<std::uintptr_t>(p));
    if (it == blocks().end())
    {
        mc::failLater("realloc-unowned", "reallocation of memory that is not allocated");
        return alloc(s, n);
    }
    std::size_t keep = std::min(n, it->second.n);
    // Kokkos allocates a record even for 0 bytes here
    void* q = std::malloc(n ? n : 1);
    std::memset(q, 0xff, n ? n : 1);
    ++nAlloc;
    rawCopy(q, p, keep);
    auto a = reinterpret_cast<std::uintptr_t>(q);
    blocks()[a] = {n, s};
    shade(a, blocks()[a]);
    releaseBlock(s, p, "reallocation");
    return q;
}
void copy(bool dd, void* d, bool sd, const void* s, std::size_t n)
{
    auto chk = [n](bool dev, const void* p, const char* role)
    {
        auto it = find(p);
        if (it == blocks().end())
        {
            if (dev) mc::failLater("copy-space", std::string("a copy treats memory outside the device as device ") + role);
            return;
        }
        if ((it->second.s == Sp::Device) != dev)
            mc::failLater("copy-space", std::string("a copy treats a ") + nameOf(it->second.s) + " block as " + (dev ? "device " : "host ") + role);
        if (reinterpret_cast<std::uintptr_t>(p) + n > it->first + it->second.n)
            mc::failLater("copy-overrun", std::string("a copy runs past the end of its ") + role);
    };
    chk(dd, d, "target");
    chk(sd, s, "source");
    // host memory of other origin is checked by the sanitizer
    if (find(d) == blocks().end() && n) std::memset(d, 0, n);
    if (find(s) == blocks().end() && n)
    {
        std::vector<char> t(n);
        std::memcpy(t.data(), s, n);
    }
    rawCopy(d, s, n);
}
std::size_t liveBlocks() { return blocks().size(); }
std::size_t liveBytes()
{
    std::size_t r = 0;
    for (auto& [p, b] : blocks()) r += b.n;
    return r;
}
std::size_t allocations() { return nAlloc; }
int spaceOf(const void* p)
{
    auto it = find(p);
    return it == blocks().end() ? -1 : static_cast<int>(it->second.s);
}
void* blockOf(const void* p, std::size_t* n)
{
    auto it = find(p);
    if (it == blocks().end()) return nullptr;
    if (n) *n = it->second.n;
    return reinterpret_cast<void*>(it->first);
}
void peekRaw(void* d, const void* s, std::size_t n)
{
    auto it = find(s);
    if (it == blocks().end())
    {
        std::memcpy(d, s, n);
        return;
    }
    if (reinterpret_cast<std::uintptr_t>(s) + n > it->first + it->second.n)
    {
        mc::failLater("storage-too-small", "an object's storage is smaller than the size it reports");
        std::memset(d, 0xff, n);
        return;
    }
    rawCopy(d, s, n);
}
void pokeRaw(void* d, const void* s, std::size_t n) { rawCopy(d, s, n); }

// ---- kernels --------------------------------------------------------------------------------
void setOrder(int o) { gOrder = o; }
int order() { return gOrder; }
void perKernel(bool on) { gPerKernel = on; }
void allUpTo(std::size_t n) { gAll = n; }
void fixedBeyond(bool on) { gFixed = on; }
std::size_t launches() { return gLaunch; }
void resetLaunches() { gLaunch = 0; }
void concurrentLaunch(std::size_t k) { gConc = k; }
void concurrentAll(bool on) { gConcAll = on; }
bool inDeviceKernel() { return inDevice > 0; }
void begin(int o)
{
    gOrder = o;
    gPerKernel = false;
    gAll = 5;
    gFixed = false;
    gLaunch = 0;
    gConc = ~std::size_t(0);
    gConcAll = false;
    if (inDevice)
    {
        inDevice = 0;
        shadeAll();
    }
}
void abortCalled(const char* m)
{
    if (mc::tracing()) mc::trace(std::string("    abort: ") + m);
    throw mc::ExitCalled {134};
}

Context::Context(Sp s_) : s(s_), was(s_), active(s_ == Sp::Device)
{
    if (active && inDevice++ == 0) shadeAll();
}
Context::~Context()
{
    if (active && --inDevice == 0) shadeAll();
}

static std::vector<std::size_t> ordered(int o, std::size_t n)
{
    std::vector<std::size_t> r(n);
    std::iota(r.begin(), r.end(), std::size_t(0));
    switch (o)
    {
    case Reverse:
        std::reverse(r.begin(), r.end());
        break;
    case EvenOdd:
        std::stable_partition(r.begin(), r.end(), [](std::size_t i) { return i % 2 == 0; });
        break;
    case OutsideIn:
    {
        std::vector<std::size_t> q;
        for (std::size_t a = 0, b = n; a < b;)
        {
            q.push_back(--b);
            if (a < b) q.push_back(a++);
        }
        r = q;
        break;
    }
    case All:
        if (n <= gAll)
            for (std::size_t i = 0; i + 1 < n; ++i)
            {
                auto k = static_cast<std::size_t>(mc::choose(static_cast<int>(n - i), "next iteration"));
                std::rotate(r.begin() + static_cast<long>(i), r.begin() + static_cast<long>(i + k), r.begin() + static_cast<long>(i + k) + 1);
            }
        else return ordered(gFixed ? int(Forward) : mc::choose(Orders, "order"), n);
        break;
    default:
        break;
    }
    return r;
}
static int kernelOrder(Sp s)
{
    if (s == Sp::Serial) return Forward;
    if (gPerKernel) return mc::deviate(Orders, "order of this kernel");
    return gOrder;
}
static bool concurrent(Sp s)
{
#ifdef KK_THREADS
    return s != Sp::Serial && (gConcAll || gLaunch == gConc) && mcs::currentTask() < 0;
#else
    (void)s;
    return false;
#endif
}
static void runSet(Sp s, const std::vector<std::size_t>& idx, const std::function<void(std::size_t)>& f, const std::string& name)
{
    bool conc = concurrent(s) && idx.size() > 1;
    if (mc::tracing())
        mc::trace("    kernel " + std::to_string(gLaunch) + " " + name + " on " + nameOf(s) + ", " + std::to_string(idx.size()) + " iterations" + (conc ? ", concurrent" : ""));
    ++gLaunch;
    mc::countStep();
    Context ctx(s);
#ifdef KK_THREADS
    if (conc)
    {
        const std::size_t T = std::min<std::size_t>(idx.size(), 8);
        std::vector<std::function<void()>> tasks;
        for (std::size_t t = 0; t < T; ++t)
            tasks.push_back([&, t] {
                for (std::size_t k = t; k < idx.size(); k += T) f(idx[k]);
            });
        mcs::parallel(std::move(tasks));
        return;
    }
#endif
    for (auto i : idx) f(i);
}
void runFor(Sp s, const std::string& name, std::size_t b, std::size_t e, const std::function<void(std::size_t)>& f)
{
    auto r = ordered(kernelOrder(s), e - b);
    for (auto& i : r) i += b;
    runSet(s, r, f, name);
}
void runChunks(Sp s, const std::vector<std::size_t>& o, const std::function<void(std::size_t)>& f) { runSet(s, o, f, "chunks"); }

static Plan plan(Sp s, std::size_t b, std::size_t e, bool scan)
{
    Plan p;
    const std::size_t n = e - b;
    int o = kernelOrder(s);
    std::vector<bool> cut(n, false); // cut before index i
    if (s == Sp::Serial) {}
    else if (o == All && n <= gAll)
    {
        for (std::size_t i = 1; i < n; ++i) cut[i] = mc::choose(2, "chunk boundary") == 1;
    }
    else
    {
        if (o == All) o = gFixed ? int(Forward) : mc::choose(Orders, "chunking");
        if (concurrent(s) || o == Reverse)
            for (std::size_t i = 1; i < n; ++i) cut[i] = true; // one iteration per chunk
        else if (o == EvenOdd && n > 1) cut[n / 2] = true;
        else if (o == OutsideIn)
            for (std::size_t i = 2; i < n; i += 2) cut[i] = true;
    }
    for (std::size_t i = 0; i < n; ++i)
    {
        if (i == 0 || cut[i]) p.chunks.emplace_back();
        p.chunks.back().idx.push_back(b + i);
    }
    if (!scan && o != All)
        for (auto& c : p.chunks)
        { // a reduction may visit the iterations of a chunk in any order
            auto r = ordered(o, c.idx.size());
            for (auto& i : r) i += c.idx.front();
            c.idx = r;
        }
    p.run = ordered(s == Sp::Serial ? Forward : (o == All && n > gAll) ? Forward : o, p.chunks.size());
    p.joined = s == Sp::Serial || o == All ? p.run : ordered(o == Forward ? Forward : Reverse, p.chunks.size());
    return p;
}
Plan planReduce(Sp s, std::size_t b, std::size_t e) { return plan(s, b, e, false); }
Plan planScan(Sp s, std::size_t b, std::size_t e) { return plan(s, b, e, true); }

#ifdef KK_THREADS
Atomic::Atomic(const volatile void* q, std::size_t n_, bool write) : p(const_cast<const void*>(q)), n(n_) { mcs::atomicBegin(p, n, write); }
Atomic::~Atomic() { mcs::atomicEnd(); }
#else
Atomic::Atomic(const volatile void* q, std::size_t n_, bool) : p(const_cast<const void*>(q)), n(n_) {}
Atomic::~Atomic() {}
#endif
}
