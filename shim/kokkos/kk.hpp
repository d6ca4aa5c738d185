// Run-time side of the small stand-in for Kokkos: memory spaces with checked ownership and
// kernels whose execution order is under the control of the explorer.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace kk
{
enum class Sp
{
    Serial,
    Host,
    Device
};
// ---- memory -------------------------------------------------------------------------------
void* alloc(Sp, std::size_t bytes);
void* realloc(Sp, void*, std::size_t bytes);
void free(Sp, void*);
void copy(bool dstDevice, void* dst, bool srcDevice, const void* src, std::size_t bytes); // checks spaces
std::size_t liveBlocks();
std::size_t liveBytes();
std::size_t allocations();      // since start
int spaceOf(const void*);       // -1 unknown, else the Sp of the block that contains it
void* blockOf(const void*, std::size_t* bytes = nullptr);
void peekRaw(void* dst, const void* src, std::size_t bytes); // ignores the space rules
template<typename T>
std::vector<T> peek(const T* p, std::size_t n)
{
    std::vector<T> r(n);
    if (n) peekRaw(r.data(), p, n * sizeof(T));
    return r;
}
void pokeRaw(void* dst, const void* src, std::size_t bytes);
// everything allocated from now on belongs to this scope; reports leaks at its end
struct LeakScope
{
    std::size_t before;
    LeakScope() : before(liveBlocks()) {}
    std::size_t leaked() const { return liveBlocks() - before; }
};
// ---- kernels ------------------------------------------------------------------------------
enum Order
{
    Forward,
    Reverse,
    EvenOdd,
    OutsideIn,
    Orders, // number of the fixed ones
    All     // every permutation / chunking (asks the explorer)
};
void setOrder(int order);        // for the kernels of the parallel executors
int order();
void perKernel(bool on);         // ask the explorer (deviate) for the order of every kernel launch
void allUpTo(std::size_t n);     // All falls back to the fixed ones beyond this many iterations
void fixedBeyond(bool on);       // ... or to ascending order only
std::size_t launches();          // kernel launches so far in this execution
void resetLaunches();
void concurrentLaunch(std::size_t k); // the k-th launch runs with one task per iteration (thread build)
void concurrentAll(bool);
bool inDeviceKernel();

struct Chunk
{
    std::vector<std::size_t> idx; // in execution order
};
struct Plan
{
    std::vector<Chunk> chunks;            // contiguous in index space, ascending
    std::vector<std::size_t> run, joined; // execution order and combination order of the chunks
};
void runFor(Sp, const std::string& name, std::size_t b, std::size_t e, const std::function<void(std::size_t)>&);
void runChunks(Sp, const std::vector<std::size_t>& order, const std::function<void(std::size_t)>&);
void begin(int order = Forward); // start of an execution
Plan planReduce(Sp, std::size_t b, std::size_t e);
Plan planScan(Sp, std::size_t b, std::size_t e);
struct Context // kernel of this space running
{
    Sp s, was;
    bool active;
    explicit Context(Sp);
    ~Context();
};
[[noreturn]] void abortCalled(const char*);
// atomic operation on [p,p+n)
struct Atomic
{
    const void* p;
    std::size_t n;
    Atomic(const volatile void* p_, std::size_t n_, bool write);
    ~Atomic();
};
}
