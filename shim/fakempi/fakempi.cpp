#include "fakempi.hpp"
#include <algorithm>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <ucontext.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#ifdef KK_STANDALONE
namespace fmpi
{
std::vector<int> answers;
static std::size_t asked;
}
namespace mc
{
struct ExitCalled
{
    int code;
};
static int deviate(int n, const char* = "") { return fmpi::asked < fmpi::answers.size() ? fmpi::answers[fmpi::asked++] % n : 0; }
static void countStep() {}
static bool tracing() { return std::getenv("FMPI_TRACE") != nullptr; }
static void trace(const std::string& s) { std::fprintf(stderr, "%s\n", s.c_str()); }
static bool failed() { return false; }
static void failLater(const std::string& s, const std::string& m)
{
    std::fprintf(stderr, "%s: %s\n", s.c_str(), m.c_str());
    std::_Exit(99);
}
[[noreturn]] static void fail(const std::string& s, const std::string& m)
{
    failLater(s, m);
    std::abort();
}
}
#else
#include "mc.hpp"
#endif

namespace fmpi
{
namespace
{
struct Abandon
{
};
struct Transfer
{
    bool send;
    int rank, peer, tag, comm; // peer in world numbering
    char* p;
    std::size_t bytes;
    bool active = true;
    int match = -1;          // index of the counterpart
    std::vector<char> data;  // what travels
    bool taken = false;      // data is valid
};
struct Task
{
    ucontext_t ctx;
    void* fake = nullptr;
    bool done = false, waiting = false;
    unsigned long version = 0; // it waits for a change beyond this
    int failedTests = 0;
    unsigned long testVersion = 0;
    std::exception_ptr error;
};
struct Reduce
{
    int arrived = 0, left = 0, type = 0, op = 0, count = -1;
    std::vector<std::vector<char>> in;
    std::vector<char> out;
};
std::vector<std::unique_ptr<Task>> T;
const std::function<void(int)>* gBody = nullptr;
ucontext_t gMain; // of run()
void* gMainFake = nullptr;
const void* gMainStack = nullptr;
std::size_t gMainSize = 0;
constexpr std::size_t STACK = 256 * 1024;
int turn = -1, gMode = Eager;
bool aborting = false;
unsigned long version = 0;
std::deque<Transfer> tr; // request handles are index+1
std::map<int, std::vector<int>> comms;
std::map<std::pair<int, int>, Reduce> reductions; // by communicator and number
std::map<std::pair<int, int>, int> reduceCount;   // by communicator and rank
int gInits, gFinalizes, gProvide = MPI_THREAD_MULTIPLE, gRequired = -1, nextComm = 200;
int me = -1;

int self() { return me < 0 ? 0 : me; }
std::vector<int> group(int c)
{
    std::vector<int> g;
    if (c == MPI_COMM_WORLD)
        for (int i = 0; i < std::max<int>(1, int(T.size())); ++i) g.push_back(i);
    else if (c == MPI_COMM_SELF) g.push_back(self());
    else
    {
        auto it = comms.find(c);
        if (it == comms.end()) mc::fail("communicator", "a call uses an invalid communicator");
        g = it->second;
    }
    return g;
}
std::size_t sizeOf(int t)
{
    switch (t)
    {
    case MPI_CHAR:
    case MPI_SIGNED_CHAR:
    case MPI_UNSIGNED_CHAR:
    case MPI_BYTE: return 1;
    case MPI_WCHAR: return sizeof(wchar_t);
    case MPI_SHORT:
    case MPI_UNSIGNED_SHORT: return sizeof(short);
    case MPI_INT:
    case MPI_UNSIGNED: return sizeof(int);
    case MPI_LONG:
    case MPI_UNSIGNED_LONG: return sizeof(long);
    case MPI_LONG_LONG:
    case MPI_UNSIGNED_LONG_LONG: return sizeof(long long);
    case MPI_FLOAT: return sizeof(float);
    case MPI_DOUBLE: return sizeof(double);
    case MPI_LONG_DOUBLE: return sizeof(long double);
    case MPI_CXX_BOOL: return sizeof(bool);
    case MPI_CXX_FLOAT_COMPLEX: return sizeof(std::complex<float>);
    case MPI_CXX_DOUBLE_COMPLEX: return sizeof(std::complex<double>);
    case MPI_CXX_LONG_DOUBLE_COMPLEX: return sizeof(std::complex<long double>);
    }
    mc::fail("datatype", "a call uses an invalid data type");
}
// ---- the tasks -------------------------------------------------------------------------------
// hands over to the task whose turn it is (-2: back to run()); returns when it is this one's turn
void hand(bool last = false)
{
    int from = me, to = turn;
    if (to == from) return;
    ucontext_t* c = from < 0 ? &gMain : &T[std::size_t(from)]->ctx;
    ucontext_t* n = to < 0 ? &gMain : &T[std::size_t(to)]->ctx;
    me = to < 0 ? -1 : to;
#ifdef __SANITIZE_ADDRESS__
    void** fake = from < 0 ? &gMainFake : &T[std::size_t(from)]->fake;
    __sanitizer_start_switch_fiber(last ? nullptr : fake, to < 0 ? gMainStack : n->uc_stack.ss_sp, to < 0 ? gMainSize : STACK);
#endif
    (void)last;
    swapcontext(c, n);
#ifdef __SANITIZE_ADDRESS__
    __sanitizer_finish_switch_fiber(*fake, nullptr, nullptr);
#endif
    if (me >= 0 && aborting) throw Abandon {};
}
bool runnable(std::size_t i) { return !T[i]->done && !(T[i]->waiting && T[i]->version == version); }
// the next rank after this one waits or is done
void passOn()
{
    std::vector<int> next;
    for (std::size_t k = 1; k <= T.size(); ++k)
    {
        std::size_t i = (std::size_t(me) + k) % T.size();
        if (runnable(i)) next.push_back(int(i));
    }
    if (next.empty())
    {
        bool all = true;
        for (auto& t : T) all = all && t->done;
        if (!all)
        {
            mc::failLater("stuck", "every rank waits for a transfer that never completes");
            aborting = true;
        }
        turn = -2;
        return;
    }
    int c = next.size() > 1 ? mc::deviate(int(next.size()), "next rank") : 0;
    turn = next[std::size_t(c)];
}
void point()
{
    if (me < 0) return;
    mc::countStep();
    std::vector<int> others;
    for (std::size_t k = 1; k < T.size(); ++k)
    {
        std::size_t i = (std::size_t(me) + k) % T.size();
        if (runnable(i)) others.push_back(int(i));
    }
    if (others.empty()) return;
    int c = mc::deviate(1 + int(others.size()), "switch rank");
    if (c == 0) return;
    turn = others[std::size_t(c - 1)];
    if (mc::tracing()) mc::trace("    rank " + std::to_string(me) + " is suspended for rank " + std::to_string(turn));
    hand();
}
void block()
{
    T[std::size_t(me)]->waiting = true;
    T[std::size_t(me)]->version = version;
    passOn();
    if (mc::tracing()) mc::trace("    rank " + std::to_string(me) + " waits");
    hand();
    T[std::size_t(me)]->waiting = false;
}
void changed() { ++version; }
// ---- transfers -------------------------------------------------------------------------------
void take(Transfer& s)
{
    if (s.taken) return;
    s.data.assign(s.p, s.p + s.bytes);
    s.taken = true;
}
void put(Transfer& r, Transfer& s)
{
    take(s);
    if (s.bytes > r.bytes)
    {
        mc::fail("truncated", "a message of " + std::to_string(s.bytes) + " bytes from rank " + std::to_string(s.rank) + " arrived at rank " + std::to_string(r.rank) + " in a receive of " + std::to_string(r.bytes));
    }
    std::memcpy(r.p, s.data.data(), s.bytes);
    std::vector<char>().swap(s.data);
}
void match(int i)
{
    Transfer& x = tr[std::size_t(i)];
    for (std::size_t k = 0; k < tr.size(); ++k)
    {
        Transfer& y = tr[k];
        if (y.send == x.send || y.match >= 0 || y.tag != x.tag || y.comm != x.comm || y.peer != x.rank || x.peer != y.rank || int(k) == i) continue;
        y.match = i;
        x.match = int(k);
        Transfer &s = x.send ? x : y, &r = x.send ? y : x;
        if (gMode == Immediate) put(r, s);
        return;
    }
}
int post(bool send, void* p, int n, int type, int peer, int tag, int comm, MPI_Request* req)
{
    point();
    auto g = group(comm);
    const char* what = send ? "send" : "receive";
    if (n < 0) mc::fail("count", std::string("a ") + what + " of a negative number of values");
    if (tag < 0 || tag > 32767) mc::fail("tag", std::string("a ") + what + " with tag " + std::to_string(tag) + " outside what every message layer supports");
    if (peer < 0 || peer >= int(g.size())) mc::fail("peer", std::string("a ") + what + " with rank " + std::to_string(peer) + " outside the communicator");
    Transfer t {send, self(), g[std::size_t(peer)], tag, comm, static_cast<char*>(p), std::size_t(n) * sizeOf(type)};
    if (mc::tracing()) mc::trace("    rank " + std::to_string(t.rank) + " posts a " + what + " of " + std::to_string(t.bytes) + " bytes, peer " + std::to_string(t.peer) + ", tag " + std::to_string(tag));
    if (send && gMode == Eager) take(t);
    if (!send) std::memset(t.p, 0xa5, t.bytes); // its content is unspecified until the receive completes
    tr.push_back(t);
    *req = int(tr.size());
    match(int(tr.size()) - 1);
    changed();
    return MPI_SUCCESS;
}
bool completable(const Transfer& t) { return t.match >= 0 || (t.send && gMode == Eager); }
void complete(Transfer& t)
{
    if (t.send)
    {
        take(t);
    }
    else if (gMode != Immediate) put(t, tr[std::size_t(t.match)]);
    else if (!tr[std::size_t(t.match)].taken) put(t, tr[std::size_t(t.match)]);
    t.active = false;
    if (mc::tracing()) mc::trace("    rank " + std::to_string(t.rank) + ": " + (t.send ? "send to " : "receive from ") + std::to_string(t.peer) + " with tag " + std::to_string(t.tag) + " completes");
    changed();
}
bool test(MPI_Request* req)
{
    if (*req == MPI_REQUEST_NULL) return true;
    if (*req < 0 || *req > int(tr.size())) mc::fail("request", "a request that was never posted is tested");
    Transfer& t = tr[std::size_t(*req) - 1];
    if (!t.active) mc::fail("request", "a request that is already complete is tested");
    if (t.rank != self()) mc::fail("request", "a request of another rank is tested");
    if (me < 0)
    {
        if (!completable(t)) return false;
    }
    else if (!completable(t))
    {
        Task& k = *T[std::size_t(me)];
        if (k.testVersion != version) k.failedTests = 0, k.testVersion = version;
        if (++k.failedTests > 4 + 2 * int(active()))
        { // a loop that polls: let the others go on
            k.failedTests = 0;
            block();
        }
        if (!completable(t)) return false;
    }
    else if (mc::deviate(2, "transfer not complete yet")) return false;
    complete(t);
    *req = MPI_REQUEST_NULL;
    return true;
}
void waitFor(MPI_Request* req)
{
    while (!test(req))
        if (*req && !completable(tr[std::size_t(*req) - 1])) block();
}
// ---- reductions ------------------------------------------------------------------------------
template<typename T_>
bool arithmetic(int op, T_* a, const T_* b, int n)
{
    for (int i = 0; i < n; ++i)
        switch (op)
        {
        case MPI_MAX: a[i] = std::max(a[i], b[i]); break;
        case MPI_MIN: a[i] = std::min(a[i], b[i]); break;
        case MPI_SUM: a[i] = static_cast<T_>(a[i] + b[i]); break;
        case MPI_PROD: a[i] = static_cast<T_>(a[i] * b[i]); break;
        default: return false;
        }
    return true;
}
template<typename T_>
bool logical(int op, T_* a, const T_* b, int n)
{
    for (int i = 0; i < n; ++i)
        switch (op)
        {
        case MPI_LAND: a[i] = static_cast<T_>(a[i] && b[i]); break;
        case MPI_LOR: a[i] = static_cast<T_>(a[i] || b[i]); break;
        case MPI_LXOR: a[i] = static_cast<T_>(!a[i] != !b[i]); break;
        default: return false;
        }
    return true;
}
template<typename T_>
bool integral(int op, T_* a, const T_* b, int n)
{
    if (arithmetic(op, a, b, n) || logical(op, a, b, n)) return true;
    for (int i = 0; i < n; ++i)
        switch (op)
        {
        case MPI_BAND: a[i] = static_cast<T_>(a[i] & b[i]); break;
        case MPI_BOR: a[i] = static_cast<T_>(a[i] | b[i]); break;
        case MPI_BXOR: a[i] = static_cast<T_>(a[i] ^ b[i]); break;
        default: return false;
        }
    return true;
}
template<typename T_>
bool complexOp(int op, T_* a, const T_* b, int n)
{
    for (int i = 0; i < n; ++i)
        switch (op)
        {
        case MPI_SUM: a[i] += b[i]; break;
        case MPI_PROD: a[i] *= b[i]; break;
        default: return false;
        }
    return true;
}
bool combine(int type, int op, char* a, const char* b, int n)
{
#define AS(F, X) return F(op, reinterpret_cast<X*>(a), reinterpret_cast<const X*>(b), n)
    switch (type)
    {
    case MPI_SIGNED_CHAR: AS(integral, signed char);
    case MPI_UNSIGNED_CHAR: AS(integral, unsigned char);
    case MPI_SHORT: AS(integral, short);
    case MPI_INT: AS(integral, int);
    case MPI_LONG: AS(integral, long);
    case MPI_LONG_LONG: AS(integral, long long);
    case MPI_UNSIGNED_SHORT: AS(integral, unsigned short);
    case MPI_UNSIGNED: AS(integral, unsigned);
    case MPI_UNSIGNED_LONG: AS(integral, unsigned long);
    case MPI_UNSIGNED_LONG_LONG: AS(integral, unsigned long long);
    case MPI_FLOAT: AS(arithmetic, float);
    case MPI_DOUBLE: AS(arithmetic, double);
    case MPI_LONG_DOUBLE: AS(arithmetic, long double);
    case MPI_CXX_BOOL: AS(logical, bool);
    case MPI_CXX_FLOAT_COMPLEX: AS(complexOp, std::complex<float>);
    case MPI_CXX_DOUBLE_COMPLEX: AS(complexOp, std::complex<double>);
    case MPI_CXX_LONG_DOUBLE_COMPLEX: AS(complexOp, std::complex<long double>);
    }
#undef AS
    return false;
}
}
namespace
{
void entry()
{
#ifdef __SANITIZE_ADDRESS__
    const void* b;
    std::size_t n;
    __sanitizer_finish_switch_fiber(nullptr, &b, &n);
    if (!gMainStack) gMainStack = b, gMainSize = n; // the first task is entered from run()
#endif
    int i = me;
    Task& t = *T[std::size_t(i)];
    std::exception_ptr error;
    if (!aborting)
    {
        try
        {
            (*gBody)(i);
        }
        catch (const Abandon&)
        {
        }
        catch (...)
        {
            error = std::current_exception();
        }
    }
    t.done = true;
    turn = -2;
    if (error) t.error = error, aborting = true;
    else if (!aborting)
    {
        changed();
        passOn();
    }
    error = nullptr;
    hand(true);
    std::abort();
}
}
int rank() { return me; }
void begin()
{
    T.clear();
    turn = -1;
    aborting = false;
    version = 0;
    tr.clear();
    comms.clear();
    reductions.clear();
    reduceCount.clear();
    gInits = gFinalizes = 0;
    gProvide = MPI_THREAD_MULTIPLE;
    gRequired = -1;
    nextComm = 200;
}
MPI_Comm makeComm(std::vector<int> g)
{
    comms[nextComm] = std::move(g);
    return nextComm++;
}
void provide(int l) { gProvide = l; }
int inits() { return gInits; }
int finalizes() { return gFinalizes; }
int requiredLevel() { return gRequired; }
std::size_t active()
{
    std::size_t n = 0;
    for (auto& t : tr) n += t.active && t.rank == self();
    return n;
}
std::size_t activeIn(const void* from, std::size_t bytes)
{
    auto b = static_cast<const char*>(from);
    std::size_t n = 0;
    for (auto& t : tr) n += t.active && t.rank == self() && t.p < b + bytes && t.p + t.bytes > b;
    return n;
}
std::size_t posted() { return tr.size(); }
void checkpoint() { point(); }
void run(int n, int mode, const std::function<void(int)>& body)
{
    begin();
    gMode = mode;
    for (int i = 0; i < n; ++i) T.push_back(std::make_unique<Task>());
    int first = n > 1 ? mc::deviate(n, "first rank") : 0;
    static std::vector<char*> stacks;
    gBody = &body;
    for (int i = 0; i < n; ++i)
    {
        if (int(stacks.size()) <= i) stacks.push_back(static_cast<char*>(std::malloc(STACK)));
        auto& c = T[std::size_t(i)]->ctx;
        getcontext(&c);
#ifdef __SANITIZE_ADDRESS__
        __asan_unpoison_memory_region(stacks[std::size_t(i)], STACK);
#endif
        c.uc_stack.ss_sp = stacks[std::size_t(i)];
        c.uc_stack.ss_size = STACK;
        c.uc_link = nullptr;
        makecontext(&c, entry, 0);
    }
    turn = first;
    for (;;)
    {
        hand();
        // the tasks end one by one; after a failure the others are unwound
        turn = -2;
        for (int i = 0; i < n; ++i)
            if (!T[std::size_t(i)]->done) turn = i;
        if (turn == -2) break;
        aborting = true;
    }
    me = -1;
    std::exception_ptr e;
    for (auto& t : T)
        if (t->error && !e) e = t->error;
    std::size_t left = 0, unmatched = 0;
    for (auto& t : tr) left += t.active, unmatched += t.match < 0;
    bool ok = !aborting;
    for (auto& t : T) t->error = nullptr;
    if (e) std::rethrow_exception(e);
    if (ok && !mc::failed() && (left || unmatched)) mc::fail("left-over", std::to_string(left) + " transfers were never completed, " + std::to_string(unmatched) + " have no counterpart");
}
}
using namespace fmpi;
int MPI_Init(int*, char***)
{
    ++gInits;
    gRequired = -1;
    return MPI_SUCCESS;
}
int MPI_Init_thread(int*, char***, int required, int* provided)
{
    ++gInits;
    gRequired = required;
    *provided = gProvide;
    return MPI_SUCCESS;
}
int MPI_Query_thread(int* p)
{
    *p = gRequired < 0 ? int(MPI_THREAD_SINGLE) : gProvide;
    return MPI_SUCCESS;
}
int MPI_Initialized(int* f)
{
    *f = gInits > 0;
    return MPI_SUCCESS;
}
int MPI_Finalized(int* f)
{
    *f = gFinalizes > 0;
    return MPI_SUCCESS;
}
int MPI_Finalize()
{
    ++gFinalizes;
    return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm c, int* r)
{
    auto g = group(c);
    *r = MPI_UNDEFINED;
    for (std::size_t i = 0; i < g.size(); ++i)
        if (g[i] == self()) *r = int(i);
    return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm c, int* s)
{
    *s = int(group(c).size());
    return MPI_SUCCESS;
}
int MPI_Isend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) { return post(true, const_cast<void*>(p), n, t, dst, tag, c, r); }
int MPI_Irecv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r) { return post(false, p, n, t, src, tag, c, r); }
int MPI_Test(MPI_Request* r, int* flag, MPI_Status*)
{
    point();
    *flag = test(r);
    return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status*)
{ // completes all or none in the standard; completing some of them early is not observable here
    point();
    *flag = 1;
    for (int i = 0; i < n; ++i)
        if (!test(r + i)) *flag = 0;
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* r, MPI_Status*)
{
    point();
    waitFor(r);
    return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status*)
{
    point();
    for (int i = 0; i < n; ++i) waitFor(r + i);
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype type, MPI_Op op, MPI_Comm c)
{
    point();
    auto g = group(c);
    std::size_t bytes = std::size_t(n) * sizeOf(type);
    int number = reduceCount[{c, self()}]++;
    auto& r = reductions[{c, number}];
    auto src = static_cast<const char*>(in == MPI_IN_PLACE ? out : in);
    if (r.arrived == 0) r.type = type, r.op = op, r.count = n;
    if (r.type != type || r.op != op || r.count != n) mc::fail("reduction-mismatch", "the ranks take part in different reductions");
    if (r.in.empty()) r.in.resize(std::max<std::size_t>(1, T.size()));
    r.in[std::size_t(self())].assign(src, src + bytes);
    ++r.arrived;
    changed();
    while (r.arrived < int(g.size())) block();
    if (r.out.empty() && bytes)
    {
        r.out = r.in[std::size_t(g[0])];
        for (std::size_t i = 1; i < g.size(); ++i)
            if (!combine(type, op, r.out.data(), r.in[std::size_t(g[i])].data(), n)) mc::fail("operation", "a reduction that is not defined for its data type");
    }
    if (bytes) std::memcpy(out, r.out.data(), bytes);
    return MPI_SUCCESS;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype type, MPI_Op op, int root, MPI_Comm c)
{ // the others' result buffer is not touched
    auto g = group(c);
    if (root < 0 || root >= int(g.size())) mc::fail("peer", "a reduction to rank " + std::to_string(root) + " outside the communicator");
    std::vector<char> r(std::size_t(n) * sizeOf(type) + 1);
    std::memcpy(r.data(), in == MPI_IN_PLACE ? out : in, r.size() - 1);
    MPI_Allreduce(MPI_IN_PLACE, r.data(), n, type, op, c);
    if (g[std::size_t(root)] == self()) std::memcpy(out, r.data(), r.size() - 1);
    return MPI_SUCCESS;
}
int MPI_Iallreduce(const void* in, void* out, int n, MPI_Datatype type, MPI_Op op, MPI_Comm c, MPI_Request* r)
{
    *r = MPI_REQUEST_NULL;
    return MPI_Allreduce(in, out, n, type, op, c);
}
int MPI_Bcast(void* p, int n, MPI_Datatype type, int root, MPI_Comm c)
{ // as the sum of the root's bytes and zeros
    auto g = group(c);
    if (root < 0 || root >= int(g.size())) mc::fail("peer", "a broadcast from rank " + std::to_string(root) + " outside the communicator");
    std::size_t bytes = std::size_t(n) * sizeOf(type);
    std::vector<unsigned char> r(bytes + 1);
    if (g[std::size_t(root)] == self()) std::memcpy(r.data(), p, bytes);
    MPI_Allreduce(MPI_IN_PLACE, r.data(), int(bytes), MPI_UNSIGNED_CHAR, MPI_BOR, c);
    std::memcpy(p, r.data(), bytes);
    return MPI_SUCCESS;
}
int MPI_Issend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) { return MPI_Isend(p, n, t, dst, tag, c, r); }
int MPI_Send(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
    MPI_Request r;
    MPI_Isend(p, n, t, dst, tag, c, &r);
    return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
int MPI_Ssend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(p, n, t, dst, tag, c); }
int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status*)
{
    MPI_Request r;
    MPI_Irecv(p, n, t, src, tag, c, &r);
    return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
int MPI_Sendrecv(const void* a, int n, MPI_Datatype t, int dst, int sendTag, void* b, int m, MPI_Datatype u, int src, int recvTag, MPI_Comm c, MPI_Status*)
{
    MPI_Request r[2];
    MPI_Irecv(b, m, u, src, recvTag, c, r);
    MPI_Isend(a, n, t, dst, sendTag, c, r + 1);
    return MPI_Waitall(2, r, MPI_STATUSES_IGNORE);
}
int MPI_Testany(int n, MPI_Request* r, int* index, int* flag, MPI_Status*)
{
    point();
    *index = MPI_UNDEFINED;
    *flag = 1;
    for (int i = 0; i < n; ++i)
    {
        if (r[i] == MPI_REQUEST_NULL) continue;
        *flag = 0;
        if (!test(r + i)) continue;
        *index = i;
        *flag = 1;
        break;
    }
    return MPI_SUCCESS;
}
static bool anyCompletable(int n, const MPI_Request* r)
{
    for (int i = 0; i < n; ++i)
        if (r[i] != MPI_REQUEST_NULL && completable(tr[std::size_t(r[i]) - 1])) return true;
    return false;
}
int MPI_Waitany(int n, MPI_Request* r, int* index, MPI_Status*)
{
    for (int flag = 0;;)
    {
        MPI_Testany(n, r, index, &flag, nullptr);
        if (flag) return MPI_SUCCESS;
        if (!anyCompletable(n, r)) block();
    }
}
int MPI_Testsome(int n, MPI_Request* r, int* count, int* indices, MPI_Status*)
{
    point();
    *count = 0;
    bool any = false;
    for (int i = 0; i < n; ++i)
    {
        if (r[i] == MPI_REQUEST_NULL) continue;
        any = true;
        if (test(r + i)) indices[(*count)++] = i;
    }
    if (!any) *count = MPI_UNDEFINED;
    return MPI_SUCCESS;
}
int MPI_Waitsome(int n, MPI_Request* r, int* count, int* indices, MPI_Status*)
{
    for (;;)
    {
        MPI_Testsome(n, r, count, indices, nullptr);
        if (*count) return MPI_SUCCESS;
        if (!anyCompletable(n, r)) block();
    }
}
int MPI_Barrier(MPI_Comm c)
{
    char dummy = 0;
    return MPI_Allreduce(MPI_IN_PLACE, &dummy, 0, MPI_BYTE, MPI_SUM, c);
}
int MPI_Type_size(MPI_Datatype t, int* s)
{
    *s = int(sizeOf(t));
    return MPI_SUCCESS;
}
[[noreturn]] int MPI_Abort(MPI_Comm, int code) { throw mc::ExitCalled {code}; }
