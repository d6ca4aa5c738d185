// Reductions over ranks and the parallel environment.
#include "mc.hpp"
#include "fakempi.hpp"
#include "NeoFOAM/core/mpi/environment.hpp"
#include "NeoFOAM/core/mpi/operators.hpp"
#include <limits>
#include <optional>
using namespace NeoFOAM;
using namespace NeoFOAM::mpi;
using mc::choose;
using std::size_t;

namespace
{
const ReduceOp OPS[] = {ReduceOp::Max, ReduceOp::Min, ReduceOp::Sum, ReduceOp::Prod, ReduceOp::Land, ReduceOp::Band, ReduceOp::Lor, ReduceOp::Bor};
const char* OPNAME[] = {"max", "min", "sum", "prod", "land", "band", "lor", "bor"};
template<typename T>
T reduced(int op, const std::vector<T>& v)
{
    T r = v[0];
    for (size_t i = 1; i < v.size(); ++i)
    {
        T x = v[i];
        if constexpr (!std::is_same_v<T, std::complex<float>> && !std::is_same_v<T, std::complex<double>> && !std::is_same_v<T, std::complex<long double>>)
        {
            if (op == 0) r = r < x ? x : r;
            if (op == 1) r = x < r ? x : r;
            if constexpr (std::is_integral_v<T>)
            {
                if (op == 4) r = static_cast<T>(r && x);
                if (op == 5) r = static_cast<T>(r & x);
                if (op == 6) r = static_cast<T>(r || x);
                if (op == 7) r = static_cast<T>(r | x);
            }
        }
        if (op == 2) r = static_cast<T>(r + x);
        if (op == 3) r = static_cast<T>(r * x);
    }
    // logical results are 0 or 1 even for one contribution only where something is combined
    return r;
}
// values that tell the operations and widths apart
template<typename T>
T value(int k)
{
    if constexpr (std::is_same_v<T, bool>) return k % 2 == 1;
    else if constexpr (std::is_integral_v<T>)
    {
        T big = static_cast<T>(std::numeric_limits<T>::max() / 4);
        const T v[] = {T(0), T(3), static_cast<T>(std::is_signed_v<T> ? T(0) - T(2) : std::numeric_limits<T>::max() - T(1)), big}; // beyond the signed range of its width
        return v[k];
    }
    else if constexpr (std::is_floating_point_v<T>)
    {
        const T v[] = {T(0), T(1.5L), T(-2.25L), static_cast<T>(std::numeric_limits<T>::max() / T(1e10L))};
        return v[k];
    }
    else
    {
        const T v[] = {T(0, 1), T(1.5, -2), T(-0.25, 0), T(3, 4)};
        return v[k];
    }
}
template<typename T>
constexpr bool supported(int op)
{
    if (std::is_same_v<T, bool>) return op == 4 || op == 6;
    if (std::is_integral_v<T>) return true;
    if (std::is_floating_point_v<T>) return op < 4;
    return op == 2 || op == 3;
}
template<typename T>
void scalarReduction(const char* name)
{
    int n = 1 + choose(3, "ranks"), op = choose(8, "operation");
    if (!supported<T>(op)) mc::prune();
    std::vector<T> v;
    int big = 0;
    for (int i = 0; i < n; ++i)
    {
        int k = choose(std::is_same_v<T, bool> ? 2 : 4, "contribution");
        big += k == 3 || (k == 2 && std::is_unsigned_v<T>);
        v.push_back(value<T>(k));
    }
    if (op == 3 && big > 1) mc::prune(); // the product would overflow
    if constexpr (std::is_signed_v<T> && std::is_integral_v<T>)
        if (op == 3 && big) mc::prune();
    mc::setDeviationBound(mc::thorough() ? 3 : 2);
    T want = reduced(op, v);
    fmpi::run(n, fmpi::Eager, [&](int r)
    {
        MPIEnvironment env;
        T around[3] = {value<T>(1), v[size_t(r)], value<T>(1)};
        allReduce(around[1], OPS[op], env.comm());
        if constexpr (std::is_floating_point_v<T>) MC_CHECK(std::abs(around[1] - want) <= 1e-6L * std::abs(want), "reduction", name, " ", OPNAME[op], " over ", n, " ranks gives ", around[1], " on rank ", r, ", expected ", want);
        else MC_CHECK(around[1] == want, "reduction", name, " ", OPNAME[op], " over ", n, " ranks is wrong on rank ", r);
        MC_CHECK(around[0] == value<T>(1) && around[2] == value<T>(1), "neighbours", "the reduction changed its surroundings");
        if (r == 0) mc::noteState(mc::cat(name, op, n, want));
        MC_STEP(name, " ", OPNAME[op], " rank ", r);
    });
}
void vectorReduction()
{
    int n = 1 + choose(3, "ranks"), op = choose(4, "operation");
    std::vector<std::vector<scalar>> c(3);
    int p = choose(n == 3 && !mc::thorough() ? 16 : 64, "contributions");
    static const double V[] = {0, 1.5, -2.25, 7};
    for (int r = 0; r < n; ++r)
        for (int k = 0; k < 3; ++k) c[size_t(k)].push_back(V[(p + r * (k + 1) + (p / 4) * k + r * (p / 16)) % 4]);
    mc::setDeviationBound(2);
    fmpi::run(n, fmpi::Eager, [&](int r)
    {
        auto R = size_t(r);
        Vector around[3] = {Vector(1, 2, 3), Vector(c[0][R], c[1][R], c[2][R]), Vector(4, 5, 6)};
        allReduce(around[1], OPS[op], MPIEnvironment().comm());
        for (size_t k = 0; k < 3; ++k) MC_CHECK(around[1][k] == reduced(op, c[k]), "vector-reduction", "component ", k, " of the ", OPNAME[op], " over ", n, " ranks is ", around[1][k], " on rank ", r, ", expected ", reduced(op, c[k]));
        for (size_t k = 0; k < 3; ++k) MC_CHECK(around[0][k] == double(k + 1) && around[2][k] == double(k + 4), "neighbours", "the reduction changed its surroundings");
        MC_STEP("vector ", OPNAME[op], " rank ", r);
    });
}
// several reductions of different kinds one after the other, over different groups
void sequences()
{
    int len = 3;
    std::vector<int> op;
    for (int i = 0; i < len; ++i) op.push_back(choose(6, "reduction"));
    mc::setDeviationBound(mc::thorough() ? 3 : 2);
    static const std::vector<int> G[] = {{0, 1, 2}, {2, 0}, {1, 2}};
    std::vector<int> comm;
    fmpi::run(3, fmpi::Eager, [&](int r)
    {
        if (comm.empty())
            for (auto& g : G) comm.push_back(fmpi::makeComm(g));
        for (int i = 0; i < len; ++i)
        {
            int gi = op[size_t(i)] % 3;
            auto& g = G[gi];
            if (std::find(g.begin(), g.end(), r) == g.end()) continue;
            MPIEnvironment env(comm[size_t(gi)]);
            if (op[size_t(i)] < 3)
            {
                int v = 10 * i + r;
                allReduce(v, ReduceOp::Sum, env.comm());
                int want = 0;
                for (int m : g) want += 10 * i + m;
                MC_CHECK(v == want, "sequence", "reduction ", i, " over a group gives ", v, " on rank ", r, ", expected ", want);
            }
            else
            {
                Vector v(r, -r, 1);
                allReduce(v, ReduceOp::Max, env.comm());
                double hi = 0, lo = 9;
                for (int m : g) hi = std::max(hi, double(m)), lo = std::min(lo, double(m));
                MC_CHECK(v[0] == hi && v[1] == -lo && v[2] == 1, "sequence", "reduction ", i, " over a group is wrong on rank ", r);
            }
        }
        if (r == 0) mc::noteState(mc::cat(op[0], op[1], op[2]));
        MC_STEP("sequence on rank ", r);
    });
}
void environment()
{
    int n = 1 + choose(4, "ranks"), which = choose(6, "group");
    static const std::vector<int> G[] = {{0}, {1, 0}, {3, 1}, {0, 1, 2}, {2, 3, 1, 0}};
    if (which && !(*std::max_element(G[which - 1].begin(), G[which - 1].end()) < n)) mc::prune();
    std::vector<int> g = which ? G[which - 1] : std::vector<int> {};
    if (!which)
        for (int i = 0; i < n; ++i) g.push_back(i);
    int comm = 0;
    mc::setDeviationBound(1);
    fmpi::run(n, fmpi::Eager, [&](int r)
    {
        auto at = std::find(g.begin(), g.end(), r);
        if (which && !comm) comm = fmpi::makeComm(g);
        fmpi::checkpoint();
        if (at == g.end()) return;
        std::optional<MPIEnvironment> e;
        if (which) e.emplace(comm);
        else e.emplace();
        for (int c = 0; c < 2; ++c)
        {
            MPIEnvironment k(*e);
            MPIEnvironment a(MPI_COMM_SELF);
            MC_CHECK(a.rank() == 0 && a.sizeRank() == 1 && a.comm() == MPI_COMM_SELF, "self", "an environment of one rank says rank ", a.rank(), " of ", a.sizeRank());
            if (c) a = k;
            else a = MPIEnvironment(k.comm());
            for (auto* q : {&*e, &k, &a})
            {
                MC_CHECK(q->comm() == (which ? comm : MPI_COMM_WORLD), "communicator", "the environment reports another communicator");
                MC_CHECK(q->rank() == size_t(at - g.begin()) && q->sizeRank() == g.size(), "rank", "rank ", r, " is said to be number ", q->rank(), " of ", q->sizeRank(), " in its group, expected ", at - g.begin(), " of ", g.size());
            }
            fmpi::checkpoint();
        }
        MC_STEP("environment on rank ", r);
    });
}
void nullCommunicator()
{
    choose(1), choose(1);
    fmpi::begin();
    mc::expectAnyError("null", [] { MPIEnvironment e(MPI_COMM_NULL); }, "an environment without a communicator");
    MC_STEP("null");
}
// the life of the message layer
template<typename I>
void tryCopy(const I& a, int how)
{
    if constexpr (std::is_copy_constructible_v<I>)
    {
        if (how == 1) I b(a);
    }
    if constexpr (std::is_move_constructible_v<I>)
    {
        if (how == 2) I b(std::move(const_cast<I&>(a)));
    }
    if constexpr (std::is_copy_assignable_v<I>)
    {
        if (how == 3)
        {
            I& self = const_cast<I&>(a);
            self = a;
        }
    }
}
void lifetime()
{
    int level = choose(4, "thread support"), how = choose(6, "use");
    fmpi::begin();
    fmpi::provide(level);
#ifdef NF_REQUIRE_MPI_THREAD_SUPPORT
    const bool refuse = level != MPI_THREAD_MULTIPLE;
#else
    const bool refuse = false;
#endif
    char prog[] = "x";
    char* argv[] = {prog, nullptr};
    bool refused = false, threw = false;
    try
    {
        MPIInit init(1, argv);
        MC_CHECK(fmpi::inits() == 1 && fmpi::finalizes() == 0, "initialise", "after construction: ", fmpi::inits(), " initialisations, ", fmpi::finalizes(), " finalisations");
        tryCopy(init, how);
        MC_CHECK(fmpi::inits() == 1 && fmpi::finalizes() == 0, "initialise-copy", "while the owner lives: ", fmpi::inits(), " initialisations, ", fmpi::finalizes(), " finalisations");
        {
            MPIEnvironment e;
            MPIEnvironment f(e);
        }
        MC_CHECK(fmpi::inits() == 1 && fmpi::finalizes() == 0, "environment-finalises", "an environment ended the message layer");
        if (how == 4) throw 7; // leaves by an exception
        if (how == 5)
        {
            double v = 2;
            allReduce(v, ReduceOp::Sum, MPI_COMM_WORLD);
            MC_CHECK(v == 2, "single", "a reduction over one rank changes the value to ", v);
        }
    }
    catch (const mc::ExitCalled&)
    {
        refused = true;
    }
    catch (int)
    {
        threw = true;
    }
    MC_CHECK(refused == refuse, "thread-support", "a message layer with thread support ", level, " was ", refused ? "refused" : "accepted");
    MC_CHECK(fmpi::inits() == 1, "initialise", fmpi::inits(), " initialisations");
    if (!refused) MC_CHECK(fmpi::finalizes() == 1, "finalise", fmpi::finalizes(), " finalisations");
#ifdef NF_REQUIRE_MPI_THREAD_SUPPORT
    MC_CHECK(fmpi::requiredLevel() == MPI_THREAD_MULTIPLE, "demand", "thread support ", fmpi::requiredLevel(), " was demanded");
#endif
    (void)threw;
    MC_STEP("life with thread support ", level);
}
}
#define R(T, N) MC_SCENARIO(reduce_##N, #T ": 1..3 ranks x supported operations x all vectors of 4 contributions x rank schedules with 2 deviations (3 thorough)") { scalarReduction<T>(#T); }
R(short, short)
R(int, int)
R(long, long)
R(long long, longlong)
R(unsigned short, ushort)
R(unsigned, unsigned)
R(unsigned long, ulong)
R(unsigned long long, ulonglong)
R(float, float)
R(double, double)
R(long double, longdouble)
R(bool, bool)
R(std::complex<float>, cfloat)
R(std::complex<double>, cdouble)
R(std::complex<long double>, clongdouble)
MC_SCENARIO(reduce_vector, "vectors: 1..3 ranks x 4 operations x 64 (16) sets of contributions x schedules") { vectorReduction(); }
MC_SCENARIO(sequences_, "all sequences of three reductions of two kinds over three groups, schedules with 2 deviations (3 thorough)") { sequences(); }
MC_SCENARIO(environment_, "1..4 ranks x six groups: number, size, communicator of environments, copies and assignments") { environment(); }
MC_SCENARIO(null_, "the null communicator is refused") { nullCommunicator(); }
MC_SCENARIO(lifetime_, "four levels of thread support x six ways of use: one initialisation, one finalisation") { lifetime(); }
