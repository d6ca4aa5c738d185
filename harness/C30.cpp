// Halo exchange: named exchanges in flight at once, in every order, on up to three ranks.
#include <cstddef>
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#include "kkh.hpp"
#include "fakempi.hpp"
#include "NeoFOAM/mesh/unstructured/communicator.hpp"
#include <array>
using namespace kh;
using namespace NeoFOAM;
using mc::choose;
using std::size_t;

namespace
{
struct Pattern
{
    int n;
    // [rank][peer]: owned entries sent, halo entries received
    std::vector<std::vector<std::vector<label>>> send, recv;
    std::string text;
};
constexpr label OWN = 3; // entries 0..2 are owned, the rest halo and padding
// lengths[from][to]; which owned entries are sent and where they arrive is varied with them
Pattern pattern(int n, const std::vector<std::vector<int>>& len, int variant)
{
    Pattern p {n, {}, {}, ""};
    p.send.assign(size_t(n), std::vector<std::vector<label>>(size_t(n)));
    p.recv = p.send;
    for (int r = 0; r < n; ++r)
    {
        label at = OWN + (variant % 2); // a gap
        for (int k = 0; k < n; ++k)
        {
            int from = variant / 2 % 2 ? n - 1 - k : k;
            for (int i = 0; i < len[size_t(from)][size_t(r)]; ++i)
            {
                p.send[size_t(from)][size_t(r)].push_back(label((i + from + variant) % OWN)); // may go to several ranks, or twice
                auto& v = p.recv[size_t(r)][size_t(from)];
                if (variant / 2 % 2) v.insert(v.begin(), at++);
                else v.push_back(at++);
            }
        }
    }
    for (auto& row : len)
        for (int v : row) p.text += mc::cat(v, " ");
    p.text += mc::cat("variant ", variant);
    return p;
}
const std::vector<std::vector<int>> L2[] = {{{0, 1}, {1, 0}}, {{0, 2}, {1, 0}}, {{1, 1}, {2, 1}}, {{0, 2}, {0, 0}}, {{0, 0}, {0, 0}}, {{2, 0}, {1, 2}}};
const std::vector<std::vector<int>> L3[] = {{{0, 1, 1}, {1, 0, 1}, {1, 1, 0}}, {{0, 2, 0}, {0, 0, 1}, {1, 0, 0}}, {{1, 0, 2}, {2, 0, 0}, {0, 1, 1}}};
CommMap commMap(const std::vector<std::vector<label>>& m)
{
    CommMap r(m.size());
    for (size_t k = 0; k < m.size(); ++k)
        for (label i : m[k]) r[k].push_back(NodeCommMap {.local_idx = i});
    return r;
}
size_t fieldSize(const Pattern& p, int r)
{
    size_t s = size_t(OWN) + 2;
    for (auto& v : p.recv[size_t(r)]) s += v.size();
    return s;
}
template<typename T>
T item(int salt, int r, size_t i)
{
    double d = 1 + 100 * salt + 30 * r + double(i);
    if constexpr (std::is_same_v<T, Vector>) return Vector(d, -2 * d, d / 3);
    else return static_cast<T>(d);
}
template<typename T>
std::vector<T> content(const Pattern& p, int r, int salt)
{
    std::vector<T> v;
    for (size_t i = 0; i < fieldSize(p, r); ++i) v.push_back(item<T>(salt, r, i));
    return v;
}
// what the field holds when the exchange `salt` is over and the rank added 0.5/1 to nothing but
// its owned entries in between
template<typename T>
std::vector<T> after(const Pattern& p, int r, int salt, std::vector<T> now)
{
    for (int from = 0; from < p.n; ++from)
        for (size_t i = 0; i < p.recv[size_t(r)][size_t(from)].size(); ++i)
            now[size_t(p.recv[size_t(r)][size_t(from)][i])] = item<T>(salt, from, size_t(p.send[size_t(from)][size_t(r)][i]));
    return now;
}
struct Exchange
{
    virtual ~Exchange() = default;
    virtual void start(Communicator&) = 0;
    virtual void finish(Communicator&) = 0;
};
template<typename T>
struct Of : Exchange
{
    const Pattern& p;
    int r, salt;
    std::string name;
    std::vector<T> v;
    Field<T> f;
    Of(const Pattern& p_, int r_, int salt_, std::string name_, const Executor& ex) : p(p_), r(r_), salt(salt_), name(name_), v(content<T>(p, r, salt)), f(make(ex, v)) {}
    void start(Communicator& c) override
    {
        c.startComm(f, name);
        // the exchange delivers what was there when it started
        MC_CHECK(same(val(f), v), "start-changes", "starting an exchange changed the field");
        for (size_t i = 0; i < size_t(OWN); ++i) v[i] = item<T>(salt + 50, r, i + 7);
        put(f, v);
    }
    void finish(Communicator& c) override
    {
        c.finaliseComm(f, name);
        auto want = after(p, r, salt, v);
        MC_CHECK(same(val(f), want), "halo", "exchange '", name, "' (", p.text, ") at rank ", r, ": the field holds ", show(val(f)), ", expected ", show(want));
        v = want;
    }
};
std::unique_ptr<Exchange> make(int type, const Pattern& p, int r, int salt, const std::string& name, const Executor& ex)
{
    if (type == 0) return std::make_unique<Of<double>>(p, r, salt, name, ex);
    if (type == 1) return std::make_unique<Of<label>>(p, r, salt, name, ex);
    if (type == 2) return std::make_unique<Of<Vector>>(p, r, salt, name, ex);
    return std::make_unique<Of<localIdx>>(p, r, salt, name, ex);
}
const std::string NAMES[] = {"p", "U", "src/solver.cpp 42", "q"};
// programs: s(k) = k, f(k) = k + 8
std::vector<std::vector<int>> programs(int names)
{
    std::vector<std::vector<int>> all;
    std::vector<int> ops;
    for (int k = 0; k < names; ++k) ops.push_back(k), ops.push_back(k + 8);
    std::sort(ops.begin(), ops.end());
    do
    {
        bool ok = true;
        for (int k = 0; k < names; ++k) ok = ok && std::find(ops.begin(), ops.end(), k) < std::find(ops.begin(), ops.end(), k + 8);
        if (ok) all.push_back(ops);
    } while (std::next_permutation(ops.begin(), ops.end()));
    return all;
}
// finishing waits for the peers to have started: such programs may wait for each other for ever
bool terminates(const std::vector<std::vector<int>>& prog)
{
    std::vector<size_t> at(prog.size(), 0);
    for (bool moved = true; moved;)
    {
        moved = false;
        for (size_t r = 0; r < prog.size(); ++r)
            while (at[r] < prog[r].size())
            {
                int op = prog[r][at[r]];
                bool can = true;
                if (op >= 8)
                    for (size_t q = 0; q < prog.size(); ++q)
                    {
                        size_t s = size_t(std::find(prog[q].begin(), prog[q].end(), op - 8) - prog[q].begin());
                        can = can && at[q] > s;
                    }
                if (!can) break;
                ++at[r], moved = true;
            }
    }
    for (size_t r = 0; r < prog.size(); ++r)
        if (at[r] < prog[r].size()) return false;
    return true;
}
void drive(Communicator& c, const Pattern& p, int r, const std::vector<int>& prog, const std::vector<int>& types, int round, bool poll, const Executor& ex, const std::string* names = NAMES)
{
    std::vector<std::unique_ptr<Exchange>> x;
    for (size_t k = 0; k < types.size(); ++k) x.push_back(make(types[k], p, r, round * 10 + int(k), names[k], ex));
    for (int op : prog)
    {
        if (op < 8) x[size_t(op)]->start(c);
        else
        {
            const std::string& name = names[op - 8];
            if (poll && c.isComplete(name) && prog.size() == 2) MC_CHECK(fmpi::active() == 0, "complete-early", "rank ", r, " is told '", name, "' is complete while ", fmpi::active(), " transfers are not");
            x[size_t(op - 8)]->finish(c);
        }
    }
    MC_STEP("rank ", r, " finished round ", round);
}
Executor execOfRank(int e, int r) { return execOf((e + r) % 3); }
void noTagClash(const std::string* n, int k)
{
    for (int i = 0; i < k; ++i)
        for (int j = 0; j < i; ++j)
            if (mpi::bufferHash(n[i]) == mpi::bufferHash(n[j])) mc::fail("tag-clash-of-test-names", mc::cat("'", n[i], "' and '", n[j], "' share a tag"));
}
// ---- one exchange over everything ---------------------------------------------------------------
void single()
{
    int n = 2 + choose(2, "ranks"), mode = choose(fmpi::Modes, "mode"), type = choose(4, "type"), e = choose(3, "executor"), variant = choose(4, "maps"), poll = choose(2, "poll");
    Pattern p = n == 2 ? pattern(2, L2[choose(6, "lengths")], variant) : pattern(3, L3[choose(3, "lengths")], variant);
    kk::begin(kk::Forward);
    mc::setDeviationBound((n == 2 && e == type % 3) || mc::thorough() ? 2 : 1);
    MC_STEP(p.text);
    fmpi::run(n, mode, [&](int r)
    {
        Communicator c(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
        drive(c, p, r, {0, 8}, {type}, 0, poll, execOfRank(e, r));
    });
}
// ---- two in flight --------------------------------------------------------------------------------
void two()
{
    int n = 2, mode = choose(fmpi::Modes, "mode"), mix = choose(3, "types"), poll = choose(2, "poll"), l = choose(3, "lengths");
    static const auto P = programs(2);
    std::vector<std::vector<int>> prog;
    for (int r = 0; r < n; ++r) prog.push_back(P[size_t(choose(int(P.size()), "program"))]);
    if (!terminates(prog)) mc::prune();
    Pattern p = pattern(2, L2[l + 1], l);
    noTagClash(NAMES, 2);
    kk::begin(kk::Forward);
    mc::setDeviationBound(mc::thorough() ? 2 : 1);
    static const int TY[3][2] = {{0, 0}, {0, 2}, {1, 0}};
    fmpi::run(n, mode, [&](int r)
    {
        Communicator c(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
        drive(c, p, r, prog[size_t(r)], {TY[mix][0], TY[mix][1]}, 0, poll, execOf(r));
        drive(c, p, r, {0, 1, 8, 9}, {TY[mix][1], 1}, 1, false, execOf(r)); // the buffers serve again
    });
}
// ---- three in flight --------------------------------------------------------------------------------
void three()
{
    int n = 2, mode = choose(fmpi::Modes, "mode"), mix = choose(2, "types");
    static const auto P = programs(3);
    std::vector<std::vector<int>> prog;
    prog.push_back(P[size_t(choose(int(P.size()), "program"))]);
    prog.push_back(P[size_t(choose(int(P.size()), "program"))]);
    if (!terminates(prog)) mc::prune();
    Pattern p = pattern(2, L2[1], 1);
    noTagClash(NAMES, 3);
    kk::begin(kk::Forward);
    mc::setDeviationBound(mc::thorough() ? 1 : 0);
    fmpi::run(n, mode, [&](int r)
    {
        Communicator c(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
        drive(c, p, r, prog[size_t(r)], mix ? std::vector<int> {0, 1, 2} : std::vector<int> {0, 0, 0}, 0, false, execOf(0));
    });
}
void threeRanks()
{
    int n = 3, mode = choose(fmpi::Modes, "mode"), l = choose(3, "lengths");
    static const auto P = programs(2);
    std::vector<std::vector<int>> prog;
    for (int r = 0; r < n; ++r) prog.push_back(P[size_t(choose(int(P.size()), "program"))]);
    if (!terminates(prog)) mc::prune();
    Pattern p = pattern(3, L3[l], l + 1);
    noTagClash(NAMES, 2);
    kk::begin(kk::Forward);
    mc::setDeviationBound(1);
    if (!mc::thorough()) mc::setDeviationBound(prog[0] == prog[1] && prog[1] == prog[2] ? 1 : 0);
    fmpi::run(n, mode, [&](int r)
    {
        Communicator c(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
        drive(c, p, r, prog[size_t(r)], {0, 2}, 0, true, execOf(r));
    });
}
// ---- rounds: every history of starting, polling and finishing with repeated names --------------------
void rounds()
{
    int mode = choose(fmpi::Modes, "mode"), len = mc::thorough() ? 8 : 5;
    // one history for both ranks; switching and completion differ
    std::vector<int> ops;
    std::array<int, 3> flying {};
    int open = 0;
    for (int i = 0; i < len; ++i)
    {
        int op = choose(3, "name");
        ops.push_back(flying[size_t(op)] ? op + 8 : op);
        open += flying[size_t(op)] ? -1 : 1;
        flying[size_t(op)] ^= 1;
    }
    for (int k = 0; k < 3; ++k)
        if (flying[size_t(k)]) ops.push_back(k + 8);
    noTagClash(NAMES, 3);
    kk::begin(kk::Forward);
    mc::setDeviationBound(1);
    Pattern p = pattern(2, L2[2], 3);
    fmpi::run(2, mode, [&](int r)
    {
        Communicator c;
        c = Communicator(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
        std::array<std::unique_ptr<Exchange>, 3> x;
        for (size_t i = 0; i < ops.size(); ++i)
        {
            int op = ops[i];
            if (op < 8)
            {
                x[size_t(op)] = make(int(i + size_t(op)) % 3, p, r, int(i), NAMES[op], execOf(0));
                x[size_t(op)]->start(c);
            }
            else x[size_t(op - 8)]->finish(c);
        }
        MC_STEP("rank ", r, " finished a history of ", ops.size());
    });
}
// ---- many entries, many ranks, many names -------------------------------------------------------------
void large()
{
    int n = 2 + choose(4, "ranks"), mode = choose(fmpi::Modes, "mode"), type = choose(4, "type"), variant = choose(4, "maps"), k = choose(5, "lengths"), e = mc::thorough() ? choose(3, "executor") : (type + k) % 3;
    static const int S[] = {0, 1, 16, 70, 300, 1100, 0, 3};
    std::vector<std::vector<int>> len(size_t(n), std::vector<int>(size_t(n), 0));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) len[size_t(i)][size_t(j)] = S[(k * (i + 1) + j * (k + 2) + i * j) % 8];
    Pattern p = pattern(n, len, variant);
    std::vector<std::string> names;
    for (int i = 0; i < 6; ++i) names.push_back(mc::cat("field ", i));
    noTagClash(names.data(), 6);
    kk::begin(kk::Forward);
    mc::setDeviationBound(0);
    MC_STEP(p.text);
    fmpi::run(n, mode, [&](int r)
    {
        Communicator c(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
        drive(c, p, r, {0, 1, 2, 3, 4, 5, 10, 8, 13, 9, 12, 11}, {type, (type + 1) % 4, (type + 2) % 4, type, (type + 3) % 4, type}, 0, false, execOfRank(e, r), names.data());
        drive(c, p, r, {3, 0, 11, 1, 8, 9}, {type, (type + 2) % 4, type, type}, 1, false, execOfRank(e, r), names.data());
    });
    mc::noteState(mc::cat(n, k, type, variant));
}
// ---- buffers are reused: a long history needs no more memory than a short one --------------------------
void bounded()
{
    int type = choose(4, "type"), other = choose(4, "other type"), mode = choose(fmpi::Modes, "mode"), same = choose(2, "names"), both = choose(2, "in flight");
    Pattern p = pattern(1, {{1500}}, 0);
    kk::begin(kk::Forward);
    mc::setDeviationBound(0);
    fmpi::run(1, mode, [&](int r)
    {
        Communicator c(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
        std::string names[] = {"p", "U"};
        auto round = [&](int k)
        {
            if (!same) names[0] = mc::cat("p", k % 3), names[1] = mc::cat("U", k % 2);
            drive(c, p, r, both ? std::vector<int> {0, 1, 9, 8} : std::vector<int> {0, 8, 1, 9}, {type, other}, k % 5, false, Executor(SerialExecutor()), names);
        };
        for (int k = 0; k < 8; ++k) round(k);
        size_t before = __sanitizer_get_current_allocated_bytes();
        for (int k = 0; k < 24; ++k) round(k);
        size_t now = __sanitizer_get_current_allocated_bytes();
        MC_CHECK(now < before + 24 * 1500, "buffers-reused", "48 more exchanges of 1500 values of types ", type, " and ", other, " needed ", (now - before) / 1500, " more bytes per value");
    });
    mc::noteState(mc::cat(type, other, mode, same, both));
}
// ---- names that share a tag ---------------------------------------------------------------------------
std::pair<std::string, std::string> clash()
{
    std::map<int, std::string> seen;
    for (int i = 0; i < 100000; ++i)
    {
        auto s = mc::cat("field", i);
        auto [it, fresh] = seen.emplace(mpi::bufferHash(s), s);
        if (!fresh) return {it->second, s};
    }
    return {"", ""};
}
void sharedTag()
{
    int mode = choose(fmpi::Modes, "mode");
    static const auto P = programs(2);
    std::vector<std::vector<int>> prog;
    for (int r = 0; r < 2; ++r) prog.push_back(P[size_t(choose(int(P.size()), "program"))]);
    if (!terminates(prog)) mc::prune();
    static const auto names = clash();
    if (names.first.empty()) mc::prune();
    std::string nm[2] = {names.first, names.second};
    bool swapped = (std::find(prog[0].begin(), prog[0].end(), 0) < std::find(prog[0].begin(), prog[0].end(), 1)) != (std::find(prog[1].begin(), prog[1].end(), 0) < std::find(prog[1].begin(), prog[1].end(), 1));
    Pattern p = pattern(2, L2[1], 0);
    kk::begin(kk::Forward);
    mc::setDeviationBound(1);
    try
    {
        fmpi::run(2, mode, [&](int r)
        {
            Communicator c(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
            drive(c, p, r, prog[size_t(r)], {0, 0}, 0, false, execOf(0), nm);
        });
    }
    catch (const mc::Violation& v)
    { // a finding of its own: names with one tag, started in different orders
        if (swapped && v.sig == "halo") mc::fail("names-share-a-tag", mc::cat("exchanges '", nm[0], "' and '", nm[1], "' have the same tag and the ranks start them in different orders: ", v.msg));
        throw;
    }
    MC_STEP("names with one tag");
}
#ifdef NF_DEBUG
void misuse()
{
    int call = choose(5, "call"), other = choose(2, "another exchange in flight");
    kk::begin(kk::Forward);
    mc::setDeviationBound(0);
    fmpi::run(2, fmpi::Eager, [&](int r)
    {
        Pattern p = pattern(2, L2[0], 0);
        Communicator c(mpi::MPIEnvironment(), commMap(p.send[size_t(r)]), commMap(p.recv[size_t(r)]));
        Of<double> a(p, r, 0, "a", execOf(0)), b(p, r, 1, "b", execOf(0)), again(p, r, 2, "a", execOf(0));
        if (other) b.start(c);
        if (call == 0 || call == 4) a.start(c);
        if (call == 3) a.start(c), a.finish(c);
        mc::expectAnyError(
            "misuse",
            [&]
            {
                if (call == 0) c.startComm(again.f, "a");                            // in flight
                if (call == 1) c.finaliseComm(again.f, "a");                         // never started
                if (call == 2) c.isComplete("a");                                    // never started
                if (call == 3) c.finaliseComm(again.f, "a");                         // finished
                if (call == 4) Communicator(mpi::MPIEnvironment(), CommMap(1), CommMap(2)); // wrong number of ranks
            },
            mc::cat("call ", call)
        );
        if (call == 0 || call == 4) a.finish(c);
        if (other) b.finish(c);
        MC_STEP("misuse ", call);
    });
}
#endif
}
MC_SCENARIO(single_, "one exchange: two and three ranks x transfer modes x 4 value types x executors x 4 kinds of maps x 6 (3) length matrices, switches and late completions with 2 deviations (1 for three ranks and for two thirds of the type/executor pairs in quick)") { single(); }
MC_SCENARIO(two_, "two named exchanges in flight on two ranks: all pairs of programs, value types, maps, transfer modes, 1 deviation (2 thorough); then two more with the same communicator") { two(); }
MC_SCENARIO(three_, "three named exchanges on two ranks: all 8100 pairs of programs that terminate x modes x types") { three(); }
MC_SCENARIO(three_ranks, "two named exchanges on three ranks: all 216 triples of programs that terminate") { threeRanks(); }
MC_SCENARIO(rounds_, "all histories of 5 (8 thorough) starts and finishes of three names, types changing, x modes, 1 deviation") { rounds(); }
MC_SCENARIO(large_, "six named exchanges in flight between two to five ranks, then two more: 0 to 1100 halo entries per pair in five arrangements x 4 kinds of maps x value types (x executors, thorough) x transfer modes") { large(); }
MC_SCENARIO(bounded_, "histories of 16 and of 64 exchanges of 1500 entries of a rank with itself x value types x transfer modes x names: the memory in use does not grow") { bounded(); }
MC_SCENARIO(shared_tag, "two names with the same tag: all pairs of programs, 1 deviation") { sharedTag(); }
#ifdef NF_DEBUG
MC_SCENARIO(misuse_, "debug builds: calls for names in the wrong state are refused") { misuse(); }
#endif
