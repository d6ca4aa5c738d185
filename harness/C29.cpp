// Point-to-point buffers over every message pattern, completion order and reuse history (bounded).
#include "mc.hpp"
#include "fakempi.hpp"
#include "NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp"
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
#include <array>
using namespace NeoFOAM;
using namespace NeoFOAM::mpi;
using mc::choose;
using std::size_t;

namespace
{
using Matrix = std::vector<std::vector<size_t>>; // [from][to]
std::string show(const Matrix& m)
{
    std::string s;
    for (auto& r : m)
        for (auto v : r) s += mc::cat(s.empty() ? "" : " ", v);
    return s;
}
template<typename T>
T item(int salt, int from, int to, size_t i) // distinct, every byte used
{
    double d = 1 + salt * 37 + from * 11 + to * 5 + double(i) * 3;
    if constexpr (sizeof(T) == 1) return static_cast<T>(int(d) % 119 + 1);
    else if constexpr (std::is_same_v<T, Vector>) return Vector(d, -2 * d, d / 3);
    else return static_cast<T>(d + 0.25);
}
template<typename T>
bool equalItems(const T& a, const T& b)
{
    if constexpr (std::is_same_v<T, Vector>) return a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    else return a == b;
}
// all 0/1/2 matrices for two ranks; for three ranks linear patterns and one-hot ones
Matrix pickMatrix(int n, bool all)
{
    Matrix m(size_t(n), std::vector<size_t>(size_t(n), 0));
    if (n < 3 && all)
        for (auto& r : m)
            for (auto& v : r) v = size_t(choose(3, "message size"));
    else
    {
        int k = choose(n * n + 9, "message pattern");
        if (k < n * n) m[size_t(k / n)][size_t(k % n)] = 2;
        else
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) m[size_t(i)][size_t(j)] = size_t((1 + i * ((k - n * n) / 3) + j * ((k - n * n) % 3)) % 3);
    }
    return m;
}
std::vector<size_t> sendSizes(const Matrix& m, int r) { return m[size_t(r)]; }
std::vector<size_t> recvSizes(const Matrix& m, int r)
{
    std::vector<size_t> s;
    for (auto& row : m) s.push_back(row[size_t(r)]);
    return s;
}
// ---- a name each: which thing is used in what manner ----------------------------------------
template<typename T, typename B>
void load(B& get, const Matrix& m, int r, int salt)
{
    for (int to = 0; to < int(m.size()); ++to)
    {
        auto s = get(size_t(to));
        MC_CHECK(s.size() == m[size_t(r)][size_t(to)], "send-size", "the send buffer of rank ", r, " for rank ", to, " has ", s.size(), " entries, announced were ", m[size_t(r)][size_t(to)]);
        for (size_t i = 0; i < s.size(); ++i) s[i] = item<T>(salt, r, to, i);
    }
}
template<typename T, typename B>
void arrived(B& get, const Matrix& m, int r, int salt, const char* when)
{
    for (int from = 0; from < int(m.size()); ++from)
    {
        auto s = get(size_t(from));
        MC_CHECK(s.size() == m[size_t(from)][size_t(r)], "receive-size", "the receive buffer of rank ", r, " for rank ", from, " has ", s.size(), " entries, announced were ", m[size_t(from)][size_t(r)]);
        for (size_t i = 0; i < s.size(); ++i)
            MC_CHECK(equalItems(s[i], item<T>(salt, from, r, i)), "value", when, ": entry ", i, " from rank ", from, " at rank ", r, " is not what was loaded (sizes ", show(m), ", exchange ", salt, ")");
    }
}
const std::string NAMES[] = {"alpha", "beta", "", "a name with spaces that is quite a bit longer than the others"};

// ---- two half buffers -------------------------------------------------------------------------
template<typename T>
void halfExchange(HalfDuplexCommBuffer& s, HalfDuplexCommBuffer& v, const Matrix& m, int r, int salt, const std::string& name, int order)
{
    s.initComm<T>(name);
    v.initComm<T>(name);
    MC_CHECK(s.isCommInit() && v.isCommInit() && s.getCommName() == name, "init", "a buffer initialised as '", name, "' says it is '", s.getCommName(), "'");
    auto out = [&](size_t k) { return s.get<T>(k); };
    auto in = [&](size_t k) { return v.get<T>(k); };
    load<T>(out, m, r, salt);
    if (order % 2) v.receive(), s.send();
    else s.send(), v.receive();
    if (order / 2 % 2)
    { // one look before waiting
        size_t open = fmpi::active();
        bool done = v.isComplete();
        MC_CHECK(!done || fmpi::active() <= open, "poll", "polling posted something");
        if (done) arrived<T>(in, m, r, salt, "complete according to isComplete");
    }
    if (order / 4 % 2) s.waitComplete(), v.waitComplete();
    else v.waitComplete(), s.waitComplete();
    MC_CHECK(fmpi::active() == 0, "complete-early", "rank ", r, " has ", fmpi::active(), " unfinished transfers after waiting");
    arrived<T>(in, m, r, salt, "after waiting");
    auto look = [&](size_t k) { return std::as_const(v).get<T>(k); };
    arrived<T>(look, m, r, salt, "through a constant buffer");
    s.finaliseComm();
    v.finaliseComm();
    MC_CHECK(!s.isCommInit() && !v.isCommInit(), "release", "a finalised buffer says it is in use");
    if (!name.empty()) MC_CHECK(s.getCommName() != name && v.getCommName() != name, "release", "a finalised buffer still says it is '", name, "'");
    MC_STEP("rank ", r, " finished exchange ", salt);
}
template<typename T>
void half(int n)
{
    int mode = choose(fmpi::Modes, "mode"), order = choose(8, "order of calls");
    Matrix m = pickMatrix(n, true);
    mc::setDeviationBound(mc::thorough() ? 2 : 1);
    MC_STEP("sizes ", show(m), ", mode ", mode, ", order ", order);
    fmpi::run(n, mode, [&](int r)
    {
        MPIEnvironment env;
        HalfDuplexCommBuffer s(env, sendSizes(m, r)), v(env, recvSizes(m, r));
        halfExchange<T>(s, v, m, r, 0, NAMES[0], order);
    });
}
// ---- reuse --------------------------------------------------------------------------------------
template<typename F>
void withType(int t, F&& f)
{
    if (t == 0) f(char {});
    if (t == 1) f(double {});
    if (t == 2) f(int {});
    if (t == 3) f(Vector {});
    if (t == 4) f(float {});
}
void halfReuse()
{
    const int n = 2;
    int rounds = mc::thorough() ? 4 : 3;
    int mode = choose(fmpi::Modes, "mode"), order = choose(4, "order of calls") * 2;
    std::vector<int> type, name;
    std::vector<bool> resized;
    std::vector<Matrix> ms;
    static const Matrix M[] = {{{1, 2}, {1, 0}}, {{0, 1}, {2, 2}}, {{2, 0}, {0, 1}}, {{3, 1}, {2, 3}}, {{0, 0}, {0, 0}}};
    for (int k = 0; k < rounds; ++k)
    {
        type.push_back(choose(4, "type"));
        name.push_back(k % 3);
        int pick = choose(k ? 6 : 4, "sizes");
        resized.push_back(k == 0 || pick != 5); // 5: as they are
        ms.push_back(pick == 5 ? ms.back() : M[pick]);
    }
    mc::setDeviationBound(mc::thorough() ? 1 : 0);
    fmpi::run(n, mode, [&](int r)
    {
        MPIEnvironment env;
        HalfDuplexCommBuffer s, v;
        s.setMPIEnvironment(env);
        v.setMPIEnvironment(env);
        for (int k = 0; k < rounds; ++k)
        {
            auto K = size_t(k);
            withType(type[K], [&](auto t)
            {
                using T = decltype(t);
                // sizes may be announced for another type than the one communicated
                if (resized[K] && k % 2) s.setCommRankSize<T>(sendSizes(ms[K], r)), v.setCommRankSize<T>(recvSizes(ms[K], r));
                else if (resized[K]) s.setCommRankSize<short>(sendSizes(ms[K], r)), v.setCommRankSize<double>(recvSizes(ms[K], r));
                halfExchange<T>(s, v, ms[K], r, k, NAMES[name[K]], order);
            });
        }
    });
}
// ---- full duplex --------------------------------------------------------------------------------
template<typename T>
void exchange(FullDuplexCommBuffer& b, const Matrix& m, int r, int salt, const std::string& name, int how)
{
    b.initComm<T>(name);
    MC_CHECK(b.isCommInit(), "init", "an initialised buffer says it is not");
    auto out = [&](size_t k) { return b.getSend<T>(k); };
    auto in = [&](size_t k) { return b.getReceive<T>(k); };
    load<T>(out, m, r, salt);
    b.startComm();
    for (int k = 0; k < how; ++k)
    {
        if (!b.isComplete()) continue;
        MC_CHECK(fmpi::active() == 0, "complete-early", "rank ", r, " is told its exchange is complete while ", fmpi::active(), " transfers are not");
        arrived<T>(in, m, r, salt, "complete according to isComplete");
    }
    b.waitComplete();
    MC_CHECK(fmpi::active() == 0, "complete-early", "rank ", r, " has ", fmpi::active(), " unfinished transfers after waiting");
    MC_CHECK(b.isComplete(), "complete-late", "a complete exchange says it is not");
    arrived<T>(in, m, r, salt, "after waiting");
    b.finaliseComm();
    MC_CHECK(!b.isCommInit(), "release", "a finalised buffer says it is in use");
}
template<typename T>
void full(int n, bool all, int bound)
{
    int mode = choose(fmpi::Modes, "mode"), polls = choose(3, "polls");
    Matrix m = pickMatrix(n, all);
    mc::setDeviationBound(bound);
    MC_STEP("sizes ", show(m), ", mode ", mode, ", ", polls, " polls");
    fmpi::run(n, mode, [&](int r)
    {
        FullDuplexCommBuffer b(MPIEnvironment(), sendSizes(m, r), recvSizes(m, r));
        exchange<T>(b, m, r, 0, NAMES[1], polls);
    });
}
// messages of many sizes between up to five ranks, then other types with the same buffers
void large()
{
    int n = 2 + choose(4, "ranks"), mode = choose(fmpi::Modes, "mode"), type = choose(5, "type"), k = choose(6, "sizes"), how = choose(2, "polls");
    static const size_t S[] = {0, 1, 17, 64, 65, 256, 1000, 5000, 33000};
    Matrix m(size_t(n), std::vector<size_t>(size_t(n), 0));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) m[size_t(i)][size_t(j)] = S[(k * (i + 1) + j * (k + 2) + i * j) % (n == 2 ? 9 : 8)];
    MC_STEP("sizes ", show(m), ", mode ", mode);
    mc::setDeviationBound(0);
    fmpi::run(n, mode, [&](int r)
    {
        FullDuplexCommBuffer b(MPIEnvironment(), sendSizes(m, r), recvSizes(m, r));
        withType(type, [&](auto t) { exchange<decltype(t)>(b, m, r, 0, NAMES[0], how); });
        withType((type + 1) % 5, [&](auto t) { exchange<decltype(t)>(b, m, r, 1, NAMES[3], how); });
    });
    mc::noteState(mc::cat(n, k, type));
}
// several exchanges with the same buffer, other types and names; no barrier between them
void fullReuse()
{
    int n = 2 + choose(2, "ranks"), mode = choose(fmpi::Modes, "mode");
    static const Matrix M2[] = {{{1, 2}, {1, 0}}, {{0, 2}, {0, 1}}}, M3[] = {{{0, 1, 2}, {2, 0, 1}, {0, 0, 1}}, {{1, 0, 2}, {0, 0, 0}, {3, 1, 0}}};
    const Matrix& m = n == 2 ? M2[choose(2, "sizes")] : M3[choose(2, "sizes")];
    int rounds = n == 2 ? 3 : 2, same = choose(2, "names");
    std::vector<int> type;
    for (int k = 0; k < rounds; ++k) type.push_back(choose(4, "type"));
    mc::setDeviationBound(mc::thorough() && n == 2 ? 2 : 1);
    fmpi::run(n, mode, [&](int r)
    {
        FullDuplexCommBuffer b(MPIEnvironment(), sendSizes(m, r), recvSizes(m, r));
        for (int k = 0; k < rounds; ++k) withType(type[size_t(k)], [&](auto t) { exchange<decltype(t)>(b, m, r, k, NAMES[same ? 0 : k], 0); });
    });
}
// two and three exchanges in flight, started and finished in different orders by the ranks
void concurrent()
{
    const int n = 2;
    int nb = mc::thorough() ? 3 : 2, mode = choose(fmpi::Modes, "mode");
    static const int P2[2][3] = {{0, 1, 2}, {1, 0, 2}}, P3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    int np = nb == 2 ? 2 : 6;
    auto perm = [&](int p) { return nb == 2 ? P2[p] : P3[p]; };
    std::array<const int*, 2> start, stop;
    start[0] = P3[0];
    stop[0] = perm(choose(np, "order of finishing"));
    start[1] = perm(choose(np, "order of starting"));
    stop[1] = perm(choose(np, "order of finishing"));
    std::vector<Matrix> ms;
    static const Matrix M[] = {{{1, 2}, {2, 0}}, {{0, 2}, {1, 1}}, {{2, 0}, {1, 0}}};
    int shift = mc::thorough() ? 0 : choose(3, "sizes");
    for (int k = 0; k < nb; ++k) ms.push_back(M[mc::thorough() ? choose(3, "sizes") : (shift + k) % 3]);
    MC_CHECK(bufferHash(NAMES[0]) != bufferHash(NAMES[1]) && bufferHash(NAMES[1]) != bufferHash(NAMES[2]) && bufferHash(NAMES[0]) != bufferHash(NAMES[2]), "tags", "names used in the test share a tag");
    mc::setDeviationBound(mc::thorough() ? 2 : 2);
    fmpi::run(n, mode, [&](int r)
    {
        MPIEnvironment env;
        std::vector<FullDuplexCommBuffer> b;
        for (int k = 0; k < nb; ++k) b.emplace_back(env, sendSizes(ms[size_t(k)], r), recvSizes(ms[size_t(k)], r));
        for (int j = 0; j < nb; ++j)
        {
            auto k = size_t(start[size_t(r)][j]);
            b[k].initComm<double>(NAMES[k]);
            auto out = [&](size_t q) { return b[k].getSend<double>(q); };
            load<double>(out, ms[k], r, int(k));
            b[k].startComm();
        }
        for (int j = 0; j < nb; ++j)
        {
            auto k = size_t(stop[size_t(r)][j]);
            auto in = [&](size_t q) { return b[k].getReceive<double>(q); };
            if (b[k].isComplete()) arrived<double>(in, ms[k], r, int(k), "complete according to isComplete");
            b[k].waitComplete();
            arrived<double>(in, ms[k], r, int(k), "after waiting");
            b[k].finaliseComm();
        }
    });
}
// groups other than all ranks: the numbering is that of the group
void groups()
{
    int mode = choose(fmpi::Modes, "mode"), which = choose(4, "group");
    static const std::vector<int> G[] = {{0, 2}, {2, 0}, {1, 2}, {2, 0, 1}};
    const auto& g = G[which];
    Matrix m = pickMatrix(int(g.size()), false);
    mc::setDeviationBound(1);
    int comm = 0;
    fmpi::run(3, mode, [&](int r)
    {
        if (!comm) comm = fmpi::makeComm(g);
        int at = int(std::find(g.begin(), g.end(), r) - g.begin());
        if (at == int(g.size())) return;
        MPIEnvironment env(comm);
        MC_CHECK(env.rank() == size_t(at) && env.sizeRank() == g.size(), "group", "rank ", r, " is number ", env.rank(), " of ", env.sizeRank(), " in its group, expected ", at, " of ", g.size());
        FullDuplexCommBuffer b(env, sendSizes(m, at), recvSizes(m, at));
        exchange<int>(b, m, at, 0, NAMES[0], 1);
    });
}
void tags()
{
    static const char* PART[] = {"p", "U", "phi", "/a/b.cpp", "42", ""};
    std::string a = std::string(PART[choose(6, "first part")]) + PART[choose(6, "second part")] + PART[choose(6, "third part")];
    int t = bufferHash(a);
    MC_CHECK(t >= 0 && t <= 32767, "tag-range", "'", a, "' has tag ", t);
    MC_CHECK(t == bufferHash(a), "tag-stable", "'", a, "' has two tags");
    MC_STEP(a, " ", t);
    mc::noteState(mc::cat(t));
}
// all names of four characters over 24 letters: each of the tags is reached about ten times
void tagsMany()
{
    static const char L[] = "aAbfkpUz019_/.-~ x:i\xff\t\x80";
    constexpr int N = int(sizeof L) - 1;
    std::string a(4, ' ');
    a[0] = L[choose(N, "first letter")];
    a[1] = L[choose(N, "second letter")];
    int lo = 1 << 30, hi = -1;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j)
        {
            a[2] = L[i];
            a[3] = L[j];
            int t = bufferHash(a);
            MC_CHECK(t >= 0 && t <= 32767, "tag-range", "'", a, "' has tag ", t);
            MC_CHECK(t == bufferHash(std::string(a.data(), 4)), "tag-stable", "'", a, "' has two tags");
            lo = std::min(lo, t);
            hi = std::max(hi, t);
        }
    MC_STEP(a[0], a[1], ": ", lo, " to ", hi);
    mc::noteState(mc::cat(lo, " ", hi));
}
#ifdef NF_DEBUG
// calls that must be refused in debug builds, at every stage of an exchange
void misuse()
{
    int stage = choose(3, "stage"), call = choose(10, "call"), mode = choose(2, "mode") ? fmpi::Rendezvous : fmpi::Immediate;
    mc::setDeviationBound(0);
    bool allowed = true;
    // 0: released, 1: initialised, 2: communicating
    static const bool OK[10][3] = {
        {true, false, false}, // initComm
        {true, false, false}, // setCommRankSize
        {false, true, false}, // send
        {false, true, false}, // receive
        {false, true, false}, // finaliseComm
        {false, true, true},  // get
        {false, true, true},  // constant get
        {false, false, false},// get with another type
        {false, true, true},  // isComplete
        {false, true, true}   // constant get with another type is checked below
    };
    allowed = OK[call][stage];
    if (call == 9) allowed = false;
    fmpi::run(2, mode, [&](int r)
    {
        Matrix m {{0, 1}, {1, 0}};
        MPIEnvironment env;
        HalfDuplexCommBuffer s(env, sendSizes(m, r)), v(env, recvSizes(m, r));
        if (stage >= 1) s.initComm<double>("x"), v.initComm<double>("x");
        if (r == 0 && stage == 2)
        { // its peer has not even begun
            s.send();
            bool refused = false;
            try
            {
                if (call == 0) s.initComm<double>("y");
                if (call == 1) s.setCommRankSize<double>({0, 1});
                if (call == 2) s.send();
                if (call == 3) s.receive();
                if (call == 4) s.finaliseComm();
                if (call == 5) s.get<double>(1);
                if (call == 6) std::as_const(s).get<double>(1);
                if (call == 7) s.get<char>(1);
                if (call == 8) s.isComplete();
                if (call == 9) std::as_const(s).get<float>(1);
            }
            catch (const mc::ExitCalled&)
            {
                refused = true;
            }
            catch (const std::exception&)
            {
                refused = true;
            }
            MC_CHECK(refused != allowed, "misuse", "call ", call, " on a communicating buffer was ", refused ? "refused" : "accepted");
            v.receive();
            s.waitComplete(), v.waitComplete(), s.finaliseComm(), v.finaliseComm();
        }
        else if (stage == 2)
        {
            s.send(), v.receive(), s.waitComplete(), v.waitComplete(), s.finaliseComm(), v.finaliseComm();
        }
        else if (r == 0 && !allowed)
        {
            bool refused = false;
            try
            {
                if (call == 0) s.initComm<double>("y");
                if (call == 1) s.setCommRankSize<double>({0, 1});
                if (call == 2) s.send();
                if (call == 3) s.receive();
                if (call == 4) s.finaliseComm();
                if (call == 5) s.get<double>(1);
                if (call == 6) std::as_const(s).get<double>(1);
                if (call == 7) s.get<char>(1);
                if (call == 8) s.isComplete();
                if (call == 9) std::as_const(s).get<float>(1);
            }
            catch (const mc::ExitCalled&)
            {
                refused = true;
            }
            catch (const std::exception&)
            {
                refused = true;
            }
            MC_CHECK(refused, "misuse", "call ", call, " on a buffer that is ", stage ? "initialised" : "released", " was accepted");
        }
        MC_STEP("misuse ", call, " at stage ", stage);
    });
}
#endif
}
MC_SCENARIO(half_two_double, "two half buffers per rank, two ranks: all 0..2 size matrices (81) x three transfer modes x 8 call orders, all rank switches and late completions with 1 deviation (2 thorough)") { half<double>(2); }
MC_SCENARIO(half_two_char, "the same for char") { half<char>(2); }
MC_SCENARIO(half_three, "the same for three ranks, 18 size matrices, vectors") { half<Vector>(3); }
MC_SCENARIO(half_reuse, "three (four thorough) exchanges with the same buffers: all sequences of 4 types and of sizes announced anew or kept") { halfReuse(); }
MC_SCENARIO(full_two, "full duplex, two ranks: all 0..2 size matrices x modes x 0..2 polls, 1 deviation (2 thorough)") { full<double>(2, true, mc::thorough() ? 2 : 1); }
MC_SCENARIO(full_two_int, "the same for int, 13 size matrices, 2 deviations (3 thorough)") { full<int>(2, false, mc::thorough() ? 3 : 2); }
MC_SCENARIO(full_three, "full duplex, three ranks: 18 size matrices x modes x 0..2 polls, 1 deviation (2 thorough)") { full<double>(3, false, mc::thorough() ? 2 : 1); }
MC_SCENARIO(large_, "two to five ranks, messages of 0 to 33000 entries in six arrangements, five types one after the other, x transfer modes") { large(); }
MC_SCENARIO(full_reuse, "two or three exchanges one after the other on two or three ranks, all type sequences, same or other names, rank switches anywhere") { fullReuse(); }
MC_SCENARIO(concurrent_, "two (three thorough) named exchanges in flight on two ranks: all orders of starting and finishing per rank, three (27 thorough) size combinations, 2 deviations") { concurrent(); }
MC_SCENARIO(groups_, "exchanges within four groups of three ranks") { groups(); }
MC_SCENARIO(tags_, "tags of 216 names") { tags(); }
MC_SCENARIO(tags_many, "tags of all names of four characters over an alphabet of 23") { tagsMany(); }
#ifdef NF_DEBUG
MC_SCENARIO(misuse_, "debug builds: ten calls at three stages of an exchange") { misuse(); }
#endif
