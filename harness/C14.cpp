#include "kkh.hpp"
#include "NeoFOAM/core/parallelAlgorithms.hpp"
using namespace kh;
using mc::choose;

namespace
{
// executor, every iteration order / chunking for up to `all` iterations
Pick pickAll(size_t all = 4)
{
    int e = pickExec();
    kk::begin(kk::All);
    kk::allUpTo(all);
    return {e, execOf(e)};
}
std::string rng(size_t b, size_t e) { return mc::cat("[", b, ",", e, ")"); }
template<typename F>
void onConcrete(const Executor& ex, F f)
{
    std::visit([&](const auto& e) { f(e); }, ex);
}
constexpr size_t N = 7;
}

MC_SCENARIO(loop, "3 executors x ranges [b,b+n), b<=2, n<=4 (5 thorough) inside 7 entries x all iteration orders x both overloads")
{
    int b = choose(3, "begin"), n = choose(mc::thorough() ? 6 : 5, "length");
    auto p = pickAll(5);
    bool direct = choose(2, "overload");
    auto hits = make<label>(p.exec, std::vector<label>(N, 0));
    auto v = hits.view();
    std::pair<size_t, size_t> r {size_t(b), size_t(b + n)};
    auto kernel = KOKKOS_LAMBDA(const size_t i) { v[i] += label(1 + 10 * i); };
    MC_STEP("parallelFor over ", rng(r.first, r.second), " on ", EXEC[p.e]);
    if (direct) onConcrete(p.exec, [&](const auto& e) { NeoFOAM::parallelFor(e, r, kernel); });
    else NeoFOAM::parallelFor(p.exec, r, kernel, "named");
    std::vector<label> want(N, 0);
    for (size_t i = r.first; i < r.second; ++i) want[i] = label(1 + 10 * i);
    checkField(hits, want, "loop", mc::cat("one visit per index of ", rng(r.first, r.second), " on ", EXEC[p.e]));
}

MC_SCENARIO(field_loop, "3 executors x field sizes 0..4 (5) x all iteration orders x both overloads: every entry set to its kernel value once")
{
    size_t n = size_t(choose(mc::thorough() ? 6 : 5, "size"));
    auto p = pickAll(5);
    bool direct = choose(2, "overload");
    auto f = make<scalar>(p.exec, std::vector<scalar>(n, -7));
    auto cnt = make<label>(p.exec, std::vector<label>(n, 0));
    auto c = cnt.view();
    auto kernel = KOKKOS_LAMBDA(const size_t i)
    {
        c[i] += 1;
        return scalar(3.0 * scalar(i) + 1);
    };
    MC_STEP("parallelFor over a field of ", n, " on ", EXEC[p.e]);
    if (direct) onConcrete(p.exec, [&](const auto& e) { NeoFOAM::parallelFor(e, f, kernel); });
    else NeoFOAM::parallelFor(f, kernel);
    std::vector<scalar> want;
    for (size_t i = 0; i < n; ++i) want.push_back(3.0 * scalar(i) + 1);
    checkField(f, want, "field-loop", mc::cat("field of ", n, " on ", EXEC[p.e]));
    checkField(cnt, std::vector<label>(n, 1), "field-loop-count", mc::cat("evaluations of the kernel on ", EXEC[p.e]));
}

namespace
{
template<typename T, typename K>
T reduceWith(int form, const Pick& p, std::pair<size_t, size_t> r, bool overField, Field<scalar>& f, K kernel, T init)
{
    T v = init;
    auto go = [&](auto& target)
    {
        if (overField)
        {
            if (form & 1) onConcrete(p.exec, [&](const auto& e) { NeoFOAM::parallelReduce(e, f, kernel, target); });
            else NeoFOAM::parallelReduce(f, kernel, target);
        }
        else
        {
            if (form & 1) onConcrete(p.exec, [&](const auto& e) { NeoFOAM::parallelReduce(e, r, kernel, target); });
            else NeoFOAM::parallelReduce(p.exec, r, kernel, target);
        }
    };
    switch (form / 2)
    {
    case 0:
        go(v);
        break;
    case 1:
        if constexpr (!std::is_same_v<T, Vector>)
        {
            Kokkos::Sum<T> s(v);
            go(s);
        }
        break;
    case 2:
        if constexpr (!std::is_same_v<T, Vector>)
        {
            Kokkos::Max<T> s(v);
            go(s);
        }
        break;
    default:
        if constexpr (!std::is_same_v<T, Vector>)
        {
            Kokkos::Min<T> s(v);
            go(s);
        }
    }
    return v;
}
}

MC_SCENARIO(reduce, "3 executors x ranges (b<=1,n<=3 (4)) or whole fields x plain/Sum/Max/Min results (scalar, integer, Vector) x both overloads x incoming values of the result x all chunkings, orders of iterations and of combination")
{
    int n = choose(mc::thorough() ? 5 : 4, "length"), b = choose(2, "begin");
    auto p = pickAll(4);
    bool overField = choose(2, "over a field");
    int form = choose(8, "form");
    int type = choose(form / 2 == 0 ? 3 : 2, "type");
    int init = choose(3, "incoming result");
    if (overField && b) mc::prune();
    const std::vector<scalar> data = {-5, -2, -9, -4, -7};
    auto f = make<scalar>(p.exec, std::vector<scalar>(data.begin() + b, data.begin() + b + n));
    auto all = make<scalar>(p.exec, data);
    auto a = all.view();
    const size_t off = overField ? size_t(b) : 0;
    std::pair<size_t, size_t> r {size_t(b), size_t(b + n)};
    scalar start = init == 0 ? 0 : init == 1 ? 100 : -100;
    std::string what = mc::cat(form / 2 == 0 ? "plain" : form / 2 == 1 ? "Sum" : form / 2 == 2 ? "Max" : "Min", " reduction of ", n, " entries on ", EXEC[p.e], ", incoming result ", start);
    MC_STEP(what);
    scalar sum = 0, mx = std::numeric_limits<scalar>::lowest(), mn = std::numeric_limits<scalar>::max();
    for (int i = 0; i < n; ++i)
    {
        scalar d = data[size_t(b + i)];
        sum += d;
        mx = std::max(mx, d);
        mn = std::min(mn, d);
    }
    // an empty max/min has no contributions: the neutral element
    if (type == 0)
    {
        scalar got;
        if (form / 2 <= 1) got = reduceWith<scalar>(form, p, r, overField, f, KOKKOS_LAMBDA(const size_t i, scalar& s) { s += a[i + off]; }, start);
        else if (form / 2 == 2) got = reduceWith<scalar>(form, p, r, overField, f, KOKKOS_LAMBDA(const size_t i, scalar& s) { if (s < a[i + off]) s = a[i + off]; }, start);
        else got = reduceWith<scalar>(form, p, r, overField, f, KOKKOS_LAMBDA(const size_t i, scalar& s) { if (s > a[i + off]) s = a[i + off]; }, start);
        scalar want = form / 2 <= 1 ? sum : form / 2 == 2 ? mx : mn;
        MC_CHECK(got == want, "reduce", what, " gives ", got, ", expected ", want);
    }
    else if (type == 1)
    {
        label got;
        if (form / 2 <= 1) got = reduceWith<label>(form, p, r, overField, f, KOKKOS_LAMBDA(const size_t i, label& s) { s += label(a[i + off]); }, label(start));
        else if (form / 2 == 2) got = reduceWith<label>(form, p, r, overField, f, KOKKOS_LAMBDA(const size_t i, label& s) { if (s < label(a[i + off])) s = label(a[i + off]); }, label(start));
        else got = reduceWith<label>(form, p, r, overField, f, KOKKOS_LAMBDA(const size_t i, label& s) { if (s > label(a[i + off])) s = label(a[i + off]); }, label(start));
        label want = form / 2 <= 1 ? label(sum) : n ? label(form / 2 == 2 ? mx : mn) : form / 2 == 2 ? std::numeric_limits<label>::lowest() : std::numeric_limits<label>::max();
        MC_CHECK(got == want, "reduce", what, " gives ", got, ", expected ", want);
    }
    else
    {
        Vector got = reduceWith<Vector>(form & 1, p, r, overField, f, KOKKOS_LAMBDA(const size_t i, Vector& s) { s += a[i + off] * Vector(1, 2, -1); }, Vector(start, 1, start));
        MC_CHECK(same(got, Vector(sum, 2 * sum, -sum)), "reduce", what, " of vectors gives ", show(got), ", expected ", show(Vector(sum, 2 * sum, -sum)));
    }
    checkField(all, data, "reduce-input", "input of the reduction");
}

MC_SCENARIO(scan, "3 executors x ranges (b<=2,n<=4 (5)) x inclusive/exclusive kernels x with/without total x both overloads x incoming total x all chunkings and orders of the chunks in both passes")
{
    int n = choose(mc::thorough() ? 6 : 5, "length"), b = choose(3, "begin");
    auto p = pickAll(5);
    bool incl = choose(2, "inclusive");
    int form = choose(4, "form"); // 0,1 without total; 2,3 with
    const std::vector<label> data = {3, 0, 4, 1, 5, 9, 2};
    auto in = make<label>(p.exec, data);
    auto out = make<label>(p.exec, std::vector<label>(N, -1));
    auto iv = in.view();
    auto ov = out.view();
    std::pair<size_t, size_t> r {size_t(b), size_t(b + n)};
    auto kernel = KOKKOS_LAMBDA(const size_t i, label& up, const bool final)
    {
        if (!incl && final) ov[i] = up;
        up += iv[i];
        if (incl && final) ov[i] = up;
    };
    MC_STEP(incl ? "inclusive" : "exclusive", " scan of ", rng(r.first, r.second), " on ", EXEC[p.e]);
    label total = choose(2, "incoming total") ? 50 : 0;
    if (form == 0) NeoFOAM::parallelScan(p.exec, r, kernel);
    else if (form == 1) onConcrete(p.exec, [&](const auto& e) { NeoFOAM::parallelScan(e, r, kernel); });
    else if (form == 2) NeoFOAM::parallelScan(p.exec, r, kernel, total);
    else onConcrete(p.exec, [&](const auto& e) { NeoFOAM::parallelScan(e, r, kernel, total); });
    std::vector<label> want(N, -1);
    label acc = 0;
    for (size_t i = r.first; i < r.second; ++i)
    {
        if (!incl) want[i] = acc;
        acc += data[i];
        if (incl) want[i] = acc;
    }
    checkField(out, want, "scan", mc::cat("prefix sums of ", rng(r.first, r.second), " on ", EXEC[p.e]));
    if (form >= 2) MC_CHECK(total == acc, "scan-total", "total of ", rng(r.first, r.second), " on ", EXEC[p.e], " is ", total, ", expected ", acc);
    checkField(in, data, "scan-input", "input of the scan");
}

namespace
{
template<typename T>
void ranged(const std::function<T(int)>& mk)
{
    size_t n = size_t(choose(4, "size"));
    int rangeKind = choose(2, "explicit range");
    size_t b = 0, e = n;
    if (rangeKind)
    {
        b = size_t(choose(int(n) + 1, "begin"));
        e = b + size_t(choose(int(n - b) + 1, "length"));
    }
    auto p = pickAll(3);
    int op = choose(5, "operation");
    std::vector<T> old, src, want;
    for (size_t i = 0; i < n; ++i)
    {
        old.push_back(mk(int(i)));
        src.push_back(mk(int(i) + 10));
    }
    auto f = make<T>(p.exec, old);
    auto s = make<T>(p.exec, src);
    want = old;
    T c = mk(20);
    const char* name[] = {"map", "fill", "setField", "apply", "assignment of a value"};
    if (op >= 3 && rangeKind) mc::prune();
    std::string what = mc::cat(name[op], " on ", n, " entries", rangeKind ? " range " + rng(b, e) : std::string(), " on ", EXEC[p.e]);
    MC_STEP(what);
    auto sv = s.view();
    auto kernel = KOKKOS_LAMBDA(const size_t i) { return sv[i]; };
    std::pair<size_t, size_t> r {b, e};
    switch (op)
    {
    case 0:
        rangeKind ? NeoFOAM::map(f, kernel, r) : NeoFOAM::map(f, kernel);
        break;
    case 1:
        rangeKind ? NeoFOAM::fill(f, c, r) : NeoFOAM::fill(f, c);
        break;
    case 2:
    {
        const auto& cs = s;
        rangeKind ? NeoFOAM::setField(f, cs.view(), r) : NeoFOAM::setField(f, cs.view());
        break;
    }
    case 3:
        f.apply(kernel);
        break;
    default:
        f = c;
    }
    for (size_t i = b; i < e; ++i) want[i] = op == 1 || op == 4 ? c : src[i];
    checkField(f, want, op == 1 || op == 4 ? "fill" : op == 2 ? "set" : "map", what);
    checkField(s, src, "map-source", what + ": source");
}
}
MC_SCENARIO(ranged_scalar, "map/fill/setField/apply/value assignment x sizes 0..3 x whole or every sub-range (empty ones included) x 3 executors x all orders, scalars")
{
    ranged<scalar>([](int i) { return scalar(i) + 0.5; });
}
MC_SCENARIO(ranged_vector, "the same for vectors")
{
    ranged<Vector>([](int i) { return Vector(i, -i, 2 * i + 1); });
}
MC_SCENARIO(ranged_index, "the same for indices")
{
    ranged<localIdx>([](int i) { return localIdx(i) + 3; });
}
MC_SCENARIO(large, "34 sizes around block lengths and index widths (7..65537) x 3 executors x forward and reverse orders: loops, reductions, scans, map, fill, setField, value assignment, whole and with an offset")
{
    size_t n = pickLarge(mc::thorough() ? size_t(-1) : 4097), b = choose(2, "offset") ? 3 : 0;
    auto p = pick2();
    int op = choose(7, "operation");
    std::vector<label> src, want(n + b + 2, -1);
    for (size_t i = 0; i < want.size(); ++i) src.push_back(label((i * 7919) % 1013) - 500);
    auto in = make<label>(p.exec, src);
    auto out = make<label>(p.exec, want);
    auto iv = in.view(), ov = out.view();
    std::pair<size_t, size_t> r {b, b + n};
    std::string what = mc::cat("operation ", op, " over ", rng(r.first, r.second), " on ", EXEC[p.e]);
    MC_STEP(what);
    label acc = 0, total = 0;
    for (size_t i = r.first; i < r.second; ++i) acc += src[i];
    switch (op)
    {
    case 0:
        NeoFOAM::parallelFor(p.exec, r, KOKKOS_LAMBDA(const size_t i) { ov[i] += iv[i] + label(i); });
        for (size_t i = r.first; i < r.second; ++i) want[i] += src[i] + label(i);
        break;
    case 1:
        NeoFOAM::parallelReduce(p.exec, r, KOKKOS_LAMBDA(const size_t i, label& s) { s += iv[i]; }, total);
        MC_CHECK(total == acc, "reduce", what, ": the sum is ", total, ", expected ", acc);
        break;
    case 2:
    {
        NeoFOAM::parallelScan(
            p.exec, r, KOKKOS_LAMBDA(const size_t i, label& up, const bool final) {
                up += iv[i];
                if (final) ov[i] = up;
            },
            total
        );
        label a = 0;
        for (size_t i = r.first; i < r.second; ++i) want[i] = (a += src[i]);
        MC_CHECK(total == acc, "scan-total", what, ": the total is ", total, ", expected ", acc);
        break;
    }
    case 3:
        NeoFOAM::map(out, KOKKOS_LAMBDA(const size_t i) { return iv[i] * 2; }, r);
        for (size_t i = r.first; i < r.second; ++i) want[i] = src[i] * 2;
        break;
    case 4:
        NeoFOAM::fill(out, label(42), r);
        for (size_t i = r.first; i < r.second; ++i) want[i] = 42;
        break;
    case 5:
    {
        const auto& c = in;
        NeoFOAM::setField(out, c.view(), r);
        for (size_t i = r.first; i < r.second; ++i) want[i] = src[i];
        break;
    }
    default:
        if (b) mc::prune();
        out = label(9);
        want.assign(want.size(), 9);
    }
    auto got = val(out);
    for (size_t i = 0; i < want.size(); ++i) MC_CHECK(got[i] == want[i], "large", what, ": entry ", i, " is ", got[i], ", expected ", want[i]);
    MC_CHECK(same(val(in), src), "map-source", what, " changed its input");
}
