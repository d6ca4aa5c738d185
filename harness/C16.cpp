#include "kkh.hpp"
#include <limits>
#include "NeoFOAM/fields/operations/sum.hpp"
using namespace kh;
using mc::choose;

namespace
{
template<typename T>
T mk(int i, int salt)
{
    // distinct everywhere, exactly representable results
    if constexpr (std::is_same_v<T, Vector>) return Vector(1 + i + 10 * salt, 0.5 * (i + 1) - 3 * salt, (i % 2 ? -2 : 3) + salt);
    else if constexpr (std::is_same_v<T, scalar>) return (i % 2 ? -1 : 1) * (0.25 + i) + 8 * salt;
    else return static_cast<T>(3 + i * 2 + 5 * salt);
}
template<typename T>
std::vector<T> seq(size_t n, int salt)
{
    std::vector<T> r;
    for (size_t i = 0; i < n; ++i) r.push_back(mk<T>(int(i), salt));
    return r;
}
template<typename T>
std::string name()
{
    if constexpr (std::is_same_v<T, Vector>) return "vectors";
    else if constexpr (std::is_same_v<T, scalar>) return "scalars";
    else return "indices";
}

template<typename T>
void binary()
{
    size_t n = size_t(choose(mc::thorough() ? 7 : 5, "size"));
    auto p = pick();
    int op = choose(6, "operation");
    bool self = choose(2, "operand is the target");
    static const char* N[] = {"+=", "-=", "add", "sub", "+", "-"};
    auto av = seq<T>(n, 0), bv = self ? av : seq<T>(n, 1);
    auto a = make<T>(p.exec, av);
    auto b = make<T>(p.exec, bv);
    const Field<T>& rhs = self ? a : b;
    std::string what = mc::cat(name<T>(), " a ", N[op], self ? " a" : " b", " with ", n, " entries on ", EXEC[p.e]);
    MC_STEP(what);
    std::vector<T> want;
    for (size_t i = 0; i < n; ++i)
    {
        if (op == 0 || op == 2 || op == 4) want.push_back(static_cast<T>(av[i] + bv[i]));
        else want.push_back(static_cast<T>(av[i] - bv[i]));
    }
    auto* storage = a.data();
    bool inPlace = op < 4;
    switch (op)
    {
    case 0:
        MC_CHECK(&(a += rhs) == &a, "returns-target", what, " does not return its target");
        break;
    case 1:
        MC_CHECK(&(a -= rhs) == &a, "returns-target", what, " does not return its target");
        break;
    case 2:
        NeoFOAM::add(a, rhs);
        break;
    case 3:
        NeoFOAM::sub(a, rhs);
        break;
    case 4:
        checkField(a + rhs, want, "binary", what);
        break;
    default:
        checkField(a - rhs, want, "binary", what);
    }
    checkField(a, inPlace ? want : av, inPlace ? "compound" : "operand-changed", what + ": first operand");
    if (!self) checkField(b, bv, "operand-changed", what + ": second operand");
    MC_CHECK(a.data() == storage, "storage", what, ": the storage of the target moved");
}
// multiplication by scalars and scalar fields
template<typename T>
void scale()
{
    size_t n = size_t(choose(mc::thorough() ? 7 : 5, "size"));
    auto p = pick();
    int op = choose(6, "operation");
    static const char* N[] = {"*= field", "* field", "mul field", "*= number", "* number", "scalarMul"};
    constexpr bool isScalar = std::is_same_v<T, scalar>;
    bool self = isScalar && op < 3 ? choose(2, "operand is the target") : false;
    auto av = seq<T>(n, 0);
    std::vector<scalar> bv;
    for (size_t i = 0; i < n; ++i) bv.push_back(mk<scalar>(int(i), 1));
    auto a = make<T>(p.exec, av);
    auto b = make<scalar>(p.exec, bv);
    scalar s = choose(2, "number") ? -1.5 : 0.0;
    if (op < 3 && s == 0.0) mc::prune();
    std::string what = mc::cat(name<T>(), " a ", N[op], self ? " (itself)" : "", " with ", n, " entries on ", EXEC[p.e]);
    MC_STEP(what);
    std::vector<T> want;
    for (size_t i = 0; i < n; ++i)
    {
        if constexpr (isScalar) want.push_back(op >= 3 ? av[i] * s : self ? av[i] * av[i] : av[i] * bv[i]);
        else want.push_back(op >= 3 ? av[i] * s : av[i] * bv[i]);
    }
    const Field<scalar>* rhs = &b;
    if constexpr (isScalar)
        if (self) rhs = &a;
    bool inPlace = op != 1 && op != 4;
    switch (op)
    {
    case 0:
        MC_CHECK(&(a *= *rhs) == &a, "returns-target", what, " does not return its target");
        break;
    case 1:
        checkField(a * *rhs, want, "scale", what);
        break;
    case 2:
        NeoFOAM::mul(a, *rhs);
        break;
    case 3:
        MC_CHECK(&(a *= s) == &a, "returns-target", what, " does not return its target");
        break;
    case 4:
        checkField(a * s, want, "scale", what);
        break;
    default:
        NeoFOAM::scalarMul(a, s);
    }
    checkField(a, inPlace ? want : av, inPlace ? "scale" : "operand-changed", what + ": first operand");
    checkField(b, bv, "operand-changed", what + ": second operand");
}
template<typename T>
void rejected()
{
    size_t n = size_t(choose(4, "size")), k = size_t(choose(4, "other size"));
    if (n == k) mc::prune();
    auto p = pick();
    int op = choose(8, "operation");
    auto av = seq<T>(n, 0), bv = seq<T>(k, 1);
    std::vector<scalar> sv;
    for (size_t i = 0; i < k; ++i) sv.push_back(mk<scalar>(int(i), 1));
    auto a = make<T>(p.exec, av);
    auto b = make<T>(p.exec, bv);
    auto s = make<scalar>(p.exec, sv);
    const Field<T>& cb = b;
    static const char* N[] = {"+=", "-=", "add", "sub", "+", "-", "* scalar field", "*= scalar field"};
    std::string what = mc::cat(name<T>(), " ", N[op], " of ", n, " and ", k, " entries");
    MC_STEP(what);
    mc::expectAnyError(
        "size-mismatch",
        [&]
        {
            switch (op)
            {
            case 0:
                a += cb;
                break;
            case 1:
                a -= cb;
                break;
            case 2:
                NeoFOAM::add(a, cb);
                break;
            case 3:
                NeoFOAM::sub(a, cb);
                break;
            case 4:
                (void)(a + cb);
                break;
            case 5:
                (void)(a - cb);
                break;
            case 6:
                (void)(a * s);
                break;
            default:
                a *= s;
            }
        },
        what
    );
    checkField(a, av, "operand-changed", what + ": first operand after the refusal");
    checkField(b, bv, "operand-changed", what + ": second operand after the refusal");
}
template<typename T>
void equality()
{
    size_t n = size_t(choose(4, "size"));
    auto p = pick();
    int kind = choose(4, "difference"); // none, one entry, size, uniform
    size_t at = n ? size_t(choose(int(n), "where")) : 0;
    int other = choose(3, "executor of the other");
    auto av = seq<T>(n, 0), bv = av;
    if (kind == 1)
    {
        if (!n) mc::prune();
        bv[at] = mk<T>(77, 0);
    }
    if (kind == 2) bv.push_back(mk<T>(5, 0));
    auto a = make<T>(p.exec, av);
    auto b = make<T>(execOf(other), bv);
    const Field<T>&ca = a, &cb = b;
    MC_STEP("comparison of ", name<T>(), " with difference ", kind);
    MC_CHECK(NeoFOAM::equal(ca, cb) == (kind == 0 || kind == 3), "equal", "equal() of ", show(av), " and ", show(bv), " is ", NeoFOAM::equal(ca, cb));
    MC_CHECK(NeoFOAM::equal(cb, ca) == (kind == 0 || kind == 3), "equal", "equal() of ", show(bv), " and ", show(av), " is wrong");
    std::vector<T> hv = bv;
    NeoFOAM::View<T> view(hv.data(), hv.size());
    MC_CHECK(NeoFOAM::equal(ca, view) == (kind == 0 || kind == 3), "equal", "equal() of ", show(av), " and a view of ", show(bv), " is wrong");
    if (kind == 3)
    {
        std::vector<T> u(n, mk<T>(4, 0));
        auto f = make<T>(p.exec, u);
        MC_CHECK(NeoFOAM::equal(f, mk<T>(4, 0)), "equal", "equal() of a uniform field and its value is false");
        if (n)
        {
            u[at] = mk<T>(5, 0);
            put(f, u);
            MC_CHECK(!NeoFOAM::equal(f, mk<T>(4, 0)), "equal", "equal() of ", show(u), " and ", show(mk<T>(4, 0)), " is true");
        }
    }
    checkField(a, av, "operand-changed", "first operand of a comparison");
    checkField(b, bv, "operand-changed", "second operand of a comparison");
}
template<typename T>
void sums()
{
    size_t n = size_t(choose(5, "size"));
    int e = pickExec();
    kk::begin(kk::All);
    kk::allUpTo(4);
    auto v = seq<T>(n, 0);
    auto f = make<T>(execOf(e), v);
    T s = mk<T>(9, 9), want {};
    for (auto& x : v) want += x;
    NeoFOAM::SumKernel k;
    MC_STEP("sum of ", n, " ", name<T>());
    std::visit([&](const auto& ex) { k(ex, f, s); }, execOf(e));
    MC_CHECK(same(s, want), "sum", "sum of ", show(v), " on ", EXEC[e], " is ", show(s), ", expected ", show(want));
    checkField(f, v, "operand-changed", "summed field");
}
}
MC_SCENARIO(binary_scalar, "+= -= add sub + - on scalars, sizes 0..4 (6), self or other operand, 3 executors x 4 orders") { binary<scalar>(); }
MC_SCENARIO(binary_vector, "the same on vectors") { binary<Vector>(); }
MC_SCENARIO(binary_index, "the same on indices") { binary<localIdx>(); }
MC_SCENARIO(binary_label, "the same on labels") { binary<label>(); }
MC_SCENARIO(scale_scalar, "products with numbers and scalar fields on scalars, sizes 0..4, self operand, 3 executors x 4 orders") { scale<scalar>(); }
MC_SCENARIO(scale_vector, "the same on vectors") { scale<Vector>(); }
MC_SCENARIO(rejected_scalar, "all pairs of different sizes up to 3, 8 operations, 3 executors: refused, operands unchanged") { rejected<scalar>(); }
MC_SCENARIO(rejected_vector, "the same on vectors") { rejected<Vector>(); }
MC_SCENARIO(equality_scalar, "comparison of fields, values and views: equal, one differing entry anywhere, different sizes, all executor pairs") { equality<scalar>(); }
MC_SCENARIO(equality_index, "the same on indices") { equality<localIdx>(); }
MC_SCENARIO(sum_scalar, "sum kernel, sizes 0..4, all chunkings and orders") { sums<scalar>(); }
MC_SCENARIO(sum_vector, "the same on vectors") { sums<Vector>(); }
MC_SCENARIO(expressions, "chains of up to 3 (4) compound operations on two scalar fields, 3 executors x 2 orders, against the same chain on plain arrays")
{
    auto p = pick2();
    std::vector<scalar> m[2] = {seq<scalar>(3, 0), seq<scalar>(3, 1)};
    Field<scalar> f[2] = {make<scalar>(p.exec, m[0]), make<scalar>(p.exec, m[1])};
    for (int k = 0; k < (mc::thorough() ? 4 : 3); ++k)
    {
        int a = choose(2, "target"), b = choose(2, "operand"), op = choose(7, "operation");
        auto x = m[a], y = m[b];
        MC_STEP("operation ", op, " of field ", a, " with field ", b);
        switch (op)
        {
        case 0:
            f[a] += f[b];
            for (size_t i = 0; i < 3; ++i) m[a][i] = x[i] + y[i];
            break;
        case 1:
            f[a] -= f[b];
            for (size_t i = 0; i < 3; ++i) m[a][i] = x[i] - y[i];
            break;
        case 2:
            f[a] *= f[b];
            for (size_t i = 0; i < 3; ++i) m[a][i] = x[i] * y[i];
            break;
        case 3:
            f[a] *= scalar(0.5);
            for (size_t i = 0; i < 3; ++i) m[a][i] = x[i] * 0.5;
            break;
        case 4:
            f[a] = f[a] + f[b];
            for (size_t i = 0; i < 3; ++i) m[a][i] = x[i] + y[i];
            break;
        case 5:
            f[a] = f[b] - f[a];
            for (size_t i = 0; i < 3; ++i) m[a][i] = y[i] - x[i];
            break;
        default:
            f[a] = f[b] * scalar(2);
            for (size_t i = 0; i < 3; ++i) m[a][i] = y[i] * 2;
        }
        for (int c = 0; c < 2; ++c) checkField(f[c], m[c], "chain", mc::cat("field ", c, " after operation ", op, " on ", EXEC[p.e]));
    }
}
MC_SCENARIO(vectors, "every operation of the vector type on all component triples over a 4-value alphabet")
{
    static const scalar A[] = {0, 1, -2, 0.5};
    scalar c[6];
    for (auto& x : c) x = A[choose(4, "component")];
    Vector a(c[0], c[1], c[2]), b(c[3], c[4], c[5]);
    const Vector ca = a;
    auto is = [&](const Vector& v, scalar x, scalar y, scalar z, const char* op)
    { MC_CHECK(same(v, Vector(x, y, z)) && v(0) == x && v[1] == y && v(2) == z && v.data()[0] == x && v.data()[1] == y && v.data()[2] == z, "vector", op, " of ", show(a), " and ", show(b), " is ", show(v)); };
    is(ca, c[0], c[1], c[2], "value");
    is(a + b, c[0] + c[3], c[1] + c[4], c[2] + c[5], "+");
    is(a - b, c[0] - c[3], c[1] - c[4], c[2] - c[5], "-");
    is(a * c[3], c[0] * c[3], c[1] * c[3], c[2] * c[3], "* scalar");
    is(c[3] * a, c[0] * c[3], c[1] * c[3], c[2] * c[3], "scalar *");
    is(a * label(3), c[0] * 3, c[1] * 3, c[2] * 3, "* label");
    Vector t = a;
    t += b;
    is(t, c[0] + c[3], c[1] + c[4], c[2] + c[5], "+=");
    t = a;
    t -= b;
    is(t, c[0] - c[3], c[1] - c[4], c[2] - c[5], "-=");
    t = a;
    t *= c[4];
    is(t, c[0] * c[4], c[1] * c[4], c[2] * c[4], "*=");
    t[0] = 5;
    t(1) = 6;
    t.data()[2] = 7;
    is(t, 5, 6, 7, "component assignment");
    is(Vector(c[0]), c[0], c[0], c[0], "uniform");
    is(Vector(), 0, 0, 0, "default");
    is(NeoFOAM::one<Vector>(), 1, 1, 1, "one");
    is(NeoFOAM::zero<Vector>(), 0, 0, 0, "zero");
    MC_CHECK((a == b) == (c[0] == c[3] && c[1] == c[4] && c[2] == c[5]) && a == ca && a.size() == 3, "vector", "== of ", show(a), " and ", show(b));
    MC_CHECK((a & b) == c[0] * c[3] + c[1] * c[4] + c[2] * c[5], "vector", "inner product of ", show(a), " and ", show(b));
    scalar m2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
    MC_CHECK(std::abs(NeoFOAM::mag(a) * NeoFOAM::mag(a) - m2) <= 1e-12 * (1 + m2) && NeoFOAM::mag(a) >= 0, "vector", "magnitude of ", show(a));
    MC_CHECK(NeoFOAM::mag(c[0]) == std::abs(c[0]) && NeoFOAM::one<scalar>() == 1 && NeoFOAM::zero<scalar>() == 0 && NeoFOAM::one<localIdx>() == 1 && NeoFOAM::zero<localIdx>() == 0, "scalar-traits", "scalar helpers");
    is(a, c[0], c[1], c[2], "operand");
    is(b, c[3], c[4], c[5], "operand");
}
namespace
{
const scalar INF = std::numeric_limits<scalar>::infinity();
const scalar SPECIAL[] = {0.0, 1.0, -2.0, INF, -INF, std::numeric_limits<scalar>::quiet_NaN(), 1e-310, 1e308, -1e308};
template<typename T>
T special(scalar x)
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(1.5, x, -x);
    else return x;
}
template<typename T>
void specialValues()
{
    constexpr int S = int(std::size(SPECIAL));
    auto p = pick2();
    scalar s = SPECIAL[choose(S, "factor")];
    int op = choose(8, "operation");
    std::vector<T> av, bv, want;
    std::vector<scalar> sv;
    for (auto x : SPECIAL) av.push_back(special<T>(x)), bv.push_back(special<T>(s)), sv.push_back(s);
    auto a = make<T>(p.exec, av), b = make<T>(p.exec, bv);
    auto f = make<scalar>(p.exec, sv);
    const Field<T>& cb = b;
    std::string what = mc::cat("operation ", op, " on ", show(av), " with ", s, " on ", EXEC[p.e]);
    MC_STEP(what);
    for (size_t i = 0; i < av.size(); ++i) want.push_back(op == 0 || op == 2 ? static_cast<T>(av[i] + bv[i]) : op == 1 || op == 3 ? static_cast<T>(av[i] - bv[i]) : static_cast<T>(av[i] * s));
    switch (op)
    {
    case 0: a += cb; break;
    case 1: a -= cb; break;
    case 2: a = a + cb; break;
    case 3: a = a - cb; break;
    case 4: a *= s; break;
    case 5: a = a * s; break;
    case 6: a *= f; break;
    default: NeoFOAM::scalarMul(a, s); break;
    }
    checkField(a, want, "special-values", what);
    MC_CHECK(same(val(b), bv) && same(val(f), sv), "operand-changed", what, " changed its operand");
}
template<typename T>
void large()
{
    size_t n = pickLarge(mc::thorough() ? size_t(-1) : 4097);
    auto p = pick2();
    int op = choose(8, "operation");
    std::vector<T> av = seq<T>(n, 0), bv = seq<T>(n, 1);
    std::vector<scalar> sv = seq<scalar>(n, 2);
    auto a = make<T>(p.exec, av), b = make<T>(p.exec, bv);
    auto f = make<scalar>(p.exec, sv);
    const Field<T>& cb = b;
    std::string what = mc::cat("operation ", op, " on ", n, " entries on ", EXEC[p.e]);
    MC_STEP(what);
    switch (op)
    {
    case 0: a += cb; break;
    case 1: a -= cb; break;
    case 2: a = a + cb; break;
    case 3: a = a - cb; break;
    case 4: a *= scalar(-1.5); break;
    case 5: a = a * scalar(-1.5); break;
    case 6: a *= f; break;
    default:
    {
        T s = mk<T>(9, 9), w {};
        for (auto& x : av) w += x;
        NeoFOAM::SumKernel k;
        std::visit([&](const auto& ex) { k(ex, a, s); }, p.exec);
        MC_CHECK(same(s, w), "sum", what, ": the sum is ", show(s), ", expected ", show(w));
    }
    }
    auto got = val(a);
    MC_CHECK(got.size() == n, "binary", what, " leaves ", got.size(), " entries");
    for (size_t i = 0; i < n; ++i)
    {
        T w = op == 7 ? av[i] : op == 0 || op == 2 ? static_cast<T>(av[i] + bv[i]) : op == 1 || op == 3 ? static_cast<T>(av[i] - bv[i]) : op == 6 ? static_cast<T>(av[i] * sv[i]) : static_cast<T>(av[i] * scalar(-1.5));
        MC_CHECK(same(got[i], w), "large", what, ": entry ", i, " is ", show(got[i]), ", expected ", show(w));
    }
    MC_CHECK(same(val(b), bv) && same(val(f), sv), "operand-changed", what, " changed its operand");
    // comparison notices a difference anywhere
    auto c = make<T>(p.exec, bv);
    const Field<T>& cc = c;
    MC_CHECK(NeoFOAM::equal(cc, cb), "equal", "equal fields of ", n, " entries compare different");
    for (size_t at : {size_t(0), n / 2, n - 1})
    {
        auto dv = bv;
        dv[at] = mk<T>(77777, 3);
        put(c, dv);
        MC_CHECK(!NeoFOAM::equal(cc, cb) && !NeoFOAM::equal(cb, cc), "equal", "fields of ", n, " entries that differ at ", at, " compare equal");
    }
}
}
MC_SCENARIO(special_scalar, "eight operations on nine special values (zero, infinities, NaN, denormal, huge) with each of them as operand or factor, scalars, executors x orders") { specialValues<scalar>(); }
MC_SCENARIO(special_vector, "the same on vectors") { specialValues<Vector>(); }
MC_SCENARIO(large_scalar, "34 sizes around block lengths and index widths x operations x executors x orders, scalars; comparison with a difference at either end or in the middle") { large<scalar>(); }
MC_SCENARIO(large_vector, "the same on vectors") { large<Vector>(); }
#ifdef NF_DEBUG
MC_SCENARIO(executor_mismatch, "debug builds: operands on different executors are refused by all compound operations, operands unchanged")
{
    kk::begin();
    int e = choose(3, "executor"), o = choose(3, "other executor"), op = choose(4, "operation");
    if (e == o) mc::prune();
    auto av = seq<scalar>(3, 0), bv = seq<scalar>(3, 1);
    auto a = make<scalar>(execOf(e), av);
    auto b = make<scalar>(execOf(o), bv);
    mc::expectAnyError(
        "executor-mismatch",
        [&]
        {
            if (op == 0) a += b;
            else if (op == 1) a -= b;
            else if (op == 2) a *= b;
            else (void)(a * b);
        },
        mc::cat("operation ", op, " of fields on ", EXEC[e], " and ", EXEC[o])
    );
    checkField(a, av, "operand-changed", "first operand after the refusal");
    checkField(b, bv, "operand-changed", "second operand after the refusal");
}
#endif
