// Equation expressions evaluate as the algebra they spell.
#include "opref.hpp"
#include "bcs.hpp"
#include "systems.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/expression.hpp"
using namespace fv;
namespace dsl = NeoFOAM::dsl;

namespace
{
constexpr auto IMP = dsl::Operator::Type::Implicit;
constexpr auto EXP = dsl::Operator::Type::Explicit;
constexpr double DT = 0.25;
const MeshData& D()
{
    static MeshData d = line({0, 0.5, 2, 3});
    return d;
}
constexpr size_t N = 3;
TokenList tokens(std::initializer_list<const char*> l)
{
    std::vector<std::any> v;
    for (auto s : l) v.push_back(std::string(s));
    return TokenList(v);
}
Dictionary schemes()
{
    Dictionary s;
    s.insert("divSchemes", Dictionary({{"div(flux,phi)", tokens({"Gauss", "upwind"})}}));
    s.insert("laplacianSchemes", Dictionary({{"laplacian(gamma,phi)", tokens({"Gauss", "linear", "uncorrected"})}}));
    return s;
}
// the terms expressions are made of
enum Kind
{
    ExpSource,
    ExpDiv,
    ImpSource,
    ImpDdt,
    ImpLaplacian,
    SurfInt,
    ExpDdt,
    ImpDiv,
    Kinds
};
const char* KIND[] = {"exp::source", "exp::div", "imp::source", "imp::ddt", "imp::laplacian", "surfaceIntegrate", "ddt(explicit)", "imp::div"};
bool temporal(int k) { return k == ImpDdt || k == ExpDdt; }
bool explicitKind(int k) { return k == ExpSource || k == ExpDdt || k == SurfInt || k == ExpDiv; }

// what an expression delivers: per role, explicit fields and (matrix, rhs) pairs
template<typename T>
struct Roles
{
    std::vector<T> expl, explT;   // spatial and temporal explicit
    std::vector<T> a, b, aT, bT;  // spatial and temporal implicit
    Roles() : expl(N, zeroOf<T>()), explT(expl), a(N * N, zeroOf<T>()), b(expl), aT(a), bT(expl) {}
    void add(const std::vector<scalar>& f, const Roles& o)
    {
        for (size_t i = 0; i < N; ++i)
        {
            auto acc = [&](std::vector<T>& x, const std::vector<T>& y, size_t k) { x[k] = plus(x[k], scale(f[i], y[k])); };
            acc(expl, o.expl, i), acc(explT, o.explT, i), acc(b, o.b, i), acc(bT, o.bT, i);
            for (size_t j = 0; j < N; ++j) acc(a, o.a, i * N + j), acc(aT, o.aT, i * N + j);
        }
    }
};
// the library objects terms refer to
template<typename T>
struct World
{
    UnstructuredMesh m;
    Surf<scalar> flux, gamma;
    Surf<T> values;
    Vol<scalar> coeff;
    NeoFOAM::Database db;
    Conditions<T> c;
    Vol<T>* phi;
    Field<scalar> f1, f2;
    static std::vector<scalar> v1() { return {2, -0.5, 4}; }
    static std::vector<scalar> v2() { return {-1, 8, 0.25}; }
    explicit World(const Executor& ex)
        : m(D().make(ex)), flux(surfField<scalar>(m, {1.5, -2, 0.5, -1}, "flux")), gamma(surfField<scalar>(m, {0.5, 2, 1, 3}, "gamma")),
          values(surfField<T>(m, distinct<T>(4, 0.75))), coeff(volField<scalar>(m, {0.5, -3, 2}, {60, 61}, "coeff")), c(D()), f1(kh::make(ex, v1())), f2(kh::make(ex, v2()))
    {
        c.type = {FixedValueBc, FixedGradientBc};
        phi = &registered(db, conditioned<T>(m, c, distinct<T>(N, 1), distinct<T>(2, 40)));
        phi->correctBoundaryConditions();
        put(fvcc::oldTime(*phi).internalField(), distinct<T>(N, 20));
    }
    dsl::SpatialOperator<T> spatial(int k, bool built)
    {
        if (k == ExpSource)
        {
            if constexpr (std::is_same_v<T, scalar>) return dsl::exp::source(coeff, *phi);
            return fvcc::SourceTerm<T>(EXP, coeff, *phi);
        }
        if (k == SurfInt)
        {
            if constexpr (std::is_same_v<T, scalar>) return dsl::exp::div(values);
            return fvcc::SurfaceIntegrate<T>(values);
        }
        if (k == ExpDiv)
        {
            if (built) return fvcc::DivOperator<T>(EXP, flux, *phi, Input(tokens({"Gauss", "upwind"})));
            if constexpr (std::is_same_v<T, scalar>) return dsl::exp::div(flux, *phi);
            return fvcc::DivOperator<T>(EXP, flux, *phi);
        }
        if (k == ImpSource) return dsl::imp::source(coeff, *phi);
        if (k == ImpLaplacian) return built ? dsl::SpatialOperator<T>(fvcc::LaplacianOperator<T>(IMP, gamma, *phi, Input(tokens({"Gauss", "linear", "uncorrected"})))) : dsl::imp::laplacian(gamma, *phi);
        return built ? dsl::SpatialOperator<T>(fvcc::DivOperator<T>(IMP, flux, *phi, Input(tokens({"Gauss", "upwind"})))) : dsl::imp::div(flux, *phi);
    }
    dsl::TemporalOperator<T> temporalTerm(int k)
    {
        if (k == ImpDdt) return dsl::imp::ddt(*phi);
        return fvcc::DdtOperator<T>(EXP, *phi);
    }
    std::vector<T> zero() const { return std::vector<T>(N, zeroOf<T>()); }
    template<typename Op>
    Roles<T> own(int k, Op& op)
    {
        Roles<T> r;
        if (explicitKind(k))
        {
            auto t = kh::make(m.exec(), zero());
            if constexpr (std::is_same_v<Op, dsl::TemporalOperator<T>>) op.explicitOperation(t, 2.0, DT), r.explT = val(t);
            else op.explicitOperation(t), r.expl = val(t);
            return r;
        }
        auto s = emptySystem<T>(m);
        if constexpr (std::is_same_v<Op, dsl::TemporalOperator<T>>) op.implicitOperation(s, 2.0, DT);
        else op.implicitOperation(s);
        Dense<T> d(s);
        (temporal(k) ? r.aT : r.a) = d.a, (temporal(k) ? r.bT : r.b) = d.b;
        return r;
    }
    // the term's own results, measured on a fresh term
    const Roles<T>& own(int k)
    {
        static std::map<int, Roles<T>> cache;
        auto it = cache.find(k);
        if (it == cache.end())
        {
            if (temporal(k))
            {
                auto op = temporalTerm(k);
                it = cache.emplace(k, own(k, op)).first;
            }
            else
            {
                auto op = spatial(k, true);
                it = cache.emplace(k, own(k, op)).first;
            }
        }
        return it->second;
    }
};
// ways of scaling one term
constexpr int Scales = 8;
const char* SCALE[] = {"", "4*", "f*", "(Coeff -0.5 f)*", "2*f*", "f*2*", "Coeff(-2)*", "-1*-0.5*"};
std::vector<scalar> times(double s, std::vector<scalar> v)
{
    for (auto& x : v) x *= s;
    return v;
}
std::vector<scalar> factor(int s)
{
    auto one = std::vector<scalar>(N, 1.0);
    auto f = World<scalar>::v1();
    return s == 0 ? one : s == 1 ? times(4, one) : s == 2 ? f : s == 3 ? times(-0.5, f) : s == 4 || s == 5 ? times(2, f) : s == 6 ? times(-2, one) : times(0.5, one);
}
template<typename T, typename Op>
Op scaled(World<T>& w, Op op, int s)
{
    using dsl::Coeff;
    switch (s)
    {
    case 1: return 4.0 * op;
    case 2: return w.f1 * op;
    case 3: return Coeff(-0.5, w.f1) * op;
    case 4: return 2.0 * (w.f1 * op);
    case 5: return w.f1 * (2.0 * op);
    case 6: return Coeff(-2.0) * op;
    case 7: return -1.0 * (-0.5 * op);
    }
    return op;
}
struct Leaf
{
    int kind, scale;
    std::string text() const { return std::string(SCALE[scale]) + KIND[kind]; }
};
template<typename T, typename F>
auto withLeaf(World<T>& w, const Leaf& l, bool built, F&& f)
{
    if (temporal(l.kind)) return f(scaled(w, w.temporalTerm(l.kind), l.scale));
    return f(scaled(w, w.spatial(l.kind, built), l.scale));
}
// evaluates the expression in every role and compares
template<typename T>
void evaluate(World<T>& w, dsl::Expression<T>& e, const Roles<T>& want, const std::string& what)
{
    checkNear(val(e.explicitOperation(N)), want.expl, "explicit", what + ", explicitly");
    auto content = distinct<T>(N, -300);
    auto s = kh::make(w.m.exec(), content);
    auto r = val(e.explicitOperation(s));
    checkNear(val(s), sum(content, want.expl), "explicit-target", what + ", explicitly into a filled field");
    MC_CHECK(same(r, val(s)), "explicit-return", what, ": returned ", show(r), ", stored ", show(val(s)));
    auto t = kh::make(w.m.exec(), content);
    r = val(e.explicitOperation(t, 2.0, DT));
    checkNear(val(t), sum(content, want.explT), "explicit-temporal", what + ", explicit time derivatives");
    MC_CHECK(same(r, val(t)), "explicit-return", what, ": returned ", show(r), ", stored ", show(val(t)));
    for (int time = 0; time < 2; ++time)
    {
        auto y = emptySystem<T>(w.m);
        prefill(y);
        Dense<T> before(y);
        if (time) e.implicitOperation(y, 2.0, DT);
        else e.implicitOperation(y);
        Dense<T> after(y);
        checkNear(after.a, sum(before.a, time ? want.aT : want.a), "implicit-matrix", mc::cat(what, time ? ", implicit time derivatives" : ", implicitly"));
        checkNear(after.b, sum(before.b, time ? want.bT : want.b), "implicit-rhs", mc::cat(what, time ? ", implicit time derivatives" : ", implicitly"));
    }
    mc::countStep(5);
}
template<typename T>
struct Node
{
    dsl::Expression<T> e;
    Roles<T> want;
    std::vector<Leaf> leaves;
    std::string text;
    Node& operator=(const Node& o) // expressions themselves cannot be assigned
    {
        if (this == &o) return *this;
        Node c(o);
        this->~Node();
        return *new (this) Node(c);
    }
    void check(World<T>& w)
    {
        size_t nt = 0, ne = 0, nst = 0;
        for (auto& l : leaves) nt += temporal(l.kind), ne += !temporal(l.kind) && explicitKind(l.kind);
        for (auto& o : e.spatialOperators()) nst += o.getType() == EXP;
        MC_CHECK(e.size() == leaves.size() && e.temporalOperators().size() == nt && e.spatialOperators().size() == leaves.size() - nt && nst == ne, "terms", text, ": ", e.size(), " terms, ",
                 e.temporalOperators().size(), " temporal, ", nst, " explicit; expected ", leaves.size(), ", ", nt, ", ", ne);
        MC_CHECK(kh::indexOf(e.exec()) == kh::indexOf(w.m.exec()), "exec", text, ": runs on ", EXEC[kh::indexOf(e.exec())]);
        evaluate(w, e, want, text);
    }
};
template<typename T>
Roles<T> rolesOf(World<T>& w, const Leaf& l)
{
    Roles<T> r;
    r.add(factor(l.scale), w.own(l.kind));
    return r;
}
std::vector<scalar> uniform(double k) { return std::vector<scalar>(N, k); }
// a op b of two terms
template<typename T>
Node<T> pairOf(World<T>& w, Leaf a, Leaf b, bool minus, bool built)
{
    Roles<T> r = rolesOf(w, a);
    r.add(uniform(minus ? -1 : 1), rolesOf(w, b));
    auto join = [&](auto x) { return withLeaf<T>(w, b, built, [&](auto y) -> dsl::Expression<T> { if (minus) return x - y; return x + y; }); };
    return {withLeaf<T>(w, a, built, join), r, {a, b}, mc::cat("(", a.text(), minus ? " - " : " + ", b.text(), ")")};
}
// e op term
template<typename T>
Node<T> extend(World<T>& w, const Node<T>& n, Leaf b, int how, bool built)
{
    Roles<T> r = n.want;
    if (temporal(b.kind)) how = 2; // the only way to add one to an expression
    r.add(uniform(how == 1 ? -1 : 1), rolesOf(w, b));
    auto leaves = n.leaves;
    leaves.push_back(b);
    std::string text = mc::cat("(", n.text, how == 1 ? " - " : how == 0 ? " + " : " addOperator ", b.text(), ")");
    if (how == 2)
    {
        dsl::Expression<T> e(n.e);
        withLeaf<T>(w, b, built, [&](auto y) { e.addOperator(y); return 0; });
        return {e, r, leaves, text};
    }
    auto y = scaled(w, w.spatial(b.kind, built), b.scale);
    if (how == 1) return {n.e - y, r, leaves, text};
    return {n.e + y, r, leaves, text};
}
template<typename T>
Node<T> combine(const Node<T>& a, const Node<T>& b, int how)
{
    Roles<T> r = a.want;
    r.add(uniform(how == 1 ? -1 : 1), b.want);
    auto l = a.leaves;
    l.insert(l.end(), b.leaves.begin(), b.leaves.end());
    std::string text = mc::cat("(", a.text, how == 1 ? " - " : how == 0 ? " + " : " addExpression ", b.text, ")");
    if (how == 0) return {a.e + b.e, r, l, text};
    if (how == 1) return {a.e - b.e, r, l, text};
    dsl::Expression<T> e(a.e);
    e.addExpression(b.e);
    return {e, r, l, text};
}
template<typename T>
Node<T> multiple(const Node<T>& n, double k)
{
    Roles<T> r;
    r.add(uniform(k), n.want);
    return {k * n.e, r, n.leaves, mc::cat(k, "*", n.text)};
}
Leaf pickLeaf(int scales, int kinds = Kinds)
{
    int k = choose(kinds, "term");
    static const int S[] = {0, 3, 1, 2, 4, 5, 6, 7};
    return {k, S[choose(scales, "scaling")]};
}
template<typename T>
void pairs()
{
    World<T> w(pick2().exec);
    Leaf a = pickLeaf(Scales), b = pickLeaf(mc::thorough() ? Scales : 3);
    bool minus = choose(2, "sign");
    auto n = pairOf(w, a, b, minus, true);
    MC_STEP(n.text);
    n.check(w);
    mc::noteState(n.text);
}
template<typename T>
void triples()
{
    World<T> w(execOf(choose(2, "executor") ? 2 : 0));
    kk::begin(kk::Forward);
    auto n = pairOf(w, pickLeaf(1), pickLeaf(1), choose(2, "sign"), true);
    int k = choose(3, "multiple");
    if (k) n = multiple(n, k == 1 ? 2.0 : -0.5);
    auto first = n.text;
    auto m = extend(w, n, pickLeaf(2), choose(3, "join"), true);
    MC_STEP(m.text);
    m.check(w);
    n.check(w); // what it was made from evaluates as before
    mc::noteState(m.text);
}
template<typename T>
void quads()
{
    World<T> w(execOf(choose(2, "executor") ? 2 : 0));
    kk::begin(kk::Forward);
    int kinds = mc::thorough() ? 6 : 4;
    auto a = pairOf(w, pickLeaf(1, kinds), pickLeaf(2, kinds), choose(2, "sign"), true);
    auto b = pairOf(w, pickLeaf(1, kinds), pickLeaf(1, kinds), choose(2, "sign"), true);
    int k = choose(3, "multiple");
    if (k == 1) b = multiple(b, -2);
    if (k == 2) a = multiple(a, -2);
    auto n = combine(a, b, choose(3, "join"));
    MC_STEP(n.text);
    n.check(w);
    mc::noteState(n.text);
}
// every number of time derivatives and of other terms on either side
template<typename T>
void lengths()
{
    World<T> w(execOf(0));
    kk::begin(kk::Forward);
    int most = mc::thorough() ? 6 : 4;
    static const int TIME[] = {ImpDdt, ExpDdt}, SPACE[] = {ExpSource, ImpSource, ImpLaplacian, SurfInt, ExpDiv, ImpDiv};
    auto side = [&](int shift)
    {
        int nt = choose(most, "time derivatives"), ns = choose(most, "other terms");
        Node<T> n {dsl::Expression<T>(w.m.exec()), Roles<T>(), {}, shift ? "(b" : "(a"};
        for (int i = 0; i < nt + ns; ++i)
        {
            bool time = ns == 0 || (i % 2 == shift % 2 && i / 2 < nt) || i - std::min(nt, (i + 1 - shift % 2) / 2) >= ns;
            time = time && int(n.e.temporalOperators().size()) < nt;
            if (int(n.e.spatialOperators().size()) == ns) time = true;
            Leaf l {time ? TIME[(i + shift) % 2] : SPACE[(i + shift) % 6], i % Scales};
            withLeaf<T>(w, l, true, [&](auto y) { n.e.addOperator(y); return 0; });
            n.want.add(uniform(1), rolesOf(w, l));
            n.leaves.push_back(l);
            n.text += " + " + l.text();
        }
        n.text += ")";
        return n;
    };
    auto a = side(0), b = side(1);
    auto n = combine(a, b, choose(3, "join"));
    MC_STEP(n.text);
    n.check(w);
    if (choose(2, "then"))
    {
        auto k = multiple(n, -2);
        k.check(w);
        combine(k, a, 2).check(w);
    }
    a.check(w), b.check(w);
    mc::noteState(n.text);
}
// histories on two expressions, the same one on both sides included; copies
template<typename T>
void histories()
{
    World<T> w(pick2().exec);
    std::vector<Node<T>> x;
    auto startKind = choose(3, "start");
    x.push_back(pairOf(w, {ImpDdt, 0}, {startKind == 0 ? ImpSource : startKind == 1 ? ExpSource : ExpDdt, 3}, true, true));
    x.push_back(pairOf(w, {ImpLaplacian, 1}, {SurfInt, 0}, false, true));
    int len = mc::thorough() ? 3 : 2;
    for (int i = 0; i < len; ++i)
    {
        int op = choose(8, "operation"), a = choose(2, "target"), b = choose(2, "operand");
        Node<T>&t = x[size_t(a)], &o = x[size_t(b)];
        auto set = [&](Node<T> n) { t = n; };
        if (op == 0) set(combine(t, o, 0));
        if (op == 1) set(combine(t, o, 1));
        if (op == 2) // in place, possibly into itself
        {
            auto l = o.leaves;
            Roles<T> r = o.want;
            std::string text = mc::cat("(", t.text, " addExpression ", o.text, ")");
            t.e.addExpression(o.e);
            t.leaves.insert(t.leaves.end(), l.begin(), l.end());
            t.want.add(uniform(1), r);
            t.text = text;
        }
        if (op == 3) set(multiple(o, -2));
        if (op == 4) set(o);
        if (op == 5)
        {
            if (o.e.spatialOperators().empty()) continue;
            // a term of one expression put into another (or the same)
            size_t k = 0;
            while (temporal(o.leaves[k].kind)) ++k;
            Roles<T> r; // the first spatial term of o as it evaluates now
            auto term = o.e.spatialOperators()[0];
            r = w.own(o.leaves[k].kind, term);
            Leaf l = o.leaves[k];
            std::string text = mc::cat("(", t.text, " addOperator of ", o.text, ")");
            t.e.addOperator(o.e.spatialOperators()[0]);
            t.leaves.push_back(l);
            t.want.add(uniform(1), r);
            t.text = text;
        }
        if (op == 6) // edits of a copy stay with the copy
        {
            dsl::Expression<T> e(t.e);
            for (auto& s : e.spatialOperators()) s.getCoefficient() *= 5.0;
            for (auto& s : e.temporalOperators()) s.getCoefficient() *= 5.0;
            Roles<T> r;
            r.add(uniform(5), t.want);
            evaluate(w, e, r, "5 times a copy of " + t.text);
        }
        if (op == 7) // scaling in place
        {
            for (auto& s : t.e.spatialOperators()) s.getCoefficient() *= -0.5;
            for (auto& s : t.e.temporalOperators()) s.getCoefficient() *= -0.5;
            Roles<T> r;
            r.add(uniform(-0.5), t.want);
            t.want = r;
            t.text = "-0.5 in place " + t.text;
        }
        MC_STEP(x[0].text, " ; ", x[1].text);
    }
    for (auto& n : x) n.check(w);
    for (auto& n : x) n.check(w); // evaluating changes nothing
    mc::noteState(x[0].text + x[1].text);
}
// terms whose scheme is selected when the expression is built
template<typename T>
void building()
{
    World<T> w(pick2().exec);
    Leaf a = pickLeaf(2), b = pickLeaf(2);
    auto n = pairOf(w, a, b, choose(2, "sign"), false);
    int when = choose(4, "built");
    Dictionary s = schemes();
    if (when == 0) n.e.build(s);
    if (when == 1)
    {
        n.e.build(s);
        n.e.build(s);
    }
    if (when == 2) // before combining
    {
        n.e.build(s);
        n = multiple(n, -2);
        auto o = extend(w, n, {ExpSource, 0}, 1, true);
        MC_STEP(o.text);
        return o.check(w);
    }
    if (when == 3) // after combining
    {
        auto o = extend(w, multiple(n, -2), {ImpLaplacian, 2}, 0, false);
        o.e.build(s);
        MC_STEP(o.text);
        return o.check(w);
    }
    MC_STEP(n.text);
    n.check(w);
    mc::noteState(n.text);
}
// single terms: scaling, copies, reassignment; the term scaled is not altered
template<typename T>
void terms()
{
    World<T> w(pick2().exec);
    Leaf l = pickLeaf(Scales);
    int how = choose(4, "use");
    auto work = [&](auto op)
    {
        using Op = decltype(op);
        auto expect = [&](Op& o, const std::vector<scalar>& f, const std::string& t)
        {
            Roles<T> want, got = w.own(l.kind, o);
            want.add(f, w.own(l.kind));
            checkNear(got.expl, want.expl, "term", t), checkNear(got.explT, want.explT, "term", t);
            checkNear(got.a, want.a, "term", t), checkNear(got.b, want.b, "term", t), checkNear(got.aT, want.aT, "term", t), checkNear(got.bT, want.bT, "term", t);
        };
        Op s = scaled(w, op, l.scale);
        auto f = factor(l.scale);
        expect(s, f, l.text());
        expect(op, uniform(1), "the term scaled: " + l.text());
        MC_CHECK(s.getType() == op.getType() && (s.getType() == EXP) == explicitKind(l.kind), "role", l.text(), " changed its role");
        MC_CHECK(s.getName() == op.getName(), "name", l.text(), " changed its name to ", s.getName());
        if (how == 0)
        {
            Op c(s);
            c.getCoefficient() *= 3.0;
            expect(c, times(3, f), "3 times a copy of " + l.text());
            expect(s, f, l.text() + " after its copy was scaled");
        }
        if (how == 1)
        {
            Op c(std::move(s));
            expect(c, f, l.text() + " moved");
        }
        if (how == 2)
        {
            if constexpr (std::is_same_v<Op, dsl::SpatialOperator<T>>)
            {
                Op c = w.spatial(ExpSource, true);
                c = s;
                expect(c, f, l.text() + " assigned");
                c = *&c;
                expect(c, f, l.text() + " assigned to itself");
                c.getCoefficient() *= 3.0;
                expect(s, f, l.text() + " after the one assigned from it was scaled");
            }
        }
        if (how == 3)
        {
            const Op& k = s;
            auto co = k.getCoefficient();
            std::vector<scalar> got;
            std::vector<scalar> seen(N);
            auto out = kh::make(w.m.exec(), std::vector<scalar>(N, 0.0));
            auto view = out.view();
            NeoFOAM::parallelFor(w.m.exec(), {0, N}, KOKKOS_LAMBDA(const size_t i) { view[i] = co[i]; });
            checkNear(val(out), f, "coefficient", "the coefficient of " + l.text());
            bool hasField = l.scale >= 2 && l.scale <= 5;
            MC_CHECK(co.hasSpan() == hasField, "coefficient", l.text(), hasField ? " has lost its field" : " claims a field");
            Field<scalar> d(w.m.exec(), 0);
            dsl::detail::toField(co, d);
            checkNear(val(d), hasField ? f : std::vector<scalar> {f[0]}, "coefficient", "the coefficient of " + l.text() + " as a field");
        }
        return 0;
    };
    if (temporal(l.kind)) work(w.temporalTerm(l.kind));
    else work(w.spatial(l.kind, true));
    MC_STEP(l.text(), " use ", how);
    mc::noteState(mc::cat(l.text(), how));
}
// products of coefficients; a product of two fields is refused and changes nothing
void coefficients()
{
    using dsl::Coeff;
    Executor ex = execOf(pickExec());
    kk::begin(kk::Forward);
    Field<scalar> f(kh::make(ex, World<scalar>::v1())), g(kh::make(ex, World<scalar>::v2()));
    auto pick = [&](int k) { return k == 0 ? Coeff() : k == 1 ? Coeff(-4) : k == 2 ? Coeff(f) : k == 3 ? Coeff(0.5, f) : k == 4 ? Coeff(g) : Coeff(0.0); };
    auto values = [&](int k) { return k == 0 ? uniform(1) : k == 1 ? uniform(-4) : k == 2 ? World<scalar>::v1() : k == 3 ? times(0.5, World<scalar>::v1()) : k == 4 ? World<scalar>::v2() : uniform(0); };
    auto isField = [](int k) { return k >= 2 && k <= 4; };
    int a = choose(6, "left"), b = choose(6, "right"), c = choose(6, "third"), how = choose(3, "form");
    auto check = [&](Coeff k, const std::vector<scalar>& want, bool field, const char* what)
    {
        Field<scalar> o(kh::make(ex, std::vector<scalar>(N, 0.0)));
        auto v = o.view();
        NeoFOAM::parallelFor(ex, {0, N}, KOKKOS_LAMBDA(const size_t i) { v[i] = k[i]; });
        checkNear(val(o), want, "product", mc::cat(what, " of coefficients ", a, ", ", b, ", ", c, ", form ", how));
        MC_CHECK(k.hasSpan() == field, "product-kind", what, " of ", a, ", ", b, ", ", c, ": has a field: ", k.hasSpan());
    };
    Coeff x = pick(a), y = pick(b), z = pick(c);
    auto prod = [&](const std::vector<scalar>& p, const std::vector<scalar>& q) { return timesEach(p, q); };
    bool bad = isField(a) && isField(b);
    bool refused = false;
    Coeff r;
    try
    {
        if (how == 0) r = x * y;
        if (how == 1) r = x, r *= y;
        if (how == 2) r = x * y;
    }
    catch (const mc::ExitCalled&)
    {
        refused = true;
    }
    catch (const std::exception&)
    {
        refused = true;
    }
    // a product of two fields must never come out wrong: either refused or right
    check(x, values(a), isField(a), "left operand after the product");
    check(y, values(b), isField(b), "right operand after the product");
    MC_STEP("product ", a, b, refused ? " refused" : "");
    if (refused)
    {
        MC_CHECK(bad, "product-refused", "the product of coefficients ", a, " and ", b, " was refused");
        return;
    }
    auto rv = prod(values(a), values(b));
    check(r, rv, isField(a) || isField(b), "product");
    if (isField(c) && (isField(a) || isField(b))) return;
    if (how == 0) check(r * z, prod(rv, values(c)), isField(a) || isField(b) || isField(c), "product");
    if (how == 1) check(z * r, prod(rv, values(c)), isField(a) || isField(b) || isField(c), "product");
    if (how == 2)
    {
        r *= 3.0;
        check(r, times(3, rv), isField(a) || isField(b), "product times 3");
    }
    mc::noteState(mc::cat(a, b, c));
}
}
MC_SCENARIO(coefficients_, "all products of two and three out of six coefficients (none, number, zero, two fields, number times field) x executors; operands unchanged; products of two fields refused or right") { coefficients(); }
MC_SCENARIO(terms_scalar, "each of 8 terms x 8 scalings x copies, moves, assignments x executors x orders") { terms<scalar>(); }
MC_SCENARIO(terms_vector, "the same for vectors") { terms<Vector>(); }
MC_SCENARIO(pairs_scalar, "a + b and a - b for all pairs of 8 terms x 8 scalings of the first x 3 (8 thorough) of the second x executors x orders, evaluated in all roles") { pairs<scalar>(); }
MC_SCENARIO(pairs_vector, "the same for vectors") { pairs<Vector>(); }
MC_SCENARIO(triples_scalar, "k (a +- b) +- c for all triples of 8 terms, one of them with 2 scalings, three k, serial and device, also through addOperator; operands evaluated again") { triples<scalar>(); }
MC_SCENARIO_THOROUGH(triples_vector, "the same for vectors") { triples<Vector>(); }
MC_SCENARIO(quads_scalar, "(a +- b) +- (c +- d) out of four (six thorough) terms with multiples of either side, also through addExpression") { quads<scalar>(); }
MC_SCENARIO_THOROUGH(quads_vector, "the same for vectors") { quads<Vector>(); }
MC_SCENARIO(lengths_scalar, "a + b, a - b, a addExpression b, multiples and further sums of them for 0..3 (0..5 thorough) time derivatives and 0..3 (0..5) other terms on either side, with all scalings") { lengths<scalar>(); }
MC_SCENARIO_THOROUGH(lengths_vector, "the same for vectors") { lengths<Vector>(); }
MC_SCENARIO(histories_scalar, "all histories of 2 (3 thorough) of 8 operations (sums, differences, multiples, additions in place and into itself, edits of copies) on two expressions") { histories<scalar>(); }
MC_SCENARIO(histories_vector, "the same for vectors") { histories<Vector>(); }
MC_SCENARIO(building_scalar, "schemes selected through the expression: before, after and without combining, twice") { building<scalar>(); }
MC_SCENARIO(building_vector, "the same for vectors") { building<Vector>(); }
