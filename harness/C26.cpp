// A time step applies the selected scheme to all terms exactly once.
#include "problem.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
using namespace fv;
namespace ti = NeoFOAM::timeIntegration;
// the library registers the schemes for scalars only; these are the same classes for vectors
template class ti::ForwardEuler<Vol<Vector>>;

namespace
{
std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        auto& a = meshList();
        std::vector<MeshData> l {a[1], a[3], a[7], a[0], a[11], a[6]};
        l.push_back(skewed());
        return l;
    }();
    return L;
}
const MeshData& pickMesh(int n) { return meshes()[size_t(choose(n, "mesh"))]; }
// a scheme of ours: notes what it is given
struct Noted
{
    std::string who, marker, setting;
    double t, dt;
    const void* eqn;
    const void* sol;
    int clones;
};
std::vector<Noted> noted;
template<int Which>
class Watch : public ti::TimeIntegratorBase<Vol<scalar>>::template Register<Watch<Which>>
{
public:
    using Base = ti::TimeIntegratorBase<Vol<scalar>>::template Register<Watch<Which>>;
    Watch(const Dictionary& s, const Dictionary& f) : Base(s, f) {}
    static std::string name() { return Which ? "watchToo" : "watch"; }
    static std::string doc() { return ""; }
    static std::string schema() { return "none"; }
    void solve(dsl::Expression<scalar>& e, Vol<scalar>& s, scalar t, scalar dt) override
    {
        noted.push_back({name(), this->solutionDict_.contains("marker") ? this->solutionDict_.template get<std::string>("marker") : "none",
                         this->schemeDict_.contains("setting") ? this->schemeDict_.template get<std::string>("setting") : "none", t, dt, &e, &s, clones_});
    }
    std::unique_ptr<ti::TimeIntegratorBase<Vol<scalar>>> clone() const override
    {
        auto c = std::make_unique<Watch>(*this);
        c->clones_++;
        return c;
    }

private:
    int clones_ = 0;
};
template class Watch<0>;
template class Watch<1>;

const double DT[] = {0.25, 0.5, 0.125};

template<typename T>
void stepsForward()
{
    auto p = pick2();
    const MeshData& d = pickMesh(mc::thorough() ? 7 : 4);
    World<T> w(d, p.exec, pickConditions<T>(d, 3));
    auto terms = pickTerms(ExpSource, ExpLap + 1, 3);
    constexpr bool S = std::is_same_v<T, scalar>; // dsl::solve exists for scalars only
    int how = S ? choose(4, "form") : 2 + choose(2, "form");
    NeoFOAM::Database db;
    Problem<T> q(w, db, terms, "phi", 1, how & 1);
    auto sch = schemes("forwardEuler");
    auto sol = solution(nullptr);
    double t = 2;
    int n = 3;
    if (how < 2)
        for (int i = 0; i < n; ++i)
        {
            if constexpr (S) dsl::solve(q.e, *q.phi, t, DT[i], sch, sol);
            q.forward(DT[i], mc::cat("step ", i, " of ", DT[i], " of ", q.text));
            t += DT[i];
        }
    else
    {
        q.e.build(sch);
        ti::TimeIntegration<Vol<T>> in(sch.subDict("ddtSchemes"), sol);
        for (int i = 0; i < n; ++i)
        {
            if (how == 3) // a copy takes the step
            {
                ti::TimeIntegration<Vol<T>> c(in), mv(std::move(c));
                mv.solve(q.e, *q.phi, t, DT[i]);
            }
            else in.solve(q.e, *q.phi, t, DT[i]);
            q.forward(DT[i], mc::cat("step ", i, " of ", DT[i], " of ", q.text, how == 3 ? " by a copy" : ""));
            t += DT[i];
        }
    }
    MC_STEP(q.text);
}
void stepsBackward()
{
    auto p = pick2();
    const MeshData& d = pickMesh(mc::thorough() ? 6 : 3);
    World<scalar> w(d, p.exec, pickConditions<scalar>(d, 2), choose(2, "scheme") ? UpwindScheme : LinearScheme);
    auto terms = pickTerms(ExpSource, Terms, mc::thorough() ? 4 : 2);
    int how = choose(2, "form");
    NeoFOAM::Database db;
    Problem<scalar> q(w, db, terms, "phi", 1, how);
    auto sch = schemes("backwardEuler", SCHEME[w.div]);
    auto sol = solution();
    double t = 2;
    static const double BDT[] = {0.125, 0.25};
    q.e.build(sch);
    ti::TimeIntegration<Vol<scalar>> in(sch.subDict("ddtSchemes"), sol);
    for (int i = 0; i < 2; ++i)
    {
        solved.clear();
        in.solve(q.e, *q.phi, t, BDT[i]);
        MC_CHECK(solved.size() == 1 && solved[0].solver == "exact" && solved[0].marker == "the caller's", "solver", q.text, ": ", solved.size(), " solver calls");
        q.backward(BDT[i], mc::cat("implicit step ", i, " of ", BDT[i], " of ", q.text));
        t += BDT[i];
    }
    MC_STEP(q.text);
}
// the interface users call
void solveImplicit()
{
    auto p = pick2();
    const MeshData& d = pickMesh(3);
    World<scalar> w(d, p.exec, pickConditions<scalar>(d, 2));
    std::vector<Use> terms;
    int k = choose(5, "terms");
    if (k == 1) terms = {{ImpDiv, 1}, {ImpLap, -1}};
    if (k == 2) terms = {{ImpSource, 2}, {ExpSurf, -1}};
    if (k == 3) terms = {{ExpSource, 1}, {ImpDiv, 0.5}, {ExpDiv, -1}};
    if (k == 4) terms = {{ExpLap, 0.5}};
    NeoFOAM::Database db;
    Problem<scalar> q(w, db, terms, "phi", 1);
    auto sch = schemes("backwardEuler");
    int named = choose(3, "solver settings");
    // another solver is named in the schemes: it must not be used
    if (named == 1) sch.insert("solver", std::string("other"));
    auto sol = solution(named == 2 ? "other" : "exact");
    double t = 2;
    for (int i = 0; i < 2; ++i)
    {
        solved.clear();
        dsl::solve(q.e, *q.phi, t, DT[i], sch, sol);
        std::string what = mc::cat("implicit step ", i, " of ", DT[i], " of ", q.text);
        MC_CHECK(solved.size() == 1, "solver", what, ": ", solved.size(), " solver calls");
        MC_CHECK(solved[0].solver == (named == 2 ? "other" : "exact") && solved[0].marker == "the caller's", "solver", what, ": solved by ", solved[0].solver, " with the settings of ", solved[0].marker);
        MC_CHECK(solved[0].exec == p.e && solved[0].execSystem == p.e && solved[0].execField == p.e, "solver", what, ": the solver runs on ", EXEC[solved[0].exec], ", the system is on ", EXEC[solved[0].execSystem]);
        if (named == 2)
        {
            q.v = solved[0].x;
            q.b = w.c.values(d, q.v, q.b);
            q.checkState(what);
            return;
        }
        q.backward(DT[i], what);
        t += DT[i];
    }
    MC_STEP(q.text);
}
// two unknowns, two schemes, in any order; equations made afresh or kept
void histories()
{
    auto p = pick2();
    const MeshData& d = pickMesh(2);
    Conditions<scalar> c(d);
    for (size_t i = 0; i < c.type.size(); ++i) c.type[i] = i % 2 ? FixedGradientBc : FixedValueBc;
    World<scalar> w(d, p.exec, c);
    NeoFOAM::Database db;
    Problem<scalar> a(w, db, {{ExpDiv, 1}, {ExpSurf, 0.5}}, "phi", 1), b(w, db, {{ImpLap, -0.25}, {ExpSource, 0.5}}, "psi", -3);
    auto fwd = schemes("forwardEuler"), bwd = schemes("backwardEuler");
    // psi's operators look their schemes up by name
    for (auto* s : {&fwd, &bwd})
    {
        s->subDict("laplacianSchemes").insert("laplacian(gamma,psi)", tokens({"Gauss", "linear", "uncorrected"}));
        s->subDict("divSchemes").insert("div(flux,psi)", tokens({"Gauss", "upwind"}));
    }
    auto sol = solution();
    auto other = solution("other");
    double t = 0;
    ti::TimeIntegration<Vol<scalar>> kept(fwd.subDict("ddtSchemes"), other);
    std::string h;
    for (int i = 0; i < (mc::thorough() ? 5 : 4); ++i)
    {
        int op = choose(5, "operation");
        double dt = DT[i % 3];
        h += mc::cat(" ", op);
        auto what = mc::cat("history", h, " on ", d.name);
        if (op == 0) dsl::solve(a.e, *a.phi, t, dt, fwd, sol), a.forward(dt, what);
        if (op == 1) dsl::solve(b.e, *b.phi, t, dt, bwd, sol), b.backward(dt, what);
        if (op == 2) a.fresh(1), b.fresh(0);
        if (op == 3) // the implicit scheme on the explicit problem
            dsl::solve(a.e, *a.phi, t, dt, bwd, sol), a.backward(dt, what);
        if (op == 4) a.e.build(fwd), kept.solve(a.e, *a.phi, t, dt), a.forward(dt, what);
        MC_STEP(what);
        checkNear(val(a.phi->internalField()), a.v, "others", what + ": phi");
        checkNear(val(b.phi->internalField()), b.v, "others", what + ": psi");
        checkNear(val(b.phi->boundaryField().value()), b.b, "others", what + ": boundary of psi");
        t += dt;
    }
    mc::noteState(h);
}
void selection()
{
    auto p = pick();
    const MeshData& d = meshes()[0];
    World<scalar> w(d, p.exec, Conditions<scalar>(d));
    NeoFOAM::Database db;
    Problem<scalar> q(w, db, {{ExpSurf, 1}}, "phi", 1);
    static const char* NAME[] = {"watch", "watchToo", "forwardEuler", "backwardEuler", "ForwardEuler", "", "none", nullptr};
    int k = choose(8, "scheme"), how = choose(4, "form");
    Dictionary sch = schemes(""), ddt;
    if (NAME[k]) ddt.insert("type", std::string(NAME[k]));
    ddt.insert("setting", std::string("mine"));
    sch.insert("ddtSchemes", ddt);
    auto sol = solution();
    noted.clear(), solved.clear();
    bool no = refused([&]
        {
            if (how == 0) return dsl::solve(q.e, *q.phi, 3.0, 0.5, sch, sol);
            q.e.build(sch);
            ti::TimeIntegration<Vol<scalar>> in(sch.subDict("ddtSchemes"), sol);
            if (how == 1) in.solve(q.e, *q.phi, 3.0, 0.5);
            ti::TimeIntegration<Vol<scalar>> c(in);
            if (how == 2) c.solve(q.e, *q.phi, 3.0, 0.5);
            ti::TimeIntegration<Vol<scalar>> m(std::move(in));
            if (how == 3) m.solve(q.e, *q.phi, 3.0, 0.5);
        });
    std::string what = mc::cat("the scheme '", NAME[k] ? NAME[k] : "(none named)", "', form ", how);
    MC_STEP(what, no ? " refused" : "");
    MC_CHECK(no == (k > 3), "selection", what, no ? " was refused" : " was accepted");
    if (k == 2) return q.forward(0.5, what);
    if (k == 3) return q.backward(0.5, what);
    if (k <= 1)
    {
        MC_CHECK(noted.size() == 1 && noted[0].who == NAME[k], "selection", what, " called ", noted.size(), " times, by ", noted.empty() ? "" : noted[0].who);
        auto& n = noted[0];
        MC_CHECK(n.marker == "the caller's" && n.setting == "mine", "settings", what, " got the solution settings of ", n.marker, " and the scheme settings of ", n.setting);
        MC_CHECK(n.t == 3.0 && n.dt == 0.5, "time", what, " got time ", n.t, ", step ", n.dt);
        MC_CHECK(n.eqn == &q.e && n.sol == q.phi, "arguments", what, " got another equation or solution");
        MC_CHECK(n.clones == (how == 2), "clone", what, ": ", n.clones, " clones");
    }
    MC_CHECK(same(val(q.phi->internalField()), q.v), "solution", what, " changed the solution");
}
void rejected()
{
    auto p = pick();
    const MeshData& d = meshes()[0];
    World<scalar> w(d, p.exec, Conditions<scalar>(d));
    NeoFOAM::Database db;
    Problem<scalar> q(w, db, {{ExpSurf, 1}}, "phi", 1);
    int k = choose(3, "mistake");
    auto sch = schemes(k == 1 ? "" : "forwardEuler");
    auto sol = solution();
    if (k == 0) q.e.temporalOperators().clear(), q.e.spatialOperators().clear();
    if (k == 2) sch = schemes("backwardEuler"), sol = solution(nullptr);
    MC_STEP("mistake ", k);
    bool no = refused([&] { dsl::solve(q.e, *q.phi, 3.0, 0.5, sch, sol); });
    MC_CHECK(no, "accepted", k == 0 ? "an empty equation" : k == 1 ? "a time derivative without a scheme for it" : "an implicit scheme without a solver", " was accepted");
    MC_CHECK(same(val(q.phi->internalField()), q.v), "solution", "a refused step changed the solution");
}
// the caller sets the previous solution: the step starts there
void previousGiven()
{
    auto p = pick2();
    const MeshData& d = pickMesh(3);
    World<scalar> w(d, p.exec, pickConditions<scalar>(d, 2));
    std::vector<Use> terms;
    bool implicit = choose(2, "scheme");
    int k = choose(implicit ? 4 : 2, "terms"), before = choose(3, "steps before"), after = choose(2, "steps after");
    if (k == 1 || k == 3) terms.push_back({ExpSurf, 1});
    if (k >= 2) terms.push_back({ImpDiv, 0.5}), terms.push_back({ImpLap, -1});
    NeoFOAM::Database db;
    Problem<scalar> q(w, db, terms, "phi", 1);
    auto sch = schemes(implicit ? "backwardEuler" : "forwardEuler");
    auto sol = solution();
    double t = 2;
    for (int i = 0; i < before + 1 + after; ++i)
    {
        std::string what = mc::cat("step ", i, i == before ? " from a previous solution of the caller" : "", " of ", q.text);
        auto previous = q.v;
        if (i == before)
        {
            previous = distinct<scalar>(d.nCells(), 70);
            put(fvcc::oldTime(*q.phi).internalField(), previous);
        }
        dsl::solve(q.e, *q.phi, t, DT[i % 3], sch, sol);
        if (implicit) q.backward(previous, DT[i % 3], what);
        else q.forward(previous, DT[i % 3], what);
        MC_STEP(what);
        t += DT[i % 3];
    }
}
// terms the scheme cannot treat must not vanish
void implicitTermForward()
{
    auto p = pick2();
    const MeshData& d = meshes()[0];
    World<scalar> w(d, p.exec, Conditions<scalar>(d));
    NeoFOAM::Database db;
    static const int K[] = {ImpSource, ImpDiv, ImpLap};
    int k = choose(3, "term");
    Problem<scalar> q(w, db, {{K[k], 1}, {ExpSurf, 1}}, "phi", 1);
    auto sch = schemes("forwardEuler");
    auto sol = solution();
    bool no = refused([&] { dsl::solve(q.e, *q.phi, 3.0, 0.5, sch, sol); });
    MC_STEP(q.text, no ? " refused" : "");
    if (no) return;
    auto x = val(q.phi->internalField());
    auto want = shifted(q.v, -0.5, w.values(q.terms, 2, q.v, q.b)), without = shifted(q.v, -0.5, w.values(q.terms, 0, q.v, q.b));
    bool ok = true, dropped = true;
    for (size_t i = 0; i < x.size(); ++i) ok &= near(x[i], want[i]), dropped &= near(x[i], without[i]);
    MC_CHECK(ok, dropped ? "implicit-term-dropped" : "implicit-term", "the explicit scheme takes ", q.text, " to ", show(x), ", expected ", show(want), " or a refusal");
}
void scaledDerivative()
{
    auto p = pick2();
    const MeshData& d = meshes()[0];
    World<scalar> w(d, p.exec, Conditions<scalar>(d));
    NeoFOAM::Database db;
    Problem<scalar> q(w, db, {{ExpSurf, 1}}, "phi", 1);
    bool implicit = choose(2, "scheme");
    double k = choose(2, "factor") ? -2 : 4;
    q.e.temporalOperators().clear();
    q.e.addOperator(k * dsl::imp::ddt(*q.phi));
    auto sch = schemes(implicit ? "backwardEuler" : "forwardEuler");
    auto sol = solution();
    bool no = refused([&] { dsl::solve(q.e, *q.phi, 3.0, 0.5, sch, sol); });
    MC_STEP(k, "*", q.text, no ? " refused" : "");
    if (no && !implicit) return;
    MC_CHECK(!no, "scaled-derivative-refused", k, "*", q.text, " was refused");
    auto x = val(q.phi->internalField());
    auto want = shifted(q.v, -0.5 / k, w.values(q.terms, 2, q.v, q.b));
    auto unscaled = shifted(q.v, -0.5, w.values(q.terms, 2, q.v, q.b));
    bool ok = true, ignored = !implicit;
    for (size_t i = 0; i < x.size(); ++i) ok &= near(x[i], want[i]), ignored &= near(x[i], unscaled[i]);
    MC_CHECK(ok, ignored ? "scaled-derivative-ignored" : "scaled-derivative", "the scheme takes ", k, "*", q.text, " to ", show(x), ", expected ", show(want), implicit ? "" : " or a refusal");
}
}
MC_SCENARIO(steps_forward_scalar, "three explicit steps of different sizes: 4 meshes (7 thorough) x conditions x all sets of up to 3 explicit terms with three assignments of factors x executors x orders, through dsl::solve, the integrator, its copies") { stepsForward<scalar>(); }
MC_SCENARIO(steps_forward_vector, "the same for vectors") { stepsForward<Vector>(); }
MC_SCENARIO(steps_backward, "two implicit steps: 3 meshes (6 thorough) x conditions x all sets of up to 2 (4 thorough) of 7 terms, explicit ones included x executors x orders") { stepsBackward(); }
MC_SCENARIO(solve_implicit, "implicit steps through dsl::solve; the solver settings come from the caller's solution settings") { solveImplicit(); }
MC_SCENARIO(histories_, "all histories of 4 (5 thorough) steps with either scheme on two unknowns, equations made afresh or kept") { histories(); }
MC_SCENARIO(selection_, "8 scheme names x four ways of making the integrator x executors") { selection(); }
MC_SCENARIO(rejected_, "empty equations, missing schemes, missing solver") { rejected(); }
MC_SCENARIO(implicit_term_forward, "implicit terms under the explicit scheme: treated or refused") { implicitTermForward(); }
MC_SCENARIO(scaled_derivative, "a scaled time derivative under both schemes") { scaledDerivative(); }
MC_SCENARIO(previous_given, "steps from a previous solution that the caller sets, after 0..2 steps and before 0..1: 3 meshes x conditions x both schemes x terms x executors x orders") { previousGiven(); }
