// Steady problems are solved through the selected solver on the full system.
#include "terms.hpp"
#include "standin_solver.hpp"
using namespace fv;

namespace
{
std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        auto& a = meshList();
        std::vector<MeshData> l {a[1], a[7], a[3], a[0], a[11], a[6], a[8], a[5]};
        l.push_back(skewed());
        return l;
    }();
    return L;
}
const MeshData& pickMesh(int n) { return meshes()[size_t(choose(n, "mesh"))]; }
Dictionary solution(const char* solver)
{
    Dictionary d, nested;
    if (solver) d.insert("solver", std::string(solver));
    d.insert("marker", std::string("the caller's"));
    return d;
}
// the recorded system stands for V (implicit(x) + explicit(v)) = 0
void checkSystem(const World<scalar>& w, const std::vector<Use>& terms, const std::vector<scalar>& v, const std::vector<scalar>& b, const Solved& s, const std::string& what)
{
    size_t n = w.d.nCells();
    MC_CHECK(s.b.size() == n, "system", what, ": ", s.b.size(), " equations for ", n, " cells");
    auto ex = w.values(terms, 0, v, b);
    for (size_t k = 0; k <= n + 1; ++k) // the unit vectors, zero, and the present values
    {
        std::vector<scalar> x(n, 0.0);
        if (k < n) x[k] = 1;
        if (k == n + 1) x = v;
        auto want = timesEach(w.d.V, sum(ex, w.values(terms, 1, x, w.c.values(w.d, x, b))));
        std::vector<scalar> got;
        for (size_t i = 0; i < n; ++i)
        {
            double r = -s.b[i];
            for (size_t j = 0; j < n; ++j) r += s.a[i * n + j] * x[j];
            got.push_back(r);
        }
        checkNear(got, want, "system", mc::cat(what, ": residual of the system for x = ", show(x)));
    }
}
struct Steady
{
    World<scalar>& w;
    std::vector<Use> terms;
    Vol<scalar> phi;
    std::vector<scalar> v, b;
    dsl::Expression<scalar> e;
    std::string text;
    Steady(World<scalar>& w_, std::vector<Use> t, const std::string& name = "phi", double from = 1)
        : w(w_), terms(std::move(t)), phi(conditioned<scalar>(w.m, w.c, distinct<scalar>(w.d.nCells(), from), distinct<scalar>(w.d.nB(), 40), name)), v(distinct<scalar>(w.d.nCells(), from)), e(w.m.exec())
    {
        phi.correctBoundaryConditions();
        b = w.c.values(w.d, v, distinct<scalar>(w.d.nB(), 40));
        for (auto& u : terms) e.addOperator(w.make(u, phi));
        text = mc::cat(show(terms), " = 0 on ", w.d.name, ", conditions ", w.c.text());
    }
    // one solve: the solver's answer arrives
    void solve(const Dictionary& sch, const Dictionary& sol, const std::string& solver, int exec, const std::string& what)
    {
        solved.clear();
        dsl::solve(e, phi, 2.0, 0.5, sch, sol);
        MC_CHECK(solved.size() == 1, "calls", what, ": ", solved.size(), " solver calls");
        auto& s = solved[0];
        MC_CHECK(s.solver == solver, "selection", what, ": solved by ", s.solver, ", selected is ", solver);
        MC_CHECK(s.marker == "the caller's", "settings", what, ": the solver got the settings of ", s.marker);
        MC_CHECK(s.exec == exec && s.execSystem == exec && s.execField == exec, "executor", what, ": solver, system and solution are on ", EXEC[s.exec], ", ", EXEC[s.execSystem], ", ", EXEC[s.execField], ", expected ", EXEC[exec]);
        MC_CHECK(same(s.guess, v), "guess", what, ": the solver starts from ", show(s.guess), ", the solution was ", show(v));
        checkSystem(w, terms, v, b, s, what);
        MC_CHECK(same(val(phi.internalField()), s.x), "answer", what, ": the solver answered ", show(s.x), ", stored is ", show(val(phi.internalField())));
        v = s.x;
        b = w.c.values(w.d, v, b);
        checkNear(val(phi.boundaryField().value()), b, "boundary", what + ": boundary values after the solve");
        w.untouched(what);
        MC_STEP(what);
    }
};
void systems()
{
    auto p = pick2();
    const MeshData& d = pickMesh(mc::thorough() ? 9 : 4);
    World<scalar> w(d, p.exec, pickConditions<scalar>(d, 2), choose(2, "scheme") ? UpwindScheme : LinearScheme);
    auto terms = pickTerms(ExpSource, Terms, mc::thorough() ? 4 : 3);
    if (terms.empty()) mc::prune();
    singularAllowed = true;
    Steady q(w, terms);
    q.solve(schemes("", SCHEME[w.div]), solution("exact"), "exact", p.e, q.text);
}
// solving again, another unknown in between, with changing solvers and equations
void histories()
{
    auto p = pick2();
    const MeshData& d = pickMesh(2);
    World<scalar> w(d, p.exec, Conditions<scalar>(d));
    Steady a(w, {{ImpLap, -1}, {ImpSource, 0.5}, {ExpDiv, 1}}), b(w, {{ImpSource, 2}, {ExpSource, -0.5}}, "psi", -4);
    auto sch = schemes("");
    std::string h;
    for (int i = 0; i < (mc::thorough() ? 4 : 3); ++i)
    {
        int op = choose(5, "operation");
        h += mc::cat(" ", op);
        auto what = mc::cat("history", h, ": ");
        if (op == 0) a.solve(sch, solution("exact"), "exact", p.e, what + a.text);
        if (op == 1) a.solve(sch, solution("other"), "other", p.e, what + a.text);
        if (op == 2) b.solve(sch, solution("Exact"), "Exact", p.e, what + b.text);
        if (op == 3) // an explicit term more
        {
            a.e.addOperator(w.make(Use {ExpSurf, 0.5}, a.phi));
            a.terms.push_back({ExpSurf, 0.5});
        }
        if (op == 4) // new values given by the user
        {
            a.v = distinct<scalar>(d.nCells(), 5);
            put(a.phi.internalField(), a.v);
            a.phi.correctBoundaryConditions();
            a.b = w.c.values(d, a.v, a.b);
        }
        MC_CHECK(same(val(a.phi.internalField()), a.v) && same(val(b.phi.internalField()), b.v), "others", what, "the other unknown changed");
    }
    mc::noteState(h);
}
void rejected()
{
    auto p = pick();
    const MeshData& d = meshes()[0];
    World<scalar> w(d, p.exec, Conditions<scalar>(d));
    Steady q(w, {{ImpLap, -1}, {ImpSource, 0.5}});
    static const char* NAME[] = {"exact", "other", "Exact", "EXACT", "exact ", "exac", "", "Ginkgo", "Petsc", nullptr};
    int k = choose(10, "solver"), empty = choose(2, "empty equation");
    auto sol = solution(NAME[k]);
    if (empty) q.e.spatialOperators().clear();
    solved.clear();
    bool no = refused([&] { dsl::solve(q.e, q.phi, 2.0, 0.5, schemes(""), sol); });
    std::string what = mc::cat("solver '", NAME[k] ? NAME[k] : "(none)", "'", empty ? ", empty equation" : "");
    MC_STEP(what, no ? " refused" : "");
    MC_CHECK(no == (k > 2 || empty), "refusal", what, no ? " was refused" : " was accepted");
    if (no)
    {
        MC_CHECK(solved.empty(), "refusal", what, " was refused after solving");
        MC_CHECK(same(val(q.phi.internalField()), q.v), "refusal", what, " was refused but changed the solution");
    }
    else MC_CHECK(solved.size() == 1 && solved[0].solver == NAME[k], "selection", what, ": solved by ", solved.empty() ? "nobody" : solved[0].solver);
}
// solver objects: copies, moves, temporaries as settings
void objects()
{
    auto p = pick();
    const MeshData& d = meshes()[1];
    auto m = d.make(p.exec);
    int name = choose(2, "solver"), how = choose(5, "form"), again = choose(2, "twice");
    static const char* NAME[] = {"exact", "other"};
    auto s = emptySystem<scalar>(m);
    std::vector<scalar> val_ = distinct<scalar>(s.matrix().values().size(), 11), rhs = distinct<scalar>(d.nCells(), -23), guess = distinct<scalar>(d.nCells(), 3);
    for (size_t i = 0; i < val_.size(); ++i) val_[i] += double((i * i * 7) % 11);
    put(s.matrix().values(), val_), put(s.rhs(), rhs);
    Dense<scalar> want(s);
    auto x = kh::make(p.exec, guess);
    std::unique_ptr<la::Solver> a = std::make_unique<la::Solver>(p.exec, solution(NAME[name])), b;
    int clones = 0;
    if (how == 1) b = std::make_unique<la::Solver>(*a), a.reset(), clones = 1;
    if (how == 2) b = std::make_unique<la::Solver>(std::move(*a)), a.reset();
    if (how == 3) b = std::make_unique<la::Solver>(p.exec, la::SolverFactory::create(p.exec, solution(NAME[name])));
    if (how == 4) b = std::make_unique<la::Solver>(la::Solver(la::Solver(*a))), clones = 1;
    auto& use = b ? *b : *a;
    solved.clear();
    for (int i = 0; i <= again; ++i)
    {
        auto before = val(x);
        use.solve(s, x);
        std::string what = mc::cat("solver ", NAME[name], ", form ", how, ", solve ", i);
        MC_CHECK(solved.size() == size_t(i) + 1 && solved[size_t(i)].solver == NAME[name] && solved[size_t(i)].marker == "the caller's", "selection", what, " was not the one used");
        auto& q = solved[size_t(i)];
        MC_CHECK(q.exec == p.e && q.execSystem == p.e && q.execField == p.e, "executor", what, " runs elsewhere");
        MC_CHECK(q.cloned == clones, "clone", what, ": cloned ", q.cloned, " times");
        MC_CHECK(same(q.a, want.a) && same(q.b, want.b) && same(q.guess, before), "arguments", what, " got another system");
        MC_CHECK(same(val(x), q.x), "answer", what, ": the answer did not arrive");
        Dense<scalar> after(s);
        MC_CHECK(same(after.a, want.a) && same(after.b, want.b), "arguments", what, " changed the system");
        MC_STEP(what);
    }
}
}
MC_SCENARIO(systems_, "4 meshes (9 thorough) x conditions x two schemes x all sets of up to 3 (4 thorough) of 7 terms with three assignments of factors x executors x orders; the system is applied to every unit vector") { systems(); }
MC_SCENARIO(histories_, "all histories of 3 (4 thorough) solves, changed equations and values on two unknowns with three solvers") { histories(); }
MC_SCENARIO(rejected_, "10 solver names x empty equations x executors") { rejected(); }
MC_SCENARIO(objects_, "solver objects made, copied, moved, used twice") { objects(); }
