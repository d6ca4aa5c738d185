// The external time integrator sees the library's equation and solution faithfully (stand-in: shim/sundials).
#include "problem.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/rungeKutta.hpp"
#include "fakesun.hpp"
using namespace fv;
namespace ti = NeoFOAM::timeIntegration;
namespace ns = NeoFOAM::sundials;

namespace
{
std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        auto& a = meshList();
        std::vector<MeshData> l {a[1], a[3], a[7], a[0], a[11], a[6]};
        l.push_back(skewed());
        return l;
    }();
    return L;
}
const MeshData& pickMesh(int n) { return meshes()[size_t(choose(n, "mesh"))]; }
Dictionary rk(const char* method = "Forward-Euler")
{
    auto s = schemes("Runge-Kutta");
    if (method) s.subDict("ddtSchemes").insert("Runge-Kutta-Method", std::string(method));
    return s;
}
const double DT[] = {0.25, 0.5, 0.125};
using In = ti::TimeIntegration<Vol<scalar>>;
// one step has been made: what the integrator saw, and what became of the solution
void stepped(Problem<scalar>& q, double t, double dt, const std::string& what)
{
    MC_CHECK(fsun::steps.size() == 1, "steps", what, ": the integrator made ", fsun::steps.size(), " steps");
    auto& s = fsun::steps[0];
    MC_CHECK(s.t == t && s.h == dt, "time", what, ": the integrator stepped from ", s.t, " by ", s.h, ", asked for was ", t, " and ", dt);
    checkNear(s.from, q.v, "given-solution", what + ": solution given to the integrator");
    checkNear(s.rhs, shifted(std::vector<double>(q.v.size(), 0.0), -1.0, q.w.values(q.terms, 0, q.v, q.b)), "given-equation", what + ": right-hand side given to the integrator");
    MC_CHECK(same(val(q.phi->internalField()), s.to), "written-back", what, ": the integrator answered ", show(s.to), ", stored is ", show(val(q.phi->internalField())));
    fsun::steps.clear();
    q.forward(dt, what);
}
void steps()
{
    auto p = pick2();
    const MeshData& d = pickMesh(mc::thorough() ? 7 : 4);
    World<scalar> w(d, p.exec, pickConditions<scalar>(d, 3));
    auto terms = pickTerms(ExpSource, ExpLap + 1, mc::thorough() ? 3 : 2);
    int how = choose(3, "form");
    fsun::begin();
    fsun::liberty = choose(3, "evaluations");
    {
        NeoFOAM::Database db;
        Problem<scalar> q(w, db, terms, "phi", 1, how & 1);
        auto sch = rk();
        auto sol = solution(nullptr);
        double t = 2;
        if (how == 0)
            for (int i = 0; i < 2; ++i)
            {
                dsl::solve(q.e, *q.phi, t, DT[i], sch, sol);
                stepped(q, t, DT[i], mc::cat("step ", i, " of ", DT[i], " of ", q.text));
                t += DT[i];
            }
        else
        {
            q.e.build(sch);
            In in(sch.subDict("ddtSchemes"), sol);
            for (int i = 0; i < 3; ++i)
            {
                if (how == 2 && i == 1)
                {
                    In c(in), mv(std::move(c));
                    mv.solve(q.e, *q.phi, t, DT[i]);
                }
                else in.solve(q.e, *q.phi, t, DT[i]);
                stepped(q, t, DT[i], mc::cat("step ", i, " of ", DT[i], " of ", q.text));
                t += DT[i];
            }
        }
        MC_STEP(q.text);
    }
    MC_CHECK(fsun::liveIntegrators == 0 && fsun::liveContexts == 0, "released", fsun::liveIntegrators, " integrators and ", fsun::liveContexts, " contexts are left over");
}
// histories of integrators and their copies on two unknowns
void histories()
{
    int len = mc::thorough() ? 5 : 4;
    int e = choose(3, "executor");
    kk::begin(kk::Forward);
    const MeshData &d1 = meshes()[0], &d2 = meshes()[1];
    World<scalar> w1(d1, execOf(e), Conditions<scalar>(d1)), w2(d2, execOf(e), Conditions<scalar>(d2));
    fsun::begin();
    {
        NeoFOAM::Database db;
        Problem<scalar> q1(w1, db, {{ExpSource, 1.0}, {ExpDiv, -0.5}}, "phi", 1), q2(w2, db, {{ExpSurf, 2.0}}, "psi", -3);
        Problem<scalar>* q[] = {&q1, &q2};
        double t[] = {2, 0};
        auto sch = std::make_unique<Dictionary>(rk());
        auto sol = solution(nullptr);
        q1.e.build(*sch), q2.e.build(*sch);
        std::vector<std::unique_ptr<In>> in;
        in.push_back(std::make_unique<In>(sch->subDict("ddtSchemes"), sol));
        std::string h;
        int used = 0;
        for (int i = 0; i < len; ++i)
        {
            int op = choose(8, "operation");
            size_t at = in.size() - 1;
            switch (op)
            {
            case 0: // a step of the first unknown by the first or last integrator
            case 1:
            case 2:
            case 3:
            {
                auto& by = *in[op & 1 ? at : 0];
                if ((op & 1) && at == 0) mc::prune(); // the same
                int k = op / 2;
                double dt = DT[i % 3];
                h += mc::cat(k ? " psi" : " phi", op & 1 ? " by the copy" : "");
                by.solve(q[k]->e, *q[k]->phi, t[k], dt);
                stepped(*q[k], t[k], dt, mc::cat("history", h));
                t[k] += dt;
                used++;
                break;
            }
            case 4: // copied
                if (in.size() >= 3) mc::prune();
                h += " copy";
                in.push_back(std::make_unique<In>(*in.back()));
                break;
            case 5: // the first goes, moved or destroyed
                if (in.size() < 2) mc::prune();
                h += " drop";
                in.erase(in.begin());
                break;
            case 6: // new values and another time
                h += " reset";
                q1.v = distinct<scalar>(d1.nCells(), -7.0 + i);
                put(q1.phi->internalField(), q1.v);
                put(fvcc::oldTime(*q1.phi).internalField(), q1.v);
                q1.phi->correctBoundaryConditions();
                q1.b = w1.c.values(d1, q1.v, q1.b);
                t[0] = 10;
                break;
            default: // another equation for the same unknown
                h += " equation";
                q1.terms = {{ExpSource, -2.0}, {ExpSurf, double(i) + 0.5}};
                q1.fresh(i % 2);
                q1.e.build(*sch);
            }
        }
        MC_STEP(h);
    }
    MC_CHECK(fsun::liveIntegrators == 0 && fsun::liveContexts == 0, "released", fsun::liveIntegrators, " integrators and ", fsun::liveContexts, " contexts are left over");
}
// fields to vectors of the integrator and back
template<typename V>
void conversions()
{
    auto p = pick();
    size_t n = size_t(choose(mc::thorough() ? 7 : 5, "size"));
    fsun::begin();
    std::vector<double> v, x;
    for (size_t i = 0; i < n; ++i) v.push_back(1.5 + double(i * i)), x.push_back(-4.0 - double(i));
    std::shared_ptr<SUNContext> ctx(new SUNContext(nullptr), [](SUNContext* c) { SUNContext_Free(c), delete c; });
    SUNContext_Create(SUN_COMM_NULL, ctx.get());
    {
        int how = choose(4, "form");
        auto a = std::make_unique<ns::SKVector<scalar>>();
        a->setExecutor(p.exec);
        MC_CHECK(int(a->variant().index()) == p.e, "vector-kind", "the vector for ", EXEC[p.e], " is of kind ", a->variant().index());
        a->initNVector(n, ctx);
        Field<scalar> f(make(p.exec, v)), g(make(p.exec, x));
        ns::fieldToSunNVector(f, a->sunNVector());
        MC_CHECK(same(fsun::values(a->sunNVector()), v), "to-vector", EXEC[p.e], ": ", show(v), " became ", show(fsun::values(a->sunNVector())));
        MC_CHECK(same(val(f), v), "source", "the field was changed to ", show(val(f)));
        if (how == 0) ns::sunNVectorToField(std::as_const(*a).sunNVector(), g);
        else
        {
            // a copy is a vector of its own; a moved one keeps the content
            auto b = how == 3 ? std::make_unique<ns::SKVector<scalar>>(std::move(*a)) : std::make_unique<ns::SKVector<scalar>>(*a);
            if (how == 1 || how == 3) a.reset();
            MC_CHECK(int(b->variant().index()) == p.e && size_t(N_VGetLength(b->sunNVector())) == n, "copy-kind", "the copy is of kind ", b->variant().index(), " and length ", N_VGetLength(b->sunNVector()));
            if (how != 3)
            {
                std::vector<double> y(x);
                for (auto& c : y) c *= 3;
                Field<scalar> other(make(p.exec, y));
                ns::fieldToSunNVector(other, b->sunNVector());
                MC_CHECK(same(fsun::values(b->sunNVector()), y), "to-vector", "copy of a vector: ", show(y), " became ", show(fsun::values(b->sunNVector())));
                if (a) MC_CHECK(same(fsun::values(a->sunNVector()), v), "copy-shares", "writing to the copy of a vector changed the original to ", show(fsun::values(a->sunNVector())));
                ns::fieldToSunNVector(f, b->sunNVector());
            }
            ns::sunNVectorToField(std::as_const(*b).sunNVector(), g);
        }
        checkField(g, v, "to-field", mc::cat(EXEC[p.e], ", form ", how));
    }
    MC_STEP(n);
}
void refusals()
{
    static const char* M[] = {"Heun", "Midpoint", "Forward-Euler ", "forward-euler", "", "RK4", nullptr};
    auto p = pick2();
    int m = choose(9, "method");
    const MeshData& d = meshes()[0];
    World<scalar> w(d, p.exec, Conditions<scalar>(d));
    fsun::begin();
    {
        NeoFOAM::Database db;
        Problem<scalar> q(w, db, {{ExpSource, 1.0}}, "phi", 1);
        auto sch = m < 7 ? rk(M[m]) : rk();
        if (m == 7) fsun::failStep = ARK_RHSFUNC_FAIL;
        if (m == 8) fsun::failStep = ARK_TSTOP_RETURN;
        bool r = refused([&] { dsl::solve(q.e, *q.phi, 1.0, 0.5, sch, solution(nullptr)); });
        MC_CHECK(r, "not-refused", m < 7 ? mc::cat("method '", M[m] ? M[m] : "(none)", "'") : std::string("a failed step"), " was accepted");
        MC_CHECK(same(val(q.phi->internalField()), q.v), "refused-but-changed", "the solution became ", show(val(q.phi->internalField())));
        MC_STEP(m);
    }
}
}
MC_SCENARIO(steps_, "two or three external steps: 4 meshes (7 thorough) x conditions x all sets of up to 2 (3) explicit terms x executors x orders, through dsl::solve, a kept integrator, copies; 0..2 evaluations of the equation beside the one that counts") { steps(); }
MC_SCENARIO(histories_, "all histories of 4 (5 thorough) steps of two unknowns on different meshes, copies and destructions of integrators, new values, times and equations") { histories(); }
MC_SCENARIO(conversions_, "fields to vectors and back: sizes 0..4 (6 thorough) x executors x orders x copies and moves of vectors") { conversions<scalar>(); }
MC_SCENARIO(refused_, "methods that are not supported and failing steps: refused, solution unchanged") { refusals(); }
