#pragma once
#include "terms.hpp"
#include "standin_solver.hpp"
namespace fv
{
// one unknown with its equation and the model of its state
template<typename T>
struct Problem
{
    World<T>& w;
    std::vector<Use> terms;
    Vol<T>* phi;
    std::vector<T> v, b;
    dsl::Expression<T> e;
    std::string text;
    Problem(World<T>& w_, NeoFOAM::Database& db, std::vector<Use> t, const std::string& name, double from, int ddtAt = 0) : w(w_), terms(std::move(t)), e(w.m.exec())
    {
        v = distinct<T>(w.d.nCells(), from);
        phi = &registered(db, conditioned<T>(w.m, w.c, v, distinct<T>(w.d.nB(), 40), name));
        phi->correctBoundaryConditions();
        b = w.c.values(w.d, v, distinct<T>(w.d.nB(), 40));
        fresh(ddtAt);
    }
    void fresh(int ddtAt)
    {
        e.temporalOperators().clear(), e.spatialOperators().clear();
        if (ddtAt == 0) e.addOperator(dsl::imp::ddt(*phi));
        for (auto& u : terms) e.addOperator(w.make(u, *phi));
        if (ddtAt) e.addOperator(dsl::imp::ddt(*phi));
        text = mc::cat("ddt(", phi->name, ")", show(terms), " on ", w.d.name, ", conditions ", w.c.text());
    }
    void checkState(const std::string& what)
    {
        checkNear(val(phi->internalField()), v, "solution", what);
        checkNear(val(phi->boundaryField().value()), b, "boundary", what + ": boundary values");
        checkNear(val(fvcc::oldTime(*phi).internalField()), v, "previous", what + ": the solution kept for the next step");
        w.untouched(what);
    }
    void forward(double dt, const std::string& what) { forward(v, dt, what); }
    void forward(const std::vector<T>& previous, double dt, const std::string& what)
    {
        v = shifted(previous, -dt, w.values(terms, 0, v, b));
        b = w.c.values(w.d, v, b);
        checkState(what);
    }
    // the new state solves (x - v)/dt + implicit(x) + explicit(v) = 0
    void backward(double dt, const std::string& what) { backward(v, dt, what); }
    void backward(const std::vector<T>& previous, double dt, const std::string& what)
    {
        if constexpr (std::is_same_v<T, scalar>)
        {
            auto x = val(phi->internalField());
            MC_CHECK(x.size() == v.size(), "solution", what, ": ", x.size(), " values");
            auto bx = w.c.values(w.d, x, b);
            auto r = shifted(w.values(terms, 1, x, bx), 1.0, w.values(terms, 0, v, b));
            double size = 1;
            for (auto q : x) size = std::max(size, std::abs(q));
            for (size_t i = 0; i < x.size(); ++i)
            {
                double q = (x[i] - previous[i]) / dt + r[i];
                MC_CHECK(std::abs(q) < 1e-9 * size / dt, "solution", what, ": from ", show(v), " to ", show(x), " the equation of cell ", i, " is left with ", q);
            }
            v = x, b = bx;
            checkState(what);
        }
    }
};
inline Dictionary solution(const char* solver = "exact")
{
    Dictionary d;
    if (solver) d.insert("solver", std::string(solver));
    d.insert("marker", std::string("the caller's"));
    return d;
}
}
