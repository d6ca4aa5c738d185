// Linear solvers of ours, selected by name: they solve by elimination and note what they were given.
#pragma once
#include "systems.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
namespace fv
{
struct Solved
{
    std::string solver, marker; // who solved, and the caller's settings it was built with
    int exec, execSystem, execField, cloned;
    std::vector<scalar> a, b, guess, x;
};
inline std::vector<Solved> solved;
inline bool singularAllowed = false; // answer something in that case
// Gaussian elimination with partial pivoting
inline std::vector<scalar> eliminate(std::vector<scalar> a, std::vector<scalar> b)
{
    size_t n = b.size();
    for (size_t k = 0; k < n; ++k)
    {
        size_t p = k;
        for (size_t i = k + 1; i < n; ++i)
            if (std::abs(a[i * n + k]) > std::abs(a[p * n + k])) p = i;
        if (std::abs(a[p * n + k]) < 1e-9)
        {
            if (!singularAllowed) mc::prune(); // no unique solution
            for (auto& v : b) v = 2 * v + 1;
            return b;
        }
        for (size_t j = 0; j < n; ++j) std::swap(a[k * n + j], a[p * n + j]);
        std::swap(b[k], b[p]);
        for (size_t i = k + 1; i < n; ++i)
        {
            double f = a[i * n + k] / a[k * n + k];
            for (size_t j = k; j < n; ++j) a[i * n + j] -= f * a[k * n + j];
            b[i] -= f * b[k];
        }
    }
    for (size_t k = n; k-- > 0;)
    {
        for (size_t j = k + 1; j < n; ++j) b[k] -= a[k * n + j] * b[j];
        b[k] /= a[k * n + k];
    }
    return b;
}
template<int Which>
class StandIn : public la::SolverFactory::Register<StandIn<Which>>
{
public:
    using Base = la::SolverFactory::Register<StandIn<Which>>;
    StandIn(const NeoFOAM::Executor& ex, const Dictionary& d) : Base(ex), marker_(d.contains("marker") ? d.get<std::string>("marker") : "none") {}
    static std::string name() { return Which == 0 ? "exact" : Which == 1 ? "other" : "Exact"; }
    static std::string doc() { return "elimination"; }
    static std::string schema() { return "none"; }
    void solve(const la::LinearSystem<scalar, localIdx>& s, Field<scalar>& x) const override
    {
        Dense<scalar> d(s);
        Solved r {name(), marker_, indexOf(this->exec_), indexOf(s.exec()), indexOf(x.exec()), cloned_, d.a, d.b, val(x), {}};
        MC_CHECK(x.size() == d.n, "unknowns", "the solver was given ", x.size(), " unknowns for ", d.n, " equations");
        r.x = eliminate(d.a, d.b);
        if (Which == 1)
            for (auto& v : r.x) v += 1000; // an answer of its own
        put(x, r.x);
        solved.push_back(r);
    }
    std::unique_ptr<la::SolverFactory> clone() const override
    {
        auto c = std::make_unique<StandIn>(*this);
        c->cloned_++;
        return c;
    }

private:
    std::string marker_;
    int cloned_ = 0;
};
template class StandIn<0>;
template class StandIn<1>;
template class StandIn<2>;
}
