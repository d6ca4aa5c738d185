#include <ginkgo/ginkgo.hpp>
#include <cmath>
#ifndef KK_STANDALONE
#include "mc.hpp"
#else
#include <cstdio>
#include <cstdlib>
#endif
namespace fginkgo
{
std::vector<Solve> solves;
int live;
double factor = 1;
bool failSolve;
void misuse(const char* sig, const std::string& what)
{
#ifndef KK_STANDALONE
    mc::fail(sig, what);
    throw std::logic_error(what);
#else
    std::fprintf(stderr, "%s: %s\n", sig, what.c_str());
    std::exit(9);
#endif
}
void hostOnly(const void* p, std::size_t bytes)
{
    if (bytes && kk::spaceOf(p) == 2) misuse("ginkgo-space", "device memory is given to a host executor");
}
void begin()
{
    solves.clear();
    live = 0, factor = 1, failSolve = false;
}
namespace
{
using D = gko::matrix::Dense<double>;
using C = gko::matrix::Csr<double, int>;
std::vector<double> eliminate(std::vector<double> a, std::vector<double> b, bool& singular)
{
    std::size_t n = b.size();
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t p = k;
        for (std::size_t i = k + 1; i < n; ++i)
            if (std::abs(a[i * n + k]) > std::abs(a[p * n + k])) p = i;
        if (std::abs(a[p * n + k]) < 1e-9)
        {
            singular = true;
            return b;
        }
        for (std::size_t j = 0; j < n; ++j) std::swap(a[k * n + j], a[p * n + j]);
        std::swap(b[k], b[p]);
        for (std::size_t i = k + 1; i < n; ++i)
        {
            double f = a[i * n + k] / a[k * n + k];
            for (std::size_t j = k; j < n; ++j) a[i * n + j] -= f * a[k * n + j];
            b[i] -= f * b[k];
        }
    }
    for (std::size_t k = n; k-- > 0;)
    {
        for (std::size_t j = k + 1; j < n; ++j) b[k] -= a[k * n + j] * b[j];
        b[k] /= a[k * n + k];
    }
    return b;
}
class Solver : public gko::LinOp
{
public:
    Solver(std::shared_ptr<const gko::Executor> e, std::shared_ptr<const gko::LinOp> a, gko::config::pnode c) : LinOp(e, a->get_size()), a_(std::move(a)), config_(std::move(c)) {}
    void applyTo(const gko::LinOp* bOp, gko::LinOp* xOp) const override
    {
        auto* a = dynamic_cast<const C*>(a_.get());
        auto* b = dynamic_cast<const D*>(bOp);
        auto* x = dynamic_cast<D*>(xOp);
        if (!a || !b || !x) misuse("ginkgo-types", "the solver is applied to something else than a sparse matrix and dense vectors");
        auto n = get_size()[0];
        if (get_size()[1] != n || b->get_size()[0] != n || x->get_size()[0] != n || b->get_size()[1] != 1 || x->get_size()[1] != 1) misuse("ginkgo-shape", "matrix and vectors do not fit");
        Solve s {{}, b->column(), {}, x->column(), config_, get_executor()->kind()};
        if (failSolve) throw std::runtime_error("the solver gives up");
        s.a.assign(n * n, 0.0);
        auto i = a->rows(), j = a->columns();
        auto v = a->values();
        for (std::size_t k = 0; k < v.size(); ++k) s.a[std::size_t(i[k]) * n + std::size_t(j[k])] += v[k];
        bool singular = false;
        s.x = eliminate(s.a, s.b, singular);
#ifndef KK_STANDALONE
        if (singular) mc::prune();
#endif
        for (auto& q : s.x) q *= factor;
        x->put(s.x);
        solves.push_back(s);
    }

private:
    std::shared_ptr<const gko::LinOp> a_;
    gko::config::pnode config_;
};
class Factory : public gko::LinOpFactory
{
public:
    Factory(std::shared_ptr<const gko::Executor> e, gko::config::pnode c) : exec_(std::move(e)), config_(std::move(c)) {}
    std::unique_ptr<gko::LinOp> generate(std::shared_ptr<const gko::LinOp> a) const override
    {
        if (a->get_size()[0] != a->get_size()[1]) misuse("ginkgo-shape", "the matrix is not square");
        return std::make_unique<Solver>(exec_, std::move(a), config_);
    }

private:
    std::shared_ptr<const gko::Executor> exec_;
    gko::config::pnode config_;
};
}
}
std::unique_ptr<gko::LinOpFactory> gko::config::deferred_factory_parameter::on(std::shared_ptr<const Executor> e) const
{
    if (!e) fginkgo::misuse("ginkgo-executor", "a factory without executor");
    if (config.get_tag() != pnode::tag_t::map) throw std::runtime_error("a configuration is a map");
    if (types.value != "float64") fginkgo::misuse("ginkgo-types", "the solver is made for " + types.value);
    return std::make_unique<fginkgo::Factory>(std::move(e), config);
}
