#include "fakesun.hpp"
#include <algorithm>
#include <set>
#include <string>
#ifndef KK_STANDALONE
#include "mc.hpp"
#else
#include <cstdio>
#include <cstdlib>
#endif
namespace fsun
{
std::vector<Step> steps;
int liveContexts, liveIntegrators, createdIntegrators, liberty, failStep;
void misuse(const char* sig, const char* what)
{
#ifndef KK_STANDALONE
    mc::fail(sig, what);
#else
    std::fprintf(stderr, "%s: %s\n", sig, what);
    std::exit(9);
#endif
}
namespace
{
constexpr unsigned CTX = 0x53554e43;
struct Ark
{
    SUNContext ctx;
    ARKRhsFn f;
    double tn, h = 0;
    N_Vector yn;
    void* user = nullptr;
    int table = -2;
    bool tol = false;
};
std::set<SUNContext>& contexts()
{
    static std::set<SUNContext> s;
    return s;
}
std::set<void*>& arks()
{
    static std::set<void*> s;
    return s;
}
Ark* ark(void* p, const char* what)
{
    if (p && !arks().count(p)) misuse("freed-integrator", what);
    return static_cast<Ark*>(p);
}
}
void begin()
{
    // what an abandoned execution left behind is forgotten
    steps.clear();
    contexts().clear();
    arks().clear();
    liveContexts = liveIntegrators = createdIntegrators = liberty = failStep = 0;
}
void checkContext(SUNContext c, const char* what)
{
    if (!c || !contexts().count(c)) misuse("context", what);
}
void check(N_Vector v, const char* what)
{
    if (!v || !v->ops || !v->content) misuse("vector", what);
}
std::vector<double> values(N_Vector v)
{
    check(v, "its values are read");
    return kk::peek(v->ops->data(v), std::size_t(v->ops->length(v)));
}
void put(N_Vector v, const std::vector<double>& x)
{
    check(v, "its values are set");
    if (std::size_t(v->ops->length(v)) != x.size()) misuse("vector-length", "vectors of different length meet");
    if (!x.empty()) kk::pokeRaw(v->ops->data(v), x.data(), x.size() * sizeof(double));
}
}
using namespace fsun;
int SUNContext_Create(SUNComm, SUNContext* c)
{
    if (!c) return -1;
    *c = new SUNContext_ {CTX};
    contexts().insert(*c);
    ++liveContexts;
    return 0;
}
int SUNContext_Free(SUNContext* c)
{
    if (!c || !*c) return 0;
    checkContext(*c, "a context is freed twice");
    contexts().erase(*c);
    delete *c;
    *c = nullptr;
    --liveContexts;
    return 0;
}
N_Vector N_VClone(N_Vector v)
{
    check(v, "it is cloned");
    return v->ops->clone(v);
}
void N_VDestroy(N_Vector v)
{
    if (v) v->ops->destroy(v);
}
sunindextype N_VGetLength(N_Vector v)
{
    check(v, "its length is asked for");
    return v->ops->length(v);
}
sunrealtype* N_VGetArrayPointer(N_Vector v)
{
    check(v, "its data are asked for");
    static double none;
    double* p = v->ops->data(v);
    return p ? p : &none;
}
void* ERKStepCreate(ARKRhsFn f, sunrealtype t0, N_Vector y0, SUNContext c)
{
    checkContext(c, "an integrator is made");
    check(y0, "an integrator starts from it");
    if (!f) return nullptr;
    auto* a = new Ark {c, f, t0, 0, N_VClone(y0)};
    put(a->yn, values(y0));
    arks().insert(a);
    ++liveIntegrators, ++createdIntegrators;
    return a;
}
int ERKStepSetTableNum(void* p, ARKODE_ERKTableID t)
{
    auto* a = ark(p, "a table is chosen");
    if (!a) return ARK_MEM_NULL;
    a->table = t;
    return t == ARKODE_FORWARD_EULER_1_1 || t == ARKODE_HEUN_EULER_2_1_2 || t == ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2 ? 0 : ARK_ILL_INPUT;
}
int ARKodeSetUserData(void* p, void* u)
{
    auto* a = ark(p, "the user data are set");
    if (!a) return ARK_MEM_NULL;
    a->user = u;
    return 0;
}
int ARKodeSStolerances(void* p, sunrealtype, sunrealtype)
{
    auto* a = ark(p, "tolerances are set");
    if (!a) return ARK_MEM_NULL;
    a->tol = true;
    return 0;
}
int ARKodeSetFixedStep(void* p, sunrealtype h)
{
    auto* a = ark(p, "the step is set");
    if (!a) return ARK_MEM_NULL;
    a->h = h;
    return 0;
}
int ARKodeGetCurrentTime(void* p, sunrealtype* t)
{
    auto* a = ark(p, "the time is asked for");
    if (!a) return ARK_MEM_NULL;
    *t = a->tn;
    return 0;
}
int ARKodeReset(void* p, sunrealtype t, N_Vector y)
{
    auto* a = ark(p, "an integrator is reset");
    if (!a) return ARK_MEM_NULL;
    a->tn = t;
    put(a->yn, values(y));
    return 0;
}
int ERKStepReset(void* p, sunrealtype t, N_Vector y) { return ARKodeReset(p, t, y); }
int ERKStepReInit(void* p, ARKRhsFn f, sunrealtype t, N_Vector y)
{
    auto* a = ark(p, "an integrator is initialised again");
    if (!a) return ARK_MEM_NULL;
    a->f = f;
    return ARKodeReset(p, t, y);
}
int ARKodeEvolve(void* p, sunrealtype tout, N_Vector yout, sunrealtype* tret, int task)
{
    auto* a = ark(p, "a step is made");
    if (!a) return ARK_MEM_NULL;
    checkContext(a->ctx, "an integrator steps after its context was freed");
    if (failStep) return failStep;
    if (a->h == 0 || !yout || task != ARK_ONE_STEP || (tout - a->tn) * a->h <= 0 || a->table != ARKODE_FORWARD_EULER_1_1) return ARK_ILL_INPUT;
    if (N_VGetLength(yout) != N_VGetLength(a->yn)) misuse("vector-length", "the solution vector has another length than the initial conditions");
    Step s {a->tn, a->h, tout, values(a->yn), {}, {}, 0, a->table};
    auto evaluate = [&](double t, const std::vector<double>& y)
    {
        N_Vector ycur = N_VClone(a->yn), ydot = N_VClone(a->yn);
        put(ycur, y);
        put(ydot, std::vector<double>(y.size(), std::nan("")));
        int r = a->f(t, ycur, ydot, a->user);
        auto v = values(ydot);
        N_VDestroy(ycur), N_VDestroy(ydot);
        ++s.rhsCalls;
        if (r) misuse("rhs", "the right-hand side failed");
        return v;
    };
    if (liberty == 1) evaluate(a->tn, s.from);
    s.rhs = evaluate(a->tn, s.from);
    s.to = s.from;
    for (std::size_t i = 0; i < s.to.size(); ++i) s.to[i] += a->h * s.rhs[i];
    if (liberty == 2) evaluate(a->tn + a->h, s.to);
    a->tn += a->h;
    put(a->yn, s.to);
    put(yout, s.to);
    *tret = a->tn;
    steps.push_back(s);
    return ARK_SUCCESS;
}
void ARKodeFree(void** p)
{
    if (!p || !*p) return;
    auto* a = ark(*p, "an integrator is freed twice");
    checkContext(a->ctx, "an integrator is freed after its context");
    arks().erase(a);
    N_VDestroy(a->yn);
    delete a;
    *p = nullptr;
    --liveIntegrators;
}
void ERKStepFree(void** p) { ARKodeFree(p); }
