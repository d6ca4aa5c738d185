// Small stand-in for the parts of SUNDIALS the library uses: contexts, vectors on Kokkos memory and
// the explicit one-step integrator.  Objects are checked: use of a freed context, integrator or
// vector, mismatching vectors and calls in the wrong order are reported.
#pragma once
#include <Kokkos_Core.hpp>
#include <cmath>
#include <cstddef>
#include <memory>
#include <vector>

using sunrealtype = double;
using sunindextype = std::int64_t;
using SUNComm = int;
#define SUN_COMM_NULL 0
#define ARK_SUCCESS 0
#define ARK_TSTOP_RETURN 1
#define ARK_MEM_NULL -21
#define ARK_ILL_INPUT -22
#define ARK_NO_MALLOC -23
#define ARK_RHSFUNC_FAIL -8
#define ARK_CONTEXT_ERR -53
#define ARK_NORMAL 1
#define ARK_ONE_STEP 2

struct SUNContext_
{
    unsigned magic;
};
using SUNContext = SUNContext_*;
int SUNContext_Create(SUNComm, SUNContext*);
int SUNContext_Free(SUNContext*);

struct _generic_N_Vector;
using N_Vector = _generic_N_Vector*;
struct _generic_N_Vector_Ops
{
    N_Vector (*clone)(N_Vector);
    void (*destroy)(N_Vector);
    sunindextype (*length)(N_Vector);
    double* (*data)(N_Vector);
    int (*space)(N_Vector); // 0 serial, 1 host, 2 device
};
using N_Vector_Ops = _generic_N_Vector_Ops*;
struct _generic_N_Vector
{
    void* content = nullptr;
    N_Vector_Ops ops = nullptr;
    SUNContext sunctx = nullptr;
};
N_Vector N_VClone(N_Vector);
void N_VDestroy(N_Vector);
sunindextype N_VGetLength(N_Vector);
sunrealtype* N_VGetArrayPointer(N_Vector);

namespace fsun
{
// what the integrator was given
struct Step
{
    double t, h, tout;
    std::vector<double> from, rhs, to;
    int rhsCalls, table;
};
extern std::vector<Step> steps;
extern int liveContexts, liveIntegrators, createdIntegrators;
extern int liberty; // 0: one evaluation per step; 1: another one before the step; 2: another one after it
extern int failStep; // Evolve answers this instead of stepping when non-zero
void begin();
std::vector<double> values(N_Vector);
void put(N_Vector, const std::vector<double>&);
void check(N_Vector, const char* what);
void checkContext(SUNContext, const char* what);
void misuse(const char* sig, const char* what);
}

namespace sundials
{
namespace kokkos
{
template<class ExecutionSpace = Kokkos::DefaultExecutionSpace, class MemorySpace = typename ExecutionSpace::memory_space>
class Vector
{
public:

    using view_type = Kokkos::View<sunrealtype*, ExecutionSpace>;
    using size_type = std::size_t;
    Vector() = default;
    Vector(size_type length, SUNContext ctx) : object_(std::make_unique<_generic_N_Vector>()), ops_(std::make_unique<_generic_N_Vector_Ops>()), view_("Vector View", length)
    {
        fsun::checkContext(ctx, "a vector is made");
        object_->sunctx = ctx;
        init();
        scribble();
    }
    Vector(const Vector& o) // storage of its own, values not copied
    {
        if (!o.object_) return;
        object_ = std::make_unique<_generic_N_Vector>();
        ops_ = std::make_unique<_generic_N_Vector_Ops>();
        object_->sunctx = o.object_->sunctx;
        view_ = view_type("Vector View", o.view_.size());
        init();
        scribble();
    }
    Vector(Vector&& o) noexcept : object_(std::move(o.object_)), ops_(std::move(o.ops_)), view_(std::move(o.view_))
    {
        if (object_) init();
    }
    Vector& operator=(Vector&& o) noexcept
    {
        object_ = std::move(o.object_), ops_ = std::move(o.ops_), view_ = std::move(o.view_);
        if (object_) init();
        return *this;
    }
    Vector& operator=(const Vector& o)
    {
        if (this != &o) *this = Vector(o);
        return *this;
    }
    virtual ~Vector() = default;
    operator N_Vector() { return object_.get(); }
    operator N_Vector() const { return object_.get(); }
    N_Vector Convert() { return object_.get(); }
    N_Vector Convert() const { return object_.get(); }
    view_type View() { return view_; }
    size_type Length() const { return view_.size(); }

private:

    void init()
    {
        object_->content = this;
        object_->ops = ops_.get();
        ops_->clone = [](N_Vector v) -> N_Vector { return *new Vector(*static_cast<Vector*>(v->content)); };
        ops_->destroy = [](N_Vector v) { delete static_cast<Vector*>(v->content); };
        ops_->length = [](N_Vector v) { return static_cast<sunindextype>(static_cast<Vector*>(v->content)->view_.size()); };
        ops_->data = [](N_Vector v) { return static_cast<Vector*>(v->content)->view_.data(); };
        ops_->space = [](N_Vector) { return int(ExecutionSpace::space); };
    }
    void scribble()
    {
        std::vector<double> x(view_.size(), std::nan(""));
        if (!x.empty()) kk::pokeRaw(view_.data(), x.data(), x.size() * sizeof(double));
    }
    std::unique_ptr<_generic_N_Vector> object_;
    std::unique_ptr<_generic_N_Vector_Ops> ops_;
    view_type view_;
};
template<class V>
V* GetVec(N_Vector v)
{
    fsun::check(v, "its content is asked for");
    int space = int(V::view_type::memory_space::device ? 2 : -1);
    int have = v->ops->space(v);
    if ((space == 2) != (have == 2)) fsun::misuse("vector-kind", "a vector is used as one of another memory space");
    return static_cast<V*>(v->content);
}
}
}

enum ARKODE_ERKTableID
{
    ARKODE_ERK_NONE = -1,
    ARKODE_HEUN_EULER_2_1_2 = 0,
    ARKODE_FORWARD_EULER_1_1 = 16,
    ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2 = 19
};
using ARKRhsFn = int (*)(sunrealtype, N_Vector, N_Vector, void*);
void* ERKStepCreate(ARKRhsFn, sunrealtype t0, N_Vector y0, SUNContext);
int ERKStepSetTableNum(void*, ARKODE_ERKTableID);
int ARKodeSetUserData(void*, void*);
int ARKodeSStolerances(void*, sunrealtype rel, sunrealtype abs);
int ARKodeSetFixedStep(void*, sunrealtype);
int ARKodeEvolve(void*, sunrealtype tout, N_Vector yout, sunrealtype* tret, int task);
int ARKodeGetCurrentTime(void*, sunrealtype*);
int ARKodeReset(void*, sunrealtype, N_Vector);
int ERKStepReset(void*, sunrealtype, N_Vector);
int ERKStepReInit(void*, ARKRhsFn, sunrealtype, N_Vector);
void ARKodeFree(void**);
void ERKStepFree(void**);
