#include "fakepetsc.hpp"
#include <cmath>
#include <cstring>
#ifndef KK_STANDALONE
#include "mc.hpp"
#else
#include <cstdio>
#include <cstdlib>
#endif
struct _p_Vec
{
    int refs = 1;
    std::string type;
    std::ptrdiff_t n = -1;
    std::vector<double> host;
    double* dev = nullptr; // storage of device vectors
    double* array = nullptr; // what the user was given
    std::vector<int> i;
    bool device() const { return type.find("kokkos") != std::string::npos; }
    ~_p_Vec()
    {
        if (dev) kk::free(kk::Sp::Device, dev);
    }
};
struct _p_Mat
{
    int refs = 1;
    std::string type;
    std::ptrdiff_t m = -1, n = -1;
    std::vector<int> i, j;
    std::vector<double> v;
    bool device() const { return type.find("kokkos") != std::string::npos; }
};
struct _p_KSP
{
    int refs = 1;
    Mat a = nullptr;
};
namespace fpetsc
{
std::vector<Solve> solves;
int live, failSolve;
double factor = 1;
namespace
{
bool initialised;
void need()
{
    if (!initialised) misuse("petsc-order", "an object is made before PetscInitialize");
}
std::vector<double> read(const double* p, std::size_t n, bool device)
{
    std::vector<double> r(n);
    if (!n) return r;
    if (device) kk::copy(false, r.data(), kk::spaceOf(p) == 2, p, n * sizeof(double));
    else
    {
        if (kk::spaceOf(p) == 2) misuse("petsc-space", "device memory is given to a host object");
        std::memcpy(r.data(), p, n * sizeof(double));
    }
    return r;
}
void makeStorage(Vec v)
{
    if (v->n < 0 || v->type.empty() || !v->host.empty()) return;
    v->host.assign(std::size_t(v->n), 0.0);
}
std::vector<double> eliminate(std::vector<double> a, std::vector<double> b, bool& singular)
{
    std::size_t n = b.size();
    for (std::size_t k = 0; k < n; ++k)
    {
        std::size_t p = k;
        for (std::size_t i = k + 1; i < n; ++i)
            if (std::abs(a[i * n + k]) > std::abs(a[p * n + k])) p = i;
        if (std::abs(a[p * n + k]) < 1e-9)
        {
            singular = true;
            return b;
        }
        for (std::size_t j = 0; j < n; ++j) std::swap(a[k * n + j], a[p * n + j]);
        std::swap(b[k], b[p]);
        for (std::size_t i = k + 1; i < n; ++i)
        {
            double f = a[i * n + k] / a[k * n + k];
            for (std::size_t j = k; j < n; ++j) a[i * n + j] -= f * a[k * n + j];
            b[i] -= f * b[k];
        }
    }
    for (std::size_t k = n; k-- > 0;)
    {
        for (std::size_t j = k + 1; j < n; ++j) b[k] -= a[k * n + j] * b[j];
        b[k] /= a[k * n + k];
    }
    return b;
}
}
void misuse(const char* sig, const std::string& what)
{
#ifndef KK_STANDALONE
    mc::fail(sig, what);
#else
    std::fprintf(stderr, "%s: %s\n", sig, what.c_str());
    std::exit(9);
#endif
}
void begin()
{
    solves.clear();
    live = failSolve = 0, factor = 1, initialised = false;
}
}
using namespace fpetsc;
PetscErrorCode PetscInitialize(int*, char***, const char*, const char*)
{
    initialised = true;
    return 0;
}
PetscErrorCode PetscInitialized(PetscBool* b)
{
    *b = initialised;
    return 0;
}
PetscErrorCode PetscFinalize()
{
    initialised = false;
    return 0;
}
PetscErrorCode VecCreate(int, Vec* v)
{
    need();
    *v = new _p_Vec;
    ++live;
    return 0;
}
PetscErrorCode VecSetSizes(Vec v, PetscInt l, PetscInt g)
{
    v->n = g >= 0 ? g : l;
    makeStorage(v);
    return 0;
}
PetscErrorCode VecSetType(Vec v, const char* t)
{
    v->type = t;
    makeStorage(v);
    return 0;
}
PetscErrorCode VecDuplicate(Vec v, Vec* w)
{
    if (v->n < 0 || v->type.empty()) misuse("petsc-order", "a vector without size or type is duplicated");
    *w = new _p_Vec;
    ++live;
    (*w)->n = v->n, (*w)->type = v->type, (*w)->i = v->i;
    makeStorage(*w);
    return 0;
}
PetscErrorCode VecDestroy(Vec* v)
{
    if (!v || !*v) return 0;
    if (--(*v)->refs == 0) delete *v, --live;
    *v = nullptr;
    return 0;
}
PetscErrorCode VecSetPreallocationCOO(Vec v, PetscCount n, const PetscInt* i)
{
    if (v->n < 0) misuse("petsc-order", "coordinates are given to a vector without a size");
    v->i.assign(i, i + n);
    for (int k : v->i)
        if (k >= v->n) misuse("petsc-range", "an entry beyond the end of the vector");
    return 0;
}
PetscErrorCode VecSetValuesCOO(Vec v, const PetscScalar* x, InsertMode m)
{
    auto y = read(x, v->i.size(), v->device());
    if (m == INSERT_VALUES)
        for (int k : v->i)
            if (k >= 0) v->host[std::size_t(k)] = 0;
    for (std::size_t k = 0; k < y.size(); ++k)
        if (v->i[k] >= 0) v->host[std::size_t(v->i[k])] += y[k];
    return 0;
}
PetscErrorCode VecGetArray(Vec v, PetscScalar** a) // of host memory, always
{
    *a = v->host.data();
    return 0;
}
PetscErrorCode VecRestoreArray(Vec, PetscScalar** a)
{
    *a = nullptr;
    return 0;
}
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** a)
{
    *a = v->host.data();
    return 0;
}
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar** a)
{
    *a = nullptr;
    return 0;
}
PetscErrorCode VecGetArrayAndMemType(Vec v, PetscScalar** a, PetscMemType* t)
{
    if (v->device())
    {
        if (!v->dev) v->dev = static_cast<double*>(kk::alloc(kk::Sp::Device, v->host.size() * sizeof(double)));
        if (!v->host.empty()) kk::pokeRaw(v->dev, v->host.data(), v->host.size() * sizeof(double));
        *a = v->dev;
        if (t) *t = PETSC_MEMTYPE_KOKKOS;
        return 0;
    }
    *a = v->host.data();
    if (t) *t = PETSC_MEMTYPE_HOST;
    return 0;
}
PetscErrorCode VecGetSize(Vec v, PetscInt* n)
{
    *n = PetscInt(v->n);
    return 0;
}
PetscErrorCode MatCreate(int, Mat* a)
{
    need();
    *a = new _p_Mat;
    ++live;
    return 0;
}
PetscErrorCode MatSetSizes(Mat a, PetscInt m, PetscInt n, PetscInt M, PetscInt N)
{
    a->m = M >= 0 ? M : m;
    a->n = N >= 0 ? N : n;
    return 0;
}
PetscErrorCode MatSetType(Mat a, const char* t)
{
    a->type = t;
    return 0;
}
PetscErrorCode MatDestroy(Mat* a)
{
    if (!a || !*a) return 0;
    if (--(*a)->refs == 0) delete *a, --live;
    *a = nullptr;
    return 0;
}
PetscErrorCode MatSetPreallocationCOO(Mat a, PetscCount n, PetscInt* i, PetscInt* j)
{
    if (a->m < 0 || a->type.empty()) misuse("petsc-order", "coordinates are given to a matrix without size or type");
    a->i.assign(i, i + n), a->j.assign(j, j + n);
    a->v.assign(std::size_t(n), 0.0);
    for (std::size_t k = 0; k < std::size_t(n); ++k)
        if (a->i[k] >= a->m || a->j[k] >= a->n) misuse("petsc-range", "an entry outside the matrix");
    return 0;
}
PetscErrorCode MatSetValuesCOO(Mat a, const PetscScalar* x, InsertMode m)
{
    auto y = read(x, a->i.size(), a->device());
    for (std::size_t k = 0; k < y.size(); ++k) a->v[k] = (m == ADD_VALUES ? a->v[k] : 0.0) + y[k];
    return 0;
}
PetscErrorCode KSPCreate(int, KSP* k)
{
    need();
    *k = new _p_KSP;
    ++live;
    return 0;
}
PetscErrorCode KSPSetFromOptions(KSP) { return 0; }
PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool) { return 0; }
PetscErrorCode KSPSetUp(KSP) { return 0; }
PetscErrorCode KSPSetOperators(KSP k, Mat a, Mat)
{
    ++a->refs;
    if (k->a) MatDestroy(&k->a);
    k->a = a;
    return 0;
}
PetscErrorCode KSPDestroy(KSP* k)
{
    if (!k || !*k) return 0;
    if (--(*k)->refs == 0)
    {
        MatDestroy(&(*k)->a);
        delete *k, --live;
    }
    *k = nullptr;
    return 0;
}
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x)
{
    if (!k->a) misuse("petsc-order", "solving without a matrix");
    if (failSolve) return failSolve;
    Mat a = k->a;
    if (a->m != a->n || a->n != b->n || b->n != x->n) misuse("petsc-shape", "matrix and vectors do not fit");
    if (a->device() != b->device() || b->device() != x->device()) misuse("petsc-types", "matrix and vectors are of different kinds");
    Solve s {std::size_t(a->n), {}, b->host, {}, a->i, a->j, a->v, a->type, b->type};
    bool singular = false;
    if (s.n <= 64)
    {
        s.a.assign(s.n * s.n, 0.0);
        for (std::size_t q = 0; q < s.v.size(); ++q)
            if (s.i[q] >= 0 && s.j[q] >= 0) s.a[std::size_t(s.i[q]) * s.n + std::size_t(s.j[q])] += s.v[q];
        s.x = eliminate(s.a, s.b, singular);
    }
    else // large systems are diagonal here
    {
        s.x = s.b;
        for (std::size_t q = 0; q < s.v.size(); ++q)
            if (s.i[q] == s.j[q]) s.x[std::size_t(s.i[q])] /= s.v[q];
    }
#ifndef KK_STANDALONE
    if (singular) mc::prune();
#endif
    for (auto& q : s.x) q *= factor;
    x->host = s.x;
    solves.push_back(s);
    return 0;
}
