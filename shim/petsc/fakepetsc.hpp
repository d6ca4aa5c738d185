// Small stand-in for the parts of PETSc the library uses: sequential vectors and matrices assembled
// by coordinates, and a direct solve.  Objects and calls out of order are checked.
#pragma once
#include <Kokkos_Core.hpp>
#include <cstddef>
#include <string>
#include <vector>
using PetscInt = int;
using PetscCount = std::ptrdiff_t;
using PetscScalar = double;
using PetscReal = double;
using PetscErrorCode = int;
using PetscBool = bool;
using MPI_Comm_ = int;
#define PETSC_COMM_WORLD 1
#define PETSC_COMM_SELF 2
#define PETSC_DECIDE -1
#define PETSC_DETERMINE -1
#define PETSC_DEFAULT -2
#define PETSC_SUCCESS 0
enum InsertMode
{
    INSERT_VALUES = 1,
    ADD_VALUES = 2
};
#define VECSEQ "seq"
#define VECSTANDARD "standard"
#define VECKOKKOS "kokkos"
#define VECSEQKOKKOS "seqkokkos"
#define MATSEQAIJ "seqaij"
#define MATAIJ "aij"
#define MATAIJKOKKOS "aijkokkos"
#define MATSEQAIJKOKKOS "seqaijkokkos"
typedef enum
{
    PETSC_MEMTYPE_HOST = 0,
    PETSC_MEMTYPE_KOKKOS = 1
} PetscMemType;
struct _p_Vec;
struct _p_Mat;
struct _p_KSP;
using Vec = _p_Vec*;
using Mat = _p_Mat*;
using KSP = _p_KSP*;
#define PetscCallVoid(...)                                                                             \
    do                                                                                                 \
    {                                                                                                  \
        if (__VA_ARGS__) return;                                                                       \
    } while (0)
#define PetscCall(...)                                                                                 \
    do                                                                                                 \
    {                                                                                                  \
        PetscErrorCode e_ = (__VA_ARGS__);                                                             \
        if (e_) return e_;                                                                             \
    } while (0)
PetscErrorCode PetscInitialize(int*, char***, const char*, const char*);
PetscErrorCode PetscInitialized(PetscBool*);
PetscErrorCode PetscFinalize();
PetscErrorCode VecCreate(int, Vec*);
PetscErrorCode VecSetSizes(Vec, PetscInt local, PetscInt global);
PetscErrorCode VecSetType(Vec, const char*);
PetscErrorCode VecDuplicate(Vec, Vec*);
PetscErrorCode VecDestroy(Vec*);
PetscErrorCode VecSetPreallocationCOO(Vec, PetscCount, const PetscInt*);
PetscErrorCode VecSetValuesCOO(Vec, const PetscScalar*, InsertMode);
PetscErrorCode VecGetArray(Vec, PetscScalar**);
PetscErrorCode VecRestoreArray(Vec, PetscScalar**);
PetscErrorCode VecGetArrayRead(Vec, const PetscScalar**);
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar**);
PetscErrorCode VecGetArrayAndMemType(Vec, PetscScalar**, PetscMemType*);
PetscErrorCode VecGetSize(Vec, PetscInt*);
PetscErrorCode MatCreate(int, Mat*);
PetscErrorCode MatSetSizes(Mat, PetscInt m, PetscInt n, PetscInt M, PetscInt N);
PetscErrorCode MatSetType(Mat, const char*);
PetscErrorCode MatDestroy(Mat*);
PetscErrorCode MatSetPreallocationCOO(Mat, PetscCount, PetscInt* i, PetscInt* j);
PetscErrorCode MatSetValuesCOO(Mat, const PetscScalar*, InsertMode);
PetscErrorCode KSPCreate(int, KSP*);
PetscErrorCode KSPSetFromOptions(KSP);
PetscErrorCode KSPSetOperators(KSP, Mat, Mat);
PetscErrorCode KSPSetUp(KSP);
PetscErrorCode KSPSolve(KSP, Vec b, Vec x);
PetscErrorCode KSPDestroy(KSP*);
PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool);

namespace fpetsc
{
struct Solve
{
    std::size_t n;
    std::vector<double> a, b, x; // dense if small
    std::vector<int> i, j;
    std::vector<double> v; // as assembled
    std::string matType, vecType;
};
extern std::vector<Solve> solves;
extern int live;                 // objects
extern double factor;            // answers are multiplied by it: the answer is the solver's own
extern int failSolve;            // KSPSolve answers this
void begin();
void misuse(const char* sig, const std::string& what);
}
