// Stand-in for PETSc's headers: the declarations the library may use, with PETSc's signatures.  Only parsed.
#pragma once
#include <cstddef>
typedef int PetscInt;
typedef long PetscCount;
typedef double PetscScalar;
typedef double PetscReal;
typedef int PetscErrorCode;
typedef int nf_petsc_comm;
struct _p_Mat;
struct _p_Vec;
struct _p_KSP;
struct _p_PC;
typedef _p_Mat* Mat;
typedef _p_Vec* Vec;
typedef _p_KSP* KSP;
typedef _p_PC* PC;
enum InsertMode { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES };
enum PetscBool { PETSC_FALSE, PETSC_TRUE };
enum PetscMemType { PETSC_MEMTYPE_HOST = 0, PETSC_MEMTYPE_DEVICE = 1 };
enum MatAssemblyType { MAT_FLUSH_ASSEMBLY = 1, MAT_FINAL_ASSEMBLY = 0 };
#define PETSC_COMM_SELF 1
#define PETSC_COMM_WORLD 2
#define PETSC_DECIDE (-1)
#define PETSC_DETERMINE PETSC_DECIDE
#define PETSC_DEFAULT (-2)
#define VECKOKKOS "kokkos"
#define VECSEQ "seq"
#define VECSEQKOKKOS "seqkokkos"
#define VECSTANDARD "standard"
#define MATAIJKOKKOS "aijkokkos"
#define MATSEQAIJKOKKOS "seqaijkokkos"
#define MATSEQAIJ "seqaij"
#define MATAIJ "aij"
#define PetscCallVoid(...) do { if (__VA_ARGS__) return; } while (0)
#define PetscCall(...) do { PetscErrorCode nf_e = (__VA_ARGS__); if (nf_e) return nf_e; } while (0)
extern "C"
{
PetscErrorCode PetscInitialize(int*, char***, const char*, const char*);
PetscErrorCode PetscInitialized(PetscBool*);
PetscErrorCode PetscFinalize();
PetscErrorCode MatCreate(nf_petsc_comm, Mat*);
PetscErrorCode MatSetSizes(Mat, PetscInt m, PetscInt n, PetscInt M, PetscInt N);
PetscErrorCode MatSetType(Mat, const char*);
PetscErrorCode MatSetPreallocationCOO(Mat, PetscCount ncoo, PetscInt rows[], PetscInt columns[]);
PetscErrorCode MatSetValuesCOO(Mat, const PetscScalar v[], InsertMode);
PetscErrorCode MatSetValues(Mat, PetscInt, const PetscInt[], PetscInt, const PetscInt[], const PetscScalar[], InsertMode);
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType);
PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType);
PetscErrorCode MatZeroEntries(Mat);
PetscErrorCode MatDestroy(Mat*);
PetscErrorCode VecCreate(nf_petsc_comm, Vec*);
PetscErrorCode VecSetSizes(Vec, PetscInt n, PetscInt N);
PetscErrorCode VecSetType(Vec, const char*);
PetscErrorCode VecDuplicate(Vec, Vec*);
PetscErrorCode VecSetPreallocationCOO(Vec, PetscCount ncoo, const PetscInt i[]);
PetscErrorCode VecSetValuesCOO(Vec, const PetscScalar v[], InsertMode);
PetscErrorCode VecSet(Vec, PetscScalar);
PetscErrorCode VecCopy(Vec, Vec);
PetscErrorCode VecGetArray(Vec, PetscScalar**);
PetscErrorCode VecRestoreArray(Vec, PetscScalar**);
PetscErrorCode VecGetArrayRead(Vec, const PetscScalar**);
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar**);
PetscErrorCode VecGetArrayAndMemType(Vec, PetscScalar**, PetscMemType*);
PetscErrorCode VecRestoreArrayAndMemType(Vec, PetscScalar**);
PetscErrorCode VecDestroy(Vec*);
PetscErrorCode KSPCreate(nf_petsc_comm, KSP*);
PetscErrorCode KSPSetFromOptions(KSP);
PetscErrorCode KSPSetOperators(KSP, Mat, Mat);
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt);
PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool);
PetscErrorCode KSPSetUp(KSP);
PetscErrorCode KSPSolve(KSP, Vec b, Vec x);
PetscErrorCode KSPSolveTranspose(KSP, Vec b, Vec x);
PetscErrorCode KSPDestroy(KSP*);
}
