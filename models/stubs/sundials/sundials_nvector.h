// Declarations of the SUNDIALS interface that NeoFOAM uses (no implementation).
#pragma once
#include <cstdint>
typedef double sunrealtype;
typedef std::int64_t sunindextype;
typedef int SUNErrCode;
typedef int SUNComm;
#define SUN_COMM_NULL 0
struct SUNContext_;
typedef SUNContext_* SUNContext;
struct _generic_N_Vector;
typedef _generic_N_Vector* N_Vector;
SUNErrCode SUNContext_Create(SUNComm comm, SUNContext* ctx);
SUNErrCode SUNContext_Free(SUNContext* ctx);
sunrealtype* N_VGetArrayPointer(N_Vector v);
sunindextype N_VGetLength(N_Vector v);
