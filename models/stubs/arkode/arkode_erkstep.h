#pragma once
#include <sundials/sundials_nvector.h>
enum ARKODE_ERKTableID
{
    ARKODE_ERK_NONE = -1,
    ARKODE_HEUN_EULER_2_1_2 = 0,
    ARKODE_FORWARD_EULER_1_1 = 1,
    ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2 = 2
};
#define ARK_NORMAL 1
#define ARK_ONE_STEP 2
typedef int (*ARKRhsFn)(sunrealtype t, N_Vector y, N_Vector ydot, void* user_data);
void* ERKStepCreate(ARKRhsFn f, sunrealtype t0, N_Vector y0, SUNContext ctx);
int ERKStepSetTableNum(void* ark, ARKODE_ERKTableID id);
int ARKodeSetUserData(void* ark, void* data);
int ARKodeSStolerances(void* ark, sunrealtype rel, sunrealtype abs);
int ARKodeSetFixedStep(void* ark, sunrealtype dt);
int ARKodeEvolve(void* ark, sunrealtype tout, N_Vector y, sunrealtype* tret, int mode);
int ARKodeGetCurrentTime(void* ark, sunrealtype* t);
int ARKodeReset(void* ark, sunrealtype t, N_Vector y);
void ARKodeFree(void** ark);
