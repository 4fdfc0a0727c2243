// declarations only: the time integrator library itself is not available
#ifndef MINI_SUNDIALS
#define MINI_SUNDIALS
#include <cstdio>
typedef double realtype;
typedef double sunrealtype;
typedef int booleantype;
typedef long sunindextype;
typedef int N_Vector_ID;
typedef void* SUNContext;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define SUNTRUE 1
#define SUNFALSE 0
#define CV_SUCCESS 0
#define CV_TSTOP_RETURN 1
#define CV_NORMAL 1
#define CV_ONE_STEP 2
#define CV_ADAMS 1
#define CV_BDF 2
#define CV_TOO_MUCH_WORK -1
#define CV_ILL_INPUT -22
#define CV_NO_MALLOC -23
#define CV_MEM_NULL -21
#define PREC_NONE 0
#define PREC_LEFT 1
#define PREC_RIGHT 2
#define PREC_BOTH 3
#define MODIFIED_GS 1
#define CLASSICAL_GS 2
struct _generic_N_Vector;
typedef struct _generic_N_Vector* N_Vector;
struct _generic_N_Vector_Ops {
   N_Vector_ID (*nvgetvectorid)(N_Vector);
   N_Vector (*nvclone)(N_Vector);
   N_Vector (*nvcloneempty)(N_Vector);
   void (*nvdestroy)(N_Vector);
   void (*nvspace)(N_Vector, sunindextype*, sunindextype*);
   realtype* (*nvgetarraypointer)(N_Vector);
   void (*nvsetarraypointer)(realtype*, N_Vector);
   sunindextype (*nvgetlength)(N_Vector);
   void (*nvlinearsum)(realtype, N_Vector, realtype, N_Vector, N_Vector);
   void (*nvconst)(realtype, N_Vector);
   void (*nvprod)(N_Vector, N_Vector, N_Vector);
   void (*nvdiv)(N_Vector, N_Vector, N_Vector);
   void (*nvscale)(realtype, N_Vector, N_Vector);
   void (*nvabs)(N_Vector, N_Vector);
   void (*nvinv)(N_Vector, N_Vector);
   void (*nvaddconst)(N_Vector, realtype, N_Vector);
   realtype (*nvdotprod)(N_Vector, N_Vector);
   realtype (*nvmaxnorm)(N_Vector);
   realtype (*nvwrmsnorm)(N_Vector, N_Vector);
   realtype (*nvwrmsnormmask)(N_Vector, N_Vector, N_Vector);
   realtype (*nvmin)(N_Vector);
   realtype (*nvwl2norm)(N_Vector, N_Vector);
   realtype (*nvl1norm)(N_Vector);
   void (*nvcompare)(realtype, N_Vector, N_Vector);
   booleantype (*nvinvtest)(N_Vector, N_Vector);
   booleantype (*nvconstrmask)(N_Vector, N_Vector, N_Vector);
   realtype (*nvminquotient)(N_Vector, N_Vector);
};
typedef struct _generic_N_Vector_Ops* N_Vector_Ops;
struct _generic_N_Vector { void* content; N_Vector_Ops ops; SUNContext sunctx; };
typedef void* SUNLinearSolver;
typedef void* SUNMatrix;
typedef int (*CVRhsFn)(realtype, N_Vector, N_Vector, void*);
typedef int (*CVProjFn)(realtype, N_Vector, N_Vector, realtype, N_Vector, void*);
typedef int (*CVLsPrecSetupFn)(realtype, N_Vector, N_Vector, booleantype, booleantype*, realtype, void*);
typedef int (*CVLsPrecSolveFn)(realtype, N_Vector, N_Vector, N_Vector, N_Vector, realtype, realtype, int, void*);
typedef CVLsPrecSetupFn CVSpilsPrecSetupFn;
typedef CVLsPrecSolveFn CVSpilsPrecSolveFn;
extern "C" {
void* CVodeCreate(int);
int CVodeInit(void*, CVRhsFn, realtype, N_Vector);
int CVodeReInit(void*, realtype, N_Vector);
int CVodeSetUserData(void*, void*);
int CVodeSStolerances(void*, realtype, realtype);
int CVodeSVtolerances(void*, realtype, N_Vector);
SUNLinearSolver SUNSPGMR(N_Vector, int, int);
SUNLinearSolver SUNLinSol_SPGMR(N_Vector, int, int);
int SUNSPGMRSetGSType(SUNLinearSolver, int);
int SUNLinSol_SPGMRSetGSType(SUNLinearSolver, int);
int SUNLinSolFree(SUNLinearSolver);
int CVodeSetLinearSolver(void*, SUNLinearSolver, SUNMatrix);
int CVSpilsSetLinearSolver(void*, SUNLinearSolver);
int CVSpilsSetPreconditioner(void*, CVLsPrecSetupFn, CVLsPrecSolveFn);
int CVodeSetPreconditioner(void*, CVLsPrecSetupFn, CVLsPrecSolveFn);
int CVodeSetLSetupFrequency(void*, long);
int CVodeSetMaxOrd(void*, int);
int CVodeSetMaxNumSteps(void*, long);
int CVodeSetMaxHnilWarns(void*, int);
int CVodeSetInitStep(void*, realtype);
int CVodeSetMaxStep(void*, realtype);
int CVodeSetMinStep(void*, realtype);
int CVodeSetProjFn(void*, CVProjFn);
int CVodeSetJacTimesRhsFn(void*, CVRhsFn);
int CVodeSetLSNormFactor(void*, realtype);
int CVodeSetEpsLin(void*, realtype);
int CVSpilsSetEpsLin(void*, realtype);
int CVodeSetStopTime(void*, realtype);
int CVode(void*, realtype, N_Vector, realtype*, int);
int CVodeGetDky(void*, realtype, int, N_Vector);
void CVodeFree(void**);
int CVodeGetNumSteps(void*, long*);
int CVodeGetNumRhsEvals(void*, long*);
int CVodeGetNumLinSolvSetups(void*, long*);
int CVodeGetNumNonlinSolvIters(void*, long*);
int CVodeGetNumNonlinSolvConvFails(void*, long*);
int CVodeGetNumErrTestFails(void*, long*);
int CVodeGetLastOrder(void*, int*);
int CVodeGetCurrentOrder(void*, int*);
int CVodeGetWorkSpace(void*, long*, long*);
int CVodeGetLastStep(void*, realtype*);
int CVodeGetCurrentStep(void*, realtype*);
int CVodeGetCurrentTime(void*, realtype*);
int CVodeGetTolScaleFactor(void*, realtype*);
int CVSpilsGetNumPrecEvals(void*, long*);
int CVSpilsGetNumPrecSolves(void*, long*);
int CVSpilsGetNumLinIters(void*, long*);
int CVSpilsGetNumConvFails(void*, long*);
int CVSpilsGetNumJtimesEvals(void*, long*);
int CVSpilsGetNumRhsEvals(void*, long*);
int CVSpilsGetWorkSpace(void*, long*, long*);
int CVodeGetNumPrecEvals(void*, long*);
int CVodeGetNumPrecSolves(void*, long*);
int CVodeGetNumLinIters(void*, long*);
int CVodeGetNumLinConvFails(void*, long*);
int CVodeGetNumJtimesEvals(void*, long*);
int CVodeGetNumLinRhsEvals(void*, long*);
N_Vector N_VClone(N_Vector);
void N_VDestroy(N_Vector);
}
#endif
