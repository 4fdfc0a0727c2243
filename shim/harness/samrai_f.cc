// SAMRAI's own small kernels that AMPE links against (cartrobinbchelp, poisson flux with a constant coefficient,
// boundary rows of the Hypre matrix), and a minimal explicit time integrator behind the CVODE interface.
#include "core.h"
#include "sundials_stub.h"
typedef const int& ci;
typedef const double& cd;
namespace {
struct F2 { double* d; int i0, i1, j0; double& operator()(int i, int j) const { return d[(size_t)(i - i0) + (size_t)(j - j0) * (i1 - i0 + 1)]; } };
struct F3 { double* d; int i0, i1, j0, j1, k0; double& operator()(int i, int j, int k) const { return d[(size_t)(i - i0) + (size_t)(i1 - i0 + 1) * ((j - j0) + (size_t)(j1 - j0 + 1) * (k - k0))]; } };
inline double robin(double a, double b, double g, double h, double u) { return (h * g + u * (b - h * a / 2.)) / (b + h * a / 2.); }
}
extern "C" {
void settype1cells2d_(double* data, ci di0, ci di1, ci dj0, ci, const double* a, const double* b, const double* g, ci i0, ci i1, ci j0, ci,
                      ci ib, ci ie, ci jb, ci je, ci face, ci ghos, ci inte, ci loc, cd h, ci zerog) {
   F2 u{data, di0, di1, dj0}, A{(double*)a, i0, i1, j0}, B{(double*)b, i0, i1, j0}, G{(double*)g, i0, i1, j0};
   if (loc / 2 == 0) for (int j = jb; j <= je; j++) u(ghos, j) = robin(A(face, j), B(face, j), zerog ? 0. : G(face, j), h, u(inte, j));
   else for (int i = ib; i <= ie; i++) u(i, ghos) = robin(A(i, face), B(i, face), zerog ? 0. : G(i, face), h, u(i, inte));
}
void settype2cells2d_(double* data, ci di0, ci di1, ci dj0, ci, const int* lo, const int*, ci loc) {
   F2 u{data, di0, di1, dj0};
   int i = lo[0], j = lo[1], ii = (loc & 1) ? i - 1 : i + 1, jj = (loc & 2) ? j - 1 : j + 1;
   u(i, j) = -u(ii, jj) + u(ii, j) + u(i, jj);
}
void settype1cells3d_(double* data, ci di0, ci di1, ci dj0, ci dj1, ci dk0, ci, const double* a, const double* b, const double* g, ci i0, ci i1, ci j0,
                      ci j1, ci k0, ci, ci ib, ci ie, ci jb, ci je, ci kb, ci ke, ci face, ci ghos, ci inte, ci loc, cd h, ci zerog) {
   F3 u{data, di0, di1, dj0, dj1, dk0}, A{(double*)a, i0, i1, j0, j1, k0}, B{(double*)b, i0, i1, j0, j1, k0}, G{(double*)g, i0, i1, j0, j1, k0};
   auto val = [&](int fi, int fj, int fk, double v) { return robin(A(fi, fj, fk), B(fi, fj, fk), zerog ? 0. : G(fi, fj, fk), h, v); };
   if (loc / 2 == 0) for (int k = kb; k <= ke; k++) for (int j = jb; j <= je; j++) u(ghos, j, k) = val(face, j, k, u(inte, j, k));
   else if (loc / 2 == 1) for (int k = kb; k <= ke; k++) for (int i = ib; i <= ie; i++) u(i, ghos, k) = val(i, face, k, u(i, inte, k));
   else for (int j = jb; j <= je; j++) for (int i = ib; i <= ie; i++) u(i, j, ghos) = val(i, j, face, u(i, j, inte));
}
// edges: two coordinates outside
void settype2cells3d_(double* data, ci di0, ci di1, ci dj0, ci dj1, ci dk0, ci, const int* lo, const int* hi, ci loc) {
   F3 u{data, di0, di1, dj0, dj1, dk0};
   int ax = loc / 4, s1 = loc & 1, s2 = (loc >> 1) & 1;
   int a = ax == 0 ? 1 : 0, b = ax == 2 ? 1 : 2;
   for (int t = lo[ax]; t <= hi[ax]; t++) {
      int c[3]; c[ax] = t; c[a] = lo[a]; c[b] = lo[b];
      int ia = s1 ? c[a] - 1 : c[a] + 1, ib = s2 ? c[b] - 1 : c[b] + 1;
      int x[3] = {c[0], c[1], c[2]}, y[3] = {c[0], c[1], c[2]}, z[3] = {c[0], c[1], c[2]};
      x[a] = ia; x[b] = ib; y[a] = ia; z[b] = ib;
      u(c[0], c[1], c[2]) = -u(x[0], x[1], x[2]) + u(y[0], y[1], y[2]) + u(z[0], z[1], z[2]);
   }
}
void settype3cells3d_(double* data, ci di0, ci di1, ci dj0, ci dj1, ci dk0, ci, const int* lo, const int*, ci loc) {
   F3 u{data, di0, di1, dj0, dj1, dk0};
   int i = lo[0], j = lo[1], k = lo[2], ii = (loc & 1) ? i - 1 : i + 1, jj = (loc & 2) ? j - 1 : j + 1, kk = (loc & 4) ? k - 1 : k + 1;
   u(i, j, k) = .5 * (u(ii, j, k) + u(i, jj, k) + u(i, j, kk) - u(ii, jj, kk));
}
void compfluxcondc2d_(double* xf, double* yf, const int* fi, const int* fj, cd D, const double* s, const int* gi, const int* gj, const int* i0, const int* i1, const int* j0, const int* j1, const double* dx) {
   F2 X{xf, *i0 - *fi, *i1 + 1 + *fi, *j0 - *fj}, Y{yf, *i0 - *fi, *i1 + *fi, *j0 - *fj}, U{(double*)s, *i0 - *gi, *i1 + *gi, *j0 - *gj};
   for (int j = *j0; j <= *j1; j++) for (int i = *i0; i <= *i1 + 1; i++) X(i, j) = D * (U(i, j) - U(i - 1, j)) / dx[0];
   for (int j = *j0; j <= *j1 + 1; j++) for (int i = *i0; i <= *i1; i++) Y(i, j) = D * (U(i, j) - U(i, j - 1)) / dx[1];
}
void compfluxcondc3d_(double* xf, double* yf, double* zf, const int* fi, const int* fj, const int* fk, cd D, const double* s, const int* gi, const int* gj, const int* gk,
                      const int* i0, const int* i1, const int* j0, const int* j1, const int* k0, const int* k1, const double* dx) {
   F3 X{xf, *i0 - *fi, *i1 + 1 + *fi, *j0 - *fj, *j1 + *fj, *k0 - *fk}, Y{yf, *i0 - *fi, *i1 + *fi, *j0 - *fj, *j1 + 1 + *fj, *k0 - *fk}, Z{zf, *i0 - *fi, *i1 + *fi, *j0 - *fj, *j1 + *fj, *k0 - *fk},
       U{(double*)s, *i0 - *gi, *i1 + *gi, *j0 - *gj, *j1 + *gj, *k0 - *gk};
   for (int k = *k0; k <= *k1; k++) for (int j = *j0; j <= *j1; j++) for (int i = *i0; i <= *i1 + 1; i++) X(i, j, k) = D * (U(i, j, k) - U(i - 1, j, k)) / dx[0];
   for (int k = *k0; k <= *k1; k++) for (int j = *j0; j <= *j1 + 1; j++) for (int i = *i0; i <= *i1; i++) Y(i, j, k) = D * (U(i, j, k) - U(i, j - 1, k)) / dx[1];
   for (int k = *k0; k <= *k1 + 1; k++) for (int j = *j0; j <= *j1; j++) for (int i = *i0; i <= *i1; i++) Z(i, j, k) = D * (U(i, j, k) - U(i, j, k - 1)) / dx[2];
}

}

// ---- rows of the matrix handed to Hypre (SAMRAI's compdiag*, adjbdry*, adjustrhs*) ----
// one value outside a boundary face: u_out = k0*g + k1*u_in
namespace {
void one_face(double& dg, double& off, double a, double b, double& ak0, double h) {
   double den = b + h * a / 2., k0 = h / den, k1 = (b - h * a / 2.) / den;
   dg += k1 * off; ak0 = k0 * off; off = 0.;
}
void diag2(double* diag, const double* c, double cc, const double* oi, const double* oj, ci i0, ci i1, ci j0, ci j1, cd cs, cd ds) {
   F2 D{diag, i0, i1, j0}, C{(double*)c, i0, i1, j0}, X{(double*)oi, i0, i1 + 1, j0}, Y{(double*)oj, i0, i1, j0};
   for (int j = j0; j <= j1; j++) for (int i = i0; i <= i1; i++)
      D(i, j) = cs * (c ? C(i, j) : cc) - ds * (X(i, j) + X(i + 1, j) + Y(i, j) + Y(i, j + 1));
}
void diag3(double* diag, const double* c, double cc, const double* oi, const double* oj, const double* ok, ci i0, ci i1, ci j0, ci j1, ci k0, ci k1, cd cs, cd ds) {
   F3 D{diag, i0, i1, j0, j1, k0}, C{(double*)c, i0, i1, j0, j1, k0}, X{(double*)oi, i0, i1 + 1, j0, j1, k0}, Y{(double*)oj, i0, i1, j0, j1 + 1, k0}, Z{(double*)ok, i0, i1, j0, j1, k0};
   for (int k = k0; k <= k1; k++) for (int j = j0; j <= j1; j++) for (int i = i0; i <= i1; i++)
      D(i, j, k) = cs * (c ? C(i, j, k) : cc) - ds * (X(i, j, k) + X(i + 1, j, k) + Y(i, j, k) + Y(i, j + 1, k) + Z(i, j, k) + Z(i, j, k + 1));
}
}
extern "C" {
void compdiagvariablec2d_(double* d, const double* c, const double* x, const double* y, ci i0, ci i1, ci j0, ci j1, cd cs, cd ds) { diag2(d, c, 0., x, y, i0, i1, j0, j1, cs, ds); }
void compdiagscalarc2d_(double* d, const double* c, const double* x, const double* y, ci i0, ci i1, ci j0, ci j1, cd cs, cd ds) { diag2(d, nullptr, *c, x, y, i0, i1, j0, j1, cs, ds); }
void compdiagzeroc2d_(double* d, const double* x, const double* y, ci i0, ci i1, ci j0, ci j1, cd cs, cd ds) { diag2(d, nullptr, 0., x, y, i0, i1, j0, j1, cs, ds); }
void compdiagvariablec3d_(double* d, const double* c, const double* x, const double* y, const double* z, ci i0, ci i1, ci j0, ci j1, ci k0, ci k1, cd cs, cd ds) { diag3(d, c, 0., x, y, z, i0, i1, j0, j1, k0, k1, cs, ds); }
void compdiagscalarc3d_(double* d, const double* c, const double* x, const double* y, const double* z, ci i0, ci i1, ci j0, ci j1, ci k0, ci k1, cd cs, cd ds) { diag3(d, nullptr, *c, x, y, z, i0, i1, j0, j1, k0, k1, cs, ds); }
void compdiagzeroc3d_(double* d, const double* x, const double* y, const double* z, ci i0, ci i1, ci j0, ci j1, ci k0, ci k1, cd cs, cd ds) { diag3(d, nullptr, 0., x, y, z, i0, i1, j0, j1, k0, k1, cs, ds); }
void adjbdry2d_(double* diag, double* ox, double* oy, ci p0, ci p1, ci q0, ci q1, const double* a, const double* b, ci ai0, ci ai1, ci aj0, ci,
                double* Ak0, ci ki0, ci ki1, ci kj0, ci, const int* lo, const int* up, ci loc, const double* h) {
   F2 D{diag, p0, p1, q0}, X{ox, p0, p1 + 1, q0}, Y{oy, p0, p1, q0}, A{(double*)a, ai0, ai1, aj0}, B{(double*)b, ai0, ai1, aj0}, K{Ak0, ki0, ki1, kj0};
   int ax = loc / 2, s = loc % 2;
   for (int j = lo[1]; j <= up[1]; j++) for (int i = lo[0]; i <= up[0]; i++) {
      int in[2] = {i, j}, fa[2] = {i, j};
      in[ax] += s ? -1 : 1; if (!s) fa[ax] += 1;   // the face below cell fa
      double& off = ax == 0 ? X(fa[0], fa[1]) : Y(fa[0], fa[1]);
      one_face(D(in[0], in[1]), off, A(fa[0], fa[1]), B(fa[0], fa[1]), K(ax == 0 ? ki0 : in[0], ax == 1 ? kj0 : in[1]), h[ax]);
   }
}
void adjbdry3d_(double* diag, double* ox, double* oy, double* oz, ci p0, ci p1, ci q0, ci q1, ci r0, ci, const double* a, const double* b, ci ai0, ci ai1, ci aj0, ci aj1, ci ak0, ci,
                double* Ak0, ci ki0, ci ki1, ci kj0, ci kj1, ci kk0, ci, const int* lo, const int* up, ci loc, const double* h) {
   F3 D{diag, p0, p1, q0, q1, r0}, X{ox, p0, p1 + 1, q0, q1, r0}, Y{oy, p0, p1, q0, q1 + 1, r0}, Z{oz, p0, p1, q0, q1, r0},
       A{(double*)a, ai0, ai1, aj0, aj1, ak0}, B{(double*)b, ai0, ai1, aj0, aj1, ak0}, K{Ak0, ki0, ki1, kj0, kj1, kk0};
   int ax = loc / 2, s = loc % 2;
   for (int k = lo[2]; k <= up[2]; k++) for (int j = lo[1]; j <= up[1]; j++) for (int i = lo[0]; i <= up[0]; i++) {
      int in[3] = {i, j, k}, fa[3] = {i, j, k};
      in[ax] += s ? -1 : 1; if (!s) fa[ax] += 1;
      double& off = ax == 0 ? X(fa[0], fa[1], fa[2]) : ax == 1 ? Y(fa[0], fa[1], fa[2]) : Z(fa[0], fa[1], fa[2]);
      one_face(D(in[0], in[1], in[2]), off, A(fa[0], fa[1], fa[2]), B(fa[0], fa[1], fa[2]), K(ax == 0 ? ki0 : in[0], ax == 1 ? kj0 : in[1], ax == 2 ? kk0 : in[2]), h[ax]);
   }
}
void adjustrhs2d_(double* rhs, ci r0, ci r1, ci s0, ci, const double* Ak0, ci ki0, ci ki1, ci kj0, ci, const double* g, ci ai0, ci ai1, ci aj0, ci, const int* lo, const int* up, ci loc) {
   F2 R{rhs, r0, r1, s0}, K{(double*)Ak0, ki0, ki1, kj0}, G{(double*)g, ai0, ai1, aj0};
   int ax = loc / 2, s = loc % 2;
   for (int j = lo[1]; j <= up[1]; j++) for (int i = lo[0]; i <= up[0]; i++) {
      int in[2] = {i, j}, fa[2] = {i, j}; in[ax] += s ? -1 : 1; if (!s) fa[ax] += 1;
      R(in[0], in[1]) -= K(ax == 0 ? ki0 : in[0], ax == 1 ? kj0 : in[1]) * G(fa[0], fa[1]);
   }
}
void adjustrhs3d_(double* rhs, ci r0, ci r1, ci s0, ci s1, ci t0, ci, const double* Ak0, ci ki0, ci ki1, ci kj0, ci kj1, ci kk0, ci, const double* g, ci ai0, ci ai1, ci aj0, ci aj1, ci ak0, ci,
                  const int* lo, const int* up, ci loc) {
   F3 R{rhs, r0, r1, s0, s1, t0}, K{(double*)Ak0, ki0, ki1, kj0, kj1, kk0}, G{(double*)g, ai0, ai1, aj0, aj1, ak0};
   int ax = loc / 2, s = loc % 2;
   for (int k = lo[2]; k <= up[2]; k++) for (int j = lo[1]; j <= up[1]; j++) for (int i = lo[0]; i <= up[0]; i++) {
      int in[3] = {i, j, k}, fa[3] = {i, j, k}; in[ax] += s ? -1 : 1; if (!s) fa[ax] += 1;
      R(in[0], in[1], in[2]) -= K(ax == 0 ? ki0 : in[0], ax == 1 ? kj0 : in[1], ax == 2 ? kk0 : in[2]) * G(fa[0], fa[1], fa[2]);
   }
}
}
extern "C" {
// ---- explicit Euler behind the CVODE calls ----
struct MiniCV { CVRhsFn f = nullptr; CVProjFn proj = nullptr; CVLsPrecSetupFn ps = nullptr; CVLsPrecSolveFn pz = nullptr; void* data = nullptr; double t = 0, h = 0, hmax = 0, hmin = 0; long nst = 0, nfe = 0, npe = 0, nps = 0; };
static MiniCV* M(void* m) { return (MiniCV*)m; }
void* CVodeCreate(int) { return new MiniCV; }
int CVodeInit(void* m, CVRhsFn f, realtype t, N_Vector) { M(m)->f = f; M(m)->t = t; return 0; }
int CVodeReInit(void* m, realtype t, N_Vector) { M(m)->t = t; return 0; }
int CVodeSetUserData(void* m, void* d) { M(m)->data = d; return 0; }
int CVodeSStolerances(void*, realtype, realtype) { return 0; }
int CVodeSVtolerances(void*, realtype, N_Vector) { return 0; }
static int dummy_ls;
SUNLinearSolver SUNSPGMR(N_Vector, int, int) { return &dummy_ls; }
SUNLinearSolver SUNLinSol_SPGMR(N_Vector, int, int) { return &dummy_ls; }
int SUNSPGMRSetGSType(SUNLinearSolver, int) { return 0; }
int SUNLinSol_SPGMRSetGSType(SUNLinearSolver, int) { return 0; }
int SUNLinSolFree(SUNLinearSolver) { return 0; }
int CVodeSetLinearSolver(void*, SUNLinearSolver, SUNMatrix) { return 0; }
int CVSpilsSetLinearSolver(void*, SUNLinearSolver) { return 0; }
int CVSpilsSetPreconditioner(void* m, CVLsPrecSetupFn a, CVLsPrecSolveFn b) { M(m)->ps = a; M(m)->pz = b; return 0; }
int CVodeSetPreconditioner(void* m, CVLsPrecSetupFn a, CVLsPrecSolveFn b) { M(m)->ps = a; M(m)->pz = b; return 0; }
int CVodeSetLSetupFrequency(void*, long) { return 0; }
int CVodeSetMaxOrd(void*, int) { return 0; }
int CVodeSetMaxNumSteps(void*, long) { return 0; }
int CVodeSetMaxHnilWarns(void*, int) { return 0; }
int CVodeSetInitStep(void* m, realtype h) { M(m)->h = h; return 0; }
int CVodeSetMaxStep(void* m, realtype h) { M(m)->hmax = h; return 0; }
int CVodeSetMinStep(void* m, realtype h) { M(m)->hmin = h; return 0; }
int CVodeSetProjFn(void* m, CVProjFn f) { M(m)->proj = f; return 0; }
int CVodeSetJacTimesRhsFn(void*, CVRhsFn) { return 0; }
int CVodeSetLSNormFactor(void*, realtype) { return 0; }
int CVodeSetEpsLin(void*, realtype) { return 0; }
int CVSpilsSetEpsLin(void*, realtype) { return 0; }
int CVodeSetStopTime(void*, realtype) { return 0; }
int CVode(void* m, realtype tout, N_Vector y, realtype* tret, int task) {
   MiniCV* c = M(m);
   do {
      double h = c->h > 0 ? c->h : (c->hmax > 0 ? c->hmax : tout - c->t);
      if (c->t + h > tout) h = tout - c->t;
      N_Vector f = y->ops->nvclone(y);
      if (c->f(c->t, y, f, c->data)) { y->ops->nvdestroy(f); return -8; }
      c->nfe++;
      y->ops->nvlinearsum(h, f, 1., y, y);
      if (c->proj) { N_Vector e = y->ops->nvclone(y); y->ops->nvconst(0., f); y->ops->nvconst(0., e); c->proj(c->t + h, y, f, 1e-8, e, c->data); y->ops->nvlinearsum(1., y, 1., f, y); y->ops->nvdestroy(e); }
      y->ops->nvdestroy(f);
      c->t += h; c->nst++;
   } while (task == CV_NORMAL && c->t < tout);
   *tret = c->t;
   return 0;
}
int CVodeGetDky(void*, realtype, int, N_Vector) { return 0; }
void CVodeFree(void** m) { delete M(*m); *m = nullptr; }
int CVodeGetNumSteps(void* m, long* n) { *n = M(m)->nst; return 0; }
int CVodeGetNumRhsEvals(void* m, long* n) { *n = M(m)->nfe; return 0; }
#define ZERO_L(F) int F(void*, long* n) { *n = 0; return 0; }
ZERO_L(CVodeGetNumLinSolvSetups) ZERO_L(CVodeGetNumNonlinSolvIters) ZERO_L(CVodeGetNumNonlinSolvConvFails) ZERO_L(CVodeGetNumErrTestFails)
ZERO_L(CVSpilsGetNumPrecEvals) ZERO_L(CVSpilsGetNumPrecSolves) ZERO_L(CVSpilsGetNumLinIters) ZERO_L(CVSpilsGetNumConvFails) ZERO_L(CVSpilsGetNumJtimesEvals) ZERO_L(CVSpilsGetNumRhsEvals)
ZERO_L(CVodeGetNumPrecEvals) ZERO_L(CVodeGetNumPrecSolves) ZERO_L(CVodeGetNumLinIters) ZERO_L(CVodeGetNumLinConvFails) ZERO_L(CVodeGetNumJtimesEvals) ZERO_L(CVodeGetNumLinRhsEvals)
int CVodeGetLastOrder(void*, int* n) { *n = 1; return 0; }
int CVodeGetCurrentOrder(void*, int* n) { *n = 1; return 0; }
int CVodeGetWorkSpace(void*, long* a, long* b) { *a = *b = 0; return 0; }
int CVSpilsGetWorkSpace(void*, long* a, long* b) { *a = *b = 0; return 0; }
int CVodeGetLastStep(void* m, realtype* h) { *h = M(m)->h; return 0; }
int CVodeGetCurrentStep(void* m, realtype* h) { *h = M(m)->h; return 0; }
int CVodeGetCurrentTime(void* m, realtype* h) { *h = M(m)->t; return 0; }
int CVodeGetTolScaleFactor(void*, realtype* h) { *h = 1; return 0; }
N_Vector N_VClone(N_Vector v) { return v->ops->nvclone(v); }
void N_VDestroy(N_Vector v) { v->ops->nvdestroy(v); }
}
