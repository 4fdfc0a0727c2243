// C entry points to the SAMRAI-free C++ of AMPE, for the trace drivers.
#include <cstddef>
#include <cmath>
#include "TiltingFolchPlapp2005.h"
#include "TiltingMoelans2011.h"
#include "ArrayOperation.h"
void computeWeights3Pairs(const double p0, const double p1, const double p2,
                          double& w01, double& w02, double& w12);
extern "C" {
double tfp_g0(double a, double b, double c) { return TiltingFolchPlapp2005::g0(a, b, c); }
double tfp_dg0dp0(double a, double b, double c) { return TiltingFolchPlapp2005::dg0dp0(a, b, c); }
double tfp_dg0dp1(double a, double b, double c) { return TiltingFolchPlapp2005::dg0dp1(a, b, c); }
double tmo_g0(double a, double b, double c) { return TiltingMoelans2011::g0(a, b, c); }
double tmo_dg0dp0(double a, double b, double c) { return TiltingMoelans2011::dg0dp0(a, b, c); }
double tmo_dg0dp1(double a, double b, double c) { return TiltingMoelans2011::dg0dp1(a, b, c); }
void w3pairs(double a, double b, double c, double* w)
{
   computeWeights3Pairs(a, b, c, w[0], w[1], w[2]);
}
double arrop_mul(double d, double s) { MultiplyOperation<double>()(d, s); return d; }
double arrop_add(double d, double s) { AddOperation<double>()(d, s); return d; }
}
