// Rigid-body pair forces and the motion they cause.
#include "core.h"
#include "QuatModelParameters.h"
#include "WangRigidBodyForces.h"
#include "PhaseRigidBodyForces.h"
#include "RigidBodyMotionRHS.h"
#include "RigidBodyMotionConcRHS.h"
CMD(rbforces) {
   QuatModelParameters mp;
   mp.readVisitOptions(SUB(p, "visit"));
   mp.readModelParameters(SUB(p, "model"));
   std::shared_ptr<RigidBodyForces> f;
   if (S(p, "kind") == "wang") f = std::make_shared<WangRigidBodyForces>(mp, w.id("phase"), w.id("conc"), w.id("weight"));
   else f = std::make_shared<PhaseRigidBodyForces>(mp, w.id("phase"), w.id("weight"));
   for (int k = 0; k < I(p, "times", 1); k++) f->evaluatePairForces(w.hier);
   int n = I(p, "nb");
   std::vector<double>& r = w.res["force"];
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      std::array<double, NDIM> a;
      f->getPairForce(i, j, a);
      for (int d = 0; d < NDIM; d++) r.push_back(a[d]);
   }
}
static std::vector<std::array<double, NDIM>> bodyforces(DB p) {
   std::vector<double> f = DV(p, "forces");
   std::vector<std::array<double, NDIM>> r(f.size() / NDIM);
   for (size_t i = 0; i < f.size(); i++) r[i / NDIM][i % NDIM] = f[i];
   return r;
}
CMD(rbmotion) {
   RigidBodyMotionRHS r(w.id("phase"), w.id("weight"), D(p, "mobility"));
   for (int k = 0; k < I(p, "times", 1); k++) r.addRHS(w.hier, w.id("rhs"), bodyforces(p));
}
CMD(rbmotionconc) {
   RigidBodyMotionConcRHS r(w.id("phase"), w.id("weight"), D(p, "mobility"));
   for (int k = 0; k < I(p, "times", 1); k++) r.addRHS(w.hier, w.id("rhs"), bodyforces(p));
}
