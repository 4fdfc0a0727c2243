// Composition equation: diffusion strategies, right-hand-side strategies (built by the project's own factories from a
// model database), fluxes, boundary fluxes, anti-trapping and temperature-gradient fluxes.
#include <set>
#include <map>
#include <vector>
#include <string>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <functional>
#include "core.h"
#define private public
#define protected public
#include "QuatModel.h"
#include "CompositionStrategyMobilities.h"
#include "CompositionDiffusionStrategyFactory.h"
#include "CompositionRHSStrategyFactory.h"
#undef private
#undef protected
#include "fe.h"

// partition coefficients: the model object is asked to make the ghost values usable
void QuatModel::fillPartitionCoeffGhosts() {
   World& w = world();
   w.hier->getPatchLevel(0);
   for (int l = 0; l < w.hier->getNumberOfLevels(); l++)
      for (auto& p : *w.hier->getPatchLevel(l)) {
         auto s = std::dynamic_pointer_cast<CD>(p->getPatchData(w.id("ktrue"))), d = std::dynamic_pointer_cast<CD>(p->getPatchData(w.id("kpart")));
         for (const hier::Index& i : d->getGhostBox()) d->getArrayData()(i, 0) = s->getArrayData()(i, 0);
      }
}
// atomic mobilities and second derivatives: symmetric matrices, linear in composition (see AmpeComp!StdM, StdH)
CompositionStrategyMobilities::CompositionStrategyMobilities(std::shared_ptr<tbox::Database>, const bool, const unsigned short n, std::shared_ptr<FreeEnergyStrategy> f)
   : d_free_energy_strategy(f), d_ncompositions(n), d_with_third_phase(false) {}
static void mob(const std::vector<double>& c, double t, std::vector<double>& m, int ph) {
   if (c.size() == 1) { m[0] = t * (2 + ph + c[0]); return; }
   m[0] = t * (2 + ph + c[0]); m[1] = m[2] = ph - c[1]; m[3] = t * (3 + c[0] + 2 * c[1]);
}
static void hess(const std::vector<double>& c, double t, std::vector<double>& m, int ph) {
   if (c.size() == 1) { m[0] = 3 - ph + 2 * c[0]; return; }
   m[0] = 3 + ph + c[1]; m[1] = m[2] = 1 + ph + c[0]; m[3] = 5 + t - ph + 2 * c[0];
}
void CompositionStrategyMobilities::computeDiffusionMobilityPhaseL(const std::vector<double>& c, const double t, std::vector<double>& m) { mob(c, t, m, 0); }
void CompositionStrategyMobilities::computeDiffusionMobilityPhaseA(const std::vector<double>& c, const double t, std::vector<double>& m) { mob(c, t, m, 1); }
void CompositionStrategyMobilities::computeDiffusionMobilityPhaseB(const std::vector<double>& c, const double t, std::vector<double>& m) { mob(c, t, m, 2); }
double CompositionStrategyMobilities::computeDiffusionMobilityBinaryPhaseL(const double c, const double t) { std::vector<double> m(1); mob({c}, t, m, 0); return m[0]; }
double CompositionStrategyMobilities::computeDiffusionMobilityBinaryPhaseA(const double c, const double t) { std::vector<double> m(1); mob({c}, t, m, 1); return m[0]; }
void CompositionStrategyMobilities::printDiagnostics(const std::shared_ptr<hier::PatchHierarchy>, const int) {}
void CompositionStrategyMobilities::printDiagnostics(const double, const double) {}

struct TestFE : public FieldFE {
   TestFE() : FieldFE(-1, -1, -1) {}
   void computeSecondDerivativeEnergyPhaseL(const double t, const std::vector<double>& c, std::vector<double>& d, const bool) override { hess(c, t, d, 0); }
   void computeSecondDerivativeEnergyPhaseA(const double t, const std::vector<double>& c, std::vector<double>& d, const bool) override { hess(c, t, d, 1); }
};

// p: model, ncomp, pfm (names of the diffusion fields), ops, alpha, and field names fixed below
CMD(c_op) {
   QuatModelParameters mp;
   mp.readVisitOptions(SUB(p, "visit"));
   mp.readModelParameters(SUB(p, "model"));
   const int n = I(p, "ncomp", 1);
   auto fe = std::make_shared<TestFE>();
   CompositionStrategyMobilities mobs(nullptr, false, n, fe);
   std::vector<int> pfm;
   if (w.id("pfm0") >= 0) pfm.push_back(w.id("pfm0"));
   if (w.id("pfm1") >= 0 && I(p, "ncomp", 1) > 1) pfm.push_back(w.id("pfm1"));
   std::shared_ptr<CompositionDiffusionStrategy> diff;
   if (I(p, "mkdiff", 1))
      diff = CompositionDiffusionStrategyFactory::create(nullptr, mp, n, w.id("conc"), w.id("cl"), w.id("ca"), w.id("cb"), pfm, w.id("dl"), w.id("da"), w.id("db"), w.id("coefl"),
                                                         w.id("coefa"), w.id("coefb"), &mobs, fe);
   static char store[sizeof(QuatModel)];
   std::shared_ptr<CompositionRHSStrategy> rhs;
   if (I(p, "mkrhs", 1))
      rhs = CompositionRHSStrategyFactory::create((QuatModel*)store, fe, mp, n, w.id("conc"), w.id("phi"), w.id("temp"), pfm, w.id("dl"), w.id("da"), w.id("db"), w.id("coup"),
                                                  w.id("eta"), w.id("ecoup"), w.id("cl"), w.id("ca"), w.id("cb"), w.id("kpart"), w.id("mq"), &mobs, diff);
   std::string op = S(p, "op");
   auto each = [&](std::function<void(hier::Patch&)> f) {
      for (int l = 0; l < w.hier->getNumberOfLevels(); l++) for (auto& q : *w.hier->getPatchLevel(l)) f(*q);
   };
   if (op == "diff") diff->setDiffusion(w.hier, w.id("temp"), w.id("phi"));
   if (op == "coef" || op == "both") {
      if (auto r = std::dynamic_pointer_cast<EBSCompositionRHSStrategy>(rhs)) r->setDiffusionCoeff(w.hier, 1.);
      if (auto r = std::dynamic_pointer_cast<KKSCompositionRHSStrategy>(rhs)) r->setDiffusionCoeff(w.hier, 1.);
      if (auto r = std::dynamic_pointer_cast<BeckermannCompositionRHSStrategy>(rhs)) r->setDiffusionCoeff(w.hier, 1.);
      if (auto r = std::dynamic_pointer_cast<WangSinteringCompositionRHSStrategy>(rhs)) r->setDiffusionCoeff(w.hier, 1.);
   }
   if (op == "precond") std::dynamic_pointer_cast<EBSCompositionRHSStrategy>(rhs)->setDiffusionCoeffForPreconditioner(w.hier);
   if (op == "flux" || op == "both") each([&](hier::Patch& q) { rhs->computeFluxOnPatch(q, w.id("flux")); });
   if (op == "zero") each([&](hier::Patch& q) { rhs->setZeroFluxAtBoundaryOnPatch(q, w.id("flux")); });
   if (op == "anti") each([&](hier::Patch& q) { rhs->addFluxFromAntitrappingonPatch(q, w.id("phi"), w.id("dphidt"), D(p, "alpha", 1.), w.id("flux")); });
   if (op == "gradT") each([&](hier::Patch& q) { rhs->addFluxFromGradTonPatch(q, w.id("temp"), w.id("flux")); });
}
