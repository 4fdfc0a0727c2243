// Order-parameter right-hand sides, gradient fluxes, moving frame.
#include "core.h"
#include "FreeEnergyStrategy.h"
#include "QuatModelParameters.h"
#include "PhaseFluxStrategyFactory.h"
#include "PhaseRHSStrategyWithQ.h"
#include "MultiOrderRHSStrategy.h"
#include "ThreePhasesRHSStrategy.h"
#include "MovingFrameRHS.h"
#include "CVODESolver.h"
#include "fe.h"
struct NoFunc : public CVODEAbstractFunctions {
   typedef SundialsAbstractVector V;
   int evaluateRHSFunction(double, V*, V*) override { return 0; }
   int CVSpgmrPrecondSet(double, V*, V*, int, int*, double) override { return 0; }
   int CVSpgmrPrecondSolve(double, V*, V*, V*, V*, double, double, int) override { return 0; }
   int applyProjection(double, V*, V*, double, V*) override { return 0; }
   int evaluateJTimesRHSFunction(double, V*, V*) override { return 0; }
};
static CVODESolver* solver() { static NoFunc f; static CVODESolver s("cv", &f, false); return &s; }

// p: model, time, flag, and the names of the fields (fl,fa,fb: energies written by the free-energy object)
CMD(phase_rhs) {
   QuatModelParameters mp;
   mp.readVisitOptions(SUB(p, "visit"));
   mp.readModelParameters(SUB(p, "model"));
   std::shared_ptr<PhaseFluxStrategy> fs = PhaseFluxStrategyFactory::create(mp);
   std::shared_ptr<FreeEnergyStrategy> fe;
   if (I(p, "fe", 1)) fe = std::make_shared<FieldFE>(w.id("sl"), w.id("sa"), w.id("sb"));
   std::string kind = S(p, "kind");
   std::shared_ptr<PhaseRHSStrategy> rhs;
   if (kind == "q")
      rhs = std::make_shared<PhaseRHSStrategyWithQ>(mp, w.id("phi"), w.id("conc"), w.id("quat"), w.id("temp"), w.id("eta"), w.id("fl"), w.id("fa"), w.id("fb"),
                                                    w.id("mob"), w.id("flux"), w.id("ogm"), w.id("noise"), w.id("visit"), solver(), fe, w.geom, fs);
   else if (kind == "multi")
      rhs = std::make_shared<MultiOrderRHSStrategy>(mp, w.id("phi"), w.id("conc"), w.id("temp"), w.id("fl"), w.id("fa"), w.id("fb"), w.id("mob"), w.id("flux"), solver(), fe, w.geom, fs);
   else
      rhs = std::make_shared<ThreePhasesRHSStrategy>(mp, w.id("phi"), w.id("conc"), w.id("temp"), w.id("fl"), w.id("fa"), w.id("fb"), w.id("mob"), w.id("flux"), solver(), fe, w.geom, fs);
   rhs->setup(w.hier);
   for (int k = 0; k < I(p, "times", 1); k++) rhs->evaluateRHS(D(p, "time", 1.), w.hier, w.id("rhs"), I(p, "flag", 1));
}
CMD(project) {
   QuatModelParameters mp;
   mp.readVisitOptions(SUB(p, "visit"));
   mp.readModelParameters(SUB(p, "model"));
   std::shared_ptr<PhaseFluxStrategy> fs = PhaseFluxStrategyFactory::create(mp);
   if (S(p, "kind") == "multi") {
      MultiOrderRHSStrategy r(mp, w.id("phi"), -1, w.id("phi"), w.id("phi"), w.id("phi"), w.id("phi"), w.id("phi"), w.id("flux"), solver(), nullptr, w.geom, fs);
      r.setup(w.hier); r.projectPhases(w.id("phi"), w.id("corr"), w.id("err"));
   } else {
      ThreePhasesRHSStrategy r(mp, w.id("phi"), -1, w.id("phi"), w.id("phi"), w.id("phi"), w.id("phi"), w.id("phi"), w.id("flux"), solver(), nullptr, w.geom, fs);
      r.setup(w.hier); r.projectPhases(w.id("phi"), w.id("corr"), w.id("err"));
   }
}
CMD(phase_flux) {
   QuatModelParameters mp;
   mp.readVisitOptions(SUB(p, "visit"));
   mp.readModelParameters(SUB(p, "model"));
   std::shared_ptr<PhaseFluxStrategy> fs = PhaseFluxStrategyFactory::create(mp);
   for (int l = 0; l < w.hier->getNumberOfLevels(); l++) fs->computeFluxes(w.hier->getPatchLevel(l), w.id("phase"), w.id("quat"), w.id("flux"));
}
CMD(frame) {
   MovingFrameRHS r(w.id("phase"), I(p, "upwind"));
   r.addRHS(w.hier, w.id("rhs"), D(p, "vel"));
}
