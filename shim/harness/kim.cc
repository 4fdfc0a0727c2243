// Phase mobilities of thin-interface models (Kim), built by MobilityFactory.
#include "core.h"
#include "QuatModelParameters.h"
#include "MobilityFactory.h"
// p: model, names fixed: phi, cl, ca, cb, temp, mob
CMD(mobility) {
   QuatModelParameters mp;
   mp.readVisitOptions(SUB(p, "visit"));
   mp.readModelParameters(SUB(p, "model"));
   bool three = I(p, "three");
   auto s = MobilityFactory::create(nullptr, mp, w.id("cl"), w.id("ca"), w.id("cb"), w.id("temp"), 1, three, SUB(SUB(p, "model"), "ConcentrationModel"));
   int phi = w.id("phi"), mob = w.id("mob");
   for (int k = 0; k < I(p, "times", 1); k++) s->computePhaseMobility(w.hier, phi, mob, D(p, "time", 0.), QuatMobilityStrategy::FORCE);
}
