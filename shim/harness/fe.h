// A free-energy object whose energies are fields chosen by the driver: bulk energies are copied from the source
// fields, the driving force adds fl + 2 fa + 4 fb (whatever fields it is told to use) to every component of rhs.
#ifndef VERIF_FE_H
#define VERIF_FE_H
#include "FreeEnergyStrategy.h"
struct FieldFE : public FreeEnergyStrategy {
   int sl, sa, sb;
   double kl = 1, ka = 1, kb = 1;    // second derivatives
   FieldFE(int l, int a, int b) : sl(l), sa(a), sb(b) {}
   void cp(hier::Patch& patch, int from, int to) {
      if (from < 0 || to < 0) return;
      auto s = std::dynamic_pointer_cast<CD>(patch.getPatchData(from)), d = std::dynamic_pointer_cast<CD>(patch.getPatchData(to));
      for (const hier::Index& i : patch.getBox()) d->getArrayData()(i, 0) = s->getArrayData()(i, 0);
   }
   void computeFreeEnergyLiquid(hier::Patch& p, const int, const int f, const bool) override { cp(p, sl, f); }
   void computeFreeEnergySolidA(hier::Patch& p, const int, const int f, const bool) override { cp(p, sa, f); }
   void computeFreeEnergySolidB(hier::Patch& p, const int, const int f, const bool) override { cp(p, sb, f); }
   void addDrivingForce(const double, hier::Patch& p, const int, const int, const int, const int, const int fl, const int fa, const int fb, const int rhs) override {
      auto r = std::dynamic_pointer_cast<CD>(p.getPatchData(rhs));
      auto g = [&](int id, const hier::Index& i) { return id < 0 ? 0. : (double)std::dynamic_pointer_cast<CD>(p.getPatchData(id))->getArrayData()(i, 0); };
      for (const hier::Index& i : p.getBox()) for (int d = 0; d < r->getDepth(); d++) r->getArrayData()(i, d) += g(fl, i) + 2 * g(fa, i) + 4 * g(fb, i);
   }
   void computeSecondDerivativeEnergyPhaseL(const double, const std::vector<double>&, std::vector<double>& d, const bool) override { d.assign(1, kl); }
   void computeSecondDerivativeEnergyPhaseA(const double, const std::vector<double>&, std::vector<double>& d, const bool) override { d.assign(1, ka); }
   void preRunDiagnostics(const double) override {}
};
#endif
