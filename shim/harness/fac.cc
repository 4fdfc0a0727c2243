// The elliptic FAC operators and solvers: real EllipticFACOps (and the ones derived from it), hypre and FAC cycles.
#include <map>
#include <vector>
#include <string>
#include <memory>
#include <mpi.h>
#include "core.h"
#define private public
#define protected public
#include "EllipticFACOps.h"
#include "EllipticFACSolver.h"
#include "PhaseFACOps.h"
#include "PhaseTemperatureFACOps.h"
#include "TemperatureFACOps.h"
#include "ConcFACOps.h"
#undef private
#undef protected
typedef solv::SAMRAIVectorReal<double> VR;
static std::shared_ptr<VR> vec(World& w, const std::string& n, const std::string& weight) {
   auto v = std::make_shared<VR>(n, w.hier, 0, w.hier->getNumberOfLevels() - 1);
   v->addComponent(w.vars.at(n).var, w.id(n), weight.empty() ? -1 : w.id(weight));
   return v;
}
static std::shared_ptr<EllipticFACOps> make(DB p) {
   static int k = 0;
   std::string t = S(p, "type"), n = "fac" + std::to_string(k++);
   DB db = SUB(p, "db");
   if (t == "phase") return std::make_shared<PhaseFACOps>(n, db);
   if (t == "phasetemp") return std::make_shared<PhaseTemperatureFACOps>(n, db);
   if (t == "temp") return std::make_shared<TemperatureFACOps>(n, db);
   if (t == "conc") return std::make_shared<ConcFACOps>(n, I(p, "depth", 1), db);
   return std::make_shared<EllipticFACOps>(tbox::Dimension(NDIM), n, db, I(p, "depth", 1));
}
static void coefs(DB p, World& w, EllipticFACOps& o) {
   std::string t = S(p, "type");
   auto names = [&](const char* k) { return p->keyExists(k) ? p->getStringVector(k) : std::vector<std::string>(); };
   if (t == "phase") { static_cast<PhaseFACOps&>(o).setOperatorCoefficients(w.id("phi"), w.id("m"), D(p, "eps"), D(p, "gamma"), D(p, "well"), S(p, "wellf")); return; }
   if (t == "phasetemp") { static_cast<PhaseTemperatureFACOps&>(o).setOperatorCoefficients(w.id("phi"), w.id("m"), D(p, "eps"), D(p, "gamma"), D(p, "well"), S(p, "wellf")); return; }
   if (t == "temp") { static_cast<TemperatureFACOps&>(o).setOperatorCoefficients(D(p, "m0"), DV(p, "cc")[0], DV(p, "dc")[0]); return; }
   if (t == "conc") {
      std::vector<int> id;
      for (auto& s : names("d")) id.push_back(w.id(s));
      static_cast<ConcFACOps&>(o).setOperatorCoefficients(D(p, "gamma"), id, D(p, "m0"));
      return;
   }
   if (p->keyExists("m0")) o.setMConstant(D(p, "m0")); else o.setM(w.id("m"));
   auto c = names("c"), d = names("d");
   for (int k = 0; k < I(p, "depth", 1); k++) {
      if (c[k] == "zero") o.setCConstant(0., k); else if (c[k].empty()) o.setCConstant(DV(p, "cc")[k], k); else o.setCPatchDataId(w.id(c[k]), k);
      if (d[k].empty()) o.setDConstant(DV(p, "dc")[k], k); else o.setDPatchDataId(w.id(d[k]), k);
   }
}
static void bcs(DB p, solv::LocationIndexRobinBcCoefs& bc) {
   auto k = IV(p, "bck"); auto g = DV(p, "bcg");
   for (size_t i = 0; i < k.size(); i++) { if (k[i] == 1) bc.setBoundaryValue(i, g[i]); else bc.setBoundarySlope(i, g[i]); }
}

// the mobility comes with its ghost cells: what the level holds there, the coarser value outside, mirrored at walls
static void ghosts(World& w, int id) {
   hier::Box dom(w.geom->getPhysicalDomain().front());
   auto per = w.geom->getPeriodicShift(hier::IntVector(tbox::Dimension(NDIM), 1));
   hier::IntVector R(tbox::Dimension(NDIM), 1);
   for (int ln = 0; ln < w.hier->getNumberOfLevels(); ln++) {
      auto lv = w.hier->getPatchLevel(ln);
      hier::IntVector q = lv->getRatioToCoarserLevel();
      if (ln) for (int d = 0; d < NDIM; d++) R(d) *= q(d);
      auto value = [&](hier::Index c, double& v) {
         for (int d = 0; d < NDIM; d++) {
            int lo = dom.lower(d) * R(d), hi = (dom.upper(d) + 1) * R(d) - 1, n = hi - lo + 1;
            if (per(d)) { while (c(d) < lo) c(d) += n; while (c(d) > hi) c(d) -= n; }
            else { if (c(d) < lo) c(d) = 2 * lo - 1 - c(d); if (c(d) > hi) c(d) = 2 * hi + 1 - c(d); }
         }
         for (int k = ln; k >= 0; k--) {
            for (auto pi = w.hier->getPatchLevel(k)->begin(); pi != w.hier->getPatchLevel(k)->end(); ++pi)
               if ((*pi)->getBox().contains(c)) { v = (*std::dynamic_pointer_cast<pdat::CellData<double>>((*pi)->getPatchData(id)))(pdat::CellIndex(c)); return; }
            if (!k) break;
            auto qk = w.hier->getPatchLevel(k)->getRatioToCoarserLevel();
            for (int d = 0; d < NDIM; d++) c(d) = c(d) >= 0 ? c(d) / qk(d) : -((-c(d) + qk(d) - 1) / qk(d));
         }
      };
      for (auto pi = lv->begin(); pi != lv->end(); ++pi) {
         auto dt = std::dynamic_pointer_cast<pdat::CellData<double>>((*pi)->getPatchData(id));
         hier::Box b = (*pi)->getBox(), g = dt->getGhostBox();
         for (auto it = pdat::CellGeometry::begin(g); it != pdat::CellGeometry::end(g); ++it)
            if (!b.contains(*it)) { double v = 1.; value(*it, v); (*dt)(*it) = v; }
      }
   }
}
CMD(fac) {
   int up = 0;
   MPI_Initialized(&up);
   if (!up) MPI_Init(nullptr, nullptr);      // hypre
   std::string op = S(p, "op");
   auto o = make(p);
   if (!p->keyExists("m0")) ghosts(w, w.id("m"));
   solv::LocationIndexRobinBcCoefs bc(tbox::Dimension(NDIM), "bc");
   bcs(p, bc);
   std::string wt;
   if (w.id("weight") >= 0 && op != "weights") wt = "weight";
   if (op == "solve") {
      EllipticFACSolver s("facsolver" + std::to_string(w.id("u")), o, SUB(p, "db"));
      s.setBcObject(&bc);
      s.initializeSolverState(w.id("u"), w.id("rhs"), w.hier);
      coefs(p, w, *o);
      s.finalizeCoefficients();
      bool ok = s.solveSystem(w.id("u"), w.id("rhs"));
      w.res["converged"] = {ok ? 1. : 0.};
      w.res["iterations"] = {(double)s.getNumberOfIterations()};
      w.res["norm"] = {s.getResidualNorm()};
      return;
   }
   o->setPhysicalBcCoefObject(&bc);
   auto u = vec(w, "u", wt), f = vec(w, "rhs", wt), r = vec(w, "res", wt);
   o->initializeOperatorState(*u, *f);
   coefs(p, w, *o);
   if (op == "coarse") o->finalizeCoefficients();
   int top = w.hier->getNumberOfLevels() - 1;
   if (op == "residual") { for (int l = top; l >= 0; l--) o->computeCompositeResidualOnLevel(*r, *u, *f, l, I(p, "hom", 0)); }
   else if (op == "rhs") o->evaluateRHS(w.id("u"), w.id("res"));
   else if (op == "smooth") o->smoothError(*u, *f, I(p, "ln"), I(p, "n"));
   else if (op == "restrict_s") o->restrictSolution(*u, *u, I(p, "ln"));
   else if (op == "restrict_r") o->restrictResidual(*r, *r, I(p, "ln"));
   else if (op == "prolong") o->prolongErrorAndCorrect(*u, *u, I(p, "ln"));
   else if (op == "prolong2") o->prolongErrorAndCorrect(*f, *u, I(p, "ln"));
   else if (op == "weights") o->computeVectorWeights(w.hier, w.id("weight"));
   else if (op == "norm") { o->computeVectorWeights(w.hier, w.id("weight")); w.res["norm"] = {o->computeResidualNorm(*vec(w, "res", "weight"), top, 0)}; }
   else if (op == "coarse") o->smoothError(*u, *f, 0, 0), w.res["ret"] = {(double)o->solveCoarsestLevel(*u, *f, 0)};
   else throw tbox::Error("fac: " + op);
   o->deallocateOperatorState();
}
