// The model's own grid operations (differences, gradients, moduli, mobilities, tags, weights, integrals), called on a
// real QuatModel object with the field identifiers set by the caller.
#include <set>
#include <map>
#include <vector>
#include <string>
#include <memory>
#include <iostream>
#include <sstream>
#include <fstream>
#include <functional>
#include "core.h"
#define private public
#define protected public
#include "QuatModel.h"
#undef private
#undef protected
#include "HierarchyStencilOps.h"
#include "toolsSAMRAI.h"
#include "SimpleQuatGradStrategy.h"
#include "SimpleQuatMobilityStrategy.h"
#include "QuatGradModulusStrategy.h"
#include "QuatFaceCoeff.h"
#include "DerivDiffusionCoeffForQuat.h"
static QuatModel* make(DB p, World& w) {
   tbox::RestartManager::getManager()->d_items.clear();
   auto m = std::make_shared<QuatModel>(I(p, "qlen", 1));
   w.keep["qm"] = m;
   if (p->isDatabase("visit")) m->d_model_parameters.readVisitOptions(SUB(p, "visit"));
   m->d_model_parameters.readModelParameters(SUB(p, "model"));
   if (SUB(p, "model")->keyExists("eta_mobility")) m->d_model_parameters.initializeEta(SUB(p, "model"));
   m->d_symmetry_aware = p->getBoolWithDefault("symm", false);
   m->d_patch_hierarchy = w.hier; m->d_grid_geometry = w.geom;
   m->d_time = D(p, "time", 0.);
   m->d_quat_grad_modulus_strategy.reset(new QuatGradModulusStrategy(m->d_qlen));
   DB ids = SUB(p, "ids");
   auto id = [&](const char* n) { return ids->keyExists(n) ? w.id(ids->getString(n)) : -1; };
#define M_ID(x) m->d_##x##_id = id(#x);
   M_ID(phase) M_ID(phase_scratch) M_ID(phase_diffs) M_ID(phase_diffs_cell) M_ID(phase_grad_cell) M_ID(phase_grad_side)
   M_ID(eta) M_ID(eta_scratch) M_ID(eta_diffs) M_ID(eta_grad_cell) M_ID(eta_mobility) M_ID(phase_mobility) M_ID(quat_mobility)
   M_ID(quat) M_ID(quat_scratch) M_ID(quat_diffs) M_ID(quat_diffs_cell) M_ID(quat_nonsymm_diffs_cell) M_ID(quat_grad_cell) M_ID(quat_grad_side)
   M_ID(quat_grad_modulus) M_ID(quat_symm_rotation) M_ID(quat_symm_rotation_cell) M_ID(temperature) M_ID(velocity) M_ID(weight) M_ID(weight_diagnostics)
   M_ID(conc) M_ID(work) M_ID(cp) M_ID(f_l)
   if (p->keyExists("ncomp")) m->d_ncompositions = I(p, "ncomp");
   return m.get();
}
// scratch <- current with periodic ghosts, as the model's own schedules do
static void scratch(QuatModel* m, World& w) {
   auto alg = std::make_shared<xfer::RefineAlgorithm>();
   auto add = [&](int dst, int src) { if (dst >= 0 && src >= 0) alg->registerRefine(dst, src, dst, nullptr); };
   add(m->d_quat_scratch_id, m->d_quat_id);
   add(m->d_phase_scratch_id, m->d_phase_id);
   m->d_curr_to_scr_refine_alg = alg;
   m->d_curr_to_scr_refine_sched.clear();
   for (int l = 0; l < w.hier->getNumberOfLevels(); l++) m->d_curr_to_scr_refine_sched.push_back(alg->createSchedule(w.hier->getPatchLevel(l), l - 1, w.hier, nullptr));
}
// p: op, via (direct, simple, level), a, b: field names ("" for the model's own), time, cache, model, visit, qlen, symm, ids
CMD(m_op) {
   QuatModel* m = make(p, w);
   std::string op = S(p, "op"), via = S(p, "via", "direct");
   int a = S(p, "a").empty() ? -1 : w.id(S(p, "a")), b = S(p, "b").empty() ? -1 : w.id(S(p, "b"));
   double t = D(p, "time", 0.);
   auto c = I(p, "cache", 0) ? QuatModel::FORCE : QuatModel::CACHE;
   auto qc = I(p, "cache", 0) ? QuatGradStrategy::FORCE : QuatGradStrategy::CACHE;
   auto mc = I(p, "cache", 0) ? QuatMobilityStrategy::FORCE : QuatMobilityStrategy::CACHE;
   auto h = w.hier;
   bool lev = via == "level", sim = via == "simple", siml = via == "simplelevel";
   SimpleQuatGradStrategy sq(m);
   SimpleQuatMobilityStrategy sm(m);
   auto levels = [&](std::function<void(std::shared_ptr<hier::PatchLevel>)> f) { for (int l = 0; l < h->getNumberOfLevels(); l++) f(h->getPatchLevel(l)); };
   typedef std::shared_ptr<hier::PatchLevel> L;
   HierarchyStencilOps so;
   if (op == "phase_diffs") m->computePhaseDiffs(h, a, b, t, c);
   else if (op == "eta_diffs") m->computeEtaDiffs(h, a, b, t, c);
   else if (op == "var_diffs") { if (lev) levels([&](L l) { so.computeDiffs(l, a, b); }); else m->computeVarDiffs(h, a, b, t, c); }
   else if (op == "phase_grad_cell") { if (lev) levels([&](L l) { m->computePhaseGradCell(l, a, b, t); }); else m->computePhaseGradCell(h, a, b, t, c); }
   else if (op == "var_grad_cell") { m->computeVarGradCell(h, a, b, t, c); }
   else if (op == "var_grad_side") { m->computeVarGradSide(h, a, b, t, c); }
   else if (op == "quat_diffs") {
      if (lev) levels([&](L l) { m->computeQuatDiffs(l, a, b, t); });
      else if (siml) levels([&](L l) { sq.computeDiffs(l, a, b, t); });
      else if (sim) sq.computeDiffs(h, a, b, t, qc);
      else m->computeQuatDiffs(h, a, b, t, c);
   } else if (op == "quat_grad_cell") {
      if (lev) levels([&](L l) { m->computeQuatGradCell(l, a, b, t); });
      else if (siml) levels([&](L l) { sq.computeGradCell(l, a, b, t); });
      else if (sim) sq.computeGradCell(h, a, b, t, qc);
      else m->computeQuatGradCell(h, a, b, t, c);
   } else if (op == "quat_grad_side") {
      if (lev) levels([&](L l) { m->computeQuatGradSide(l, a, b, t); });
      else if (siml) levels([&](L l) { sq.computeGradSide(l, a, b, t); });
      else if (sim) sq.computeGradSide(h, a, b, t, qc);
      else m->computeQuatGradSide(h, a, b, t, c);
   } else if (op == "quat_mod") {
      if (lev) levels([&](L l) { m->computeQuatGradModulus(l, a, b, t); });
      else if (siml) levels([&](L l) { sq.computeGradModulus(l, a, b, t); });
      else if (sim) sq.computeGradModulus(h, a, b, t, qc);
      else m->computeQuatGradModulus(h, a, b, t, c);
   } else if (op == "quat_mod_sides") {
      if (lev) levels([&](L l) { m->computeQuatGradModulusFromSides(l, a, b, t); });
      else if (sim) sq.computeGradModulusFromSides(h, a, b, t, qc);
      else m->computeQuatGradModulusFromSides(h, a, b, t, c);
   } else if (op == "smooth") {
      if (p->keyExists("thr")) m->d_phase_threshold = D(p, "thr");
      if (lev) levels([&](L l) { m->smoothQuat(l); });
      else { scratch(m, w); m->smoothQuat(h, t); }
   } else if (op == "normalize") { if (lev) levels([&](L l) { m->normalizeQuat(l, a); }); else m->normalizeQuat(h, a); }
   else if (op == "fundamental") m->makeQuatFundamental(h, t);
   else if (op == "rotations") { scratch(m, w); m->computeSymmetryRotations(h, t); }
   else if (op == "velocity") m->computeVelocity(h, a);
   else if (op == "phase_mob") { if (sim) sm.computePhaseMobility(h, a, b, t, mc); else m->computeUniformPhaseMobility(h, a, b, t, c); }
   else if (op == "phase_mob_T") levels([&](L l) { for (auto& q : *l) m->computePhaseMobilityPatch(q->getBox(), std::dynamic_pointer_cast<CD>(q->getPatchData(a)), std::dynamic_pointer_cast<CD>(q->getPatchData(b))); });
   else if (op == "eta_mob") { if (sim) sm.computeEtaMobility(h, a, b, t, mc); else if (lev) levels([&](L l) { m->computeEtaMobility(l, a, b, t); }); else m->computeEtaMobility(h, a, b, t, c); }
   else if (op == "quat_mob") { if (sim) sm.computeQuatMobility(h, a, b, t, mc); else if (lev) levels([&](L l) { m->computeQuatMobility(l, a, b, t); }); else m->computeQuatMobility(h, a, b, t, c); }
   else if (op == "quat_mob_deriv") { if (sim) sm.computeQuatMobilityDeriv(h, a, b, t, mc); else if (lev) levels([&](L l) { m->computeQuatMobilityDeriv(l, a, b, t); }); else m->computeQuatMobilityDeriv(h, a, b, t, c); }
   else if (op == "tags") {
      m->d_tag_phase = p->keyExists("tp"); m->d_tag_eta = p->keyExists("te"); m->d_tag_quat = p->keyExists("tq");
      if (p->isDatabase("amr")) { m->d_tag_phase = m->d_tag_eta = m->d_tag_quat = false; m->initializeAmr(SUB(p, "amr")); }
      else { m->d_phase_threshold_untagged = D(p, "tp", 0.); m->d_eta_threshold_untagged = D(p, "te", 0.); m->d_quat_threshold_untagged = D(p, "tq", 0.); }
      levels([&](L l) { for (auto& q : *l) m->tagGradientDetectorCells(*q, t, true, a, false); });
   } else if (op == "detect") {
      m->d_tag_phase = m->d_tag_eta = m->d_tag_quat = false;
      m->initializeAmr(SUB(p, "amr"));
      scratch(m, w);
      for (int l = 0; l < h->getNumberOfLevels(); l++) m->applyGradientDetector(m->d_patch_hierarchy, l, t, a, I(p, "cache", 0) == 0, false);
   } else if (op == "weights") {
      if (p->keyExists("latent")) m->d_model_parameters.d_latent_heat = D(p, "latent");
      if (m->d_conc_id >= 0) m->d_model_parameters.d_with_concentration = true;
      m->computeVectorWeights(h);
      w.res.clear();
      w.res["integral"] = {};
      auto& r = w.res["integral"];
      if (m->d_conc_id >= 0) for (int k = 0; k < std::max(m->d_ncompositions, 1); k++) r.push_back(m->evaluateIntegralConcentration(h, k));
      w.res["fraction"] = {};
      if (m->d_phase_id >= 0 && m->d_work_id >= 0) for (int k = 0; k < I(p, "nphi", 1); k++) w.res["fraction"].push_back(m->evaluatePhaseFraction(h, m->d_phase_id, k));
      if (m->d_phase_id >= 0) w.res["volume"] = {m->evaluateVolumeSolid(h, m->d_phase_id)};
      if (m->d_conc_id >= 0 && m->d_phase_scratch_id >= 0) { w.res["phaseconc"] = {}; for (int k = 0; k < std::max(m->d_ncompositions, 1); k++) w.res["phaseconc"].push_back(m->evaluateIntegralPhaseConcentration(h, k)); }
      if (m->d_conc_id >= 0 && p->keyExists("comp")) w.res["depth"] = {integralDepthCellData(h, m->d_conc_id, I(p, "comp"), m->d_weight_id)};
      if (m->d_cp_id >= 0) w.res["thermal"] = {m->computeThermalEnergy(h)};
   } else if (op == "weights_diag") {
      std::vector<double> f = DV(p, "sub");
      for (int d = 0; d < NDIM; d++) m->d_subdomain_diagnostics[d] = f[d];
      if (m->d_weight_id >= 0) m->computeVectorWeights(h);
      m->computeVectorWeightsDiagnostics(h);
      w.res.clear();
      if (p->keyExists("normA")) {
         m->d_model_parameters.d_norderp_A = I(p, "normA"); m->d_model_parameters.d_norderp_B = I(p, "normB"); m->d_model_parameters.d_norderp = I(p, "normA") + I(p, "normB") + 1;
         w.res["density"] = {m->computeDensityDiagnostics()};
      }
   } else if (op == "copies") {
      copyDepthCellData(h, w.id("dst"), 0, w.id("conc"), I(p, "comp"));
      sideToCell(h, w.id("avg"), I(p, "to"), w.id("s"), I(p, "from"));
      copyDepthSideData(h, w.id("sd"), 0, w.id("s"), I(p, "from"));
   } else if (op == "facecoef") {
      auto& q = m->d_model_parameters;
      QuatFaceCoeff fc(m->d_qlen, D(p, "epsq"), D(p, "floor"), S(p, "floor_type"), D(p, "H"), S(p, "interp1"), S(p, "interp2"), S(p, "avg"));
      fc.computeFaceCoefs(h, w.id("phi"), w.id("temp"), w.id("grad"), b);
   } else if (op == "dcoef") {
      DerivDiffusionCoeffForQuat dc(w.geom, D(p, "H"), D(p, "floor"), m->d_qlen, S(p, "interp1"), S(p, "avg"), S(p, "floor_type"), b);
      dc.setup(h);
      dc.setDerivDiffusion(h, w.id("phi"), w.id("temp"), w.id("grad"));
   } else throw tbox::Error("op " + op);
   tbox::RestartManager::getManager()->d_items.clear();
}
