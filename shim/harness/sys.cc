// The whole model: a real QuatModel (and everything below it) initialised from an input database on planned levels.
#include <set>
#include <map>
#include <vector>
#include <string>
#include <memory>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <fstream>
#include <functional>
#include "core.h"
#define private public
#define protected public
#include "QuatModel.h"
#undef private
#undef protected
using hier::Box; using hier::Index; using hier::IntVector; using hier::BoxContainer;
static QuatModel* M(World& w) { auto m = w.get<QuatModel>("model"); if (!m) throw tbox::Error("no model"); return m.get(); }
static Box bx(const std::vector<int>& v, size_t o) {
   Index lo(tbox::Dimension(NDIM), 0), hi(tbox::Dimension(NDIM), 0);
   for (int k = 0; k < NDIM; k++) { lo[k] = v.at(o + k); hi[k] = v.at(o + NDIM + k); }
   return Box(lo, hi, hier::BlockId::zero());
}
static std::vector<mesh::Plan::Level> plan(DB lv) {
   std::vector<mesh::Plan::Level> r;
   for (int l = 0; lv->keyExists(std::to_string(l)); l++) {
      DB e = lv->getDatabase(std::to_string(l));
      mesh::Plan::Level x;
      x.ratio = e->getIntegerVector("ratio");
      std::vector<int> b = e->getIntegerVector("boxes");
      for (size_t o = 0; o + 2 * NDIM <= b.size(); o += 2 * NDIM) x.boxes.push_back(bx(b, o));
      r.push_back(x);
   }
   return r;
}
static void name(World& w, const char* n, int id) {
   if (id < 0) return;
   World::V v;
   v.id = id;
   hier::VariableDatabase::getDatabase()->mapIndexToVariable(id, v.var);
   if (std::dynamic_pointer_cast<pdat::CellVariable<double>>(v.var)) v.kind = "c";
   else if (std::dynamic_pointer_cast<pdat::SideVariable<double>>(v.var)) v.kind = "s";
   else if (std::dynamic_pointer_cast<pdat::CellVariable<int>>(v.var)) v.kind = "i";
   else if (std::dynamic_pointer_cast<pdat::SideVariable<int>>(v.var)) v.kind = "si";
   else return;
   w.vars[n] = v;
}
#define NAME(x) name(w, #x, m->d_##x##_id);
static void names(World& w, QuatModel* m) {
   w.hier = m->d_patch_hierarchy; w.geom = m->d_grid_geometry;
   w.vars.clear();
   NAME(phase) NAME(phase_scratch) NAME(quat) NAME(quat_scratch) NAME(quat_relax) NAME(conc) NAME(conc_scratch) NAME(conc_l) NAME(conc_a) NAME(conc_b)
   NAME(temperature) NAME(temperature_scratch) NAME(phase_diffs) NAME(quat_diffs) NAME(quat_symm_rotation) NAME(phase_grad_cell) NAME(phase_grad_side)
   NAME(quat_grad_cell) NAME(quat_grad_side) NAME(quat_grad_modulus) NAME(phase_mobility) NAME(quat_mobility) NAME(weight) NAME(weight_diagnostics)
   NAME(f_l) NAME(f_a) NAME(f_b) NAME(cp) NAME(velocity) NAME(partition_coeff) NAME(energy_diag) NAME(quat_norm_error) NAME(temperature_rhs_steady)
   NAME(conc_diffusion) NAME(conc_phase_coupling_diffusion) NAME(quat_diffs_cell) NAME(quat_nonsymm_diffs_cell) NAME(phase_diffs_cell) NAME(quat_symm_rotation_cell)
   NAME(eta) NAME(eta_scratch) NAME(work)
}
// p: levels (plan), db (input database), run, qlen
CMD(sys_new) {
   int up = 0;
   MPI_Initialized(&up);
   if (!up) MPI_Init(nullptr, nullptr);      // hypre
   w.keep.clear(); w.vars.clear(); w.hier.reset(); w.geom.reset();
   hier::PatchDescriptor::tab().clear();
   hier::PatchDataRestartManager::getManager()->d_s.clear();
   tbox::RestartManager::getManager()->d_items.clear();
   mesh::Plan::levels() = plan(p->getDatabase("levels"));
   mesh::Plan::regrids().clear();
   auto in = std::dynamic_pointer_cast<tbox::MemoryDatabase>(parse_json(p->getString("db").c_str(), "input"));
   // what memory holds before anything is written to it
   pdat::fresh<double>() = D(p, "fresh", 0.); pdat::fresh<int>() = I(p, "ifresh", 0);
   auto m = std::make_shared<QuatModel>(I(p, "qlen", 4));
   w.keep["model"] = m;
   m->Initialize(in, S(p, "run", "run"), false, "", 0);
   names(w, m.get());
}
// p: levels (plan)
CMD(sys_regrid) {
   QuatModel* m = M(w);
   mesh::Plan::regrids() = {plan(p->getDatabase("levels"))};
   m->d_time = D(p, "t", 0.);
   m->Regrid(m->d_patch_hierarchy);
   names(w, m);
}
CMD(sys_run) { M(w)->Run(); }
CMD(sys_del) { w.vars.clear(); w.hier.reset(); w.geom.reset(); w.keep.clear(); }
static void named(World& w, const std::string& n, int id) { if (id >= 0) name(w, n.c_str(), id); }
// rates of all fields, as the time integrator gets them. p: t, fd -> fields rate_<component>, flux_conc
CMD(sys_rhs) {
   QuatModel* m = M(w);
   QuatIntegrator& q = *m->d_integrator;
   auto y = q.d_solution_vec;
   auto f = y->cloneVector("rates");
   f->allocateVectorData();
   auto* sy = Sundials_SAMRAIVector::createSundialsVector(y);
   auto* sf = Sundials_SAMRAIVector::createSundialsVector(f);
   w.keep["rates"] = f;
   int rc = q.evaluateRHSFunction(D(p, "t", 0.), sy, sf, I(p, "fd", 0));
   if (rc) throw tbox::Error("rates: rc " + std::to_string(rc));
   if (q.d_with_phase) named(w, "rate_phase", f->getComponentDescriptorIndex(q.d_phase_component_index));
   if (q.d_evolve_quat) named(w, "rate_quat", f->getComponentDescriptorIndex(q.d_quat_component_index));
   if (q.d_with_concentration) { named(w, "rate_conc", f->getComponentDescriptorIndex(q.d_conc_component_index)); named(w, "flux_conc", q.d_flux_conc_id); }
   if (q.d_with_unsteady_temperature) named(w, "rate_temperature", f->getComponentDescriptorIndex(q.d_temperature_component_index));
   named(w, "sc_phase", q.d_phase_scratch_id);
   named(w, "sc_conc", q.d_conc_scratch_id);
   named(w, "sc_temperature", q.d_temperature_scratch_id);
   named(w, "sc_quat", q.d_quat_scratch_id);
}
// p: t -> energy: total, phase, eta, orientation, orientation interface, well, free
CMD(sys_energy) {
   QuatModel* m = M(w);
   double e[7];
   m->evaluateEnergy(m->d_patch_hierarchy, D(p, "t", 0.), e[0], e[1], e[2], e[3], e[4], e[5], e[6], false);
   w.res["energy"] = std::vector<double>(e, e + 7);
   w.res["frac"] = {};
   if (m->d_phase_id >= 0) for (int i = 0; i < m->d_model_parameters.norderp(); i++) w.res["frac"].push_back(m->evaluatePhaseFraction(m->d_patch_hierarchy, m->d_phase_id, i));
   w.res["conc"] = {};
   if (m->d_conc_id >= 0) for (int i = 0; i < m->d_ncompositions; i++) w.res["conc"].push_back(m->evaluateIntegralConcentration(m->d_patch_hierarchy, i));
}
struct Said {
   std::ostringstream b;
   std::streambuf* old;
   Said() : old(tbox::poutstream().rdbuf(b.rdbuf())) { tbox::pout << std::setprecision(17); }
   ~Said() { tbox::poutstream().rdbuf(old); tbox::pout << std::setprecision(6); }
};
// -> grain_number, grain_volume, count, text said
CMD(sys_grains) {
   QuatModel* m = M(w);
   Said o;
   m->computeGrainDiagnostics();
   w.text["said"] = o.b.str();
   w.res["count"] = {(double)m->d_grains->getNumberOfGrains()};
   named(w, "grain_number", m->d_grains->d_grain_number_id);
   if (m->d_grains->d_visit_output) named(w, "grain_volume", m->d_grains->d_grain_volume_id);
}
CMD(sys_extend) {
   Said o;
   M(w)->extendGrainOrientation();
   w.text["said"] = o.b.str();
}
// one step of the integrator
CMD(sys_advance) { QuatModel* m = M(w); w.res["dt"] = {m->Advance()}; }
