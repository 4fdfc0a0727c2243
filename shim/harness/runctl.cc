// Run control: the real PFModel (input, restart, output schedules, main loop) under a model which only records what
// it is asked to do and advances by given steps.
#include <set>
#include <map>
#include <vector>
#include <string>
#include <memory>
#include <iostream>
#include <sstream>
#include <functional>
#include "core.h"
#define private public
#define protected public
#include "PFModel.h"
#undef private
#undef protected
#include "Verbosity.h"
namespace {
std::vector<double> L;
void rec(double op, double k, double t, double x = 0., double y = 0.) { for (double v : {op, k, t, x, y}) L.push_back(v); }
struct Model : PFModel {
   std::vector<double> dts;
   std::string names;
   Model(const std::vector<double>& d) : dts(d) { d_previous_timestep = -3.; }
   void CreateIntegrator(std::shared_ptr<tbox::Database>) override {}
   void RegisterVariables() override {}
   void InitializeIntegrator() override {}
   void initializeCoarseRefineOperators() override {}
   void RegisterWithVisit() override { rec(20, 0, 0); }
   double Advance() override { double dt = dts.at((d_cycle - 1) % dts.size()); rec(6, d_cycle, d_time, dt, d_previous_timestep); d_time += dt; return dt; }
   void preRunDiagnostics() override { rec(1, d_cycle, d_time); }
   void postAdvanceDiagnostics() override { rec(7, d_cycle, d_time); }
   void postRunDiagnostics() override { rec(9, d_cycle, d_time); }
   void computeGrainDiagnostics() override { rec(5, d_cycle, d_time); }
   void Regrid(const std::shared_ptr<hier::PatchHierarchy> h) override { rec(8, d_cycle, d_time); PFModel::Regrid(h); }
   void WriteInitialConditionsFile(std::string n, int l) override { rec(11, d_cycle, d_time, l); names = n; }
   void DeallocateIntermediateLocalPatchData(const std::shared_ptr<hier::PatchHierarchy>) override { rec(10, d_cycle, d_time); }
   void initializeLevelData(const std::shared_ptr<hier::PatchHierarchy>&, const int, const double, const bool, const bool, const std::shared_ptr<hier::PatchLevel>&, const bool) override {}
   void resetHierarchyConfiguration(const std::shared_ptr<hier::PatchHierarchy>&, const int, const int) override {}
   void applyGradientDetector(const std::shared_ptr<hier::PatchHierarchy>&, const int, const double, const int, const bool, const bool) override {}
};
struct Buf : std::streambuf {
   std::string cur;
   std::vector<std::string> lines;
   int overflow(int c) override { if (c == '\n') { take(cur); cur.clear(); } else cur += (char)c; return c; }
   void take(const std::string& s) {
      int k; double t, d;
      if (sscanf(s.c_str(), "cycle # %d : t = %lf : dt = %lf", &k, &t, &d) == 3) rec(3, k, t, d, 1);
      else if (sscanf(s.c_str(), "cycle # %d : t = %lf", &k, &t) == 2) rec(3, k, t);
      else if (s == "Wrote restart file") rec(12, 0, 0);
      else if (s == "Run complete") rec(13, 0, 0);
      else if (s == "AMR hierarchy regridded" || s == "Amr hierarchy regridded") rec(14, s[1] == 'm', 0);
      else if (s.find("Wrote initial conditions") == 0) rec(15, 0, 0);
   }
};
struct RM : tbox::Serializable {      // sees every restart file being written
   Model* m;
   void putToRestart(const std::shared_ptr<tbox::Database>& db) const override { rec(4, m->d_cycle, m->d_time); db->putInteger("seen", 1); }
};
}
// p: db (input), run, restart (bool), from (dir), num, dts, levels; results: log, state, cfg
CMD(run) {
   int up = 0;
   MPI_Initialized(&up);
   if (!up) MPI_Init(nullptr, nullptr);
   auto* rm = tbox::RestartManager::getManager();
   rm->d_items.clear();
   rm->d_from = false;
   L.clear();
   for (const char* x : {"log", "state", "cfg", "dom", "xs"}) w.res.erase(x);
   w.hier.reset(); w.geom.reset();
   appu::VisItDataWriter::dumps().clear();
   appu::VisItDataWriter::hook() = [](const appu::VisItDataWriter::Dump& d) { rec(2, d.cycle, d.t, d.n); };
   mesh::Plan::levels().clear(); mesh::Plan::regrids().clear();
   auto in = std::dynamic_pointer_cast<tbox::MemoryDatabase>(parse_json(p->getString("db").c_str(), "input"));
   Buf b;
   auto* old = tbox::poutstream().rdbuf(&b);
   QuatVerbosity v;
   try {
      Model m(DV(p, "dts"));
      RM probe;
      probe.m = &m;
      m.setVerbosity(&v);
      m.Initialize(in, S(p, "run", "run"), p->getBool("restart"), S(p, "from"), I(p, "num", 0));
      rm->registerRestartItem("~probe", &probe);
      auto st = [&]() { return std::vector<double>{(double)m.d_cycle, m.d_time, m.d_previous_timestep, (double)m.d_max_cycles, m.d_start_time, m.d_end_time, (double)m.d_amr_enabled}; };
      w.res["cfg"] = st();
      for (double x : {(double)v.basicLevel(), (double)v.amrLevel(), (double)m.d_patch_hierarchy->getMaxNumberOfLevels(), (double)(m.d_visit_data_writer ? m.d_visit_data_writer->d_n : -1), (double)m.d_tag_buffer_array.size(), (double)m.d_write_initial_conditions_file, (double)m.d_initial_conditions_level, (double)m.d_all_periodic}) w.res["cfg"].push_back(x);
      w.text["visit"] = m.d_visit_data_writer ? m.d_visit_data_writer->d_dir : "";
      w.text["rdir"] = m.d_restart_write_dirname;
      w.text["icfile"] = m.d_initial_conditions_file_name;
      auto g = m.d_grid_geometry;
      const hier::Box dom = g->getPhysicalDomain().front();
      for (int k = 0; k < NDIM; k++) { w.res["dom"].push_back(dom.lower(k)); w.res["dom"].push_back(dom.upper(k)); w.res["dom"].push_back(m.d_periodic_flag[k]); w.res["dom"].push_back(g->getPeriodicShift(hier::IntVector::getOne(tbox::Dimension(NDIM)))[k]); }
      for (int k = 0; k < NDIM; k++) { w.res["xs"].push_back(g->getXLower()[k]); w.res["xs"].push_back(g->getXUpper()[k]); w.res["xs"].push_back(g->getDx()[k]); }
      m.Run();
      w.res["state"] = st();
      w.text["written"] = m.names;
   } catch (...) {
      tbox::poutstream().rdbuf(old);
      rm->d_items.clear();
      w.res["log"] = L;
      throw;
   }
   tbox::poutstream().rdbuf(old);
   rm->d_items.clear();
   w.res["log"] = L;
   std::vector<double> f;
   std::string d;
   for (auto& x : rm->d_files) {
      auto q = x.root->getDatabase("PFModel");
      for (double y : {(double)x.num, (double)q->getInteger("max_cycles"), q->getDouble("start_time"), q->getDouble("end_time"), q->getDouble("time"), (double)q->getInteger("cycle"), q->getDouble("previous_timestep"), (double)q->getBool("amr_enabled")}) f.push_back(y);
      d += x.dir + "\n";
   }
   w.res["files"] = f;
   w.text["dirs"] = d;
}
CMD(forget) { tbox::RestartManager::getManager()->d_files.clear(); }
