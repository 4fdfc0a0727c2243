MINI = r'''
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import mini
sys.exit(mini.run(r"""
#include <memory>
#include <string>
#include <vector>
#include <cmath>
#include <cstdio>
using namespace SAMRAI;
%s
""", %r))
'''
PFM = r'''
#define private public
#define protected public
#include "PFModel.h"
#undef private
#undef protected
#include "Verbosity.h"
struct Model : PFModel {
   std::vector<double> dts; std::vector<int> regrids, dumps;
   Model(std::vector<double> d) : dts(d) {}
   void CreateIntegrator(std::shared_ptr<tbox::Database>) override {}
   void RegisterVariables() override {}
   void InitializeIntegrator() override {}
   void initializeCoarseRefineOperators() override {}
   void RegisterWithVisit() override {}
   double Advance() override { double dt = dts.at(d_cycle - 1); d_time += dt; return dt; }
   void writeRestartFile() override { dumps.push_back(d_cycle); PFModel::writeRestartFile(); }
   void Regrid(const std::shared_ptr<hier::PatchHierarchy> h) override { regrids.push_back(d_cycle); }
   void WriteInitialConditionsFile(std::string n, int l) override {}
   void initializeLevelData(const std::shared_ptr<hier::PatchHierarchy>&, const int, const double, const bool, const bool, const std::shared_ptr<hier::PatchLevel>&, const bool) override {}
   void resetHierarchyConfiguration(const std::shared_ptr<hier::PatchHierarchy>&, const int, const int) override {}
};
std::shared_ptr<tbox::MemoryDatabase> input() {
   auto d = std::make_shared<tbox::MemoryDatabase>("in");
   auto g = d->putDatabase("Geometry");
   int n[2] = {4, 4}; double a[2] = {0., 0.}, b[2] = {1., 1.};
   g->putIntegerArray("coarsest_level_resolution", n, 2); g->putDoubleArray("x_lo", a, 2); g->putDoubleArray("x_up", b, 2);
   return d;
}
'''
bug('C29-1', 'C29', [('source/PFModel.cc', '      d_max_cycles = d_cycle + max_delta_cycles;', '      d_max_cycles = max_delta_cycles + d_max_cycles;')],
    'a run continued from a restart file written before its step limit was reached, with max_delta_cycles in the input',
    'the continued run takes more steps than max_delta_cycles',
    MINI % (PFM + r'''
int main(int c, char** v) {
   MPI_Init(&c, &v);
   QuatVerbosity vb;
   { Model m({.25, .25, .25, .25}); m.setVerbosity(&vb); auto in = input(); in->putDouble("end_time", 10.); in->putInteger("max_cycles", 4);
     auto r = in->putDatabase("Restart"); r->putInteger("interval", 2); m.Initialize(in, "a", false, "", 0); m.Run(); }
   Model m(std::vector<double>(20, .25)); m.setVerbosity(&vb); auto in = input(); in->putInteger("max_delta_cycles", 3);
   m.Initialize(in, "a", true, "r.a", 2); m.Run();
   std::printf("stopped after step %d\n", m.d_cycle);
   return m.d_cycle != 5; }''', ['PFModel.cc', 'EventInterval.cc']))
bug('C29-2', 'C29', [('source/EventInterval.cc', '         int n = (int)(current_time / d_dbl_interval_value);', '         int n = (int)((current_time - d_time_at_last_event) / d_dbl_interval_value) + n_prev;')],
    'a time-based schedule, and steps that do not fall on its multiples',
    'outputs drift: they are spaced by the interval from the last output instead of falling in every multiple of it, and one is left out when a step ends just past a multiple',
    MINI % (r'''
#include "EventInterval.h"
int main() {
   auto d = std::make_shared<tbox::MemoryDatabase>("in");
   auto e = d->putDatabase("Ev"); e->putString("interval_type", "time"); e->putDouble("interval", 1.);
   EventInterval i(d, "Ev", 0., "step", true, true);
   i.includeInitial(0.);
   int n = 0; double ts[] = {.75, 1.75, 2.25, 2.75, 3.25}; bool ex[] = {false, true, true, false, true};
   for (int k = 0; k < 5; k++) if (i.hasIntervalPassed(k + 1, ts[k]) != ex[k]) { std::printf("t=%g\n", ts[k]); return 1; }
   return 0; }''', ['EventInterval.cc']))
bug('C23-1', 'C23', [('source/EventInterval.cc', '''   if (isActive() && d_include_last_step &&
       !eventOccurredAtTime(current_time)) {''', '''   if (isActive() && d_include_last_step &&
       !(d_time_at_last_event > 0. && eventOccurredAtTime(current_time))) {''')],
    'a run that ends where it starts (time 0): the first and the final query are at the same time',
    'the final event is repeated when the first one already happened at time zero',
    MINI % (r'''
#include "EventInterval.h"
int main() {
   auto d = std::make_shared<tbox::MemoryDatabase>("in");
   d->putDatabase("Ev")->putInteger("interval", 2);
   EventInterval i(d, "Ev", 0., "step", true, true);
   if (!i.includeInitial(0.)) return 1;
   return i.includeFinal(0.) ? 1 : 0; }''', ['EventInterval.cc']))
