// Classes that need no mesh: event intervals, temperature history, CALPHAD mobilities, copies of databases, reductions.
#include "core.h"
static std::string S_(DB p, const char* k) { return S(p, k); }
#include "EventInterval.h"
#include "TemperatureHistory.h"
#include "CALPHADMobility.h"
#include "Database2JSON.h"
#include "ArrayOperation.h"
#include "tools.h"
// collectives over the simulated ranks
extern "C" int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int rn, MPI_Datatype, MPI_Comm) {
   size_t k = t == MPI_DOUBLE ? sizeof(double) : sizeof(int);
   auto& S = tbox::SimRanks::get();
   S.all(s, n, [&] { for (int i = 0; i < S.n; i++) memcpy((char*)r + i * rn * k, S.src[i], S.cnt[i] * k); });
   return 0;
}
extern "C" int MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* c, const int* d, MPI_Datatype, MPI_Comm) {
   size_t k = t == MPI_DOUBLE ? sizeof(double) : sizeof(int);
   auto& S = tbox::SimRanks::get();
   S.all(s, n, [&] {
      for (int i = 0; i < S.n; i++) {
         if (c[i] != S.cnt[i]) throw tbox::Error("Allgatherv: counts differ");
         memcpy((char*)r + d[i] * k, S.src[i], S.cnt[i] * k);
      }
   });
   return 0;
}
// n ranks; kind map: keys/vals with "of" the owner of each entry; sum: vals, "of"
CMD(collective) {
   auto& S = tbox::SimRanks::get();
   S.n = I(p, "n");
   std::string kind = S_(p, "kind");
   std::vector<int> of = IV(p, "of"), keys = IV(p, "keys");
   std::vector<double> vals = DV(p, "vals");
   std::vector<std::vector<double>> out(S.n), outk(S.n);
   std::vector<std::string> err(S.n);
   std::vector<std::thread> th;
   for (int r = 0; r < S.n; r++) th.emplace_back([&, r] {
      tbox::SimRanks::rank() = r;
      try {
         std::vector<double> v; std::vector<int> iv;
         std::map<int, double> lm, gm;
         for (size_t i = 0; i < of.size(); i++) if (of[i] == r) {
            v.push_back(vals[i]); iv.push_back((int)vals[i]);
            if (kind == "map") lm[keys[i]] = vals[i];
         }
         if (kind == "map") { listLocalToGlobal(lm, gm); for (auto& x : gm) { outk[r].push_back(x.first); out[r].push_back(x.second); } }
         else if (kind == "array") { sumReduction(v.data(), (int)v.size()); out[r] = v; }
         else if (kind == "double") out[r].push_back(sumReduction(v[0]));
         else if (kind == "int") out[r].push_back(sumReduction(iv[0]));
         else if (kind == "gatherd") { std::vector<double> g(of.size() + 1, -77.); allGatherv(v.data(), (int)v.size(), g.data(), (int)of.size()); out[r] = g; }
         else { std::vector<int> g(of.size() + 1, -77); allGatherv(iv.data(), (int)iv.size(), g.data(), (int)of.size()); out[r].assign(g.begin(), g.end()); }
      } catch (std::exception& x) { err[r] = x.what(); }
   });
   for (auto& t : th) t.join();
   S.n = 1;
   for (size_t r = 0; r < out.size(); r++) {
      w.res["out" + std::to_string(r)] = out[r];
      w.res["key" + std::to_string(r)] = outk[r];
      if (err[r] != "") throw std::runtime_error(err[r]);
   }
}
CMD(arrayop) {
   std::vector<double> a = DV(p, "a"), b = DV(p, "b");
   MultiplyOperation<double> m;
   AddOperation<double> s;
   for (size_t i = 0; i < a.size(); i++) {
      double x = a[i], y = a[i], c = b[i], d = b[i];
      m(x, c); s(y, d);
      w.res["mul"].push_back(x); w.res["add"].push_back(y); w.res["src"].push_back(c); w.res["src2"].push_back(d);
   }
}
// ops: 0 isActive 1 occurred(t) 2 first(t) 3 last(t) 4 passed(step,t); triples op,step,t
CMD(events) {
   DB in = p->keyExists("db") ? SUB(p, "db") : nullptr;
   std::shared_ptr<EventInterval> e;
   std::vector<double> dv = DV(p, "default");
   std::string name = S(p, "name", "Ev"), ty = S(p, "type", "step");
   int nd = (int)dv.size();
   if (nd == 0) e = std::make_shared<EventInterval>(in, name);
   else if (nd == 1) e = std::make_shared<EventInterval>(in, name, dv[0], ty);
   else e = std::make_shared<EventInterval>(in, name, dv[0], ty, dv[1] != 0., dv[2] != 0.);
   std::vector<double> o = DV(p, "ops");
   std::vector<double>& r = w.res["fire"];
   for (size_t i = 0; i + 2 < o.size(); i += 3) {
      int k = (int)o[i], s = (int)o[i + 1];
      double t = o[i + 2];
      bool b = k == 0 ? e->isActive() : k == 1 ? e->eventOccurredAtTime(t) : k == 2 ? e->includeInitial(t) : k == 3 ? e->includeFinal(t) : e->hasIntervalPassed(s, t);
      r.push_back(b ? 1. : 0.);
   }
}
CMD(history) {
   std::ostringstream os;
   TemperatureHistory h(os);
   h.readCSV(S(p, "file"));
   std::vector<double> q = DV(p, "q");
   for (size_t i = 0; i + 1 < q.size(); i += 2) {
      double t = -1e9, g = -1e9;
      int rc = h.getTandGradT(q[i], q[i + 1], t, g);
      w.res["rc"].push_back(rc); w.res["t"].push_back(t); w.res["g"].push_back(g);
   }
}
// atomic mobilities of up to three species, and the phase mobilities made from them; q: c0 [c1] T
CMD(calphadmob) {
   std::vector<CALPHADMobility> v;
   int n = I(p, "n");
   for (int i = 0; i < n; i++) { CALPHADMobility m("m"); m.initialize(SUB(p, ("s" + std::to_string(i)).c_str())); v.push_back(m); }
   std::vector<double> q = DV(p, "q");
   for (size_t i = 0; i + n - 1 < q.size(); i += n) {
      double T = q[i + n - 1];
      if (n == 2) {
         double c = q[i];
         for (auto& m : v) { w.res["atomic"].push_back(m.getAtomicMobility(c, 1. - c, T)); w.res["binary"].push_back(m.getAtomicMobilityBinary(c, T)); }
         w.res["phase"].push_back(computeDiffusionMobilityBinaryPhase(c, T, v));
      } else {
         double c0 = q[i], c1 = q[i + 1];
         for (auto& m : v) w.res["atomic"].push_back(m.getAtomicMobility(c0, c1, 1. - c0 - c1, T));
         std::vector<double> mob(4, -1.);
         computeDiffusionMobilityTernaryPhase(c0, c1, T, v, mob);
         for (double x : mob) w.res["phase"].push_back(x);
      }
   }
}
static void show(const boost::property_tree::ptree& t, const std::string& path, std::string& out) {
   for (auto& c : t) {
      std::string k = path + "/" + c.first;
      if (c.second.empty()) out += k + "=" + c.second.data() + "\n";
      else show(c.second, k, out);
   }
}
static void show(DB d, const std::string& path, std::string& out) {
   std::vector<std::string> ks(d->getAllKeys());
   for (auto& k : ks) {
      std::string n = path + "/" + k;
      std::ostringstream s;
      s.precision(17);
      switch (d->getArrayType(k)) {
         case tbox::Database::SAMRAI_DATABASE: show(d->getDatabase(k), n, out); continue;
         case tbox::Database::SAMRAI_INT: s << "int"; for (int x : d->getIntegerVector(k)) s << " " << x; break;
         case tbox::Database::SAMRAI_DOUBLE: s << "double"; for (double x : d->getDoubleVector(k)) s << " " << x; break;
         case tbox::Database::SAMRAI_BOOL: s << "bool"; for (bool x : d->getBoolVector(k)) s << " " << x; break;
         case tbox::Database::SAMRAI_STRING: s << "string"; for (auto& x : d->getStringVector(k)) s << " " << x; break;
         default: s << "?";
      }
      out += n + "=" + s.str() + "\n";
   }
}
CMD(dbcopy) {
   boost::property_tree::ptree t;
   DB in = SUB(p, "db");
   copyDatabase(in, t);
   show(t, "", w.text["tree"]);
   // round trip through a JSON file
   std::ostringstream os;
   boost::property_tree::write_json(os, t);
   std::istringstream is(os.str());
   boost::property_tree::ptree u;
   boost::property_tree::read_json(is, u);
   show(u, "", w.text["json"]);
   DB out = std::make_shared<tbox::MemoryDatabase>("copy");
   copyDatabase(in, out);
   show(out, "", w.text["copy"]);
}
