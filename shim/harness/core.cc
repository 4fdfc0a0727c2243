#include "core.h"
using hier::Box; using hier::Index; using hier::IntVector; using hier::BoxContainer;
std::string& lasterr() { static std::string s; return s; }
static Box mkbox(const std::vector<int>& v, size_t o = 0) {
   tbox::Dimension d(NDIM); Index lo(d, 0), hi(d, 0);
   for (int k = 0; k < NDIM; k++) { lo[k] = v.at(o + k); hi[k] = v.at(o + NDIM + k); }
   return Box(lo, hi, hier::BlockId::zero());
}
template <class F> static int guard(F f) {
   try { return f(); }
   catch (const std::exception& e) { lasterr() = e.what(); return -1; }
   catch (...) { lasterr() = "exception"; return -1; }
}
extern "C" {
void am_missing() { throw tbox::Error("missing: not in the stand-in"); }
const char* am_error() { return lasterr().c_str(); }
int am_dim() { return NDIM; }
// {lo,hi: domain box, h: spacing, xlo: lower corner, per: periodic flags, levels: {"0": {ratio, boxes:[lo..hi.. lo..hi..]}}}
int am_new(const char* js) {
   return guard([&]() {
      DB p = parse_json(js);
      World& w = world();
      w.keep.clear(); w.vars.clear(); w.res.clear(); w.text.clear(); w.hier.reset(); w.geom.reset();
      hier::PatchDescriptor::tab().clear();
      std::vector<int> dom = p->getIntegerVector("dom"), per = p->getIntegerVector("per");
      std::vector<double> h = p->getDoubleVector("h"), xlo = p->getDoubleVector("xlo");
      Box db = mkbox(dom);
      double lo[3], up[3];
      for (int d = 0; d < NDIM; d++) { lo[d] = xlo[d]; up[d] = xlo[d] + h[d] * db.numberCells(d); }
      BoxContainer bc(db);
      w.geom = std::make_shared<geom::CartesianGridGeometry>("grid", lo, up, bc);
      IntVector pv(tbox::Dimension(NDIM), 0);
      for (int d = 0; d < NDIM; d++) pv[d] = per[d];
      w.geom->initializePeriodicShift(pv);
      w.hier = std::make_shared<hier::PatchHierarchy>("hier", w.geom);
      DB lv = p->getDatabase("levels");
      for (int l = 0; lv->keyExists(std::to_string(l)); l++) {
         DB e = lv->getDatabase(std::to_string(l));
         std::vector<int> r = e->getIntegerVector("ratio"), b = e->getIntegerVector("boxes");
         IntVector rv(tbox::Dimension(NDIM), 1);
         for (int d = 0; d < NDIM; d++) rv[d] = r[d];
         BoxContainer boxes;
         for (size_t o = 0; o + 2 * NDIM <= b.size(); o += 2 * NDIM) boxes.push_back(mkbox(b, o));
         w.hier->addLevel(boxes, rv);
      }
      return 0;
   });
}
int am_var(const char* name, const char* kind, int depth, int ng) {
   return guard([&]() {
      World& w = world();
      std::string k(kind);
      tbox::Dimension d(NDIM);
      std::shared_ptr<hier::Variable> v;
      if (k == "c") v = std::make_shared<pdat::CellVariable<double>>(d, name, depth);
      else if (k == "s") v = std::make_shared<pdat::SideVariable<double>>(d, name, depth);
      else if (k == "i") v = std::make_shared<pdat::CellVariable<int>>(d, name, depth);
      else if (k == "si") v = std::make_shared<pdat::SideVariable<int>>(d, name, depth);
      else if (k == "n") v = std::make_shared<pdat::NodeVariable<double>>(d, name, depth);
      else if (k == "o") v = std::make_shared<pdat::OutersideVariable<double>>(d, name, depth);
      else throw tbox::Error("kind");
      return w.reg(name, k, v, ng);
   });
}
}
template <class T> static int move(pdat::ArrayData<T>& a, const Box& region, int depth, const Box& ext, double* buf, bool put, std::map<size_t, double>* seen, bool merge) {
   // buf: column-major over ext
   int bad = 0;
   Box r = region * a.getBox() * ext;
   if (r.empty()) return 0;
   for (const Index& i : r) {
      size_t o = 0, st = 1;
      for (int d = 0; d < NDIM; d++) { o += st * (i[d] - ext.lower(d)); st *= ext.numberCells(d); }
      if (put) a(i, depth) = (T)buf[o];
      else {
         double v = a(i, depth);
         if (merge && (v == -7.25e30 || v == -77777)) continue;
         auto s = seen->find(o);
         if (s != seen->end() && !(s->second == v || (s->second != s->second && v != v))) bad++;
         (*seen)[o] = v;
         buf[o] = v;
      }
   }
   return bad;
}
extern "C" {
// move values between a buffer over the box ext and one component of a field on a level.
// ghosts=2: each entry as some patch wrote it, ghosts included, the filler meaning not written.
// put: ghosts included; get: the patch interiors (ghosts too when ghosts=1, patch = that patch only when >= 0).
// returns the number of entries on which patches disagree
int am_move(const char* name, int level, int dir, int depth, const int* ext, double* buf, int put, int ghosts, int patch) {
   return guard([&]() {
      World& w = world();
      auto it = w.vars.find(name);
      if (it == w.vars.end()) throw tbox::Error(std::string("no field ") + name);
      std::vector<int> ev(ext, ext + 2 * NDIM);
      Box eb = mkbox(ev);
      std::map<size_t, double> seen;
      int bad = 0, n = 0;
      for (auto& p : *w.hier->getPatchLevel(level)) {
         if (patch >= 0 && n++ != patch) continue;
         auto d = p->getPatchData(it->second.id);
         if (!d) throw tbox::Error(std::string("not allocated: ") + name);
         Box b = (put || ghosts) ? d->getGhostBox() : d->getBox();
         const std::string& k = it->second.kind;
         if (k == "c") bad += move(std::dynamic_pointer_cast<CD>(d)->getArrayData(), b, depth, eb, buf, put, &seen, ghosts == 2);
         else if (k == "i") bad += move(std::dynamic_pointer_cast<pdat::CellData<int>>(d)->getArrayData(), b, depth, eb, buf, put, &seen, ghosts == 2);
         else if (k == "s") bad += move(std::dynamic_pointer_cast<SD>(d)->getArrayData(dir), pdat::SideGeometry::toSideBox(b, dir), depth, eb, buf, put, &seen, ghosts == 2);
         else if (k == "si") bad += move(std::dynamic_pointer_cast<pdat::SideData<int>>(d)->getArrayData(dir), pdat::SideGeometry::toSideBox(b, dir), depth, eb, buf, put, &seen, ghosts == 2);
         else throw tbox::Error("move of kind " + k);
      }
      return bad;
   });
}
int am_fill(const char* name, double v) {
   return guard([&]() {
      World& w = world();
      auto it = w.vars.find(name);
      if (it == w.vars.end()) throw tbox::Error(std::string("no field ") + name);
      for (int l = 0; l < w.hier->getNumberOfLevels(); l++) for (auto& p : *w.hier->getPatchLevel(l)) {
         auto d = p->getPatchData(it->second.id);
         if (auto c = std::dynamic_pointer_cast<CD>(d)) c->fillAll(v);
         else if (auto s = std::dynamic_pointer_cast<SD>(d)) s->fillAll(v);
         else if (auto c = std::dynamic_pointer_cast<pdat::CellData<int>>(d)) c->fillAll((int)v);
         else if (auto c = std::dynamic_pointer_cast<pdat::SideData<int>>(d)) c->fillAll((int)v);
      }
      return 0;
   });
}
int am_has(const char* fn) { return commands().count(fn); }
int am_call(const char* fn, const char* js) {
   return guard([&]() {
      auto c = commands().find(fn);
      if (c == commands().end()) throw tbox::Error(std::string("no command ") + fn);
      World& w = world();
      w.res.clear(); w.text.clear();
      c->second(parse_json(js, "params"), w);
      return 0;
   });
}
int am_result(const char* name, double* buf, int n) {
   auto& r = world().res;
   auto i = r.find(name);
   if (i == r.end()) return -1;
   for (int k = 0; k < n && k < (int)i->second.size(); k++) buf[k] = i->second[k];
   return (int)i->second.size();
}
const char* am_text(const char* name) {
   auto& r = world().text;
   auto i = r.find(name);
   return i == r.end() ? nullptr : i->second.c_str();
}
}
