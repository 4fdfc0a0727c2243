#ifndef MINI_XFER
#define MINI_XFER
#include "mini_math.h"
namespace SAMRAI {
namespace xfer {
using hier::Box;
using hier::IntVector;
typedef hier::BaseGridGeometry Geometry;
class RefinePatchStrategy {
 public:
   RefinePatchStrategy() {}
   template <class D> explicit RefinePatchStrategy(const D&) {}
   virtual ~RefinePatchStrategy() {}
   virtual void setPhysicalBoundaryConditions(hier::Patch& p, const double t, const IntVector& g) = 0;
   virtual IntVector getRefineOpStencilWidth(const tbox::Dimension& d) const = 0;
   virtual void preprocessRefine(hier::Patch& f, const hier::Patch& c, const Box& b, const IntVector& r) = 0;
   virtual void postprocessRefine(hier::Patch& f, const hier::Patch& c, const Box& b, const IntVector& r) = 0;
   virtual void preprocessRefineBoxes(hier::Patch&, const hier::Patch&, const hier::BoxContainer&, const IntVector&) {}
   virtual void postprocessRefineBoxes(hier::Patch&, const hier::Patch&, const hier::BoxContainer&, const IntVector&) {}
};
class CoarsenPatchStrategy { public: virtual ~CoarsenPatchStrategy() {} };
class PatchLevelFillPattern { public: virtual ~PatchLevelFillPattern() {} };
class PatchLevelFullFillPattern : public PatchLevelFillPattern {};
class PatchLevelInteriorFillPattern : public PatchLevelFillPattern {};
class PatchLevelBorderFillPattern : public PatchLevelFillPattern {};
class PatchLevelBorderAndInteriorFillPattern : public PatchLevelFillPattern {};
class VariableFillPattern { public: virtual ~VariableFillPattern() {} };

struct RItem { int dst, src, scr; std::shared_ptr<hier::RefineOperator> op; };
class RefineAlgorithm;
class RefineSchedule {
 public:
   RefineSchedule(const std::vector<RItem>& it, const std::shared_ptr<hier::PatchLevel>& dst, const std::shared_ptr<hier::PatchLevel>& src, int nextc,
                  const std::shared_ptr<hier::PatchHierarchy>& h, RefinePatchStrategy* st, bool full = true)
       : d_it(it), d_dst(dst), d_src(src), d_nc(nextc), d_h(h), d_st(st) { (void)full; }
   void reset(const std::vector<RItem>& it) { d_it = it; }
   inline void reset(const std::shared_ptr<RefineAlgorithm>& a);
   // fill destination (interior, if dst!=src or a source level is given, and ghosts)
   void fillData(double time, bool physbc = true) const {
      const tbox::Dimension dim = d_dst->getDim();
      auto geom = d_dst->getGridGeometry();
      IntVector per = geom->getPeriodicShift(d_dst->getRatioToLevelZero());
      for (auto& p : *d_dst) {
         IntVector maxg(dim, 0);
         std::vector<Todo> rest;
         for (const RItem& r : d_it) {
            auto dd = p->getPatchData(r.dst);
            if (!dd) throw tbox::Error("refine schedule: destination not allocated");
            maxg.max(dd->getGhostCellWidth());
            hier::BoxContainer todo(dd->getGhostBox());
            // same-level copies, periodic images included
            if (d_src) {
               for (auto& q : *d_src) {
                  auto sd = q->getPatchData(r.src);
                  if (!sd) throw tbox::Error("refine schedule: source not allocated");
                  shifts(dim, per, [&](const IntVector& sh) {
                     Box sb = Box::shift(q->getBox(), sh) * dd->getGhostBox();
                     if (sb.empty()) return;
                     if (!(q == p && r.dst == r.src && sh == 0)) dd->copyOnBox(*sd, sb, sh);
                     todo.removeIntersections(Box::shift(q->getBox(), sh));
                  });
               }
            }
            // the rest of what lies inside the domain (or across a periodic boundary) comes from coarser levels
            Box dom = d_dst->getPhysicalDomain(hier::BlockId::zero()).getBoundingBox();
            for (int d = 0; d < dim.getValue(); d++) if (per[d]) dom.grow(d, dd->getGhostBox().numberCells(d));
            todo.intersectBoxes(dom);
            if (!todo.empty() && d_nc >= 0 && d_h && r.op) rest.push_back(Todo{r, todo});
         }
         if (!rest.empty()) fromCoarser(*p, rest, time, physbc);
         if (physbc && d_st && maxg.max() > 0) d_st->setPhysicalBoundaryConditions(*p, time, maxg);
      }
   }
   std::vector<RItem> d_it;
   template <class F> static void shifts(const tbox::Dimension& dim, const IntVector& per, F f) {
      for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int k = -1; k <= 1; k++) {
         int s[3] = {i, j, k};
         IntVector v(dim, 0);
         bool ok = true;
         for (int e = 0; e < 3; e++) { if (e >= dim.getValue()) { if (s[e]) ok = false; } else { if (s[e] && !per[e]) ok = false; v[e] = s[e] * per[e]; } }
         if (ok) f(v);
      }
   }
 private:
   struct Todo { RItem r; hier::BoxContainer boxes; };
   // all items at once, as a patch strategy may look at several of them
   void fromCoarser(hier::Patch& p, const std::vector<Todo>& todo, double time, bool physbc) const {
      auto clev = d_h->getPatchLevel(d_nc);
      const tbox::Dimension dim = d_dst->getDim();
      IntVector ratio(dim, 1);
      for (int d = 0; d < dim.getValue(); d++) ratio[d] = d_dst->getRatioToLevelZero()[d] / clev->getRatioToLevelZero()[d];
      IntVector st(dim, 0), g(dim, 0);
      hier::BoxContainer all;
      for (const Todo& t : todo) { st.max(t.r.op->getStencilWidth(dim)); for (const Box& b : t.boxes) all.push_back(b); }
      if (d_st) st.max(d_st->getRefineOpStencilWidth(dim));
      Box cb(all.getBoundingBox());
      cb.coarsen(ratio);
      // a temporary coarse patch covering the fill boxes
      Box cdom = clev->getPhysicalDomain(hier::BlockId::zero()).getBoundingBox();
      IntVector per = clev->getGridGeometry()->getPeriodicShift(clev->getRatioToLevelZero());
      hier::BoxContainer cl(cb);
      auto tmp = std::make_shared<hier::PatchLevel>(cl, clev->getRatioToLevelZero(), clev->getRatioToCoarserLevel(), d_nc, clev->getGridGeometry());
      auto tp = *tmp->begin();
      std::vector<Todo> sub;
      for (const Todo& t : todo) {
         std::shared_ptr<hier::PatchData> sample;
         for (auto& q : *clev) sample = q->getPatchData(t.r.src);
         IntVector gi = IntVector::max(st, sample->getGhostCellWidth());
         g.max(gi);
         auto cd = sample->cloneOn(cb, gi);
         tp->setPatchData(t.r.src, cd);
         tp->setPatchData(t.r.scr, cd);
         // interior and ghosts from the coarse level, then from still coarser ones
         for (auto& q : *clev) {
            auto sd = q->getPatchData(t.r.src);
            shifts(dim, per, [&](const IntVector& sh) { Box sb = Box::shift(q->getBox(), sh) * cd->getGhostBox(); if (!sb.empty()) cd->copyOnBox(*sd, sb, sh); });
         }
         if (d_nc > 0) {
            hier::BoxContainer rest(cd->getGhostBox());
            for (auto& q : *clev) shifts(dim, per, [&](const IntVector& sh) { rest.removeIntersections(Box::shift(q->getBox(), sh)); });
            Box dom(cdom);
            for (int d = 0; d < dim.getValue(); d++) if (per[d]) dom.grow(d, cd->getGhostBox().numberCells(d));
            rest.intersectBoxes(dom);
            if (!rest.empty()) sub.push_back(Todo{RItem{t.r.scr, t.r.src, t.r.scr, t.r.op}, rest});
         }
      }
      if (!sub.empty()) {
         std::vector<RItem> it;
         for (const Todo& t : sub) it.push_back(t.r);
         RefineSchedule(it, tmp, nullptr, d_nc - 1, d_h, d_st).fromCoarser(*tp, sub, time, physbc);
      }
      if (d_st && physbc) d_st->setPhysicalBoundaryConditions(*tp, time, g);
      if (d_st) for (const Box& b : all) d_st->preprocessRefine(p, *tp, b, ratio);
      for (const Todo& t : todo) t.r.op->refine(p, *tp, t.r.dst, t.r.scr, pdat::CellOverlap(t.boxes, hier::Transformation(IntVector(dim, 0))), ratio);
      if (d_st) for (const Box& b : all) d_st->postprocessRefine(p, *tp, b, ratio);
   }
   std::shared_ptr<hier::PatchLevel> d_dst, d_src;
   int d_nc;
   std::shared_ptr<hier::PatchHierarchy> d_h;
   RefinePatchStrategy* d_st;
};
class RefineAlgorithm {
 public:
   RefineAlgorithm() {}
   explicit RefineAlgorithm(const tbox::Dimension&) {}
   void registerRefine(int dst, int src, int scr, const std::shared_ptr<hier::RefineOperator>& op, const std::shared_ptr<VariableFillPattern>& = std::shared_ptr<VariableFillPattern>()) { d_it.push_back(RItem{dst, src, scr, op}); }
   typedef std::shared_ptr<hier::PatchLevel> L;
   typedef std::shared_ptr<hier::PatchHierarchy> H;
   typedef std::shared_ptr<RefineSchedule> S;
   S createSchedule(const L& l, RefinePatchStrategy* st = nullptr) const { return mk(l, l, -1, nullptr, st); }
   S createSchedule(const L& d, const L& s, RefinePatchStrategy* st = nullptr) const { return mk(d, s, -1, nullptr, st); }
   S createSchedule(const L& d, int nc, const H& h, RefinePatchStrategy* st = nullptr) const { return mk(d, d, nc, h, st); }
   S createSchedule(const L& d, const L& s, int nc, const H& h, RefinePatchStrategy* st = nullptr) const { return mk(d, s, nc, h, st); }
   template <class FP> typename std::enable_if<std::is_base_of<PatchLevelFillPattern, FP>::value, S>::type createSchedule(const std::shared_ptr<FP>&, const L& l, RefinePatchStrategy* st = nullptr) const { return mk(l, l, -1, nullptr, st); }
   template <class FP> typename std::enable_if<std::is_base_of<PatchLevelFillPattern, FP>::value, S>::type createSchedule(const std::shared_ptr<FP>&, const L& d, const L& s, RefinePatchStrategy* st = nullptr) const { return mk(d, s, -1, nullptr, st); }
   template <class FP> typename std::enable_if<std::is_base_of<PatchLevelFillPattern, FP>::value, S>::type createSchedule(const std::shared_ptr<FP>&, const L& d, int nc, const H& h, RefinePatchStrategy* st = nullptr) const { return mk(d, d, nc, h, st); }
   template <class FP> typename std::enable_if<std::is_base_of<PatchLevelFillPattern, FP>::value, S>::type createSchedule(const std::shared_ptr<FP>&, const L& d, const L& s, int nc, const H& h, RefinePatchStrategy* st = nullptr) const { return mk(d, s, nc, h, st); }
   void resetSchedule(const S& s) const { s->reset(d_it); }
   std::vector<RItem> d_it;
 private:
   S mk(const L& d, const L& s, int nc, const H& h, RefinePatchStrategy* st) const { return std::make_shared<RefineSchedule>(d_it, d, s, nc, h, st); }
};
inline void RefineSchedule::reset(const std::shared_ptr<RefineAlgorithm>& a) { d_it = a->d_it; }

struct CItem { int dst, src; std::shared_ptr<hier::CoarsenOperator> op; };
class CoarsenSchedule {
 public:
   CoarsenSchedule(const std::vector<CItem>& it, const std::shared_ptr<hier::PatchLevel>& c, const std::shared_ptr<hier::PatchLevel>& f) : d_it(it), d_c(c), d_f(f) {}
   // each fine patch is coarsened onto a temporary coarse patch, which is copied to all coarse patches (shared sides and periodic images included)
   void coarsenData() const {
      IntVector r = d_f->getRatioToCoarserLevel();
      const tbox::Dimension dim = d_c->getDim();
      IntVector per = d_c->getGridGeometry()->getPeriodicShift(d_c->getRatioToLevelZero());
      for (const CItem& t : d_it) {
         if (!t.op) throw tbox::Error("coarsen schedule without operator");
         std::vector<std::pair<Box, std::shared_ptr<hier::PatchData>>> done;
         for (auto& f : *d_f) {
            Box fb = Box::coarsen(f->getBox(), r);
            if (!(Box::refine(fb, r) == f->getBox())) throw tbox::Error("coarsen schedule: fine patch not aligned");
            hier::BoxContainer cl(fb);
            auto tmp = std::make_shared<hier::PatchLevel>(cl, d_c->getRatioToLevelZero(), d_c->getRatioToCoarserLevel(), d_c->getLevelNumber(), d_c->getGridGeometry());
            auto tp = *tmp->begin();
            std::shared_ptr<hier::PatchData> sample;
            for (auto& q : *d_c) sample = q->getPatchData(t.dst);
            auto d = sample->cloneOn(fb, IntVector(dim, 0));
            tp->setPatchData(t.dst, d);
            for (auto& c : *d_c) RefineSchedule::shifts(dim, per, [&](const IntVector& sh) { d->copyFrom(*c->getPatchData(t.dst), Box::shift(c->getBox(), sh), fb, sh); });
            t.op->coarsen(*tp, *f, t.dst, t.src, fb, r);
            done.push_back(std::make_pair(fb, d));
         }
         for (auto& c : *d_c) for (auto& x : done) RefineSchedule::shifts(dim, per, [&](const IntVector& sh) {
            Box b = Box::shift(x.first, sh), g = c->getBox();
            g.grow(IntVector(dim, 1));
            if (!(b * g).empty()) c->getPatchData(t.dst)->copyFrom(*x.second, b, c->getBox(), sh);
         });
      }
   }
   std::vector<CItem> d_it;
 private:
   std::shared_ptr<hier::PatchLevel> d_c, d_f;
};
class CoarsenAlgorithm {
 public:
   explicit CoarsenAlgorithm(const tbox::Dimension&, bool = true) {}
   void registerCoarsen(int dst, int src, const std::shared_ptr<hier::CoarsenOperator>& op) { d_it.push_back(CItem{dst, src, op}); }
   template <class X> void registerCoarsen(int dst, int src, const std::shared_ptr<hier::CoarsenOperator>& op, const X&) { d_it.push_back(CItem{dst, src, op}); }
   std::shared_ptr<CoarsenSchedule> createSchedule(const std::shared_ptr<hier::PatchLevel>& c, const std::shared_ptr<hier::PatchLevel>& f, CoarsenPatchStrategy* = nullptr) const { return std::make_shared<CoarsenSchedule>(d_it, c, f); }
   void resetSchedule(const std::shared_ptr<CoarsenSchedule>& s) const { s->d_it = d_it; }
   std::vector<CItem> d_it;
};
}  // namespace xfer
}  // namespace SAMRAI
#endif
