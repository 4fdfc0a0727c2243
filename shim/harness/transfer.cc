// Operators between levels: coarsening and refining.
#include <map>
#include <vector>
#include <string>
#include "core.h"
#include "QuatLinearRefine.h"
#include "QuatWeightedAverage.h"
#include "MinIntCoarsen.h"
static hier::Box box(DB p, const char* k) {
   auto v = IV(p, k);
   hier::Index a(tbox::Dimension(NDIM), 0), b(tbox::Dimension(NDIM), 0);
   for (int d = 0; d < NDIM; d++) { a(d) = v[d]; b(d) = v[NDIM + d]; }
   return hier::Box(a, b, hier::BlockId(0));
}
static hier::IntVector ratio(World& w) { return w.hier->getPatchLevel(1)->getRatioToCoarserLevel(); }
// p: op, boxes (coarse), rotation: field
CMD(coarsen) {
   auto c = *w.hier->getPatchLevel(0)->begin();
   auto f = *w.hier->getPatchLevel(1)->begin();
   std::shared_ptr<hier::CoarsenOperator> op;
   std::string o = S(p, "op");
   if (o == "min") op.reset(new MinIntCoarsen());
   else if (o == "aware") op.reset(new QuatWeightedAverage(true, w.id("rotation")));
   else op.reset(new QuatWeightedAverage(false));
   op->coarsen(*c, *f, w.id("coarse"), w.id("fine"), box(p, "box"), ratio(w));
   w.res["width"] = {(double)op->getStencilWidth(tbox::Dimension(NDIM))(0)};
}
CMD(refine) {
   auto c = *w.hier->getPatchLevel(0)->begin();
   auto f = *w.hier->getPatchLevel(1)->begin();
   QuatLinearRefine op(w.id("rotation"));
   hier::BoxContainer bs;
   bs.pushBack(box(p, "box"));
   if (p->keyExists("box2")) bs.pushBack(box(p, "box2"));
   static_cast<hier::RefineOperator&>(op).refine(*f, *c, w.id("fine"), w.id("coarse"), pdat::CellOverlap(bs, hier::Transformation(hier::IntVector(tbox::Dimension(NDIM), 0))), ratio(w));
   w.res["width"] = {(double)op.getStencilWidth(tbox::Dimension(NDIM))(0)};
}
