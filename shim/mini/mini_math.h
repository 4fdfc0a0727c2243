#ifndef MINI_MATH
#define MINI_MATH
#include "pdat.h"
namespace SAMRAI {
namespace math {
using hier::Box;
using hier::Index;
template <class T> struct Traits;
// common implementation over "arrays of a patch data on a box"
template <class DATA> struct Ops {
   typedef std::shared_ptr<DATA> P;
   typedef pdat::ArrayData<double> A;
   static std::vector<std::pair<A*, Box>> arrays(DATA& d, const Box& b);
   template <class F> static void each(const P& d, const Box& b, F f) {
      for (auto& ab : arrays(*d, b)) { Box x = ab.second * ab.first->getBox(); for (unsigned k = 0; k < ab.first->getDepth(); k++) for (const Index& i : x) f((*ab.first)(i, k)); }
   }
   template <class F> static void each2(const P& d, const P& s, const Box& b, F f) {
      auto a = arrays(*d, b), c = arrays(*s, b);
      for (size_t n = 0; n < a.size(); n++) { Box x = a[n].second * a[n].first->getBox() * c[n].first->getBox(); for (unsigned k = 0; k < a[n].first->getDepth(); k++) for (const Index& i : x) f((*a[n].first)(i, k), (*c[n].first)(i, k)); }
   }
   template <class F> static void each3(const P& d, const P& s, const P& t, const Box& b, F f) {
      auto a = arrays(*d, b), c = arrays(*s, b), e = arrays(*t, b);
      for (size_t n = 0; n < a.size(); n++) { Box x = a[n].second * a[n].first->getBox() * c[n].first->getBox() * e[n].first->getBox(); for (unsigned k = 0; k < a[n].first->getDepth(); k++) for (const Index& i : x) f((*a[n].first)(i, k), (*c[n].first)(i, k), (*e[n].first)(i, k)); }
   }
};
template <> inline std::vector<std::pair<pdat::ArrayData<double>*, Box>> Ops<pdat::CellData<double>>::arrays(pdat::CellData<double>& d, const Box& b) { return {{&d.getArrayData(), b}}; }
template <> inline std::vector<std::pair<pdat::ArrayData<double>*, Box>> Ops<pdat::SideData<double>>::arrays(pdat::SideData<double>& d, const Box& b) {
   std::vector<std::pair<pdat::ArrayData<double>*, Box>> r;
   for (int k = 0; k < b.nd(); k++) r.push_back({&d.getArrayData(k), pdat::SideGeometry::toSideBox(b, k)});
   return r;
}

// DATA: CellData<double> or SideData<double>
template <class DATA> class PatchOps {
 public:
   typedef std::shared_ptr<DATA> P;
   typedef Ops<DATA> O;
   void setToScalar(const P& d, double a, const Box& b) const { O::each(d, b, [&](double& x) { x = a; }); }
   void copyData(const P& d, const P& s, const Box& b) const { O::each2(d, s, b, [&](double& x, double y) { x = y; }); }
   void swapData(const P& d, const P& s, const Box& b) const { O::each2(d, s, b, [&](double& x, double& y) { std::swap(x, y); }); }
   void scale(const P& d, double a, const P& s, const Box& b) const { O::each2(d, s, b, [&](double& x, double y) { x = a * y; }); }
   void addScalar(const P& d, const P& s, double a, const Box& b) const { O::each2(d, s, b, [&](double& x, double y) { x = y + a; }); }
   void abs(const P& d, const P& s, const Box& b) const { O::each2(d, s, b, [&](double& x, double y) { x = std::fabs(y); }); }
   void reciprocal(const P& d, const P& s, const Box& b) const { O::each2(d, s, b, [&](double& x, double y) { x = 1. / y; }); }
   void add(const P& d, const P& s, const P& t, const Box& b) const { O::each3(d, s, t, b, [&](double& x, double y, double z) { x = y + z; }); }
   void subtract(const P& d, const P& s, const P& t, const Box& b) const { O::each3(d, s, t, b, [&](double& x, double y, double z) { x = y - z; }); }
   void multiply(const P& d, const P& s, const P& t, const Box& b) const { O::each3(d, s, t, b, [&](double& x, double y, double z) { x = y * z; }); }
   void divide(const P& d, const P& s, const P& t, const Box& b) const { O::each3(d, s, t, b, [&](double& x, double y, double z) { x = y / z; }); }
   void linearSum(const P& d, double al, const P& s, double be, const P& t, const Box& b) const { O::each3(d, s, t, b, [&](double& x, double y, double z) { x = al * y + be * z; }); }
   void axpy(const P& d, double al, const P& s, const P& t, const Box& b) const { O::each3(d, s, t, b, [&](double& x, double y, double z) { x = al * y + z; }); }
   void axmy(const P& d, double al, const P& s, const P& t, const Box& b) const { O::each3(d, s, t, b, [&](double& x, double y, double z) { x = al * y - z; }); }
   double min(const P& d, const Box& b) const { double m = DBL_MAX; O::each(d, b, [&](double x) { m = std::min(m, x); }); return m; }
   double max(const P& d, const Box& b) const { double m = -DBL_MAX; O::each(d, b, [&](double x) { m = std::max(m, x); }); return m; }
   // norms: plain sums, or weighted by the control volume
   double maxNorm(const P& d, const Box& b, const P& w = P()) const { double m = 0; if (!w) O::each(d, b, [&](double x) { m = std::max(m, std::fabs(x)); }); else O::each2(d, W(w, d), b, [&](double x, double v) { if (v > 0.) m = std::max(m, std::fabs(x)); }); return m; }
   double L1Norm(const P& d, const Box& b, const P& w = P()) const { double m = 0; if (!w) O::each(d, b, [&](double x) { m += std::fabs(x); }); else O::each2(d, W(w, d), b, [&](double x, double v) { m += v * std::fabs(x); }); return m; }
   double sq(const P& d, const Box& b, const P& w) const { double m = 0; if (!w) O::each(d, b, [&](double x) { m += x * x; }); else O::each2(d, W(w, d), b, [&](double x, double v) { m += v * x * x; }); return m; }
   double L2Norm(const P& d, const Box& b, const P& w = P()) const { return std::sqrt(sq(d, b, w)); }
   double RMSNorm(const P& d, const Box& b, const P& w = P()) const { double s = sq(d, b, w), n = 0; if (!w) O::each(d, b, [&](double) { n += 1; }); else n = sumControlVolumes(d, w, b); return std::sqrt(s / n); }
   double dot(const P& d, const P& s, const Box& b, const P& w = P()) const { double m = 0; if (!w) O::each2(d, s, b, [&](double x, double y) { m += x * y; }); else O::each3(d, s, W(w, d), b, [&](double x, double y, double v) { m += x * y * v; }); return m; }
   double integral(const P& d, const Box& b, const P& w) const { double m = 0; O::each2(d, W(w, d), b, [&](double x, double v) { m += x * v; }); return m; }
   double sumControlVolumes(const P& d, const P& w, const Box& b) const { double m = 0; O::each(W(w, d), b, [&](double v) { m += v; }); return m; }
   double weightedSq(const P& d, const P& wt, const Box& b, const P& cv) const { double m = 0; if (cv) O::each3(d, wt, W(cv, d), b, [&](double x, double w, double v) { m += v * x * w * x * w; }); else O::each2(d, wt, b, [&](double x, double w) { m += x * w * x * w; }); return m; }
 private:
   // a control volume of depth one applies to every component
   static P W(const P& w, const P& d) {
      if (w->getDepth() == d->getDepth()) return w;
      auto r = std::dynamic_pointer_cast<DATA>(d->cloneOn(w->getBox(), w->getGhostCellWidth()));
      for (unsigned k = 0; k < d->getDepth(); k++) r->copyDepth(k, *w, 0);
      return r;
   }
};
template <class T> class PatchCellDataOpsReal : public PatchOps<pdat::CellData<T>> {};
template <class T> class PatchSideDataOpsReal : public PatchOps<pdat::SideData<T>> {};
template <class T> class PatchCellDataNormOpsReal : public PatchOps<pdat::CellData<T>> {};
template <class T> class PatchSideDataNormOpsReal : public PatchOps<pdat::SideData<T>> {};
template <class T> class PatchCellDataBasicOps : public PatchOps<pdat::CellData<T>> {};
template <class T> class PatchSideDataBasicOps : public PatchOps<pdat::SideData<T>> {};
template <class T> class ArrayDataBasicOps {
 public:
   typedef pdat::ArrayData<T> A;
   void scale(A& d, const T& a, const A& s, const Box& b) const { Box c = b * d.getBox() * s.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) d(i, k) = a * s(i, k); }
   void add(A& d, const A& s, const A& t, const Box& b) const { Box c = b * d.getBox() * s.getBox() * t.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) d(i, k) = s(i, k) + t(i, k); }
   void subtract(A& d, const A& s, const A& t, const Box& b) const { Box c = b * d.getBox() * s.getBox() * t.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) d(i, k) = s(i, k) - t(i, k); }
   void divide(A& d, const A& s, const A& t, const Box& b) const { Box c = b * d.getBox() * s.getBox() * t.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) d(i, k) = s(i, k) / t(i, k); }
   void addScalar(A& d, const A& s, const T& a, const Box& b) const { Box c = b * d.getBox() * s.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) d(i, k) = s(i, k) + a; }
   void multiply(A& d, const A& s, const A& t, const Box& b) const { Box c = b * d.getBox() * s.getBox() * t.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) d(i, k) = s(i, k) * t(i, k); }
   void axpy(A& d, const T& a, const A& s, const A& t, const Box& b) const { Box c = b * d.getBox() * s.getBox() * t.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) d(i, k) = a * s(i, k) + t(i, k); }
};
template <class T> class ArrayDataNormOpsReal {
 public:
   typedef pdat::ArrayData<T> A;
   double maxNorm(const A& d, const Box& b) const { double m = 0; Box c = b * d.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) m = std::max(m, std::fabs(d(i, k))); return m; }
   double L1Norm(const A& d, const Box& b) const { double m = 0; Box c = b * d.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) m += std::fabs(d(i, k)); return m; }
   double L2Norm(const A& d, const Box& b) const { double m = 0; Box c = b * d.getBox(); for (unsigned k = 0; k < d.getDepth(); k++) for (const Index& i : c) m += d(i, k) * d(i, k); return std::sqrt(m); }
};

template <class T> class HierarchyDataOpsReal {
 public:
   virtual ~HierarchyDataOpsReal() {}
   virtual void setPatchHierarchy(const std::shared_ptr<hier::PatchHierarchy>&) = 0;
   virtual void resetLevels(int, int) = 0;
   virtual void setToScalar(int, const T&, bool = true) const = 0;
   virtual void copyData(int, int, bool = true) const = 0;
   virtual void scale(int, const T&, int, bool = true) const = 0;
   virtual void addScalar(int, int, const T&, bool = true) const = 0;
   virtual void add(int, int, int, bool = true) const = 0;
   virtual void subtract(int, int, int, bool = true) const = 0;
   virtual void multiply(int, int, int, bool = true) const = 0;
   virtual void divide(int, int, int, bool = true) const = 0;
   virtual void reciprocal(int, int, bool = true) const = 0;
   virtual void abs(int, int, bool = true) const = 0;
   virtual void linearSum(int, const T&, int, const T&, int, bool = true) const = 0;
   virtual void axpy(int, const T&, int, int, bool = true) const = 0;
   virtual double L1Norm(int, int = -1, bool = false) const = 0;
   virtual double L2Norm(int, int = -1, bool = false) const = 0;
   virtual double RMSNorm(int, int = -1) const = 0;
   virtual double maxNorm(int, int = -1, bool = false) const = 0;
   virtual T dot(int, int, int = -1, bool = false) const = 0;
   virtual T integral(int, int) const = 0;
   virtual T min(int, bool = true) const = 0;
   virtual T max(int, bool = true) const = 0;
   virtual double sumControlVolumes(int, int) const = 0;
};
template <class T, class DATA> class HierOps : public HierarchyDataOpsReal<T> {
 public:
   typedef std::shared_ptr<DATA> P;
   explicit HierOps(const std::shared_ptr<hier::PatchHierarchy>& h, int c = -1, int f = -1) : d_h(h), d_c(c), d_f(f) {
      if (c < 0) d_c = 0;
      if (f < 0) d_f = h->getFinestLevelNumber();
   }
   void setPatchHierarchy(const std::shared_ptr<hier::PatchHierarchy>& h) override { d_h = h; }
   std::shared_ptr<hier::PatchHierarchy> getPatchHierarchy() const { return d_h; }
   void resetLevels(int c, int f) override { d_c = c; d_f = f; }
   template <class F> void all(F f) const { for (int l = d_c; l <= d_f; l++) for (auto& p : *d_h->getPatchLevel(l)) f(*p); }
   static P D(hier::Patch& p, int id) { P r = std::dynamic_pointer_cast<DATA>(p.getPatchData(id)); if (!r) throw tbox::Error("hierarchy ops: data not allocated or of another type"); return r; }
   static Box B(const P& d, bool in) { return in ? d->getBox() : d->getGhostBox(); }
   void setToScalar(int d, const T& a, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.setToScalar(x, a, B(x, in)); }); }
   void copyData(int d, int s, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.copyData(x, D(p, s), B(x, in)); }); }
   void swapData(int d, int s) const { all([&](hier::Patch& p) { P x = D(p, d); o.swapData(x, D(p, s), x->getGhostBox()); }); }
   void scale(int d, const T& a, int s, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.scale(x, a, D(p, s), B(x, in)); }); }
   void addScalar(int d, int s, const T& a, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.addScalar(x, D(p, s), a, B(x, in)); }); }
   void add(int d, int s, int t, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.add(x, D(p, s), D(p, t), B(x, in)); }); }
   void subtract(int d, int s, int t, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.subtract(x, D(p, s), D(p, t), B(x, in)); }); }
   void multiply(int d, int s, int t, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.multiply(x, D(p, s), D(p, t), B(x, in)); }); }
   void divide(int d, int s, int t, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.divide(x, D(p, s), D(p, t), B(x, in)); }); }
   void reciprocal(int d, int s, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.reciprocal(x, D(p, s), B(x, in)); }); }
   void abs(int d, int s, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.abs(x, D(p, s), B(x, in)); }); }
   void linearSum(int d, const T& a, int s, const T& b, int t, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.linearSum(x, a, D(p, s), b, D(p, t), B(x, in)); }); }
   void axpy(int d, const T& a, int s, int t, bool in = true) const override { all([&](hier::Patch& p) { P x = D(p, d); o.axpy(x, a, D(p, s), D(p, t), B(x, in)); }); }
   static P V(hier::Patch& p, int v) { return v < 0 ? P() : D(p, v); }
   double L1Norm(int d, int v = -1, bool = false) const override { double s = 0; all([&](hier::Patch& p) { P x = D(p, d); s += o.L1Norm(x, x->getBox(), V(p, v)); }); return s; }
   double L2Norm(int d, int v = -1, bool = false) const override { double s = 0; all([&](hier::Patch& p) { P x = D(p, d); s += o.sq(x, x->getBox(), V(p, v)); }); return std::sqrt(s); }
   double RMSNorm(int d, int v = -1) const override { double s = 0, n = 0; all([&](hier::Patch& p) { P x = D(p, d); s += o.sq(x, x->getBox(), V(p, v)); n += v < 0 ? (double)x->getBox().size() * x->getDepth() : o.sumControlVolumes(x, V(p, v), x->getBox()); }); return std::sqrt(s / n); }
   double maxNorm(int d, int v = -1, bool = false) const override { double s = 0; all([&](hier::Patch& p) { P x = D(p, d); s = std::max(s, o.maxNorm(x, x->getBox(), V(p, v))); }); return s; }
   T dot(int d, int e, int v = -1, bool = false) const override { double s = 0; all([&](hier::Patch& p) { P x = D(p, d); s += o.dot(x, D(p, e), x->getBox(), V(p, v)); }); return s; }
   T integral(int d, int v) const override { double s = 0; all([&](hier::Patch& p) { P x = D(p, d); s += o.integral(x, x->getBox(), V(p, v)); }); return s; }
   double weightedL2Norm(int d, int w, int v = -1) const { double s = 0; all([&](hier::Patch& p) { P x = D(p, d); s += o.weightedSq(x, D(p, w), x->getBox(), V(p, v)); }); return std::sqrt(s); }
   double weightedRMSNorm(int d, int w, int v = -1) const { double s = 0, n = 0; all([&](hier::Patch& p) { P x = D(p, d); s += o.weightedSq(x, D(p, w), x->getBox(), V(p, v)); n += v < 0 ? (double)x->getBox().size() * x->getDepth() : o.sumControlVolumes(x, V(p, v), x->getBox()); }); return std::sqrt(s / n); }
   T min(int d, bool in = true) const override { double s = DBL_MAX; all([&](hier::Patch& p) { P x = D(p, d); s = std::min(s, o.min(x, B(x, in))); }); return s; }
   T max(int d, bool in = true) const override { double s = -DBL_MAX; all([&](hier::Patch& p) { P x = D(p, d); s = std::max(s, o.max(x, B(x, in))); }); return s; }
   double sumControlVolumes(int d, int v) const override { double s = 0; all([&](hier::Patch& p) { P x = D(p, d); s += o.sumControlVolumes(x, V(p, v), x->getBox()); }); return s; }
   size_t numberOfEntries(int d, bool in = true) const { size_t n = 0; all([&](hier::Patch& p) { P x = D(p, d); n += B(x, in).size() * x->getDepth(); }); return n; }
 protected:
   std::shared_ptr<hier::PatchHierarchy> d_h;
   int d_c, d_f;
   PatchOps<DATA> o;
};
template <class T> class HierarchyCellDataOpsReal : public HierOps<T, pdat::CellData<T>> { public: using HierOps<T, pdat::CellData<T>>::HierOps; };
template <class T> class HierarchySideDataOpsReal : public HierOps<T, pdat::SideData<T>> { public: using HierOps<T, pdat::SideData<T>>::HierOps; };
class HierarchyDataOpsManager {
 public:
   static HierarchyDataOpsManager* getManager() { static HierarchyDataOpsManager* m = new HierarchyDataOpsManager; return m; }
   std::shared_ptr<HierarchyDataOpsReal<double>> getOperationsDouble(const std::shared_ptr<hier::Variable>& v, const std::shared_ptr<hier::PatchHierarchy>& h, bool = false) {
      if (std::dynamic_pointer_cast<pdat::SideVariable<double>>(v)) return std::make_shared<HierarchySideDataOpsReal<double>>(h, 0, h->getFinestLevelNumber());
      return std::make_shared<HierarchyCellDataOpsReal<double>>(h, 0, h->getFinestLevelNumber());
   }
};
}  // namespace math
}  // namespace SAMRAI
#endif
