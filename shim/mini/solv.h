#ifndef MINI_SOLV
#define MINI_SOLV
#include <functional>
#include "pdat.h"
#include "mini_math.h"
#include "xfer.h"
namespace SAMRAI {
namespace solv {
class RobinBcCoefStrategy {
 public:
   virtual ~RobinBcCoefStrategy() {}
   // a*u + b*du/dn = g at the centers of the faces of the boundary box
   virtual void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double>>& a, const std::shared_ptr<pdat::ArrayData<double>>& b,
                           const std::shared_ptr<pdat::ArrayData<double>>& g, const std::shared_ptr<hier::Variable>& v,
                           const hier::Patch& p, const hier::BoundaryBox& bb, double t = 0.0) const = 0;
   virtual hier::IntVector numberOfExtensionsFillable() const = 0;
};
class LocationIndexRobinBcCoefs : public RobinBcCoefStrategy {
 public:
   LocationIndexRobinBcCoefs(const tbox::Dimension& d, const std::string& n, const std::shared_ptr<tbox::Database>& db = nullptr) : d_dim(d), d_name(n) {
      for (int i = 0; i < 6; i++) { d_a[i] = d_b[i] = d_g[i] = std::numeric_limits<double>::quiet_NaN(); }
      if (db)
         for (int i = 0; i < 2 * d.getValue(); i++) {
            std::string k = "boundary_" + tbox::Utilities::intToString(i);
            if (!db->isString(k)) continue;
            d_a[i] = 1.; d_g[i] = 0.;
            std::vector<std::string> s = db->getStringVector(k);
            if (s[0] == "value") { d_a[i] = 1.; d_b[i] = 0.; if (s.size() != 2) TBOX_ERROR("value"); d_g[i] = atof(s[1].c_str()); }
            else if (s[0] == "slope") { d_a[i] = 0.; d_b[i] = 1.; if (s.size() != 2) TBOX_ERROR("slope"); d_g[i] = atof(s[1].c_str()); }
            else if (s[0] == "coefficients") { if (s.size() != 3) TBOX_ERROR("coefficients"); d_a[i] = atof(s[1].c_str()); d_b[i] = atof(s[2].c_str()); }
            else TBOX_ERROR("bad boundary spec " << s[0]);
         }
   }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double>>& a, const std::shared_ptr<pdat::ArrayData<double>>& b,
                   const std::shared_ptr<pdat::ArrayData<double>>& g, const std::shared_ptr<hier::Variable>&,
                   const hier::Patch&, const hier::BoundaryBox& bb, double = 0.0) const override {
      int l = bb.getLocationIndex();
      if (a) a->fill(d_a[l]);
      if (b) b->fill(d_b[l]);
      if (g) g->fill(d_g[l]);
   }
   const std::string& getObjectName() const { return d_name; }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(d_dim, 1 << 20); }
   void setBoundaryValue(int l, double v) { d_a[l] = 1.; d_b[l] = 0.; d_g[l] = v; }
   void setBoundarySlope(int l, double v) { d_a[l] = 0.; d_b[l] = 1.; d_g[l] = v; }
   void setRawCoefficients(int l, double a, double b, double g) { d_a[l] = a; d_b[l] = b; d_g[l] = g; }
   void getCoefficients(int l, double& a, double& b, double& g) const { a = d_a[l]; b = d_b[l]; g = d_g[l]; }
   LocationIndexRobinBcCoefs& operator=(const LocationIndexRobinBcCoefs& r) { for (int i = 0; i < 6; i++) { d_a[i] = r.d_a[i]; d_b[i] = r.d_b[i]; d_g[i] = r.d_g[i]; } return *this; }
 private:
   tbox::Dimension d_dim;
   std::string d_name;
   double d_a[6], d_b[6], d_g[6];
};
// Dirichlet condition from the ghost cells at the given distance (cells) from the boundary face: used for the coarse-fine boundary.
class GhostCellRobinBcCoefs : public RobinBcCoefStrategy {
 public:
   GhostCellRobinBcCoefs(const tbox::Dimension& d, const std::string& n = "") : d_dim(d) { (void)n; }
   void setGhostDataId(int id, const hier::IntVector& ext) { d_id = id; (void)ext; }
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double>>& a, const std::shared_ptr<pdat::ArrayData<double>>& b,
                   const std::shared_ptr<pdat::ArrayData<double>>& g, const std::shared_ptr<hier::Variable>&,
                   const hier::Patch& p, const hier::BoundaryBox& bb, double = 0.0) const override {
      auto pg = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p.getPatchGeometry());
      int d = bb.getLocationIndex() / 2, up = bb.getLocationIndex() % 2;
      double h = pg->getDx()[d];
      if (a) a->fill(1. / (1. + 0.5 * h));
      if (b) b->fill(0.5 * h / (1. + 0.5 * h));
      if (g) {
         auto gd = std::dynamic_pointer_cast<pdat::CellData<double>>(p.getPatchData(d_id));
         for (const hier::Index& i : g->getBox()) { hier::Index c(i); if (!up) c(d) -= 1; (*g)(i, 0) = (*gd)(pdat::CellIndex(c)) / (1. + 0.5 * h); }
      }
   }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(d_dim, 1); }
 private:
   tbox::Dimension d_dim;
   int d_id = -1;
};
class SimpleCellRobinBcCoefs : public RobinBcCoefStrategy {
 public:
   SimpleCellRobinBcCoefs(const tbox::Dimension& d, const std::string& n = "") : d_dim(d) { (void)n; }
   void setHierarchy(const std::shared_ptr<hier::PatchHierarchy>& h, int lo = -1, int hi = -1) { d_h = h; (void)lo; (void)hi; }
   void setBoundaries(const std::string& t, int fluxes = -1, int flags = -1, int* bdry_types = nullptr) { d_t = t; (void)fluxes; (void)flags; (void)bdry_types; }
   void cacheDirichletData(int id) {
      d_cache.clear();
      if (!d_h) return;
      for (int ln = 0; ln < d_h->getNumberOfLevels(); ln++)
         for (auto& p : *d_h->getPatchLevel(ln)) {
            auto c = std::dynamic_pointer_cast<pdat::CellData<double>>(p->getPatchData(id));
            for (const auto& bb : p->getPatchGeometry()->getCodimensionBoundaries(1))
               for (const hier::Index& i : bb.getBox()) if (c->getGhostBox().contains(i)) d_cache[key(ln, i)] = (*c)(pdat::CellIndex(i));
         }
   }
   void restoreDirichletData(int id) { copyCachedDirichletData(id); }
   void copyCachedDirichletData(int id) {
      for (int ln = 0; ln < d_h->getNumberOfLevels(); ln++)
         for (auto& p : *d_h->getPatchLevel(ln)) {
            auto c = std::dynamic_pointer_cast<pdat::CellData<double>>(p->getPatchData(id));
            for (const auto& bb : p->getPatchGeometry()->getCodimensionBoundaries(1))
               for (const hier::Index& i : bb.getBox()) if (d_cache.count(key(ln, i))) (*c)(pdat::CellIndex(i)) = d_cache[key(ln, i)];
         }
   }
   void setDiffusionCoefId(int) {}
   void setDiffusionCoefConstant(double) {}
   void setBcCoefs(const std::shared_ptr<pdat::ArrayData<double>>& a, const std::shared_ptr<pdat::ArrayData<double>>& b,
                   const std::shared_ptr<pdat::ArrayData<double>>& g, const std::shared_ptr<hier::Variable>&,
                   const hier::Patch& p, const hier::BoundaryBox& bb, double = 0.0) const override {
      if (d_t != "Dirichlet") throw tbox::Error("SimpleCellRobinBcCoefs: only Dirichlet in the stand-in");
      if (a) a->fill(1.);
      if (b) b->fill(0.);
      int d = bb.getLocationIndex() / 2, up = bb.getLocationIndex() % 2;
      if (g) for (const hier::Index& i : g->getBox()) { hier::Index c(i); if (!up) c(d) -= 1; auto k = d_cache.find(key(p.getPatchLevelNumber(), c)); (*g)(i, 0) = k == d_cache.end() ? 0. : k->second; }
   }
   hier::IntVector numberOfExtensionsFillable() const override { return hier::IntVector(d_dim, 0); }
 private:
   static std::vector<int> key(int ln, const hier::Index& i) { std::vector<int> r{ln}; for (int d = 0; d < i.getDim().getValue(); d++) r.push_back(i[d]); return r; }
   tbox::Dimension d_dim;
   std::shared_ptr<hier::PatchHierarchy> d_h;
   std::string d_t;
   std::map<std::vector<int>, double> d_cache;
};
// codimension-1 ghost cells from Robin conditions and extrapolated edges and corners (as SAMRAI's helper)
class CartesianRobinBcHelper : public xfer::RefinePatchStrategy {
 public:
   CartesianRobinBcHelper(const tbox::Dimension& d, const std::string& n = "", RobinBcCoefStrategy* c = nullptr) : d_dim(d), d_c(c) { (void)n; }
   void setTargetDataId(int id) { d_id = id; }
   void setHomogeneousBc(bool h) { d_h = h; }
   void setCoefImplementation(const RobinBcCoefStrategy* c) { d_c = c; }
   void setPhysicalBoundaryConditions(hier::Patch& p, const double t, const hier::IntVector& g) override { setBoundaryValuesInCells(p, t, g, d_id, d_h); }
   hier::IntVector getRefineOpStencilWidth(const tbox::Dimension& d) const override { return hier::IntVector(d, 0); }
   void preprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) override {}
   void postprocessRefine(hier::Patch&, const hier::Patch&, const hier::Box&, const hier::IntVector&) override {}
   void setBoundaryValuesInCells(hier::Patch& p, double t, const hier::IntVector& g, int id, bool hom = false) const {
      auto pg = std::dynamic_pointer_cast<geom::CartesianPatchGeometry>(p.getPatchGeometry());
      auto u = std::dynamic_pointer_cast<pdat::CellData<double>>(p.getPatchData(id));
      if (!u) throw tbox::Error("CartesianRobinBcHelper: no cell data");
      std::shared_ptr<hier::Variable> v;
      hier::VariableDatabase::getDatabase()->mapIndexToVariable(id, v);
      (void)g;
      int nd = p.getDim().getValue();
      const hier::Box& gb = u->getGhostBox();
      // faces, extended over the ghost columns that belong to neighbouring patches if the coefficients can be had there
      for (const hier::BoundaryBox& bb0 : pg->getCodimensionBoundaries(1)) {
         int d = bb0.getLocationIndex() / 2, up = bb0.getLocationIndex() % 2;
         hier::IntVector ext(p.getDim(), 1);
         ext[d] = 0;
         bool wide = d_c->numberOfExtensionsFillable() >= ext;
         hier::BoundaryBoxUtils bu(bb0);
         hier::Box lim = bu.trimBoundaryBox(wide ? gb : p.getBox()).getBox();
         hier::BoundaryBox bb(lim, 1, bb0.getLocationIndex());
         hier::Box cb = hier::BoundaryBoxUtils(bb).getSurfaceBoxFromBoundaryBox();
         auto a = std::make_shared<pdat::ArrayData<double>>(cb, 1), b = std::make_shared<pdat::ArrayData<double>>(cb, 1);
         auto gg = hom ? std::shared_ptr<pdat::ArrayData<double>>() : std::make_shared<pdat::ArrayData<double>>(cb, 1);
         d_c->setBcCoefs(a, b, gg, v, p, bb, t);
         double h = pg->getDx()[d];
         for (const hier::Index& i : cb) {
            hier::Index o(i), in(i);
            if (up) in(d) -= 1; else o(d) -= 1;
            if (!gb.contains(o)) continue;
            for (unsigned k = 0; k < u->getDepth(); k++) {
               double A = (*a)(i, 0), B = (*b)(i, 0), G = gg ? (*gg)(i, 0) : 0., ui = (*u)(pdat::CellIndex(in), k);
               (*u)(pdat::CellIndex(o), k) = (h * G + ui * (B - 0.5 * h * A)) / (B + 0.5 * h * A);
            }
         }
      }
      // edges and corners where walls meet: linear extrapolation
      for (int cod = 2; cod <= nd; cod++) for (const hier::BoundaryBox& bb : pg->getCodimensionBoundaries(cod)) {
         hier::BoundaryBoxUtils bu(bb);
         const hier::IntVector& out = bu.getOuterVector();
         bool walls = true;
         for (int d = 0; d < nd; d++) if (out[d] && !pg->getTouchesRegularBoundary(d, out[d] > 0)) walls = false;
         if (!walls) continue;
         for (const hier::Index& o : bb.getBox()) {
            if (!gb.contains(o)) continue;
            hier::Index in(o);
            for (int d = 0; d < nd; d++) in(d) -= out[d];
            for (unsigned k = 0; k < u->getDepth(); k++) {
               double x = (1 - cod) * (*u)(pdat::CellIndex(in), k);
               for (int d = 0; d < nd; d++) if (out[d]) { hier::Index e(in); e(d) = o(d); x += (*u)(pdat::CellIndex(e), k); }
               (*u)(pdat::CellIndex(o), k) = x;
            }
         }
      }
   }
   void setBoundaryValuesInCells(hier::PatchLevel& l, double t, const hier::IntVector& g, int id, bool hom = false) const { for (auto& p : l) setBoundaryValuesInCells(*p, t, g, id, hom); }
   void setBoundaryValuesAtNodes(hier::Patch&, double, int, bool = false) const { throw tbox::Error("not in the stand-in"); }
 private:
   tbox::Dimension d_dim;
   int d_id = -1;
   bool d_h = false;
   const RobinBcCoefStrategy* d_c;
};

template <class T> class SAMRAIVectorReal {
 public:
   SAMRAIVectorReal(const std::string& n, const std::shared_ptr<hier::PatchHierarchy>& h, int lo, int hi) : d_n(n), d_h(h), d_lo(lo), d_hi(hi) {}
   virtual ~SAMRAIVectorReal() {}
   const std::string& getName() const { return d_n; }
   const tbox::Dimension& getDim() const { return d_h->getDim(); }
   std::shared_ptr<hier::PatchHierarchy> getPatchHierarchy() const { return d_h; }
   int getCoarsestLevelNumber() const { return d_lo; }
   int getFinestLevelNumber() const { return d_hi; }
   int getNumberOfComponents() const { return (int)d_id.size(); }
   void addComponent(const std::shared_ptr<hier::Variable>& v, int id, int vol = -1, const std::shared_ptr<math::HierarchyDataOpsReal<T>> op = nullptr) { d_v.push_back(v); d_id.push_back(id); d_vol.push_back(vol); (void)op; }
   std::shared_ptr<hier::PatchData> getComponentPatchData(int c, const hier::Patch& p) const { return p.getPatchData(d_id[c]); }
   std::shared_ptr<hier::Variable> getComponentVariable(int c) const { return d_v[c]; }
   int getComponentDescriptorIndex(int c) const { return d_id[c]; }
   int getControlVolumeIndex(int c) const { return d_vol[c]; }
   std::shared_ptr<SAMRAIVectorReal<T>> cloneVector(const std::string& n) const {
      auto r = std::make_shared<SAMRAIVectorReal<T>>(n, d_h, d_lo, d_hi);
      for (size_t i = 0; i < d_id.size(); i++) r->addComponent(d_v[i], hier::VariableDatabase::getDatabase()->registerClonedPatchDataIndex(d_v[i], d_id[i]), d_vol[i]);
      return r;
   }
   void freeVectorComponents() { deallocateVectorData(); for (int id : d_id) hier::VariableDatabase::getDatabase()->removePatchDataIndex(id); d_id.clear(); d_v.clear(); d_vol.clear(); }
   void allocateVectorData(double t = 0.) { for (int l = d_lo; l <= d_hi; l++) for (int id : d_id) d_h->getPatchLevel(l)->allocatePatchData(id, t); }
   void deallocateVectorData() { for (int l = d_lo; l <= d_hi; l++) for (int id : d_id) d_h->getPatchLevel(l)->deallocatePatchData(id); }
   void setToScalar(const T& a, bool interior = false) { (void)interior; each([&](pdat::CellData<T>& c, const hier::Box&, size_t) { c.fillAll(a); }); }
   void copyVector(const std::shared_ptr<SAMRAIVectorReal<T>>& s, bool interior = true) { comb(*s, *s, [](T x, T) { return x; }); (void)interior; }
   void scale(const T& a, const std::shared_ptr<SAMRAIVectorReal<T>>& x, bool = true) { comb(*x, *x, [a](T u, T) { return a * u; }); }
   void addScalar(const std::shared_ptr<SAMRAIVectorReal<T>>& x, const T& a, bool = true) { comb(*x, *x, [a](T u, T) { return a + u; }); }
   void add(const std::shared_ptr<SAMRAIVectorReal<T>>& x, const std::shared_ptr<SAMRAIVectorReal<T>>& y, bool = true) { comb(*x, *y, [](T u, T v) { return u + v; }); }
   void subtract(const std::shared_ptr<SAMRAIVectorReal<T>>& x, const std::shared_ptr<SAMRAIVectorReal<T>>& y, bool = true) { comb(*x, *y, [](T u, T v) { return u - v; }); }
   void multiply(const std::shared_ptr<SAMRAIVectorReal<T>>& x, const std::shared_ptr<SAMRAIVectorReal<T>>& y, bool = true) { comb(*x, *y, [](T u, T v) { return u * v; }); }
   void divide(const std::shared_ptr<SAMRAIVectorReal<T>>& x, const std::shared_ptr<SAMRAIVectorReal<T>>& y, bool = true) { comb(*x, *y, [](T u, T v) { return u / v; }); }
   void reciprocal(const std::shared_ptr<SAMRAIVectorReal<T>>& x, bool = true) { comb(*x, *x, [](T u, T) { return 1 / u; }); }
   void abs(const std::shared_ptr<SAMRAIVectorReal<T>>& x, bool = true) { comb(*x, *x, [](T u, T) { return std::fabs(u); }); }
   void linearSum(const T& a, const std::shared_ptr<SAMRAIVectorReal<T>>& x, const T& b, const std::shared_ptr<SAMRAIVectorReal<T>>& y, bool = true) { comb(*x, *y, [a, b](T u, T v) { return a * u + b * v; }); }
   void axpy(const T& a, const std::shared_ptr<SAMRAIVectorReal<T>>& x, const std::shared_ptr<SAMRAIVectorReal<T>>& y, bool = true) { comb(*x, *y, [a](T u, T v) { return a * u + v; }); }
   int getLength(bool = true) const { int n = 0; each([&](pdat::CellData<T>& c, const hier::Box& b, size_t) { n += (int)(b.size() * c.getDepth()); }); return n; }
   double dot(const std::shared_ptr<SAMRAIVectorReal<T>>& y, bool = true) const { return red(*this, *y, [](T u, T v) { return u * v; }, 0); }
   double L1Norm(bool = true) const { return red(*this, *this, [](T u, T) { return std::fabs(u); }, 0); }
   double L2Norm(bool = true) const { return std::sqrt(red(*this, *this, [](T u, T) { return u * u; }, 0)); }
   double weightedL2Norm(const std::shared_ptr<SAMRAIVectorReal<T>>& w) const { return std::sqrt(red(*this, *w, [](T u, T v) { return u * v * u * v; }, 0)); }
   double RMSNorm() const { return L2Norm() / std::sqrt(wsum()); }
   double weightedRMSNorm(const std::shared_ptr<SAMRAIVectorReal<T>>& w) const { return weightedL2Norm(w) / std::sqrt(wsum()); }
   double maxNorm(bool = true) const { return red(*this, *this, [](T u, T) { return std::fabs(u); }, 1); }
   T min(bool = true) const { return red(*this, *this, [](T u, T) { return u; }, 2); }
   T max(bool = true) const { return red(*this, *this, [](T u, T) { return u; }, 3); }
   int computeConstrProdPos(const std::shared_ptr<SAMRAIVectorReal<T>>& x) const { return red(*this, *x, [](T u, T v) { return u * v; }, 2) > 0; }
   void compareToScalar(const std::shared_ptr<SAMRAIVectorReal<T>>& x, const T& a, bool = true) { comb(*x, *x, [a](T u, T) { return std::fabs(u) >= a ? 1. : 0.; }); }
   int testReciprocal(const std::shared_ptr<SAMRAIVectorReal<T>>& x) { int ok = 1; comb(*x, *x, [&](T u, T) { if (u == 0) { ok = 0; return 0.; } return 1. / u; }); return ok; }
   void setRandomValues(const T& w, const T& lo) { each([&](pdat::CellData<T>& c, const hier::Box& b, size_t) { for (unsigned d = 0; d < c.getDepth(); d++) for (const hier::Index& i : b) c(i, d) = lo + w * (rand() / (double)RAND_MAX); }); }
   void print(std::ostream&, bool = true) const {}
   std::ostream& getOutputStream() { return tbox::plog; }
   void setOutputStream(std::ostream&) {}
 private:
   typedef std::function<void(pdat::CellData<T>&, const hier::Box&, size_t)> EachFn;
   void each(const EachFn& f) const {
      for (int l = d_lo; l <= d_hi; l++) for (auto& p : *d_h->getPatchLevel(l)) for (size_t k = 0; k < d_id.size(); k++) f(*std::dynamic_pointer_cast<pdat::CellData<T>>(p->getPatchData(d_id[k])), p->getBox(), k);
   }
   template <class F> void comb(const SAMRAIVectorReal& x, const SAMRAIVectorReal& y, F f) {
      for (int l = d_lo; l <= d_hi; l++) for (auto& p : *d_h->getPatchLevel(l)) for (size_t k = 0; k < d_id.size(); k++) {
         auto z = cd(*p, d_id[k]), a = cd(*p, x.d_id[k]), b = cd(*p, y.d_id[k]);
         for (unsigned d = 0; d < z->getDepth(); d++) for (const hier::Index& i : p->getBox()) (*z)(i, d) = f((*a)(i, d), (*b)(i, d));
      }
   }
   template <class F> double red(const SAMRAIVectorReal& x, const SAMRAIVectorReal& y, F f, int op) const {
      double r = op == 2 ? DBL_MAX : op == 3 ? -DBL_MAX : 0.;
      for (int l = d_lo; l <= d_hi; l++) for (auto& p : *d_h->getPatchLevel(l)) for (size_t k = 0; k < d_id.size(); k++) {
         auto a = cd(*p, x.d_id[k]), b = cd(*p, y.d_id[k]);
         auto w = d_vol[k] >= 0 ? cd(*p, d_vol[k]) : nullptr;
         for (unsigned d = 0; d < a->getDepth(); d++) for (const hier::Index& i : p->getBox()) {
            if (w && (*w)(i, 0) <= 0.) continue;
            double v = f((*a)(i, d), (*b)(i, d));
            if (op == 0) r += w ? v * (*w)(i, 0) : v; else if (op == 1 || op == 3) r = std::max(r, v); else r = std::min(r, v);
         }
      }
      return r;
   }
   double wsum() const { double r = 0.; for (int l = d_lo; l <= d_hi; l++) for (auto& p : *d_h->getPatchLevel(l)) for (size_t k = 0; k < d_id.size(); k++) { if (d_vol[k] < 0) r += p->getBox().size(); else { auto w = cd(*p, d_vol[k]); for (const hier::Index& i : p->getBox()) r += (*w)(i, 0); } } return r; }
   static std::shared_ptr<pdat::CellData<T>> cd(const hier::Patch& p, int id) { return std::dynamic_pointer_cast<pdat::CellData<T>>(p.getPatchData(id)); }
   std::string d_n;
   std::shared_ptr<hier::PatchHierarchy> d_h;
   int d_lo, d_hi;
   std::vector<std::shared_ptr<hier::Variable>> d_v;
   std::vector<int> d_id, d_vol;
};

class FACPreconditioner;
class FACOperatorStrategy {
 public:
   FACOperatorStrategy() {}
   virtual ~FACOperatorStrategy() {}
   virtual void restrictSolution(const SAMRAIVectorReal<double>& s, SAMRAIVectorReal<double>& d, int ln) = 0;
   virtual void restrictResidual(const SAMRAIVectorReal<double>& s, SAMRAIVectorReal<double>& d, int ln) = 0;
   virtual void prolongErrorAndCorrect(const SAMRAIVectorReal<double>& s, SAMRAIVectorReal<double>& d, int ln) = 0;
   virtual void smoothError(SAMRAIVectorReal<double>& e, const SAMRAIVectorReal<double>& r, int ln, int n) = 0;
   virtual int solveCoarsestLevel(SAMRAIVectorReal<double>& e, const SAMRAIVectorReal<double>& r, int ln) = 0;
   virtual void computeCompositeResidualOnLevel(SAMRAIVectorReal<double>& r, const SAMRAIVectorReal<double>& s, const SAMRAIVectorReal<double>& f, int ln, bool err) = 0;
   virtual double computeResidualNorm(const SAMRAIVectorReal<double>& r, int fine, int coarse) = 0;
   virtual void postprocessOneCycle(int, const SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&) {}
   virtual void initializeOperatorState(const SAMRAIVectorReal<double>&, const SAMRAIVectorReal<double>&) {}
   virtual void deallocateOperatorState() {}
   virtual void setFACPreconditioner(const FACPreconditioner*) {}
};
}  // namespace solv

namespace mesh {
class StandardTagAndInitStrategy {
 public:
   explicit StandardTagAndInitStrategy(const tbox::Dimension& d = tbox::Dimension(2)) { (void)d; }
   virtual ~StandardTagAndInitStrategy() {}
   virtual void initializeLevelData(const std::shared_ptr<hier::PatchHierarchy>&, const int, const double, const bool, const bool, const std::shared_ptr<hier::PatchLevel>& = std::shared_ptr<hier::PatchLevel>(), const bool = true) = 0;
   virtual void resetHierarchyConfiguration(const std::shared_ptr<hier::PatchHierarchy>&, const int, const int) = 0;
   virtual void applyGradientDetector(const std::shared_ptr<hier::PatchHierarchy>&, const int, const double, const int, const bool, const bool) {}
   virtual void applyGradientDetector(std::shared_ptr<hier::PatchHierarchy>&, int, double, int, const bool, const bool) { d_notag = true; }
   bool d_notag = false;
};
class TagAndInitializeStrategy {
 public:
   virtual ~TagAndInitializeStrategy() {}
   virtual void initializeLevelData(const std::shared_ptr<hier::PatchHierarchy>&, const int, const double, const bool, const bool, const std::shared_ptr<hier::PatchLevel>& = std::shared_ptr<hier::PatchLevel>(), const bool = true) {}
   virtual void resetHierarchyConfiguration(const std::shared_ptr<hier::PatchHierarchy>&, const int, const int) {}
   virtual void tagCellsForRefinement(std::shared_ptr<hier::PatchHierarchy>&, int, double, int, bool) {}
};
class StandardTagAndInitialize : public TagAndInitializeStrategy {
 public:
   StandardTagAndInitialize(const std::string&, StandardTagAndInitStrategy* s, const std::shared_ptr<tbox::Database>& = nullptr) : d_s(s) {}
   void initializeLevelData(const std::shared_ptr<hier::PatchHierarchy>& h, const int l, const double t, const bool r, const bool i, const std::shared_ptr<hier::PatchLevel>& o = std::shared_ptr<hier::PatchLevel>(), const bool a = true) override { d_s->initializeLevelData(h, l, t, r, i, o, a); }
   void resetHierarchyConfiguration(const std::shared_ptr<hier::PatchHierarchy>& h, const int c, const int f) override { d_s->resetHierarchyConfiguration(h, c, f); }
   void tagCellsForRefinement(std::shared_ptr<hier::PatchHierarchy>& h, int l, double t, int id, bool init) override {
      d_s->d_notag = false;
      d_s->applyGradientDetector(h, l, t, id, init, false);
      if (d_s->d_notag) { std::shared_ptr<hier::PatchHierarchy> const c(h); d_s->applyGradientDetector(c, l, t, id, init, false); }
   }
   StandardTagAndInitStrategy* d_s;
};
class BergerRigoutsos { public: template <class... A> BergerRigoutsos(A...) {} };
class TreeLoadBalancer { public: template <class... A> TreeLoadBalancer(A...) {} template <class T> void setSAMRAI_MPI(T) {} };
// The levels are those of a plan set by the harness (no clustering): what AMPE tags is recorded, not used.
struct Plan {
   struct Level { std::vector<int> ratio; hier::BoxContainer boxes; };
   static std::vector<Level>& levels() { static std::vector<Level> l; return l; }
   static std::vector<std::vector<Level>>& regrids() { static std::vector<std::vector<Level>> l; return l; }
   static std::map<int, std::set<std::vector<int>>>& tags() { static std::map<int, std::set<std::vector<int>>> t; return t; }
};
class GriddingAlgorithm {
   typedef hier::IntVector IntVector;
   typedef hier::Index Index;
 public:
   template <class DB_, class S_, class... A> GriddingAlgorithm(const std::shared_ptr<hier::PatchHierarchy>& h, const std::string&, const DB_&, const S_& s, A...) : d_h(h), d_s(s) { d_h->d_max = std::max(d_h->d_max, (int)Plan::levels().size()); }
   IntVector rv(const Plan::Level& l) { IntVector r(d_h->getDim(), 1); for (int d = 0; d < d_h->getDim().getValue(); d++) r[d] = l.ratio.at(d); return r; }
   void makeCoarsestLevel(double t) {
      if (Plan::levels().empty()) throw tbox::Error("no gridding plan");
      d_h->addLevel(Plan::levels()[0].boxes, IntVector(d_h->getDim(), 1));
      d_s->initializeLevelData(d_h, 0, t, d_h->levelCanBeRefined(0), true, std::shared_ptr<hier::PatchLevel>(), true);
      d_s->resetHierarchyConfiguration(d_h, 0, 0);
   }
   void tag(int ln, double t, bool initial) {
      if (d_tag < 0) {
         d_tagv = std::make_shared<pdat::CellVariable<int>>(d_h->getDim(), "stand-in tags", 1);
         d_tag = hier::VariableDatabase::getDatabase()->registerVariableAndContext(d_tagv, hier::VariableDatabase::getDatabase()->getContext("TAG"), IntVector(d_h->getDim(), 0));
      }
      auto l = d_h->getPatchLevel(ln);
      l->allocatePatchData(d_tag);
      for (auto& p : *l) std::dynamic_pointer_cast<pdat::CellData<int>>(p->getPatchData(d_tag))->fillAll(0);
      d_s->tagCellsForRefinement(d_h, ln, t, d_tag, initial);
      auto& out = Plan::tags()[ln];
      out.clear();
      for (auto& p : *l) {
         auto c = std::dynamic_pointer_cast<pdat::CellData<int>>(p->getPatchData(d_tag));
         for (const Index& i : p->getBox()) if (c->getArrayData()(i, 0)) { std::vector<int> v; for (int d = 0; d < d_h->getDim().getValue(); d++) v.push_back(i[d]); out.insert(v); }
      }
      l->deallocatePatchData(d_tag);
   }
   void makeFinerLevel(int, bool initial, int, double t) {
      int ln = d_h->getFinestLevelNumber();
      tag(ln, t, initial);
      if (ln + 1 >= (int)Plan::levels().size()) return;
      d_h->addLevel(Plan::levels()[ln + 1].boxes, rv(Plan::levels()[ln + 1]));
      d_s->initializeLevelData(d_h, ln + 1, t, d_h->levelCanBeRefined(ln + 1), initial, std::shared_ptr<hier::PatchLevel>(), true);
      d_s->resetHierarchyConfiguration(d_h, ln + 1, ln + 1);
   }
   template <class... A> void regridAllFinerLevels(int ln0, const std::vector<int>&, int, double t, A...) {
      for (int ln = d_h->getFinestLevelNumber(); ln >= ln0; ln--) if (d_h->levelCanBeRefined(ln)) tag(ln, t, false);
      if (Plan::regrids().empty()) return;
      auto plan = Plan::regrids().front();
      Plan::regrids().erase(Plan::regrids().begin());
      int nold = d_h->getNumberOfLevels();
      for (int ln = ln0 + 1; ln < (int)plan.size(); ln++) {
         auto old = ln < nold ? d_h->getPatchLevel(ln) : std::shared_ptr<hier::PatchLevel>();
         d_h->setLevel(ln, plan[ln].boxes, rv(plan[ln]));
         d_s->initializeLevelData(d_h, ln, t, d_h->levelCanBeRefined(ln), false, old, true);
      }
      d_h->truncate(std::max(ln0 + 1, (int)plan.size()));
      d_s->resetHierarchyConfiguration(d_h, ln0, d_h->getFinestLevelNumber());
   }
   std::shared_ptr<TagAndInitializeStrategy> getTagAndInitializeStrategy() const { return d_s; }
 private:
   std::shared_ptr<hier::PatchHierarchy> d_h;
   std::shared_ptr<TagAndInitializeStrategy> d_s;
   std::shared_ptr<hier::Variable> d_tagv;
   int d_tag = -1;
};
}  // namespace mesh
namespace appu {
class VisItDataWriter {
 public:
   VisItDataWriter(const tbox::Dimension&, const std::string&, const std::string& dir = "", int n = 1, bool = false) : d_dir(dir), d_n(n) {}
   std::string d_dir;
   int d_n;
   struct Dump { std::string dir; int n, cycle; double t; };
   static std::vector<Dump>& dumps() { static std::vector<Dump> d; return d; }
   static std::function<void(const Dump&)>& hook() { static std::function<void(const Dump&)> h; return h; }
   struct Item { std::string name, kind; int id, depth; };
   int registerPlotQuantity(const std::string& n, const std::string& k, int id, int depth = 0, double = 1., const std::string& = "") { d_q.push_back({n, k, id, depth}); return 0; }
   template <class... A> void registerDerivedPlotQuantity(A...) {}
   void writePlotData(const std::shared_ptr<hier::PatchHierarchy>&, int k = 0, double t = 0.) { Dump d{d_dir, d_n, k, t}; dumps().push_back(d); if (hook()) hook()(d); }
   std::vector<Item> d_q;
};
}  // namespace appu
}  // namespace SAMRAI
#endif
