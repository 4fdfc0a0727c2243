#ifndef MINI_PDAT
#define MINI_PDAT
#include "hier.h"
namespace SAMRAI {
namespace pdat {
using hier::Box;
using hier::Index;
using hier::IntVector;

// what freshly allocated data holds
template <class T> inline T& fresh() { static T v = T(); return v; }
template <class T> class ArrayData {
 public:
   ArrayData(const Box& b, unsigned depth) : d_box(b), d_depth(depth), d_v(b.size() * depth, fresh<T>()) { }
   bool isInitialized() const { return true; }
   const Box& getBox() const { return d_box; }
   const tbox::Dimension& getDim() const { return d_box.getDim(); }
   unsigned getDepth() const { return d_depth; }
   size_t getOffset() const { return d_box.size(); }
   T* getPointer(unsigned d = 0) { return d_v.data() + d * d_box.size(); }
   const T* getPointer(unsigned d = 0) const { return d_v.data() + d * d_box.size(); }
   T& operator()(const Index& i, unsigned d) { chk(i, d); return d_v[d_box.offset(i) + d * d_box.size()]; }
   const T& operator()(const Index& i, unsigned d) const { chk(i, d); return d_v[d_box.offset(i) + d * d_box.size()]; }
   void chk(const Index& i, unsigned d) const { if (!d_box.contains(i) || d >= d_depth) throw tbox::Error("array index outside"); }
   void fill(const T& t, unsigned d = 0) { std::fill(getPointer(d), getPointer(d) + d_box.size(), t); }
   void fill(const T& t, const Box& b, unsigned d = 0) { Box c = b * d_box; for (const Index& i : c) (*this)(i, d) = t; }
   void fillAll(const T& t) { std::fill(d_v.begin(), d_v.end(), t); }
   void fillAll(const T& t, const Box& b) { for (unsigned d = 0; d < d_depth; d++) fill(t, b, d); }
   void copy(const ArrayData& s, const Box& b) { copy(s, b, IntVector(b.getDim(), 0)); }
   void copy(const ArrayData& s, const Box& b, const IntVector& shift) { Box c = b * d_box * Box::shift(s.d_box, shift); for (unsigned d = 0; d < d_depth; d++) for (const Index& i : c) (*this)(i, d) = s(i - shift, d); }
   void copyDepth(unsigned dd, const ArrayData& s, unsigned sd, const Box& b) { Box c = b * d_box * s.d_box; for (const Index& i : c) (*this)(i, dd) = s(i, sd); }
   void sum(const ArrayData& s, const Box& b) { Box c = b * d_box * s.d_box; for (unsigned d = 0; d < d_depth; d++) for (const Index& i : c) (*this)(i, d) += s(i, d); }
   void undefineData() {}
   static bool canEstimateStreamSizeFromBox() { return true; }
 private:
   Box d_box;
   unsigned d_depth;
   std::vector<T> d_v;
};
template <class T, class OP> struct ArrayDataOperationUtilities {
   static void doArrayDataOperationOnBox(ArrayData<T>& dst, const ArrayData<T>& src, const Box& b, const IntVector& sh, unsigned dd, unsigned sd, unsigned nd, const OP& op) {
      Box c = b * dst.getBox() * Box::shift(src.getBox(), sh);
      for (unsigned k = 0; k < nd; k++) for (const Index& i : c) op(dst(i, dd + k), src(i - sh, sd + k));
   }
};

// ---- indices ----
class CellIndex : public Index {
 public:
   explicit CellIndex(const tbox::Dimension& d) : Index(d) {}
   explicit CellIndex(const Index& i) : Index(i) {}
   CellIndex(const CellIndex& o) : Index(o) {}
   CellIndex& operator=(const Index& i) { Index::operator=(i); return *this; }
   CellIndex& operator=(const CellIndex& i) { Index::operator=(i); return *this; }
   CellIndex operator+(const IntVector& o) const { CellIndex r(*this); r += o; return r; }
   CellIndex operator-(const IntVector& o) const { CellIndex r(*this); r -= o; return r; }
};
class SideIndex : public Index {
 public:
   enum { X = 0, Y = 1, Z = 2, Lower = 0, Upper = 1, Left = 0, Right = 1, Bottom = 0, Top = 1, Front = 0, Back = 1 };
   explicit SideIndex(const tbox::Dimension& d) : Index(d), d_ax(0) {}
   SideIndex(const Index& c, int ax, int side) : Index(c), d_ax(ax) { (*this)(ax) += side; }
   int getAxis() const { return d_ax; }
   void setAxis(int a) { d_ax = a; }
   CellIndex toCell(int side) const { Index i(*this); i(d_ax) += side - 1; return CellIndex(i); }
   SideIndex& operator+=(const IntVector& o) { IntVector::operator+=(o); return *this; }
 private:
   int d_ax;
};
class FaceIndex : public Index {
 public:
   enum { X = 0, Y = 1, Z = 2, Lower = 0, Upper = 1 };
   FaceIndex(const Index& c, int ax, int side) : Index(c), d_ax(ax) { (*this)(ax) += side; }
   int d_ax;
};
class NodeIndex : public Index { public: explicit NodeIndex(const Index& i) : Index(i) {} };
template <class IDX> class IterT {
 public:
   IterT(const Box& b, bool begin, int ax = 0) : d_it(b, begin), d_ax(ax), d_cur(std::make_shared<IDX>(mk(b.lower()))) {}
   const IDX& operator*() const { d_cur = std::make_shared<IDX>(mk(*d_it)); return *d_cur; }
   const IDX* operator->() const { return &**this; }
   bool operator==(const IterT& o) const { return d_it == o.d_it; }
   bool operator!=(const IterT& o) const { return d_it != o.d_it; }
   IterT& operator++() { ++d_it; return *this; }
   IterT operator++(int) { IterT r(*this); ++d_it; return r; }
 private:
   IDX mk(const Index& i) const { return mk2(i, (IDX*)nullptr); }
   CellIndex mk2(const Index& i, CellIndex*) const { return CellIndex(i); }
   SideIndex mk2(const Index& i, SideIndex*) const { return SideIndex(i, d_ax, 0); }
   hier::BoxIterator d_it;
   int d_ax;
   mutable std::shared_ptr<IDX> d_cur;
};
typedef IterT<CellIndex> CellIterator;
typedef IterT<SideIndex> SideIterator;
struct CellGeometry {
   static CellIterator begin(const Box& b) { return CellIterator(b, true); }
   static CellIterator end(const Box& b) { return CellIterator(b, false); }
   static Box toCellBox(const Box& b) { return b; }
};
struct SideGeometry {
   static Box toSideBox(const Box& b, int d) { Box r(b); if (!b.empty()) r.setUpper(d, r.upper(d) + 1); return r; }
   static SideIterator begin(const Box& b, int ax) { return SideIterator(toSideBox(b, ax), true, ax); }
   static SideIterator end(const Box& b, int ax) { return SideIterator(toSideBox(b, ax), false, ax); }
};
struct NodeGeometry { static Box toNodeBox(const Box& b) { Box r(b); for (int d = 0; d < b.nd(); d++) r.setUpper(d, r.upper(d) + 1); return r; } };

class CellOverlap : public hier::BoxOverlap {
 public:
   CellOverlap(const hier::BoxContainer& b, const hier::Transformation& t) : d_b(b), d_t(t) {}
   const hier::BoxContainer& getDestinationBoxContainer() const { return d_b; }
   const hier::Transformation& getTransformation() const { return d_t; }
   const IntVector& getSourceOffset() const { return d_t.getOffset(); }
   bool isOverlapEmpty() const { return d_b.empty(); }
 private:
   hier::BoxContainer d_b;
   hier::Transformation d_t;
};
class SideOverlap : public hier::BoxOverlap {
 public:
   SideOverlap(const hier::BoxContainer& b) : d_b(b) {}
   const hier::BoxContainer& getDestinationBoxContainer(int) const { return d_b; }
   hier::BoxContainer d_b;
};

// ---- data ----
template <class T> class CellData : public hier::PatchData {
 public:
   CellData(const Box& b, unsigned depth, const IntVector& g) : PatchData(b, g), d_a(d_ghost, depth) {}
   unsigned getDepth() const { return d_a.getDepth(); }
   T* getPointer(unsigned d = 0) { return d_a.getPointer(d); }
   const T* getPointer(unsigned d = 0) const { return d_a.getPointer(d); }
   ArrayData<T>& getArrayData() { return d_a; }
   const ArrayData<T>& getArrayData() const { return d_a; }
   T& operator()(const Index& i, unsigned d = 0) { return d_a(i, d); }
   const T& operator()(const Index& i, unsigned d = 0) const { return d_a(i, d); }
   void fill(const T& t, unsigned d = 0) { d_a.fill(t, d); }
   void fill(const T& t, const Box& b, unsigned d = 0) { d_a.fill(t, b, d); }
   void fillAll(const T& t) { d_a.fillAll(t); }
   void fillAll(const T& t, const Box& b) { d_a.fillAll(t, b); }
   void copy(const hier::PatchData& s) override { const CellData& c = dynamic_cast<const CellData&>(s); d_a.copy(c.d_a, d_ghost * c.d_ghost); }
   void copyOnBox(const hier::PatchData& s, const Box& b, const IntVector& sh) override { d_a.copy(dynamic_cast<const CellData&>(s).d_a, b, sh); }
   void copyDepth(unsigned dd, const CellData& s, unsigned sd) { d_a.copyDepth(dd, s.d_a, sd, d_ghost); }
   std::shared_ptr<hier::PatchData> cloneOn(const Box& b, const IntVector& g) const override { return std::make_shared<CellData>(b, getDepth(), g); }
   void print(const Box&, std::ostream& = tbox::plog, int = 8) const {}
   void print(const Box&, unsigned, std::ostream& = tbox::plog, int = 8) const {}
 private:
   ArrayData<T> d_a;
};
template <class T> class SideData : public hier::PatchData {
 public:
   SideData(const Box& b, unsigned depth, const IntVector& g) : PatchData(b, g), d_dir(b.getDim(), 1) { init(depth); }
   SideData(const Box& b, unsigned depth, const IntVector& g, const IntVector& dir) : PatchData(b, g), d_dir(dir) { init(depth); }
   unsigned getDepth() const { return d_a[0]->getDepth(); }
   const IntVector& getDirectionVector() const { return d_dir; }
   T* getPointer(int side, unsigned d = 0) { return d_a[side]->getPointer(d); }
   const T* getPointer(int side, unsigned d = 0) const { return d_a[side]->getPointer(d); }
   ArrayData<T>& getArrayData(int side) { return *d_a[side]; }
   const ArrayData<T>& getArrayData(int side) const { return *d_a[side]; }
   T& operator()(const SideIndex& i, unsigned d = 0) { return (*d_a[i.getAxis()])(i, d); }
   const T& operator()(const SideIndex& i, unsigned d = 0) const { return (*d_a[i.getAxis()])(i, d); }
   void fill(const T& t, unsigned d = 0) { for (auto& a : d_a) a->fill(t, d); }
   void fill(const T& t, const Box& b, unsigned d = 0) { for (size_t k = 0; k < d_a.size(); k++) d_a[k]->fill(t, SideGeometry::toSideBox(b, k), d); }
   void fillAll(const T& t) { for (auto& a : d_a) a->fillAll(t); }
   void fillAll(const T& t, const Box& b) { for (size_t k = 0; k < d_a.size(); k++) d_a[k]->fillAll(t, SideGeometry::toSideBox(b, k)); }
   void copy(const hier::PatchData& s) override { const SideData& c = dynamic_cast<const SideData&>(s); for (size_t k = 0; k < d_a.size(); k++) d_a[k]->copy(*c.d_a[k], d_a[k]->getBox()); }
   void copyOnBox(const hier::PatchData& s, const Box& b, const IntVector& sh) override { const SideData& c = dynamic_cast<const SideData&>(s); for (size_t k = 0; k < d_a.size(); k++) d_a[k]->copy(*c.d_a[k], SideGeometry::toSideBox(b, k), sh); }
   void copyFrom(const hier::PatchData& s, const Box& b, const Box& clip, const IntVector& sh) override { const SideData& c = dynamic_cast<const SideData&>(s); for (size_t k = 0; k < d_a.size(); k++) { Box x = SideGeometry::toSideBox(b, k) * SideGeometry::toSideBox(clip, k); if (!x.empty()) d_a[k]->copy(*c.d_a[k], x, sh); } }
   void copyDepth(unsigned dd, const SideData& s, unsigned sd) { for (size_t k = 0; k < d_a.size(); k++) d_a[k]->copyDepth(dd, *s.d_a[k], sd, d_a[k]->getBox()); }
   std::shared_ptr<hier::PatchData> cloneOn(const Box& b, const IntVector& g) const override { return std::make_shared<SideData>(b, getDepth(), g, d_dir); }
   void print(const Box&, std::ostream& = tbox::plog, int = 8) const {}
 private:
   void init(unsigned depth) { for (int k = 0; k < d_box.nd(); k++) d_a.push_back(std::make_shared<ArrayData<T>>(SideGeometry::toSideBox(d_ghost, k), depth)); }
   IntVector d_dir;
   std::vector<std::shared_ptr<ArrayData<T>>> d_a;
};
template <class T> class NodeData : public hier::PatchData {
 public:
   NodeData(const Box& b, unsigned depth, const IntVector& g) : PatchData(b, g), d_a(NodeGeometry::toNodeBox(d_ghost), depth) {}
   unsigned getDepth() const { return d_a.getDepth(); }
   T* getPointer(unsigned d = 0) { return d_a.getPointer(d); }
   ArrayData<T>& getArrayData() { return d_a; }
   void fillAll(const T& t) { d_a.fillAll(t); }
   void copy(const hier::PatchData& s) override { d_a.copy(dynamic_cast<const NodeData&>(s).d_a, d_a.getBox()); }
   void copyOnBox(const hier::PatchData& s, const Box& b, const IntVector& sh) override { d_a.copy(dynamic_cast<const NodeData&>(s).d_a, NodeGeometry::toNodeBox(b), sh); }
   std::shared_ptr<hier::PatchData> cloneOn(const Box& b, const IntVector& g) const override { return std::make_shared<NodeData>(b, getDepth(), g); }
 private:
   ArrayData<T> d_a;
};
// data on the sides of the patch boundary only
template <class T> class OutersideData : public hier::PatchData {
 public:
   OutersideData(const Box& b, unsigned depth) : PatchData(b, IntVector(b.getDim(), 0)) {
      for (int k = 0; k < b.nd(); k++) for (int s = 0; s < 2; s++) {
         Box x = SideGeometry::toSideBox(b, k);
         if (s) x.setLower(k, x.upper(k)); else x.setUpper(k, x.lower(k));
         d_a.push_back(std::make_shared<ArrayData<T>>(x, depth));
      }
   }
   unsigned getDepth() const { return d_a[0]->getDepth(); }
   T* getPointer(int axis, int side, unsigned d = 0) { return d_a[2 * axis + side]->getPointer(d); }
   const T* getPointer(int axis, int side, unsigned d = 0) const { return d_a[2 * axis + side]->getPointer(d); }
   ArrayData<T>& getArrayData(int axis, int side) { return *d_a[2 * axis + side]; }
   const ArrayData<T>& getArrayData(int axis, int side) const { return *d_a[2 * axis + side]; }
   void fillAll(const T& t) { for (auto& a : d_a) a->fillAll(t); }
   void copy(const hier::PatchData& s) override {
      if (const SideData<T>* sd = dynamic_cast<const SideData<T>*>(&s)) { for (size_t k = 0; k < d_a.size(); k++) d_a[k]->copy(sd->getArrayData(k / 2), d_a[k]->getBox()); return; }
      const OutersideData& c = dynamic_cast<const OutersideData&>(s); for (size_t k = 0; k < d_a.size(); k++) d_a[k]->copy(*c.d_a[k], d_a[k]->getBox());
   }
   void copyOnBox(const hier::PatchData& s, const Box&, const IntVector&) override { copy(s); }
   std::shared_ptr<hier::PatchData> cloneOn(const Box& b, const IntVector&) const override { return std::make_shared<OutersideData>(b, getDepth()); }
 private:
   std::vector<std::shared_ptr<ArrayData<T>>> d_a;
};
template <class T> class OuterfaceData : public OutersideData<T> { public: using OutersideData<T>::OutersideData; };

// ---- variables ----
template <class T> class CellVariable : public hier::Variable {
 public:
   CellVariable(const tbox::Dimension& d, const std::string& n, int depth = 1) : Variable(n, d), d_depth(depth) {}
   int getDepth() const override { return d_depth; }
   std::shared_ptr<hier::PatchData> make(const Box& b, const IntVector& g) const override { return std::make_shared<CellData<T>>(b, d_depth, g); }
 private:
   int d_depth;
};
template <class T> class SideVariable : public hier::Variable {
 public:
   SideVariable(const tbox::Dimension& d, const std::string& n, int depth = 1, bool = true) : Variable(n, d), d_depth(depth), d_dir(d, 1) {}
   SideVariable(const tbox::Dimension& d, const std::string& n, const IntVector& dir, int depth = 1, bool = true) : Variable(n, d), d_depth(depth), d_dir(dir) {}
   int getDepth() const override { return d_depth; }
   const IntVector& getDirectionVector() const { return d_dir; }
   std::shared_ptr<hier::PatchData> make(const Box& b, const IntVector& g) const override { return std::make_shared<SideData<T>>(b, d_depth, g, d_dir); }
 private:
   int d_depth;
   IntVector d_dir;
};
template <class T> class NodeVariable : public hier::Variable {
 public:
   NodeVariable(const tbox::Dimension& d, const std::string& n, int depth = 1, bool = true) : Variable(n, d), d_depth(depth) {}
   std::shared_ptr<hier::PatchData> make(const Box& b, const IntVector& g) const override { return std::make_shared<NodeData<T>>(b, d_depth, g); }
   int getDepth() const override { return d_depth; }
 private:
   int d_depth;
};
template <class T> class OutersideVariable : public hier::Variable {
 public:
   OutersideVariable(const tbox::Dimension& d, const std::string& n, int depth = 1) : Variable(n, d), d_depth(depth) {}
   std::shared_ptr<hier::PatchData> make(const Box& b, const IntVector&) const override { return std::make_shared<OutersideData<T>>(b, d_depth); }
   int getDepth() const override { return d_depth; }
 private:
   int d_depth;
};

// ---- the transfer operators AMPE asks for by name ----
template <class F> static void for_boxes(const hier::BoxOverlap& ov, F f) { for (const Box& b : dynamic_cast<const CellOverlap&>(ov).getDestinationBoxContainer()) f(b); }
template <class T> class CellConstantRefine : public hier::RefineOperator {
 public:
   CellConstantRefine() : RefineOperator("CONSTANT_REFINE") {}
   int getOperatorPriority() const override { return 0; }
   IntVector getStencilWidth(const tbox::Dimension& d) const override { return IntVector(d, 0); }
   void refine(hier::Patch& f, const hier::Patch& c, const int dst, const int src, const hier::BoxOverlap& ov, const IntVector& r) const override {
      auto fd = std::dynamic_pointer_cast<CellData<T>>(f.getPatchData(dst)), cd = std::dynamic_pointer_cast<CellData<T>>(c.getPatchData(src));
      for_boxes(ov, [&](const Box& b) { Box x = b * fd->getGhostBox(); for (unsigned d = 0; d < fd->getDepth(); d++) for (const Index& i : x) (*fd)(i, d) = (*cd)(Index::coarsen(i, r), d); });
   }
};
typedef CellConstantRefine<double> CellDoubleConstantRefine;
// (multi)linear interpolation from the coarse cell centres
class CellDoubleLinearRefine : public hier::RefineOperator {
 public:
   CellDoubleLinearRefine(const std::string& n = "LINEAR_REFINE") : RefineOperator(n) {}
   int getOperatorPriority() const override { return 0; }
   IntVector getStencilWidth(const tbox::Dimension& d) const override { return IntVector(d, 1); }
   void refine(hier::Patch& f, const hier::Patch& c, const int dst, const int src, const hier::BoxOverlap& ov, const IntVector& r) const override {
      auto fd = std::dynamic_pointer_cast<CellData<double>>(f.getPatchData(dst)), cd = std::dynamic_pointer_cast<CellData<double>>(c.getPatchData(src));
      for_boxes(ov, [&](const Box& b) {
         Box x = b * fd->getGhostBox();
         for (unsigned d = 0; d < fd->getDepth(); d++) for (const Index& i : x) {
            Index ci = Index::coarsen(i, r);
            double v = 0.;
            int nd = b.nd();
            for (int k = 0; k < (1 << nd); k++) {
               double w = 1.;
               Index j(ci);
               for (int e = 0; e < nd; e++) {
                  double off = (i[e] - ci[e] * r[e] + .5) / r[e] - .5;
                  int s = off < 0 ? -1 : 1;
                  if ((k >> e) & 1) { w *= std::fabs(off); j[e] += s; } else w *= 1. - std::fabs(off);
               }
               if (w != 0.) v += w * (*cd)(j, d);
            }
            (*fd)(i, d) = v;
         }
      });
   }
};
template <class T> class CellConservativeCoarsen : public hier::CoarsenOperator {
 public:
   CellConservativeCoarsen() : CoarsenOperator("CONSERVATIVE_COARSEN") {}
   int getOperatorPriority() const override { return 0; }
   IntVector getStencilWidth(const tbox::Dimension& d) const override { return IntVector(d, 0); }
   void coarsen(hier::Patch& c, const hier::Patch& f, const int dst, const int src, const Box& cb, const IntVector& r) const override {
      auto cp = c.getPatchData(dst), fp = f.getPatchData(src);
      if (auto cd = std::dynamic_pointer_cast<CellData<T>>(cp)) {
         auto fd = std::dynamic_pointer_cast<CellData<T>>(fp);
         for (unsigned d = 0; d < cd->getDepth(); d++) for (const Index& i : cb) {
            Box fb(i, i); fb.refine(r);
            T s = T(); for (const Index& j : fb) s += (*fd)(j, d);
            (*cd)(i, d) = s / (double)fb.size();
         }
      } else if (auto cd = std::dynamic_pointer_cast<SideData<T>>(cp)) {
         auto fd = std::dynamic_pointer_cast<SideData<T>>(fp);
         side(cb, r, cd->getDepth(), [&](int k, const Index& i, const Box& fb, unsigned d) { T s = T(); for (const Index& j : fb) s += fd->getArrayData(k)(j, d); cd->getArrayData(k)(i, d) = s / (double)fb.size(); });
      } else throw tbox::Error("conservative coarsen of other data");
   }
   template <class F> static void side(const Box& cb, const IntVector& r, unsigned depth, F f) {
      for (int k = 0; k < cb.nd(); k++) { Box sb = SideGeometry::toSideBox(cb, k);
         for (unsigned d = 0; d < depth; d++) for (const Index& i : sb) { Box fb(i, i); fb.refine(r); fb.setUpper(k, fb.lower(k)); f(k, i, fb, d); } }
   }
};
class OutersideConservativeCoarsen : public hier::CoarsenOperator {
 public:
   OutersideConservativeCoarsen() : CoarsenOperator("CONSERVATIVE_COARSEN") {}
   int getOperatorPriority() const override { return 0; }
   IntVector getStencilWidth(const tbox::Dimension& d) const override { return IntVector(d, 0); }
   void coarsen(hier::Patch& c, const hier::Patch& f, const int dst, const int src, const Box& cb, const IntVector& r) const override {
      auto fd = std::dynamic_pointer_cast<OutersideData<double>>(f.getPatchData(src));
      auto sd = std::dynamic_pointer_cast<SideData<double>>(c.getPatchData(dst));
      auto od = std::dynamic_pointer_cast<OutersideData<double>>(c.getPatchData(dst));
      for (int k = 0; k < cb.nd(); k++) for (int s = 0; s < 2; s++) {
         ArrayData<double>& fa = fd->getArrayData(k, s);
         Box sb = fa.getBox(); sb.coarsen(r);
         ArrayData<double>& ca = sd ? sd->getArrayData(k) : od->getArrayData(k, s);
         sb = sb * ca.getBox();
         for (unsigned d = 0; d < fd->getDepth(); d++) for (const Index& i : sb) {
            Box fb(i, i); fb.refine(r); fb.setUpper(k, fb.lower(k));
            fb = fb * fa.getBox();
            double v = 0; for (const Index& j : fb) v += fa(j, d);
            if (fb.size()) ca(i, d) = v / (double)fb.size();
         }
      }
   }
};
}  // namespace pdat

namespace hier {
inline std::shared_ptr<RefineOperator> BaseGridGeometry::lookupRefineOperator(const std::shared_ptr<Variable>& v, const std::string& n) {
   if (n == "NO_REFINE" || n.empty()) return nullptr;
   auto i = d_rops.find(n);
   if (i != d_rops.end()) return i->second;
   bool isint = (bool)std::dynamic_pointer_cast<pdat::CellVariable<int>>(v);
   if (n == "CONSTANT_REFINE") return isint ? std::shared_ptr<RefineOperator>(new pdat::CellConstantRefine<int>()) : std::shared_ptr<RefineOperator>(new pdat::CellConstantRefine<double>());
   if (n == "LINEAR_REFINE" || n == "CONSERVATIVE_LINEAR_REFINE") return std::make_shared<pdat::CellDoubleLinearRefine>(n);
   throw tbox::Error("no refine operator " + n);
}
inline std::shared_ptr<CoarsenOperator> BaseGridGeometry::lookupCoarsenOperator(const std::shared_ptr<Variable>& v, const std::string& n) {
   if (n == "NO_COARSEN" || n.empty()) return nullptr;
   auto i = d_cops.find(n);
   if (i != d_cops.end()) return i->second;
   if (n == "CONSERVATIVE_COARSEN") {
      if (std::dynamic_pointer_cast<pdat::OutersideVariable<double>>(v)) return std::make_shared<pdat::OutersideConservativeCoarsen>();
      return std::make_shared<pdat::CellConservativeCoarsen<double>>();
   }
   throw tbox::Error("no coarsen operator " + n);
}
}  // namespace hier

namespace geom {
class CartesianPatchGeometry : public hier::PatchGeometry {
 public:
   CartesianPatchGeometry(const hier::Box& b, const std::vector<char>& t, const double* dx, const double* xlo) : PatchGeometry(b, t) {
      for (int d = 0; d < b.nd(); d++) { d_dx[d] = dx[d]; d_lo[d] = xlo[d]; d_up[d] = xlo[d] + dx[d] * b.numberCells(d); }
   }
   const double* getDx() const { return d_dx; }
   const double* getXLower() const { return d_lo; }
   const double* getXUpper() const { return d_up; }
 private:
   double d_dx[3], d_lo[3], d_up[3];
};
class CartesianGridGeometry : public hier::BaseGridGeometry {
 public:
   CartesianGridGeometry(const std::string& n, const double* xlo, const double* xup, const hier::BoxContainer& dom) : BaseGridGeometry(n, dom) { init(xlo, xup); }
   CartesianGridGeometry(const tbox::Dimension& d, const std::string& n, const std::shared_ptr<tbox::Database>& db, bool = true) : BaseGridGeometry(n, hier::BoxContainer(domain(d, db))) {
      std::vector<double> a = db->getDoubleVector("x_lo"), b = db->getDoubleVector("x_up");
      init(a.data(), b.data());
      std::vector<int> p = db->getIntegerVector("periodic_dimension");
      hier::IntVector v(d, 0);
      for (int k = 0; k < d.getValue(); k++) v[k] = p.at(k);
      initializePeriodicShift(v);
   }
   static hier::Box domain(const tbox::Dimension& d, const std::shared_ptr<tbox::Database>& db) {
      tbox::DatabaseBox x = db->getDatabaseBox("domain_boxes");
      hier::Index lo(d, 0), hi(d, 0);
      for (int k = 0; k < d.getValue(); k++) { lo[k] = x.lower(k); hi[k] = x.upper(k); }
      return hier::Box(lo, hi, hier::BlockId::zero());
   }
   const double* getDx() const { return d_dx; }
   const double* getXLower() const { return d_lo; }
   const double* getXUpper() const { return d_up; }
   std::shared_ptr<hier::PatchGeometry> makeGeometry(const hier::Box& b, const hier::IntVector& ratio) const override {
      double dx[3], lo[3];
      hier::Box dom = getPhysicalDomain().getBoundingBox();
      for (int d = 0; d < b.nd(); d++) { dx[d] = d_dx[d] / ratio[d]; lo[d] = d_lo[d] + dx[d] * (b.lower(d) - dom.lower(d) * ratio[d]); }
      return std::make_shared<CartesianPatchGeometry>(b, touches(b, ratio), dx, lo);
   }
 private:
   void init(const double* a, const double* b) { for (int d = 0; d < getDim().getValue(); d++) { d_lo[d] = a[d]; d_up[d] = b[d]; d_dx[d] = (b[d] - a[d]) / getPhysicalDomain().getBoundingBox().numberCells(d); } }
   double d_dx[3], d_lo[3], d_up[3];
};
}  // namespace geom
}  // namespace SAMRAI
#endif
