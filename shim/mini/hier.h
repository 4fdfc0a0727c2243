#ifndef MINI_HIER
#define MINI_HIER
#include "tbox.h"
namespace SAMRAI {
namespace hier {
class BlockId {
 public:
   explicit BlockId(unsigned v = 0) : d_v(v) {}
   static const BlockId& zero() { static BlockId b(0); return b; }
   unsigned getBlockValue() const { return d_v; }
   bool operator==(const BlockId& o) const { return d_v == o.d_v; }
   bool operator!=(const BlockId& o) const { return d_v != o.d_v; }
   bool operator<(const BlockId& o) const { return d_v < o.d_v; }
 private:
   unsigned d_v;
};
class LocalId {
 public:
   explicit LocalId(int v = -1) : d_v(v) {}
   int getValue() const { return d_v; }
   bool operator==(const LocalId& o) const { return d_v == o.d_v; }
   bool operator<(const LocalId& o) const { return d_v < o.d_v; }
   static const LocalId& getZero() { static LocalId z(0); return z; }
   int d_v;
};
inline std::ostream& operator<<(std::ostream& s, const LocalId& d) { return s << d.getValue(); }
class GlobalId {
 public:
   GlobalId(const LocalId& l = LocalId(0), int r = 0) : d_l(l), d_r(r) {}
   const LocalId& getLocalId() const { return d_l; }
   int getOwnerRank() const { return d_r; }
   bool operator==(const GlobalId& o) const { return d_l == o.d_l; }
   bool operator<(const GlobalId& o) const { return d_l < o.d_l; }
   LocalId d_l;
   int d_r;
};
typedef GlobalId BoxId;

class IntVector {
 public:
   explicit IntVector(const tbox::Dimension& d) : d_dim(d) { d_v[0] = d_v[1] = d_v[2] = 0; }
   IntVector(const tbox::Dimension& d, int v) : d_dim(d) { d_v[0] = d_v[1] = d_v[2] = v; }
   IntVector(const tbox::Dimension& d, const int a[]) : d_dim(d) { for (int i = 0; i < 3; i++) d_v[i] = i < d.getValue() ? a[i] : 0; }
   IntVector(int i, int j) : d_dim(2) { d_v[0] = i; d_v[1] = j; d_v[2] = 0; }
   IntVector(int i, int j, int k) : d_dim(3) { d_v[0] = i; d_v[1] = j; d_v[2] = k; }
   static IntVector getZero(const tbox::Dimension& d) { return IntVector(d, 0); }
   static IntVector getOne(const tbox::Dimension& d) { return IntVector(d, 1); }
   const tbox::Dimension& getDim() const { return d_dim; }
   int& operator[](unsigned i) { return d_v[i]; }
   const int& operator[](unsigned i) const { return d_v[i]; }
   int& operator()(unsigned i) { return d_v[i]; }
   const int& operator()(unsigned i) const { return d_v[i]; }
   int n() const { return d_dim.getValue(); }
#define MINI_OP(op) \
   IntVector& operator op##=(const IntVector& o) { for (int i = 0; i < n(); i++) d_v[i] op##= o.d_v[i]; return *this; } \
   IntVector& operator op##=(int o) { for (int i = 0; i < n(); i++) d_v[i] op##= o; return *this; } \
   IntVector operator op(const IntVector& o) const { IntVector r(*this); r op##= o; return r; } \
   IntVector operator op(int o) const { IntVector r(*this); r op##= o; return r; }
   MINI_OP(+) MINI_OP(-) MINI_OP(*) MINI_OP(/)
#undef MINI_OP
   IntVector operator-() const { return *this * (-1); }
#define MINI_CMP(op) bool operator op(const IntVector& o) const { bool r = true; for (int i = 0; i < n(); i++) r = r && d_v[i] op o.d_v[i]; return r; } \
   bool operator op(int o) const { bool r = true; for (int i = 0; i < n(); i++) r = r && d_v[i] op o; return r; }
   MINI_CMP(==) MINI_CMP(>) MINI_CMP(<) MINI_CMP(>=) MINI_CMP(<=)
#undef MINI_CMP
   bool operator!=(const IntVector& o) const { return !(*this == o); }
   bool operator!=(int o) const { return !(*this == o); }
   int max() const { return *std::max_element(d_v, d_v + n()); }
   int min() const { return *std::min_element(d_v, d_v + n()); }
   IntVector& max(const IntVector& o) { for (int i = 0; i < n(); i++) d_v[i] = std::max(d_v[i], o.d_v[i]); return *this; }
   IntVector& min(const IntVector& o) { for (int i = 0; i < n(); i++) d_v[i] = std::min(d_v[i], o.d_v[i]); return *this; }
   static IntVector max(const IntVector& a, const IntVector& b) { IntVector r(a); r.max(b); return r; }
   static IntVector min(const IntVector& a, const IntVector& b) { IntVector r(a); r.min(b); return r; }
   int getProduct() const { int p = 1; for (int i = 0; i < n(); i++) p *= d_v[i]; return p; }
   IntVector& ceilingDivide(const IntVector& o) { for (int i = 0; i < n(); i++) d_v[i] = d_v[i] >= 0 ? (d_v[i] + o[i] - 1) / o[i] : -((-d_v[i]) / o[i]); return *this; }
   static IntVector ceilingDivide(const IntVector& a, const IntVector& b) { IntVector r(a); return r.ceilingDivide(b); }
   int getNumBlocks() const { return 1; }
 protected:
   int d_v[3];
   tbox::Dimension d_dim;
};
inline std::ostream& operator<<(std::ostream& s, const IntVector& v) { for (int i = 0; i < v.n(); i++) s << (i ? "," : "(") << v[i]; return s << ")"; }

class Index : public IntVector {
 public:
   using IntVector::IntVector;
   Index(const IntVector& v) : IntVector(v) {}
   static Index getZeroIndex(const tbox::Dimension& d) { return Index(d, 0); }
   static Index getOneIndex(const tbox::Dimension& d) { return Index(d, 1); }
   Index operator+(const IntVector& o) const { Index r(*this); r += o; return r; }
   Index operator-(const IntVector& o) const { Index r(*this); r -= o; return r; }
   Index operator*(const IntVector& o) const { Index r(*this); r *= o; return r; }
   Index operator+(int o) const { Index r(*this); r += o; return r; }
   Index operator-(int o) const { Index r(*this); r -= o; return r; }
   Index operator*(int o) const { Index r(*this); r *= o; return r; }
   Index& coarsen(const IntVector& r) { for (int i = 0; i < n(); i++) d_v[i] = fl(d_v[i], r[i]); return *this; }
   static Index coarsen(const Index& i, const IntVector& r) { Index x(i); return x.coarsen(r); }
   static Index min(const Index& a, const Index& b) { Index r(a); for (int i = 0; i < r.n(); i++) r[i] = std::min(a[i], b[i]); return r; }
   static Index max(const Index& a, const Index& b) { Index r(a); for (int i = 0; i < r.n(); i++) r[i] = std::max(a[i], b[i]); return r; }
   static int fl(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
   using IntVector::min;
   using IntVector::max;
};

class Box {
 public:
   typedef tbox::Dimension::dir_t dir_t;
   explicit Box(const tbox::Dimension& d) : d_lo(d, 0), d_hi(d, -1), d_id(LocalId(-1)) {}
   Box(const Index& l, const Index& u, const BlockId& b = BlockId::zero()) : d_lo(l), d_hi(u), d_block(b) {}
   Box(const Box& b, const LocalId& l, int r) : d_lo(b.d_lo), d_hi(b.d_hi), d_id(l, r) {}
   const tbox::Dimension& getDim() const { return d_lo.getDim(); }
   const Index& lower() const { return d_lo; }
   const Index& upper() const { return d_hi; }
   Index& lower() { return d_lo; }
   Index& upper() { return d_hi; }
   const int& lower(dir_t d) const { return d_lo[d]; }
   const int& upper(dir_t d) const { return d_hi[d]; }
   int& lower(dir_t d) { return d_lo[d]; }
   int& upper(dir_t d) { return d_hi[d]; }
   void setLower(const Index& i) { d_lo = i; }
   void setUpper(const Index& i) { d_hi = i; }
   void setLower(dir_t d, int i) { d_lo[d] = i; }
   void setUpper(dir_t d, int i) { d_hi[d] = i; }
   void setEmpty() { d_lo = Index(getDim(), 0); d_hi = Index(getDim(), -1); }
   const BlockId& getBlockId() const { return d_block; }
   void setBlockId(const BlockId& b) { d_block = b; }
   const LocalId& getLocalId() const { return d_id.d_l; }
   const GlobalId& getGlobalId() const { return d_id; }
   const BoxId& getBoxId() const { return d_id; }
   int getOwnerRank() const { return 0; }
   bool empty() const { for (int i = 0; i < nd(); i++) if (d_hi[i] < d_lo[i]) return true; return false; }
   bool isEmpty() const { return empty(); }
   int numberCells(dir_t d) const { return empty() ? 0 : d_hi[d] - d_lo[d] + 1; }
   IntVector numberCells() const { IntVector r(getDim(), 0); if (!empty()) for (int i = 0; i < nd(); i++) r[i] = d_hi[i] - d_lo[i] + 1; return r; }
   size_t size() const { if (empty()) return 0; size_t s = 1; for (int i = 0; i < nd(); i++) s *= d_hi[i] - d_lo[i] + 1; return s; }
   size_t offset(const Index& p) const { size_t s = 0; for (int d = nd() - 1; d >= 0; d--) s = s * numberCells(d) + (p[d] - d_lo[d]); return s; }
   Index index(size_t off) const { Index r(getDim()); for (int d = 0; d < nd(); d++) { int k = numberCells(d); r[d] = d_lo[d] + (int)(off % k); off /= k; } return r; }
   bool contains(const Index& p) const { for (int i = 0; i < nd(); i++) if (p[i] < d_lo[i] || p[i] > d_hi[i]) return false; return true; }
   bool contains(const Box& b) const { return b.empty() || (contains(b.d_lo) && contains(b.d_hi)); }
   Box operator*(const Box& o) const { Box r(*this); r.d_lo = Index::max(d_lo, o.d_lo); r.d_hi = Index::min(d_hi, o.d_hi); return r; }
   Box& operator*=(const Box& o) { return *this = *this * o; }
   void intersect(const Box& o, Box& r) const { r = *this * o; }
   bool intersects(const Box& o) const { return !(*this * o).empty(); }
   Box operator+(const Box& o) const { if (empty()) return o; if (o.empty()) return *this; Box r(*this); r.d_lo = Index::min(d_lo, o.d_lo); r.d_hi = Index::max(d_hi, o.d_hi); return r; }
   Box& operator+=(const Box& o) { return *this = *this + o; }
   bool isSpatiallyEqual(const Box& o) const { return (empty() && o.empty()) || (d_lo == o.d_lo && d_hi == o.d_hi); }
   bool operator==(const Box& o) const { return isSpatiallyEqual(o); }
   bool operator!=(const Box& o) const { return !isSpatiallyEqual(o); }
   void grow(const IntVector& g) { if (!empty()) { d_lo -= g; d_hi += g; } }
   void grow(dir_t d, int g) { if (!empty()) { d_lo[d] -= g; d_hi[d] += g; } }
   void growLower(dir_t d, int g) { if (!empty()) d_lo[d] -= g; }
   void growUpper(dir_t d, int g) { if (!empty()) d_hi[d] += g; }
   void growLower(const IntVector& g) { if (!empty()) d_lo -= g; }
   void growUpper(const IntVector& g) { if (!empty()) d_hi += g; }
   void lengthen(dir_t d, int g) { if (g > 0) d_hi[d] += g; else d_lo[d] += g; }
   void shorten(dir_t d, int g) { if (g > 0) d_hi[d] -= g; else d_lo[d] -= g; }
   void shift(const IntVector& g) { d_lo += g; d_hi += g; }
   void shift(dir_t d, int g) { d_lo[d] += g; d_hi[d] += g; }
   void refine(const IntVector& r) { for (int i = 0; i < nd(); i++) { d_lo[i] *= r[i]; d_hi[i] = d_hi[i] * r[i] + r[i] - 1; } }
   void coarsen(const IntVector& r) { d_lo.coarsen(r); d_hi.coarsen(r); }
   static Box grow(const Box& b, const IntVector& g) { Box r(b); r.grow(g); return r; }
   static Box shift(const Box& b, const IntVector& g) { Box r(b); r.shift(g); return r; }
   static Box refine(const Box& b, const IntVector& g) { Box r(b); r.refine(g); return r; }
   static Box coarsen(const Box& b, const IntVector& g) { Box r(b); r.coarsen(g); return r; }
   static Box getEmptyBox(const tbox::Dimension& d) { return Box(d); }
   int nd() const { return getDim().getValue(); }
   dir_t longestDirection() const { dir_t b = 0; for (int i = 1; i < nd(); i++) if (numberCells(i) > numberCells(b)) b = i; return b; }
   // iteration in column-major order
   class iterator {
    public:
      iterator(const Box& b, bool begin) : d_lo(b.d_lo), d_hi(b.d_hi), d_i(b.d_lo), d_k(begin ? 0 : b.size()) {}
      const Index& operator*() const { return d_i; }
      const Index* operator->() const { return &d_i; }
      bool operator==(const iterator& o) const { return d_k == o.d_k; }
      bool operator!=(const iterator& o) const { return d_k != o.d_k; }
      iterator& operator++() {
         ++d_k;
         for (int d = 0; d < d_i.getDim().getValue(); d++) { if (++d_i[d] <= d_hi[d]) return *this; d_i[d] = d_lo[d]; }
         return *this;
      }
      iterator operator++(int) { iterator r(*this); ++*this; return r; }
    private:
      Index d_lo, d_hi, d_i;
      size_t d_k;
   };
   iterator begin() const { return iterator(*this, true); }
   iterator end() const { return iterator(*this, false); }
   Index d_lo, d_hi;
   BlockId d_block;
   GlobalId d_id;
};
typedef Box::iterator BoxIterator;
inline std::ostream& operator<<(std::ostream& s, const Box& b) { return s << "[" << b.lower() << "," << b.upper() << "]"; }

class BoxContainer : public std::list<Box> {
 public:
   BoxContainer() {}
   BoxContainer(const Box& b) { push_back(b); }
   typedef std::list<Box>::iterator iterator;
   typedef std::list<Box>::const_iterator const_iterator;
   void pushBack(const Box& b) { push_back(b); }
   void pushFront(const Box& b) { push_front(b); }
   bool isEmpty() const { return empty(); }
   void refine(const IntVector& r) { for (Box& b : *this) b.refine(r); }
   void coarsen(const IntVector& r) { for (Box& b : *this) b.coarsen(r); }
   void grow(const IntVector& r) { for (Box& b : *this) b.grow(r); }
   void shift(const IntVector& r) { for (Box& b : *this) b.shift(r); }
   Box getBoundingBox() const { Box r(front()); for (const Box& b : *this) r = r + b; return r; }
   Box getBoundingBox(const BlockId&) const { return getBoundingBox(); }
   bool boxesIntersect() const { for (auto i = begin(); i != end(); ++i) { auto j = i; for (++j; j != end(); ++j) if (i->intersects(*j)) return true; } return false; }
   bool contains(const Index& i, const BlockId&) const { for (const Box& b : *this) if (b.contains(i)) return true; return false; }
   void intersectBoxes(const Box& o) { for (auto i = begin(); i != end();) { *i = *i * o; if (i->empty()) i = erase(i); else ++i; } }
   // remove the cells of o
   void removeIntersections(const Box& o) {
      std::list<Box> out;
      for (const Box& b0 : *this) {
         Box b(b0);
         if (!b.intersects(o)) { out.push_back(b); continue; }
         for (int d = 0; d < b.nd(); d++) {
            if (b.lower(d) < o.lower(d)) { Box x(b); x.setUpper(d, o.lower(d) - 1); out.push_back(x); b.setLower(d, o.lower(d)); }
            if (b.upper(d) > o.upper(d)) { Box x(b); x.setLower(d, o.upper(d) + 1); out.push_back(x); b.setUpper(d, o.upper(d)); }
         }
      }
      std::list<Box>::operator=(out);
   }
   void removeIntersections(const BoxContainer& o) { for (const Box& b : o) removeIntersections(b); }
   void intersectBoxes(const BoxContainer& o) { std::list<Box> out; for (const Box& a : *this) for (const Box& b : o) { Box c = a * b; if (!c.empty()) out.push_back(c); } std::list<Box>::operator=(out); }
   template <class... A> void print(std::ostream&, A...) const {}
   template <class... A> void print(A...) const {}
   void coalesce() {}
   void simplify() {}
   size_t getTotalSizeOfBoxes() const { size_t s = 0; for (const Box& b : *this) s += b.size(); return s; }
   void order() {}
   void unorder() {}
};
class Transformation {
 public:
   explicit Transformation(const IntVector& o) : d_o(o) {}
   const IntVector& getOffset() const { return d_o; }
   IntVector d_o;
};
class BoxOverlap { public: virtual ~BoxOverlap() {} };
class BoxGeometry { public: virtual ~BoxGeometry() {} };

class BoundaryBox {
 public:
   explicit BoundaryBox(const tbox::Dimension& d) : d_box(d), d_type(-1), d_loc(-1) {}
   BoundaryBox(const Box& b, int type, int loc) : d_box(b), d_type(type), d_loc(loc) {}
   const Box& getBox() const { return d_box; }
   int getBoundaryType() const { return d_type; }
   int getLocationIndex() const { return d_loc; }
   bool getIsMultiblockSingularity() const { return false; }
   void setIsMultiblockSingularity(bool) {}
   tbox::Dimension getDim() const { return d_box.getDim(); }
   enum MultiblockBoundaryType {};
 private:
   Box d_box;
   int d_type, d_loc;
};
class BoundaryBoxUtils {
 public:
   explicit BoundaryBoxUtils(const BoundaryBox& b) : d_b(b), d_o(b.getDim(), 0) { outer(); }
   void setBoundaryBox(const BoundaryBox& b) { d_b = b; outer(); }
   const BoundaryBox& getBoundaryBox() const { return d_b; }
   const IntVector& getOuterVector() const { return d_o; }
   // stretch in the outward directions to the ghost width
   void stretchBoxToGhostWidth(Box& out, const IntVector& gcw) const {
      out = d_b.getBox();
      for (int d = 0; d < out.nd(); d++) {
         if (d_o[d] == -1) { if (gcw[d] > 1) out.growLower(d, gcw[d] - 1); }
         else if (d_o[d] == 1) { if (gcw[d] > 1) out.growUpper(d, gcw[d] - 1); }
      }
   }
   void extendBoxOutward(Box& out, const IntVector& g) const { stretchBoxToGhostWidth(out, g + 1); }
   // remove the parts, parallel to the boundary, that are outside the limit
   BoundaryBox trimBoundaryBox(const Box& limit) const {
      Box b(d_b.getBox());
      for (int d = 0; d < b.nd(); d++)
         if (d_o[d] == 0) { b.setLower(d, std::max(b.lower(d), limit.lower(d))); b.setUpper(d, std::min(b.upper(d), limit.upper(d))); }
      return BoundaryBox(b, d_b.getBoundaryType(), d_b.getLocationIndex());
   }
   // a box of sides: the boundary box as node-centered in the normal direction
   Box getSurfaceBoxFromBoundaryBox() const {
      Box s(d_b.getBox());
      int loc = d_b.getLocationIndex();
      if (d_b.getBoundaryType() != 1) throw tbox::Error("surface box of a codimension>1 boundary");
      int d = loc / 2;
      if (loc % 2) s.setUpper(d, s.lower(d)); else s.setLower(d, s.upper(d) + 1), s.setUpper(d, s.lower(d));
      return s;
   }
 private:
   void outer() {
      int nd = d_b.getDim().getValue(), t = d_b.getBoundaryType(), l = d_b.getLocationIndex();
      d_o = IntVector(d_b.getDim(), 0);
      if (t == 1) { d_o[l / 2] = l % 2 ? 1 : -1; }
      else if (t == nd) { for (int d = 0; d < nd; d++) d_o[d] = (l >> d) & 1 ? 1 : -1; }
      else { // edges in 3D: 0..3 YZ-normal (along x), 4..7 along y, 8..11 along z
         int ax = l / 4, k = l % 4, a = ax == 0 ? 1 : 0, b = ax == 2 ? 1 : 2;
         d_o[a] = k & 1 ? 1 : -1; d_o[b] = k & 2 ? 1 : -1;
      }
   }
   BoundaryBox d_b;
   IntVector d_o;
};

class PatchGeometry {
 public:
   PatchGeometry(const Box& b, const std::vector<char>& touch) : d_b(b), d_touch(touch) { makeBoundaries(); }
   virtual ~PatchGeometry() {}
   bool getTouchesRegularBoundary(int axis, int side) const { return d_touch[2 * axis + side]; }
   bool getTouchesRegularBoundary() const { for (char c : d_touch) if (c) return true; return false; }
   bool intersectsPhysicalBoundary() const { return getTouchesRegularBoundary(); }
   const std::vector<BoundaryBox>& getCodimensionBoundaries(int codim) const { return d_bb[codim - 1]; }
   const std::vector<BoundaryBox>& getEdgeBoundaries() const { return d_bb[d_b.nd() == 2 ? 0 : 1]; }
   const std::vector<BoundaryBox>& getFaceBoundaries() const { return d_bb[0]; }
   const std::vector<BoundaryBox>& getNodeBoundaries() const { return d_bb[d_b.nd() - 1]; }
   Box getBoundaryFillBox(const BoundaryBox& bb, const Box& pbox, const IntVector& gcw) const {
      Box r(bb.getBox());
      BoundaryBoxUtils u(bb);
      u.stretchBoxToGhostWidth(r, gcw);
      Box g(pbox);
      g.grow(gcw);
      return r * g;
   }
   Box d_b;
   std::vector<char> d_touch;
 private:
   void makeBoundaries() {
      int nd = d_b.nd();
      d_bb.resize(nd);
      int tot = 1;
      for (int d = 0; d < nd; d++) tot *= 3;
      for (int k = 0; k < tot; k++) {
         int o[3] = {0, 0, 0}, c = k, cod = 0;
         for (int d = 0; d < nd; d++) { o[d] = c % 3 - 1; c /= 3; cod += o[d] != 0; }
         if (!cod) continue;
         bool all = true;
         for (int d = 0; d < nd; d++) if (o[d] && !d_touch[2 * d + (o[d] > 0)]) all = false;
         if (!all) continue;
         Box b(d_b);
         for (int d = 0; d < nd; d++) {
            if (o[d] < 0) { b.setUpper(d, d_b.lower(d) - 1); b.setLower(d, d_b.lower(d) - 1); }
            if (o[d] > 0) { b.setLower(d, d_b.upper(d) + 1); b.setUpper(d, d_b.upper(d) + 1); }
            // along a wall, boundary boxes stick out past the patch where the domain goes on
            if (o[d] == 0) { if (!d_touch[2 * d]) b.setLower(d, d_b.lower(d) - 1); if (!d_touch[2 * d + 1]) b.setUpper(d, d_b.upper(d) + 1); }
         }
         int loc = 0;
         if (cod == 1) { for (int d = 0; d < nd; d++) if (o[d]) loc = 2 * d + (o[d] > 0); }
         else if (cod == nd) { for (int d = 0; d < nd; d++) loc |= (o[d] > 0) << d; }
         else { int ax = 0; for (int d = 0; d < 3; d++) if (!o[d]) ax = d; int a = ax == 0 ? 1 : 0, bb = ax == 2 ? 1 : 2; loc = 4 * ax + (o[a] > 0) + 2 * (o[bb] > 0); }
         d_bb[cod - 1].push_back(BoundaryBox(b, cod, loc));
      }
      for (auto& v : d_bb) std::stable_sort(v.begin(), v.end(), [](const BoundaryBox& x, const BoundaryBox& y) { return x.getLocationIndex() < y.getLocationIndex(); });
   }
   std::vector<std::vector<BoundaryBox>> d_bb;
};

class PatchData {
 public:
   PatchData(const Box& b, const IntVector& g) : d_box(b), d_ghost(Box::grow(b, g)), d_g(g) {}
   virtual ~PatchData() {}
   const Box& getBox() const { return d_box; }
   const Box& getGhostBox() const { return d_ghost; }
   const IntVector& getGhostCellWidth() const { return d_g; }
   const tbox::Dimension& getDim() const { return d_box.getDim(); }
   void setTime(double t) { d_t = t; }
   double getTime() const { return d_t; }
   virtual void copy(const PatchData&) = 0;
   // copy the values of src shifted by `shift`, on the given cell box of the destination
   virtual void copyOnBox(const PatchData& src, const Box& b, const IntVector& shift) = 0;
   virtual void copyFrom(const PatchData& src, const Box& b, const Box& clip, const IntVector& shift) { Box c = b * clip; if (!c.empty()) copyOnBox(src, c, shift); }   // the part of b inside clip, shared sides included
   virtual std::shared_ptr<PatchData> cloneOn(const Box& b, const IntVector& g) const = 0;
 protected:
   Box d_box, d_ghost;
   IntVector d_g;
   double d_t = 0.;
};

class Patch;
class Variable {
 public:
   Variable(const std::string& n, const tbox::Dimension& d) : d_name(n), d_dim(d) { static int c = 0; d_id = c++; }
   virtual ~Variable() {}
   const std::string& getName() const { return d_name; }
   const tbox::Dimension& getDim() const { return d_dim; }
   int getInstanceIdentifier() const { return d_id; }
   virtual std::shared_ptr<PatchData> make(const Box& b, const IntVector& g) const = 0;
   virtual bool fineBoundaryRepresentsVariable() const { return true; }
   virtual bool dataLivesOnPatchBorder() const { return false; }
   virtual int getDepth() const { return 1; }
   int d_id;
 private:
   std::string d_name;
   tbox::Dimension d_dim;
};
class VariableContext {
 public:
   explicit VariableContext(const std::string& n) : d_n(n) { static int c = 0; d_i = c++; }
   const std::string& getName() const { return d_n; }
   int getIndex() const { return d_i; }
 private:
   std::string d_n;
   int d_i;
};
struct Descr { std::shared_ptr<Variable> var; std::shared_ptr<VariableContext> ctx; IntVector g; };
class PatchDescriptor {
 public:
   static std::map<int, Descr>& tab() { static std::map<int, Descr>* t = new std::map<int, Descr>; return *t; }
   static int& next() { static int n = 0; return n; }
   int getMaxNumberRegisteredComponents() const { return next(); }
   IntVector getMaxGhostWidth(const tbox::Dimension& d) const { IntVector m(d, 0); for (auto& x : tab()) m.max(x.second.g); return m; }
   std::string mapIndexToName(int i) const { return tab().at(i).var->getName(); }
   int mapNameToIndex(const std::string& n) const { for (auto& x : tab()) if (x.second.var->getName() == n) return x.first; return -1; }
};
class ComponentSelector {
 public:
   ComponentSelector(bool f = false) { if (f) d_all = true; }
   void setFlag(int i) { d_s.insert(i); }
   void clrFlag(int i) { d_s.erase(i); }
   void clrAllFlags() { d_s.clear(); }
   bool isSet(int i) const { return d_all || d_s.count(i); }
   int getSize() const { return d_s.empty() ? 0 : *d_s.rbegin() + 1; }
   std::set<int> d_s;
   bool d_all = false;
};

class Patch {
 public:
   Patch(const Box& b, int ln) : d_box(b), d_ln(ln) {}
   const Box& getBox() const { return d_box; }
   const tbox::Dimension& getDim() const { return d_box.getDim(); }
   const LocalId& getLocalId() const { return d_box.getLocalId(); }
   const GlobalId& getGlobalId() const { return d_box.getGlobalId(); }
   int getPatchLevelNumber() const { return d_ln; }
   int getPatchNumber() const { return d_box.getLocalId().getValue(); }
   bool inHierarchy() const { return d_in; }
   std::shared_ptr<PatchGeometry> getPatchGeometry() const { return d_geom; }
   void setPatchGeometry(const std::shared_ptr<PatchGeometry>& g) { d_geom = g; }
   bool checkAllocated(int id) const { auto i = d_data.find(id); return i != d_data.end() && i->second; }
   void allocatePatchData(int id, double t = 0.) {
      auto i = PatchDescriptor::tab().find(id);
      if (i == PatchDescriptor::tab().end()) throw tbox::Error("allocate: unregistered patch data");
      d_data[id] = i->second.var->make(d_box, i->second.g);
      d_data[id]->setTime(t);
   }
   void allocatePatchData(const ComponentSelector& c, double t = 0.) { for (int i : c.d_s) allocatePatchData(i, t); }
   void deallocatePatchData(int id) { d_data.erase(id); }
   void deallocatePatchData(const ComponentSelector& c) { for (int i : c.d_s) deallocatePatchData(i); }
   std::shared_ptr<PatchData> getPatchData(int id) const {
      if (id < 0) throw tbox::Error("getPatchData of a negative id");
      auto i = d_data.find(id);
      return i == d_data.end() ? std::shared_ptr<PatchData>() : i->second;
   }
   std::shared_ptr<PatchData> getPatchData(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) const;
   void setPatchData(int id, const std::shared_ptr<PatchData>& d) { d_data[id] = d; }
   void setTime(double t, int id) { d_data[id]->setTime(t); }
   void setTime(double) {}
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const { return std::make_shared<PatchDescriptor>(); }
   bool d_in = true;
 private:
   Box d_box;
   int d_ln;
   std::shared_ptr<PatchGeometry> d_geom;
   std::map<int, std::shared_ptr<PatchData>> d_data;
};

class RefineOperator {
 public:
   explicit RefineOperator(const std::string& n) : d_n(n) {}
   virtual ~RefineOperator() {}
   const std::string& getOperatorName() const { return d_n; }
   virtual int getOperatorPriority() const = 0;
   virtual IntVector getStencilWidth(const tbox::Dimension& d) const = 0;
   virtual void refine(Patch& fine, const Patch& coarse, const int dst, const int src, const BoxOverlap& ov, const IntVector& ratio) const = 0;
 private:
   std::string d_n;
};
class CoarsenOperator {
 public:
   explicit CoarsenOperator(const std::string& n) : d_n(n) {}
   virtual ~CoarsenOperator() {}
   const std::string& getOperatorName() const { return d_n; }
   virtual int getOperatorPriority() const = 0;
   virtual IntVector getStencilWidth(const tbox::Dimension& d) const = 0;
   virtual void coarsen(Patch& coarse, const Patch& fine, const int dst, const int src, const Box& cbox, const IntVector& ratio) const = 0;
 private:
   std::string d_n;
};

class BoxLevel;
class PatchHierarchy;
class BaseGridGeometry {
 public:
   BaseGridGeometry(const std::string& n, const BoxContainer& dom) : d_n(n), d_dom(dom), d_per(dom.front().getDim(), 0) {}
   virtual ~BaseGridGeometry() {}
   const tbox::Dimension& getDim() const { return d_dom.front().getDim(); }
   const std::string& getObjectName() const { return d_n; }
   const BoxContainer& getPhysicalDomain() const { return d_dom; }
   void initializePeriodicShift(const IntVector& p) { d_per = p; }
   // cells of the (possibly refined) domain in the periodic directions, 0 in the others
   IntVector getPeriodicShift(const IntVector& ratio) const { IntVector r(getDim(), 0); for (int d = 0; d < getDim().getValue(); d++) if (d_per[d]) r[d] = d_dom.getBoundingBox().numberCells(d) * ratio[d]; return r; }
   IntVector getPeriodicShift() const { return getPeriodicShift(IntVector(getDim(), 1)); }
   bool getDomainIsSingleBox() const { return d_dom.size() == 1; }
   bool getDomainIsSingleBox(const BlockId&) const { return d_dom.size() == 1; }
   size_t getNumberBlocks() const { return 1; }
   void computePhysicalDomain(BoxContainer& out, const IntVector& ratio, const BlockId& = BlockId::zero()) const { out = d_dom; out.refine(ratio); }
   virtual std::shared_ptr<PatchGeometry> makeGeometry(const Box& b, const IntVector& ratio) const = 0;
   void addRefineOperator(const std::string&, const std::shared_ptr<RefineOperator>& op) { d_rops[op->getOperatorName()] = op; }
   void addCoarsenOperator(const std::string&, const std::shared_ptr<CoarsenOperator>& op) { d_cops[op->getOperatorName()] = op; }
   std::shared_ptr<RefineOperator> lookupRefineOperator(const std::shared_ptr<Variable>& v, const std::string& n);
   std::shared_ptr<CoarsenOperator> lookupCoarsenOperator(const std::shared_ptr<Variable>& v, const std::string& n);
   std::map<std::string, std::shared_ptr<RefineOperator>> d_rops;
   std::map<std::string, std::shared_ptr<CoarsenOperator>> d_cops;
   std::vector<char> touches(const Box& b, const IntVector& ratio) const {
      Box dom = d_dom.getBoundingBox();
      dom.refine(ratio);
      std::vector<char> t;
      for (int d = 0; d < b.nd(); d++) { t.push_back(!d_per[d] && b.lower(d) == dom.lower(d)); t.push_back(!d_per[d] && b.upper(d) == dom.upper(d)); }
      return t;
   }
 private:
   std::string d_n;
   BoxContainer d_dom;
   IntVector d_per;
};

class BoxLevel {
 public:
   BoxLevel(const BoxContainer& b, const IntVector& r) : d_b(b), d_r(r) {}
   const BoxContainer& getBoxes() const { return d_b; }
   const BoxContainer& getGlobalizedVersion() const { return d_b; }
   const IntVector& getRefinementRatio() const { return d_r; }
   BoxLevel(const IntVector& r, const std::shared_ptr<BaseGridGeometry>&) : d_r(r) {}
   void addBox(const Box& b, const BlockId& = BlockId::zero()) { d_b.push_back(b); }
   void addBox(const Box& b, const BlockId&, int) { d_b.push_back(b); }
   int getGlobalNumberOfBoxes() const { return (int)d_b.size(); }
   int getGlobalNumberOfCells() const { return (int)d_b.getTotalSizeOfBoxes(); }
   int getLocalNumberOfBoxes() const { return (int)d_b.size(); }
   int getLocalNumberOfCells() const { return (int)d_b.getTotalSizeOfBoxes(); }
   const tbox::SAMRAI_MPI& getMPI() const { return tbox::SAMRAI_MPI::getSAMRAIWorld(); }
   std::string format(const std::string& = "", int = 0) const { return ""; }
 private:
   BoxContainer d_b;
   IntVector d_r;
};

class PatchLevel {
 public:
   typedef std::vector<std::shared_ptr<Patch>>::const_iterator Base;
   class Iterator {
    public:
      Iterator(const Base& b) : d_i(b) {}
      Iterator() {}
      const std::shared_ptr<Patch>& operator*() const { return *d_i; }
      const std::shared_ptr<Patch>& operator->() const { return *d_i; }
      bool operator==(const Iterator& o) const { return d_i == o.d_i; }
      bool operator!=(const Iterator& o) const { return d_i != o.d_i; }
      Iterator& operator++() { ++d_i; return *this; }
      Iterator operator++(int) { Iterator r(*this); ++d_i; return r; }
    private:
      Base d_i;
   };
   typedef Iterator iterator;
   PatchLevel(const BoxContainer& boxes, const IntVector& ratio0, const IntVector& ratioc, int ln, const std::shared_ptr<BaseGridGeometry>& g)
       : d_boxes(boxes), d_r0(ratio0), d_rc(ratioc), d_ln(ln), d_geom(g) {
      int k = 0;
      for (Box b : boxes) {
         b.d_id = GlobalId(LocalId(k++), 0);
         auto p = std::make_shared<Patch>(b, ln);
         p->setPatchGeometry(g->makeGeometry(b, ratio0));
         d_p.push_back(p);
      }
      g->computePhysicalDomain(d_dom, ratio0);
   }
   template <class D> PatchLevel(const BoxLevel& bl, const std::shared_ptr<BaseGridGeometry>& g, const D&) : PatchLevel(bl.getBoxes(), bl.getRefinementRatio(), IntVector(bl.getRefinementRatio().getDim(), 1), 0, g) {}
   Iterator begin() const { return Iterator(d_p.begin()); }
   Iterator end() const { return Iterator(d_p.end()); }
   int getLevelNumber() const { return d_ln; }
   const tbox::Dimension& getDim() const { return d_r0.getDim(); }
   const IntVector& getRatioToLevelZero() const { return d_r0; }
   const IntVector& getRatioToCoarserLevel() const { return d_rc; }
   const BoxContainer& getBoxes() const { return d_boxes; }
   const BoxContainer& getPhysicalDomain(const BlockId&) const { return d_dom; }
   const BoxContainer& getPhysicalDomainArray() const { return d_dom; }
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return d_geom; }
   std::shared_ptr<BoxLevel> getBoxLevel() const { return std::make_shared<BoxLevel>(d_boxes, d_r0); }
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const { return std::make_shared<PatchDescriptor>(); }
   int getGlobalNumberOfPatches() const { return (int)d_p.size(); }
   int getLocalNumberOfPatches() const { return (int)d_p.size(); }
   int getNumberOfPatches() const { return (int)d_p.size(); }
   std::shared_ptr<Patch> getPatch(const GlobalId& g) const { return d_p[g.d_l.getValue()]; }
   std::shared_ptr<Patch> getPatch(const LocalId& g) const { return d_p[g.getValue()]; }
   std::shared_ptr<Patch> getPatch(int i) const { return d_p[i]; }
   bool checkAllocated(int id) const { for (auto& p : d_p) if (!p->checkAllocated(id)) return false; return true; }
   void allocatePatchData(int id, double t = 0.) { for (auto& p : d_p) p->allocatePatchData(id, t); }
   void allocatePatchData(const ComponentSelector& c, double t = 0.) { for (auto& p : d_p) p->allocatePatchData(c, t); }
   void deallocatePatchData(int id) { for (auto& p : d_p) p->deallocatePatchData(id); }
   void deallocatePatchData(const ComponentSelector& c) { for (auto& p : d_p) p->deallocatePatchData(c); }
   void setTime(double t, int id) { for (auto& p : d_p) if (p->checkAllocated(id)) p->setTime(t, id); }
   void setTime(double, const ComponentSelector&) {}
   void setTime(double) {}
   bool inHierarchy() const { return true; }
   void getFromRestart() {}
 private:
   std::vector<std::shared_ptr<Patch>> d_p;
   BoxContainer d_boxes, d_dom;
   IntVector d_r0, d_rc;
   int d_ln;
   std::shared_ptr<BaseGridGeometry> d_geom;
};

class PatchHierarchy {
 public:
   PatchHierarchy(const std::string& n, const std::shared_ptr<BaseGridGeometry>& g) : d_n(n), d_g(g) {}
   template <class D> PatchHierarchy(const std::string& n, const std::shared_ptr<BaseGridGeometry>& g, const D& db) : d_n(n), d_g(g) { if (db) d_max = db->getIntegerWithDefault("max_levels", 1); }
   const tbox::Dimension& getDim() const { return d_g->getDim(); }
   const std::string& getObjectName() const { return d_n; }
   int getNumberOfLevels() const { return (int)d_l.size(); }
   int getFinestLevelNumber() const { return (int)d_l.size() - 1; }
   int getMaxNumberOfLevels() const { return d_max; }
   bool levelExists(int i) const { return i >= 0 && i < (int)d_l.size(); }
   bool finerLevelExists(int i) const { return i + 1 < (int)d_l.size(); }
   bool levelCanBeRefined(int i) const { return i + 1 < d_max; }
   std::shared_ptr<PatchLevel> getPatchLevel(int i) const { return i < 0 || i >= (int)d_l.size() ? std::shared_ptr<PatchLevel>() : d_l[i]; }
   std::shared_ptr<BaseGridGeometry> getGridGeometry() const { return d_g; }
   const tbox::SAMRAI_MPI& getMPI() const { return tbox::SAMRAI_MPI::getSAMRAIWorld(); }
   const IntVector& getRatioToCoarserLevel(int i) const { return d_l[i]->getRatioToCoarserLevel(); }
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const { return std::make_shared<PatchDescriptor>(); }
   void addLevel(const BoxContainer& b, const IntVector& ratio) {
      IntVector r0 = d_l.empty() ? IntVector(getDim(), 1) : d_l.back()->getRatioToLevelZero() * ratio;
      d_l.push_back(std::make_shared<PatchLevel>(b, r0, d_l.empty() ? IntVector(getDim(), 1) : ratio, (int)d_l.size(), d_g));
      d_max = std::max(d_max, (int)d_l.size());
   }
   void setLevel(int ln, const BoxContainer& b, const IntVector& ratio) {
      if (ln >= (int)d_l.size()) { addLevel(b, ratio); return; }
      IntVector r0 = d_l[ln - 1]->getRatioToLevelZero() * ratio;
      d_l[ln] = std::make_shared<PatchLevel>(b, r0, ratio, ln, d_g);
   }
   void truncate(int n) { if (n < (int)d_l.size()) d_l.resize(n); }
   void initializeHierarchy() { if (s_restart()) s_restart()(*this); }
   static std::function<void(PatchHierarchy&)>& s_restart() { static std::function<void(PatchHierarchy&)> f; return f; }
   int d_max = 1;
 private:
   std::string d_n;
   std::shared_ptr<BaseGridGeometry> d_g;
   std::vector<std::shared_ptr<PatchLevel>> d_l;
};

class VariableDatabase {
 public:
   static VariableDatabase* getDatabase() { static VariableDatabase* d = new VariableDatabase; return d; }
   std::shared_ptr<VariableContext> getContext(const std::string& n) { auto& c = d_c[n]; if (!c) c = std::make_shared<VariableContext>(n); return c; }
   std::shared_ptr<PatchDescriptor> getPatchDescriptor() const { return std::make_shared<PatchDescriptor>(); }
   int registerVariableAndContext(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c, const IntVector& g) {
      for (auto& x : PatchDescriptor::tab()) if (x.second.var == v && x.second.ctx == c) {
         if (x.second.g != g) throw tbox::Error("variable " + v->getName() + " registered with other ghosts");
         return x.first;
      }
      return add(v, c, g);
   }
   int registerVariableAndContext(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) { return registerVariableAndContext(v, c, IntVector(v->getDim(), 0)); }
   int registerInternalSAMRAIVariable(const std::shared_ptr<Variable>& v, const IntVector& g) { return add(v, nullptr, g); }
   int registerClonedPatchDataIndex(const std::shared_ptr<Variable>& v, int id) { return add(v, nullptr, PatchDescriptor::tab().at(id).g); }
   int registerPatchDataIndex(const std::shared_ptr<Variable>&, int id) { return id; }
   void addVariable(const std::shared_ptr<Variable>&) {}
   void removePatchDataIndex(int id) { PatchDescriptor::tab().erase(id); }
   void removeInternalSAMRAIVariablePatchDataIndex(int id) { PatchDescriptor::tab().erase(id); }
   int mapVariableAndContextToIndex(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) const { for (auto& x : PatchDescriptor::tab()) if (x.second.var == v && x.second.ctx == c) return x.first; return -1; }
   bool mapIndexToVariable(int id, std::shared_ptr<Variable>& v) const { auto i = PatchDescriptor::tab().find(id); if (i == PatchDescriptor::tab().end()) { v.reset(); return false; } v = i->second.var; return true; }
   bool mapIndexToVariableAndContext(int id, std::shared_ptr<Variable>& v, std::shared_ptr<VariableContext>& c) const { auto i = PatchDescriptor::tab().find(id); if (i == PatchDescriptor::tab().end()) return false; v = i->second.var; c = i->second.ctx; return true; }
   std::shared_ptr<Variable> getVariable(const std::string& n) const { for (auto& x : PatchDescriptor::tab()) if (x.second.var->getName() == n) return x.second.var; return nullptr; }
   bool checkVariableExists(const std::string& n) const { return (bool)getVariable(n); }
   void printClassData(std::ostream&, bool = true) const {}
 private:
   int add(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c, const IntVector& g) { int id = PatchDescriptor::next()++; PatchDescriptor::tab().insert({id, Descr{v, c, g}}); return id; }
   std::map<std::string, std::shared_ptr<VariableContext>> d_c;
};
inline std::shared_ptr<PatchData> Patch::getPatchData(const std::shared_ptr<Variable>& v, const std::shared_ptr<VariableContext>& c) const { return getPatchData(VariableDatabase::getDatabase()->mapVariableAndContextToIndex(v, c)); }
class PatchDataRestartManager {
 public:
   static PatchDataRestartManager* getManager() { static PatchDataRestartManager* m = new PatchDataRestartManager; return m; }
   void registerPatchDataForRestart(int id) { d_s.insert(id); }
   void unregisterPatchDataForRestart(int id) { d_s.erase(id); }
   bool isPatchDataRegisteredForRestart(int id) const { return d_s.count(id); }
   std::set<int> d_s;
};
// coarse-fine boundary of a level of a (serial) hierarchy: codim-1 boxes where neighbouring cells are inside the domain but not on the level
class CoarseFineBoundary {
 public:
   CoarseFineBoundary(const PatchHierarchy& h, int ln, const IntVector& maxg) : d_dim(h.getDim()) {
      auto lev = h.getPatchLevel(ln);
      IntVector per = h.getGridGeometry()->getPeriodicShift(lev->getRatioToLevelZero());
      (void)maxg;
      for (auto& p : *lev) {
         std::vector<BoundaryBox>& out = d_b[p->getGlobalId().d_l.getValue()];
         const Box& b = p->getBox();
         if (ln == 0) continue;
         for (int d = 0; d < b.nd(); d++) for (int s = 0; s < 2; s++) {
            Box g(b);
            if (s) { g.setLower(d, b.upper(d) + 1); g.setUpper(d, b.upper(d) + 1); } else { g.setUpper(d, b.lower(d) - 1); g.setLower(d, b.lower(d) - 1); }
            BoxContainer c(g);
            if (p->getPatchGeometry()->getTouchesRegularBoundary(d, s)) continue;
            for (const Box& o : lev->getBoxes())
               for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int k = -1; k <= 1; k++) {
                  int sh[3] = {i, j, k};
                  IntVector v(d_dim, 0);
                  bool ok = true;
                  for (int e = 0; e < 3; e++) { if (e >= b.nd()) { if (sh[e]) ok = false; } else { if (sh[e] && !per[e]) ok = false; v[e] = sh[e] * per[e]; } }
                  if (ok) c.removeIntersections(Box::shift(o, v));
               }
            for (const Box& x : c) out.push_back(BoundaryBox(x, 1, 2 * d + s));
         }
      }
   }
   CoarseFineBoundary(const tbox::Dimension& d) : d_dim(d) {}
   const std::vector<BoundaryBox>& getBoundaries(const GlobalId& g, int codim, const BlockId& = BlockId::zero()) const {
      static std::vector<BoundaryBox> none;
      if (codim != 1) return none;
      auto i = d_b.find(g.d_l.getValue());
      return i == d_b.end() ? none : i->second;
   }
   const std::vector<BoundaryBox>& getEdgeBoundaries(const GlobalId& g) const { return getBoundaries(g, 1); }
   const std::vector<BoundaryBox>& getFaceBoundaries(const GlobalId& g) const { return getBoundaries(g, 1); }
   void clear() { d_b.clear(); }
 private:
   tbox::Dimension d_dim;
   std::map<int, std::vector<BoundaryBox>> d_b;
};
}  // namespace hier
}  // namespace SAMRAI
#endif
