// A small serial stand-in for the part of SAMRAI that AMPE uses (SAMRAI itself is not available offline).
// It follows SAMRAI's documented semantics; it contains no AMPE logic.
#ifndef MINI_TBOX
#define MINI_TBOX
#include <mpi.h>
#define MPI_Abort(c, e) throw SAMRAI::tbox::Error("MPI_Abort")
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cctype>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <complex>

#define HAVE_HDF5 1
#define SAMRAI_MAXIMUM_DIMENSION 3
#define SAMRAI_MAX_DIM_VAL 3
#define SAMRAI_SHARED_PTR_CAST std::dynamic_pointer_cast
#define BOOST_CAST std::dynamic_pointer_cast
#ifndef CPP_CONCAT
#define CPP_CONCAT(a, b) a##b
#endif
#define NULL_USE(v) do { if (0 && &v) {} } while (0)
#define TBOX_ASSERT(e) assert(e)
#define TBOX_DIM_ASSERT(e)
#define TBOX_ASSERT_OBJDIM_EQUALITY2(a, b)
#define TBOX_ASSERT_OBJDIM_EQUALITY3(a, b, c)
#define TBOX_ASSERT_OBJDIM_EQUALITY4(a, b, c, d)
#define TBOX_ASSERT_OBJDIM_EQUALITY5(a, b, c, d, e)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY1(a, b)
#define TBOX_CONSTEXPR_DIM_ASSERT(e)
#define TBOX_ERROR(X) do { std::ostringstream os_; os_ << X; throw SAMRAI::tbox::Error(os_.str()); } while (0)
#define TBOX_WARNING(X) do { std::ostringstream os_; os_ << X; } while (0)

#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY2(a, b, c)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY3(a, b, c, d)
#define TBOX_ASSERT_DIM_OBJDIM_EQUALITY4(a, b, c, d, e)
#define INPUT_RANGE_ERROR(k) TBOX_ERROR("value out of range: " << k)
#define INPUT_VALUE_ERROR(k) TBOX_ERROR("bad value: " << k)
#define SAMRAI_F77_FUNC(n, N) n##_
#define IOMANIP_HEADER_FILE <iomanip>
#define SSTREAM_HEADER_FILE <sstream>
namespace SAMRAI {
static const int MAX_DIM_VAL = 3;
namespace tbox {
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
inline std::ostream& nullstream() { static NullBuf b; static std::ostream s(&b); return s; }
inline std::ostream& plogstream() { static bool v = getenv("MINI_LOG") != nullptr; return v ? std::cerr : nullstream(); }
static std::ostream& plog = plogstream();
inline std::ostream& poutstream() { static std::ostream s(plogstream().rdbuf()); return s; }
static std::ostream& pout = poutstream();
static std::ostream& perr = plogstream();

class Dimension {
 public:
   typedef unsigned short dir_t;
   static const unsigned short MAXIMUM_DIMENSION_VALUE = 3;
   explicit Dimension(unsigned short d) : v(d) {}
   unsigned short getValue() const { return v; }
   bool isValid() const { return v > 0; }
   bool operator==(const Dimension& o) const { return v == o.v; }
   bool operator!=(const Dimension& o) const { return v != o.v; }
   bool operator>(const Dimension& o) const { return v > o.v; }
   bool operator<(const Dimension& o) const { return v < o.v; }
   bool operator>=(const Dimension& o) const { return v >= o.v; }
   bool operator<=(const Dimension& o) const { return v <= o.v; }
   static const unsigned short getMaxDimension() { return 3; }
 private:
   unsigned short v;
};
inline std::ostream& operator<<(std::ostream& s, const Dimension& d) { return s << d.getValue(); }

template <class T> struct MathUtilities {
   static T getSignalingNaN() { return std::numeric_limits<T>::quiet_NaN(); }
   static T getMax() { return std::numeric_limits<T>::max(); }
   static T getMin() { return std::numeric_limits<T>::min(); }
   static T getEpsilon() { return std::numeric_limits<T>::epsilon(); }
   static T getUndefined() { return getSignalingNaN(); }
   static bool isNaN(const T& x) { return x != x; }
   static bool equalEps(const T& a, const T& b) {
      T m = std::max(std::fabs(a), std::fabs(b)), e = std::sqrt(getEpsilon());
      return std::fabs(a - b) / std::max(m, e) < e;
   }
   static T Rand(const T& lo, const T& w) { return lo + w * (rand() / (double)RAND_MAX); }
   static T Max(T a, T b) { return a > b ? a : b; }
   static T Min(T a, T b) { return a < b ? a : b; }
};
struct IEEE {
   static double getSignalingNaN() { return std::numeric_limits<double>::quiet_NaN(); }
   static float getSignalingFloatNaN() { return std::numeric_limits<float>::quiet_NaN(); }
   static double getSignalingDoubleNaN() { return std::numeric_limits<double>::quiet_NaN(); }
   static bool isNaN(double v) { return v != v; }
   static double getDBL_MAX() { return DBL_MAX; }
};
struct Utilities {
   static std::string intToString(int n, int w = 1) { char b[64]; snprintf(b, 64, "%0*d", w, n); return b; }
   static std::string sizetToString(size_t n, int w = 1) { return intToString((int)n, w); }
   static std::string levelToString(int n) { return intToString(n, 4); }
   static std::string patchToString(int n) { return intToString(n, 4); }
   static std::string processorToString(int n) { return intToString(n, 5); }
   static std::string nodeToString(int n) { return intToString(n, 5); }
   static void recursiveMkdir(const std::string&, int = 0, bool = true) {}
   static void abort(const std::string& m, const std::string& f, int l) { throw Error(m + " " + f + ":" + intToString(l)); }
};
struct PIO {
   static void logOnlyNodeZero(const std::string&) {}
   static void logAllNodes(const std::string&) {}
   static void initialize() {}
   static void finalize() {}
   static void suspendLogging() {}
};
// Simulated ranks: threads of one process which take part in collective operations (one rank unless a harness says otherwise).
struct SimRanks {
   int n = 1, arrived = 0;
   long phase = 0;
   std::mutex m;
   std::condition_variable cv;
   std::vector<const void*> src;
   std::vector<int> cnt;
   static SimRanks& get() { static SimRanks s; return s; }
   static int& rank() { static thread_local int r = 0; return r; }
   void barrier() {
      if (n == 1) return;
      std::unique_lock<std::mutex> l(m);
      long p = phase;
      if (++arrived == n) { arrived = 0; phase++; cv.notify_all(); }
      else if (!cv.wait_for(l, std::chrono::seconds(20), [&] { return phase != p; })) throw Error("collective operation not entered by all ranks");
   }
   // every rank contributes c elements at p; fn reads the contributions while all are available
   template <class F> void all(const void* p, int c, F fn) {
      { std::lock_guard<std::mutex> l(m); src.resize(n); cnt.resize(n); src[rank()] = p; cnt[rank()] = c; }
      barrier();
      for (int i = 0; i < n; i++) if (cnt[i] != c && c >= 0 && cnt[i] < 0) throw Error("mismatched collective");
      fn();
      barrier();
   }
   template <class T> void reduce(T* x, int c, MPI_Op op) {
      if (n == 1) return;
      std::vector<T> r(x, x + c);
      all(x, c, [&] {
         for (int i = 0; i < n; i++) if (cnt[i] != c) throw Error("mismatched reduction");
         for (int k = 0; k < c; k++) {
            T v = ((const T*)src[0])[k];
            for (int i = 1; i < n; i++) { T y = ((const T*)src[i])[k]; v = op == MPI_SUM ? v + y : op == MPI_MAX ? std::max(v, y) : std::min(v, y); }
            r[k] = v;
         }
      });
      std::copy(r.begin(), r.end(), x);
   }
};
class SAMRAI_MPI {
 public:
   typedef MPI_Comm Comm;
   typedef MPI_Datatype Datatype;
   typedef MPI_Op Op;
   typedef MPI_Status Status;
   typedef MPI_Request Request;
   explicit SAMRAI_MPI(const Comm& c) : d_comm(c) {}
   static const SAMRAI_MPI& getSAMRAIWorld() { static SAMRAI_MPI w(MPI_COMM_WORLD); return w; }
   const Comm& getCommunicator() const { return d_comm; }
   int getRank() const { return SimRanks::rank(); }
   int getSize() const { return SimRanks::get().n; }
   int Barrier() const { SimRanks::get().barrier(); return 0; }
   int Bcast(void*, int, Datatype, int) const { return 0; }
   int Allreduce(void* s, void* r, int n, Datatype t, Op o) const {
      int k = t == MPI_DOUBLE ? sizeof(double) : t == MPI_INT ? sizeof(int) : t == MPI_FLOAT ? sizeof(float) : 1;
      if (s != MPI_IN_PLACE) memcpy(r, s, (size_t)n * k);
      if (t == MPI_DOUBLE) SimRanks::get().reduce((double*)r, n, o);
      else if (t == MPI_INT) SimRanks::get().reduce((int*)r, n, o);
      return 0;
   }
   int AllReduce(int* x, int n, Op o, int* = nullptr) const { SimRanks::get().reduce(x, n, o); return 0; }
   int AllReduce(double* x, int n, Op o, int* = nullptr) const { SimRanks::get().reduce(x, n, o); return 0; }
   int AllReduce(float* x, int n, Op o, int* = nullptr) const { SimRanks::get().reduce(x, n, o); return 0; }
   template <class... A> static void init(A...) {}
   static void initialize() {}
   static void finalize() {}
   static void abort() { throw Error("SAMRAI_MPI::abort"); }
   static bool usingMPI() { return false; }
 private:
   Comm d_comm;
};
class Timer {
 public:
   void start() { ++d_on; }
   void stop() { --d_on; }
   void reset() {}
   double getTotalWallclockTime() const { return 0.; }
   int d_on = 0;
};
class TimerManager {
 public:
   static TimerManager* getManager() { static TimerManager* m = new TimerManager; return m; }
   template <class T> static void createManager(const T&) {}
   std::shared_ptr<Timer> getTimer(const std::string& n, bool = false) {
      auto& t = d_t[n];
      if (!t) t = std::make_shared<Timer>();
      return t;
   }
   void print(std::ostream&) {}
   void resetAllTimers() {}
 private:
   std::map<std::string, std::shared_ptr<Timer>> d_t;
};
class StartupShutdownManager {
 public:
   class Handler { public: template <class... A> Handler(A...) {} };
   static const int priorityTimers = 1, priorityVariables = 2;
};

class DatabaseBox {
 public:
   DatabaseBox() {}
   DatabaseBox(const Dimension& d, const int* lo, const int* hi) : nd(d.getValue()) { for (int i = 0; i < nd; i++) { l[i] = lo[i]; h[i] = hi[i]; } }
   int lower(int d) const { return l[d]; }
   int upper(int d) const { return h[d]; }
   int nd = 0, l[3] = {0, 0, 0}, h[3] = {0, 0, 0};
};

/* hierarchical key-value store; conversions int->double as SAMRAI's input database does */
class Database {
 public:
   enum DataType { SAMRAI_INVALID, SAMRAI_DATABASE, SAMRAI_BOOL, SAMRAI_CHAR, SAMRAI_INT, SAMRAI_COMPLEX, SAMRAI_DOUBLE, SAMRAI_FLOAT, SAMRAI_STRING, SAMRAI_BOX };
   virtual ~Database() {}
   struct Val {
      DataType t = SAMRAI_INVALID;
      std::vector<double> d;   // bool/int/double/float
      std::vector<std::string> s;
      std::vector<char> c;
      std::shared_ptr<Database> db;
      std::vector<DatabaseBox> b;
   };
   Database(const std::string& n = "") : d_name(n) {}
   virtual bool create(const std::string& n) { d_name = n; return true; }
   virtual bool open(const std::string& n, bool = false) { d_name = n; return true; }
   virtual bool close() { return true; }
   bool keyExists(const std::string& k) { return d_v.count(k) > 0; }
   std::vector<std::string> getAllKeys() { std::vector<std::string> r; for (auto& x : d_order) r.push_back(x); return r; }
   DataType getArrayType(const std::string& k) { return keyExists(k) ? d_v[k].t : SAMRAI_INVALID; }
   size_t getArraySize(const std::string& k) {
      if (!keyExists(k)) return 0;
      Val& v = d_v[k];
      return v.t == SAMRAI_DATABASE ? 1 : v.t == SAMRAI_STRING ? v.s.size() : v.t == SAMRAI_CHAR ? v.c.size() : v.t == SAMRAI_BOX ? v.b.size() : v.d.size();
   }
   bool isDatabase(const std::string& k) { return getArrayType(k) == SAMRAI_DATABASE; }
   bool isInteger(const std::string& k) { return getArrayType(k) == SAMRAI_INT; }
   bool isDouble(const std::string& k) { auto t = getArrayType(k); return t == SAMRAI_DOUBLE || t == SAMRAI_INT || t == SAMRAI_FLOAT; }
   bool isFloat(const std::string& k) { return isDouble(k); }
   bool isBool(const std::string& k) { return getArrayType(k) == SAMRAI_BOOL; }
   bool isString(const std::string& k) { return getArrayType(k) == SAMRAI_STRING; }
   bool isChar(const std::string& k) { return getArrayType(k) == SAMRAI_CHAR; }
   bool isVector(const std::string&) { return false; }
   bool isDatabaseBox(const std::string& k) { return getArrayType(k) == SAMRAI_BOX; }
   std::shared_ptr<Database> putDatabase(const std::string& k) { auto d = std::make_shared<Database>(k); Val v; v.t = SAMRAI_DATABASE; v.db = d; set(k, v); return d; }
   std::shared_ptr<Database> getDatabase(const std::string& k) { need(k, SAMRAI_DATABASE); return d_v[k].db; }
   std::shared_ptr<Database> getDatabaseWithDefault(const std::string& k, const std::shared_ptr<Database>& d) { return isDatabase(k) ? getDatabase(k) : d; }
#define MINI_NUM(Name, T, TAG) \
   void put##Name(const std::string& k, T x) { Val v; v.t = TAG; v.d.push_back((double)x); set(k, v); } \
   void put##Name##Array(const std::string& k, const T* x, size_t n) { Val v; v.t = TAG; for (size_t i = 0; i < n; i++) v.d.push_back((double)x[i]); set(k, v); } \
   void put##Name##Vector(const std::string& k, const std::vector<T>& x) { Val v; v.t = TAG; for (size_t i = 0; i < x.size(); i++) v.d.push_back((double)x[i]); set(k, v); } \
   T get##Name(const std::string& k) { num(k, TAG); return (T)d_v[k].d.at(0); } \
   T get##Name##WithDefault(const std::string& k, const T& x) { return keyExists(k) ? get##Name(k) : x; } \
   std::vector<T> get##Name##Vector(const std::string& k) { num(k, TAG); std::vector<T> r; for (double x : d_v[k].d) r.push_back((T)x); return r; } \
   void get##Name##Array(const std::string& k, T* x, size_t n) { num(k, TAG); auto& d = d_v[k].d; if (d.size() != n) throw Error("array size of " + k); for (size_t i = 0; i < n; i++) x[i] = (T)d[i]; }
   MINI_NUM(Bool, bool, SAMRAI_BOOL)
   MINI_NUM(Integer, int, SAMRAI_INT)
   MINI_NUM(Double, double, SAMRAI_DOUBLE)
   MINI_NUM(Float, float, SAMRAI_FLOAT)
   void putString(const std::string& k, const std::string& x) { Val v; v.t = SAMRAI_STRING; v.s.push_back(x); set(k, v); }
   void putStringVector(const std::string& k, const std::vector<std::string>& x) { Val v; v.t = SAMRAI_STRING; v.s = x; set(k, v); }
   void putStringArray(const std::string& k, const std::string* x, size_t n) { putStringVector(k, std::vector<std::string>(x, x + n)); }
   std::string getString(const std::string& k) { need(k, SAMRAI_STRING); return d_v[k].s.at(0); }
   std::string getStringWithDefault(const std::string& k, const std::string& x) { return keyExists(k) ? getString(k) : x; }
   std::vector<std::string> getStringVector(const std::string& k) { need(k, SAMRAI_STRING); return d_v[k].s; }
   void getStringArray(const std::string& k, std::string* x, size_t n) { need(k, SAMRAI_STRING); auto& s = d_v[k].s; if (s.size() != n) throw Error("array size of " + k); for (size_t i = 0; i < n; i++) x[i] = s[i]; }
   void putChar(const std::string& k, char x) { Val v; v.t = SAMRAI_CHAR; v.c.push_back(x); set(k, v); }
   void putCharVector(const std::string& k, const std::vector<char>& x) { Val v; v.t = SAMRAI_CHAR; v.c = x; set(k, v); }
   char getChar(const std::string& k) { need(k, SAMRAI_CHAR); return d_v[k].c.at(0); }
   std::vector<char> getCharVector(const std::string& k) { need(k, SAMRAI_CHAR); return d_v[k].c; }
   void putDatabaseBox(const std::string& k, const DatabaseBox& x) { Val v; v.t = SAMRAI_BOX; v.b.push_back(x); set(k, v); }
   DatabaseBox getDatabaseBox(const std::string& k) { need(k, SAMRAI_BOX); return d_v[k].b.at(0); }
   virtual void printClassData(std::ostream& = pout) {}
   std::string getName() { return d_name; }
   virtual std::shared_ptr<Database> clone() { return std::make_shared<Database>(*this); }
 private:
   void set(const std::string& k, const Val& v) { if (!d_v.count(k)) d_order.push_back(k); d_v[k] = v; }
   void need(const std::string& k, DataType t) { if (getArrayType(k) != t) throw Error("database key " + k + " missing or of another type in " + d_name); }
   void num(const std::string& k, DataType t) {
      DataType h = getArrayType(k);
      if (h == t) return;
      if ((t == SAMRAI_DOUBLE || t == SAMRAI_FLOAT) && (h == SAMRAI_INT || h == SAMRAI_DOUBLE || h == SAMRAI_FLOAT)) return;
      throw Error("database key " + k + " missing or of another type in " + d_name);
   }
   std::string d_name;
   std::map<std::string, Val> d_v;
   std::vector<std::string> d_order;
};
class MemoryDatabase : public Database { public: explicit MemoryDatabase(const std::string& n) : Database(n) {} };
class InputDatabase : public Database { public: explicit InputDatabase(const std::string& n) : Database(n) {} };
class HDFDatabase : public Database { public: explicit HDFDatabase(const std::string& n) : Database(n) {} };
class InputManager {
 public:
   static InputManager* getManager() { static InputManager* m = new InputManager; return m; }
   std::shared_ptr<InputDatabase> parseInputFile(const std::string& f) { throw Error("no input file " + f); }
   template <class T> void parseInputFile(const std::string& f, const T& db) { (void)db; throw Error("no input file " + f); }
   static std::shared_ptr<Database> getInputDatabase() { return std::make_shared<InputDatabase>("input"); }
};
class Serializable {
 public:
   virtual ~Serializable() {}
   virtual void putToRestart(const std::shared_ptr<Database>& db) const = 0;
};
class RestartManager {
 public:
   static RestartManager* getManager() { static RestartManager* m = new RestartManager; return m; }
   bool isFromRestart() { return d_from; }
   bool openRestartFile(const std::string& d, int k, int) {
      for (auto i = d_files.rbegin(); i != d_files.rend(); ++i) if (i->dir == d && i->num == k) { d_root = i->root; d_from = true; break; }
      return d_from;
   }
   struct File { std::string dir; int num; std::shared_ptr<Database> root; };
   std::vector<File> d_files;      // the "disk"
   void closeRestartFile() {}
   std::shared_ptr<Database> getRootDatabase() { return d_root; }
   void registerRestartItem(const std::string& n, Serializable* s) { d_items[n] = s; }
   void unregisterRestartItem(const std::string& n) { d_items.erase(n); }
   void writeRestartFile(const std::string& d, int k = 0) { writeRestartToDatabase(); d_files.push_back({d, k, d_root}); }
   void writeRestartToDatabase() { d_root = std::make_shared<MemoryDatabase>("root"); for (auto& x : d_items) x.second->putToRestart(d_root->putDatabase(x.first)); }
   bool d_from = false;
   std::shared_ptr<Database> d_root = std::make_shared<MemoryDatabase>("root");
   std::map<std::string, Serializable*> d_items;
};
struct SAMRAIManager {
   static void initialize() {}
   static void startup() {}
   static void shutdown() {}
   static void finalize() {}
   static void setMaxNumberPatchDataEntries(int) {}
};
template <class T> class Array : public std::vector<T> {
 public:
   using std::vector<T>::vector;
   Array(const std::vector<T>& v) : std::vector<T>(v) {}
   int getSize() const { return (int)this->size(); }
   T* getPointer() { return this->data(); }
   const T* getPointer() const { return this->data(); }
   void resizeArray(int n) { this->resize(n); }
   bool isNull() const { return this->empty(); }
};
class MessageStream {};
class ResourceAllocator {};
}  // namespace tbox
}  // namespace SAMRAI
#endif
