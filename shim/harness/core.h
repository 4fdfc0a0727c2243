// Harness core: builds a hierarchy in the mini-SAMRAI stand-in, moves field values in and out, and dispatches named
// commands which construct real AMPE objects and call them.  No expected value is computed here.
#ifndef VERIF_CORE_H
#define VERIF_CORE_H
#include "mini_all.h"
#include "thermo.h"
#include <boost/optional.hpp>
#include <unistd.h>
#undef NDEBUG
#undef assert
#define assert(x) ((void)0)
#define NDEBUG 1
using namespace SAMRAI;
typedef std::shared_ptr<tbox::Database> DB;
struct JsonParser {
   const char* s;
   [[noreturn]] void bad(const char* w) { throw tbox::Error(std::string("json: ") + w + " at " + std::string(s).substr(0, 40)); }
   void ws() { while (*s == ' ' || *s == '\n' || *s == '\t' || *s == '\r') s++; }
   std::string str() {
      ws(); if (*s != '"') bad("string");
      std::string r; s++;
      while (*s && *s != '"') { if (*s == '\\') { s++; r += *s == 'n' ? '\n' : *s; } else r += *s; s++; }
      s++; return r;
   }
   void object(const DB& db) {
      ws(); if (*s != '{') bad("object"); s++; ws();
      if (*s == '}') { s++; return; }
      for (;;) {
         std::string k = str(); ws(); if (*s != ':') bad(":"); s++; value(db, k); ws();
         if (*s == ',') { s++; continue; }
         if (*s == '}') { s++; return; }
         bad("object end");
      }
   }
   struct Num { bool isint; double v; };
   Num num() {
      const char* b = s; char* e; double v = strtod(b, &e); if (e == b) bad("number");
      bool in = true; for (const char* q = b; q < e; q++) if (*q == '.' || *q == 'e' || *q == 'E' || *q == 'n' || *q == 'I') in = false;
      s = e; return {in, v};
   }
   void value(const DB& db, const std::string& k) {
      ws();
      if (*s == '{') object(db->putDatabase(k));
      else if (*s == '"') db->putString(k, str());
      else if (*s == 't') { s += 4; db->putBool(k, true); }
      else if (*s == 'f') { s += 5; db->putBool(k, false); }
      else if (*s == '[') {
         s++; ws();
         if (*s == ']') { s++; db->putIntegerVector(k, std::vector<int>()); return; }
         if (*s == '"') { std::vector<std::string> v; for (;;) { v.push_back(str()); ws(); if (*s == ',') { s++; continue; } break; } if (*s != ']') bad("]"); s++; db->putStringVector(k, v); return; }
         if (*s == 't' || *s == 'f') { std::vector<bool> v; for (;;) { ws(); v.push_back(*s == 't'); s += *s == 't' ? 4 : 5; ws(); if (*s == ',') { s++; continue; } break; } if (*s != ']') bad("]"); s++; db->putBoolVector(k, v); return; }
         std::vector<double> v; bool in = true;
         for (;;) { ws(); Num n = num(); in = in && n.isint; v.push_back(n.v); ws(); if (*s == ',') { s++; continue; } break; }
         if (*s != ']') bad("]");
         s++;
         if (in) { std::vector<int> w(v.begin(), v.end()); db->putIntegerVector(k, w); } else db->putDoubleVector(k, v);
      } else { Num n = num(); if (n.isint) db->putInteger(k, (int)n.v); else db->putDouble(k, n.v); }
   }
};
inline DB parse_json(const char* t, const std::string& name = "db") { DB d = std::make_shared<tbox::MemoryDatabase>(name); JsonParser p{t}; p.object(d); return d; }
inline boost::property_tree::ptree json_ptree(const std::string& t) { std::istringstream is(t); boost::property_tree::ptree p; boost::property_tree::read_json(is, p); return p; }

typedef pdat::CellData<double> CD;
typedef pdat::SideData<double> SD;
struct World {
   std::shared_ptr<geom::CartesianGridGeometry> geom;
   std::shared_ptr<hier::PatchHierarchy> hier;
   struct V { std::shared_ptr<hier::Variable> var; int id; std::string kind; };
   std::map<std::string, V> vars;
   std::map<std::string, std::vector<double>> res;
   std::map<std::string, std::string> text;
   std::map<std::string, std::shared_ptr<void>> keep;   // objects that live across commands
   int id(const std::string& n) const { auto i = vars.find(n); return i == vars.end() ? -1 : i->second.id; }
   template <class T> std::shared_ptr<T> var(const std::string& n) const { auto i = vars.find(n); return i == vars.end() ? nullptr : std::dynamic_pointer_cast<T>(i->second.var); }
   std::shared_ptr<pdat::CellVariable<double>> cvar(const std::string& n) const { return var<pdat::CellVariable<double>>(n); }
   std::shared_ptr<pdat::SideVariable<double>> svar(const std::string& n) const { return var<pdat::SideVariable<double>>(n); }
   template <class T> std::shared_ptr<T> get(const std::string& n) { return std::static_pointer_cast<T>(keep[n]); }
   int reg(const std::string& n, const std::string& kind, const std::shared_ptr<hier::Variable>& v, int ng) {
      auto ctx = hier::VariableDatabase::getDatabase()->getContext("current");
      int i = hier::VariableDatabase::getDatabase()->registerVariableAndContext(v, ctx, hier::IntVector(tbox::Dimension(NDIM), ng));
      vars[n] = V{v, i, kind};
      if (hier) for (int l = 0; l < hier->getNumberOfLevels(); l++) hier->getPatchLevel(l)->allocatePatchData(i);
      return i;
   }
};
inline World& world() { static World* w = new World; return *w; }
typedef std::function<void(DB, World&)> Cmd;
inline std::map<std::string, Cmd>& commands() { static std::map<std::string, Cmd> c; return c; }
struct RegCmd { RegCmd(const char* n, Cmd c) { commands()[n] = c; } };
#define CMD(name) static void cmd_##name(DB p, World& w); static RegCmd reg_##name(#name, cmd_##name); static void cmd_##name(DB p, World& w)
std::string& lasterr();
// small accessors for parameters
inline double D(DB p, const char* k) { return p->getDouble(k); }
inline double D(DB p, const char* k, double d) { return p->keyExists(k) ? p->getDouble(k) : d; }
inline int I(DB p, const char* k) { return p->getInteger(k); }
inline int I(DB p, const char* k, int d) { return p->keyExists(k) ? p->getInteger(k) : d; }
inline std::string S(DB p, const char* k, const std::string& d = "") { return p->keyExists(k) ? p->getString(k) : d; }
inline std::vector<double> DV(DB p, const char* k) { return p->keyExists(k) ? p->getDoubleVector(k) : std::vector<double>(); }
inline std::vector<int> IV(DB p, const char* k) { return p->keyExists(k) && p->getArraySize(k) ? p->getIntegerVector(k) : std::vector<int>(); }
inline DB SUB(DB p, const char* k) { return p->isDatabase(k) ? p->getDatabase(k) : std::make_shared<tbox::MemoryDatabase>(k); }
#endif
