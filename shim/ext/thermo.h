// Stand-in for the interface of Thermo4PFM used by AMPE (the library is not available offline): interpolation
// functions as Thermo4PFM defines them, quadratic free energies, and for the CALPHAD/KKS classes simple closed-form
// free energies with the same interface (AMPE's own code does not depend on which free energy is behind it).
#ifndef MINI_THERMO
#define MINI_THERMO
#include <boost/property_tree/json_parser.hpp>
#include <boost/property_tree/ptree.hpp>
#include <array>
#include <cmath>
#include <cassert>
#include <iostream>
#include <fstream>
#include <memory>
#include <string>
#include <vector>
#include <cstring>
#ifndef GASCONSTANT_R_JPKPMOL
#define GASCONSTANT_R_JPKPMOL 8.314472
#endif
namespace Thermo4PFM {
enum class PhaseIndex { phaseL = 0, phaseA = 1, phaseB = 2, nPhases = 3 };
enum class EnergyInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
enum class ConcInterpolationType { LINEAR, PBG, HARMONIC, UNDEFINED };
inline char energyInterpChar(EnergyInterpolationType t) { return t == EnergyInterpolationType::LINEAR ? 'l' : t == EnergyInterpolationType::PBG ? 'p' : t == EnergyInterpolationType::HARMONIC ? 'h' : 'u'; }
inline char concInterpChar(ConcInterpolationType t) { return t == ConcInterpolationType::LINEAR ? 'l' : t == ConcInterpolationType::PBG ? 'p' : t == ConcInterpolationType::HARMONIC ? 'h' : 'u'; }
inline double clamp01_(double p) { return p < 0. ? 0. : p > 1. ? 1. : p; }
inline double pbg_interp_func(double q) { double p = clamp01_(q); return p * p * p * (10. - 15. * p + 6. * p * p); }
inline double deriv_pbg_interp_func(double q) { double p = clamp01_(q); return 30. * p * p * (1. - p) * (1. - p); }
inline double second_deriv_pbg_interp_func(double q) { double p = clamp01_(q); return 60. * p * (1. - 3. * p + 2. * p * p); }
inline double harmonic_interp_func(double q) { double p = clamp01_(q); return p * p * (3. - 2. * p); }
inline double deriv_harmonic_interp_func(double q) { double p = clamp01_(q); return 6. * p * (1. - p); }
inline double interp_func(EnergyInterpolationType t, double p) { return t == EnergyInterpolationType::LINEAR ? p : t == EnergyInterpolationType::PBG ? pbg_interp_func(p) : harmonic_interp_func(p); }
inline double interp_func(ConcInterpolationType t, double p) { return t == ConcInterpolationType::LINEAR ? p : t == ConcInterpolationType::PBG ? pbg_interp_func(p) : harmonic_interp_func(p); }
inline double deriv_interp_func(EnergyInterpolationType t, double p) { return t == EnergyInterpolationType::LINEAR ? 1. : t == EnergyInterpolationType::PBG ? deriv_pbg_interp_func(p) : deriv_harmonic_interp_func(p); }
inline double second_deriv_interp_func(EnergyInterpolationType t, double p) { return t == EnergyInterpolationType::LINEAR ? 0. : t == EnergyInterpolationType::PBG ? second_deriv_pbg_interp_func(p) : 6. - 12. * p; }
inline double well_func(double p) { return 16. * p * p * (1. - p) * (1. - p); }
inline double deriv_well_func(double p) { return 32. * p * (1. - p) * (1. - 2. * p); }
inline double second_deriv_well_func(double p) { return 32. * (1. + 6. * p * (p - 1.)); }
inline double xlogx(double x) { return x > 1e-12 ? x * std::log(x) : 0.; }
inline double xlogx_deriv(double x) { return x > 1e-12 ? std::log(x) + 1. : 0.; }
inline double xlogx_deriv2(double x) { return x > 1e-12 ? 1. / x : 0.; }
inline bool checkSublattice(const boost::property_tree::ptree& p) { return p.count("sublattice") > 0 || p.get_child_optional("SpeciesA.PhaseA.sublattice").is_initialized(); }
// A free energy per phase that is quadratic in every component, with an equilibrium composition linear in T and a constant.
struct QuadraticModel {
   int nc = 1, np = 2;
   double A[3][2] = {{4., 3.}, {2., 5.}, {3., 2.}}, E[3][2] = {{0.25, 0.125}, {0.5, 0.375}, {0.375, 0.5}}, M[3] = {0., 0., 0.}, B[3] = {0., 0.5, 0.25}, Tref = 0.;
   double eq(PhaseIndex p, int i, double T) const { int k = (int)p; return E[k][i] + M[k] * (T - Tref); }
   double computeFreeEnergy(const double T, const double* const c, const PhaseIndex p, const bool gp = false) const {
      double f = B[(int)p];
      for (int i = 0; i < nc; i++) { double d = c[i] - eq(p, i, T); f += A[(int)p][i] * d * d; }
      if (gp) { double g[2]; computeDerivFreeEnergy(T, c, p, g); for (int i = 0; i < nc; i++) f -= g[i] * c[i]; }
      return f;
   }
   void computeDerivFreeEnergy(const double T, const double* const c, const PhaseIndex p, double* g) const { for (int i = 0; i < nc; i++) g[i] = 2. * A[(int)p][i] * (c[i] - eq(p, i, T)); }
   void computeSecondDerivativeFreeEnergy(const double, const double* const, const PhaseIndex p, double* h) const {
      for (int i = 0; i < nc * nc; i++) h[i] = 0.;
      for (int i = 0; i < nc; i++) h[i * nc + i] = 2. * A[(int)p][i];
   }
   bool computeCeqT(const double T, double* ceq, const int = 20, const bool = false) const {
      for (int i = 0; i < nc; i++) { ceq[i] = eq(PhaseIndex::phaseL, i, T); ceq[nc + i] = eq(PhaseIndex::phaseA, i, T); }
      return true;
   }
   bool computeTieLine(const double T, const double, const double, double* ceq) const { return computeCeqT(T, ceq); }
   void preRunDiagnostics(const double = 0., const double = 1.) {}
   void preRunDiagnostics(std::ostream&) {}
   void energyVsPhiAndC(const double, const double* const, const bool, const double, const int, const int) {}
   void energyVsPhiAndC(const double, const double* const, const bool, const double, const std::string&, const int, const int) {}
   template <class... X> void printEnergyVsComposition(X...) {}
   template <class... X> double fchem(X...) const { return 0.; }
   // equal chemical potentials; weights: two phases (solid fraction first), three phases or as given
   int phaseConc(const double T, const double* c, const double* hl, double* x) const {
      for (int i = 0; i < nc; i++) {
         // mu = 2 A_k (x_k - e_k): x_k = e_k + mu/(2 A_k)
         double s = 0., w = 0.;
         for (int k = 0; k < np; k++) { s += hl[k] * eq((PhaseIndex)k, i, T); w += hl[k] / (2. * A[k][i]); }
         double mu = (c[i] - s) / w;
         for (int k = 0; k < np; k++) x[i + k * nc] = eq((PhaseIndex)k, i, T) + mu / (2. * A[k][i]);
      }
      return 1;
   }
   void fromTree(const boost::property_tree::ptree& t) {
      for (int k = 0; k < 3; k++) for (int i = 0; i < 2; i++) {
         std::string s = std::to_string(k) + std::to_string(i);
         A[k][i] = t.get("standin.A" + s, A[k][i]);
         E[k][i] = t.get("standin.E" + s, E[k][i]);
      }
      for (int k = 0; k < 3; k++) { M[k] = t.get("standin.M" + std::to_string(k), M[k]); B[k] = t.get("standin.B" + std::to_string(k), B[k]); }
      Tref = t.get("standin.Tref", Tref);
   }
};
struct TwoPhaseBinary : QuadraticModel {
   int computePhaseConcentrations(const double T, const double* const c, const double* const hphi, double* x) const { double h[2] = {1. - hphi[0], hphi[0]}; return phaseConc(T, c, h, x); }
};
class QuadraticFreeEnergyFunctionsBinary : public TwoPhaseBinary {
 public:
   QuadraticFreeEnergyFunctionsBinary(const double tref, const double Al, const double ceql, const double ml, const double Aa, const double ceqa, const double ma, const EnergyInterpolationType, const ConcInterpolationType) {
      Tref = tref; A[0][0] = Al; A[1][0] = Aa; E[0][0] = ceql; E[1][0] = ceqa; M[0] = ml; M[1] = ma; B[1] = 0.;
   }
};
class QuadraticFreeEnergyFunctionsTernaryThreePhase : public QuadraticModel {
 public:
   QuadraticFreeEnergyFunctionsTernaryThreePhase(const double* Al, const double* cl, const double* Aa, const double* ca, const double* Ab, const double* cb, const EnergyInterpolationType, const ConcInterpolationType) {
      nc = 2; np = 3;
      for (int i = 0; i < 2; i++) { A[0][i] = Al[i]; A[1][i] = Aa[i]; A[2][i] = Ab[i]; E[0][i] = cl[i]; E[1][i] = ca[i]; E[2][i] = cb[i]; }
      B[1] = B[2] = 0.;
   }
   int computePhaseConcentrations(const double T, const double* const c, const double* const hphi, double* x) const { return phaseConc(T, c, hphi, x); }
};
#define MINI_FE(Name, NC, NP, BASE) \
   class Name : public BASE { \
    public: \
      template <class P> Name(const P& t, const boost::property_tree::ptree&, const EnergyInterpolationType, const ConcInterpolationType) { nc = NC; np = NP; fromTree(t); } \
      template <class P> Name(const P& t, const EnergyInterpolationType, const ConcInterpolationType) { nc = NC; np = NP; fromTree(t); } \
      template <class P> Name(const P& t, boost::optional<const boost::property_tree::ptree&>, const EnergyInterpolationType, const ConcInterpolationType) { nc = NC; np = NP; fromTree(t); } \
   };
struct ThreePhase : QuadraticModel {
   int computePhaseConcentrations(const double T, const double* const c, const double* const hphi, double* x) const { return phaseConc(T, c, hphi, x); }
};
MINI_FE(CALPHADFreeEnergyFunctionsBinary, 1, 2, TwoPhaseBinary)
MINI_FE(CALPHADFreeEnergyFunctionsBinary2Ph1Sl, 1, 2, TwoPhaseBinary)
MINI_FE(CALPHADFreeEnergyFunctionsBinaryThreePhase, 1, 3, ThreePhase)
MINI_FE(CALPHADFreeEnergyFunctionsBinary3Ph2Sl, 1, 3, ThreePhase)
MINI_FE(CALPHADFreeEnergyFunctionsTernary, 2, 2, TwoPhaseBinary)
MINI_FE(KKSFreeEnergyFunctionDiluteBinary, 1, 2, TwoPhaseBinary)
}  // namespace Thermo4PFM
#endif
