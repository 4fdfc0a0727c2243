// The parameters of a model, as read from an input database.
#include <map>
#include <vector>
#include <string>
#include <array>
#include "core.h"
#include "QuatModelParameters.h"
static const char* en(Thermo4PFM::EnergyInterpolationType t) { using T = Thermo4PFM::EnergyInterpolationType; return t == T::LINEAR ? "linear" : t == T::PBG ? "pbg" : t == T::HARMONIC ? "harmonic" : "undefined"; }
static const char* en(Thermo4PFM::ConcInterpolationType t) { using T = Thermo4PFM::ConcInterpolationType; return t == T::LINEAR ? "linear" : t == T::PBG ? "pbg" : t == T::HARMONIC ? "harmonic" : "undefined"; }
static const char* en(DiffusionInterpolationType t) { using T = DiffusionInterpolationType; return t == T::LINEAR ? "linear" : t == T::PBG ? "pbg" : t == T::BIASED ? "biased" : "undefined"; }
static const char* en(EnergyThreeArgsInterpolationType t) { using T = EnergyThreeArgsInterpolationType; return t == T::MOELANS2011 ? "moelans" : t == T::FOLCHPLAPP2005 ? "folch" : "undefined"; }
static const char* en(ConcThreeArgsInterpolationType t) { using T = ConcThreeArgsInterpolationType; return t == T::MOELANS2011 ? "moelans" : t == T::FOLCHPLAPP2005 ? "folch" : "undefined"; }
#define D_(x) w.res[#x] = {(double)m.x()};
#define S__(x) w.text[#x] = m.x();
#define E_(x) w.text[#x] = en(m.x());
// p: db, visit (optional), fill: byte the object's memory holds beforehand, T
CMD(params) {
   auto in = std::dynamic_pointer_cast<tbox::MemoryDatabase>(parse_json(p->getString("db").c_str(), "input"));
   std::vector<unsigned char> mem(sizeof(QuatModelParameters) + 64);
   memset(mem.data(), I(p, "fill", 0), mem.size());
   void* at = mem.data();
   size_t room = mem.size();
   std::align(alignof(QuatModelParameters), sizeof(QuatModelParameters), at, room);
   auto* q = new (at) QuatModelParameters();
   QuatModelParameters& m = *q;
   w.res.clear(); w.text.clear();
   m.readModelParameters(in);
   m.readFreeEnergies(in);
   if (p->keyExists("visit")) m.readVisitOptions(std::dynamic_pointer_cast<tbox::MemoryDatabase>(parse_json(p->getString("visit").c_str(), "visit")));
   D_(norderp) D_(norderpA) D_(norderpB) D_(withPhaseB) D_(withMultipleOrderP) D_(H_parameter) D_(with_orientation) D_(evolveQuat) D_(epsilon_phase) D_(epsilon_anisotropy) D_(epsilon_q) D_(noise_amplitude)
   D_(phase_mobility) D_(quat_mobility) D_(min_quat_mobility) D_(max_quat_mobility) D_(exp_scale_quat_mobility) D_(q0_phase_mobility) D_(quat_grad_floor) D_(conc_mobility) D_(thermal_diffusivity) D_(latent_heat)
   D_(ncompositions) D_(knownInitCinPhase) D_(meltingT) D_(interfaceMobility) D_(vd) D_(keq) D_(liquidus_slope) D_(average_concentration) D_(phase_well_scale) D_(free_energy_liquid) D_(free_energy_solid_A) D_(free_energy_solid_B)
   D_(well_bias_alpha) D_(well_bias_gamma) D_(quat_grad_modulus_from_cells) D_(isPhaseMobilityScalar) D_(gamma) D_(m_moelans2011) D_(molar_volume_liquid) D_(molar_volume_solid_A) D_(molar_volume_solid_B)
   D_(D_liquid) D_(D_solid_A) D_(D_solid_B) D_(D0_AA) D_(D0_AB) D_(D0_BB) D_(D0_LA) D_(D0_LB) D_(Q0_liquid) D_(Q0_solid_A) D_(Q0_solid_B) D_(Q0_LA) D_(Q0_LB) D_(Q0_AA) D_(Q0_AB) D_(Q0_BB)
   D_(with_phase) D_(with_concentration) D_(with_third_phase) D_(with_three_phases) D_(with_heat_equation) D_(with_unsteady_heat_equation) D_(with_steady_temperature) D_(with_rescaled_temperature) D_(with_gradT) D_(with_antitrapping)
   D_(grand_potential) D_(with_bias_well) D_(with_Aziz_partition_coeff) D_(with_uniform_partition_coeff) D_(with_partition_coeff) D_(partition_phase_concentration) D_(kks_phase_concentration) D_(with_velocity)
   D_(use_diffs_to_compute_flux) D_(useIsotropicStencil) D_(useEBSisotropicStencil) D_(useEBS4thOrderStencil) D_(useUpwindScheme) D_(nghosts_required) D_(wellBiasBeckermann) D_(isConcentrationModelLinear)
   D_(isConcentrationModelCALPHADorQuadratic) D_(concentrationModelNeedsPhaseConcentrations) D_(isConcentrationModelCALPHAD) D_(isConcentrationModelQuadratic) D_(isConcentrationModelKKSdilute) D_(isConcentrationModelWangSintering)
   D_(isTemperatureUniform) D_(isTemperatureConstant) D_(isTemperatureGaussian) D_(isTemperatureGradient) D_(needGhosts4PartitionCoeff) D_(concRHSstrategyIsKKS) D_(concRHSstrategyIsEBS) D_(concRHSstrategyIsSPINODAL)
   D_(concRHSstrategyIsBeckermann) D_(concRHSstrategyIsCahnHilliard) D_(concRHSstrategyIsWangSintering) D_(concRHSneeds2Ghosts) D_(conDiffusionStrategyIsCTD) D_(isHeatSourceCompositionDependent)
   D_(with_extra_visit_output) D_(with_rhs_visit_output) D_(with_visit_energy_output) D_(with_visit_grain_output) D_(ncompositionFields) D_(surfaceEnergy) D_(interfacialWidth) D_(initPhaseConcAtEq)
   D_(inMovingFrame) D_(movingVelocity) D_(adaptMovingFrame) D_(upwindMovingFrame) D_(concL_ref) D_(concA_ref) D_(concB_ref) D_(withRBmotion) D_(rbStiffness) D_(rbMobility) D_(rbThreshold) D_(rbEquilGB)
   D_(CH_ca) D_(CH_cb) D_(CH_well_scale) D_(CH_kappa) D_(WangSintering_A) D_(WangSintering_B) D_(WangSintering_beta_rho)
   if (m.with_rescaled_temperature()) D_(rescale_factorT)
   if (m.evolveQuat()) D_(quatMobilityScaleFactor)
   E_(conc_interp_func_type) E_(energy_interp_func_type) E_(diffusion_interp_func_type) E_(conc_three_args_interp_func_type) E_(energy_three_args_interp_func_type)
   S__(orient_interp_func_type1) S__(orient_interp_func_type2) S__(avg_func_type) S__(diffq_avg_func_type) S__(phase_well_func_type) S__(quat_mobility_func_type) S__(quat_grad_floor_type) S__(conc_avg_func_type) S__(free_energy_type)
   w.res["T_source"] = m.T_source(); w.res["Q_heat_transport"] = m.Q_heat_transport();
   w.res["cp"] = {};
   for (auto& c : m.cp()) for (short k : {0, 1, -2}) w.res["cp"].push_back(c.count(k) ? c.at(k) : 0.);
   std::array<double, NDIM> f;
   m.rbExternalForce(f);
   w.res["force"] = std::vector<double>(f.begin(), f.end());
   w.res["zeta"] = {};
   for (double T : DV(p, "T")) { w.res["zeta"].push_back(m.isPhaseMobilityScalar() ? 0. : m.zetaFactorLA(T)); w.res["zeta"].push_back(m.isPhaseMobilityScalar() ? 0. : m.zetaFactorLB(T)); w.res["zeta"].push_back(m.isPhaseMobilityScalar() ? 0. : m.zetaFactor(T)); }
   w.res["initc"] = {};
   if (m.knownInitCinPhase()) for (int i = 0; i < m.ncompositions(); i++) { w.res["initc"].push_back(m.getInitCphaseL(i)); w.res["initc"].push_back(m.getInitCphaseA(i)); }
   q->~QuatModelParameters();
   std::string r, t;      // names of the results
   for (auto& x : w.res) r += x.first + " ";
   for (auto& x : w.text) t += x.first + " ";
   w.text["names"] = r; w.text["texts"] = t;
}
