------------------------------ MODULE AmpeParam ------------------------------
(* What an input database means: every parameter of a model as a function of the entries given, their older names,
   their defaults and the units they are converted to.  Numbers are given in sixteenths; results are in 1/4096.
   d: sections present, n: numbers, i: integers, s: strings, f: flags, a: arrays (sequences of numbers), by path. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Given(e,k) == k \in DOMAIN e.n \/ k \in DOMAIN e.i \/ k \in DOMAIN e.s \/ k \in DOMAIN e.f \/ k \in DOMAIN e.a
Num(e,k,d) == IF k \in DOMAIN e.n THEN e.n[k] ELSE d
Int_(e,k,d) == IF k \in DOMAIN e.i THEN e.i[k] ELSE d
Str(e,k,d) == IF k \in DOMAIN e.s THEN e.s[k] ELSE d
Flag(e,k,d) == IF k \in DOMAIN e.f THEN e.f[k] ELSE d
(* the first given of several names of the same parameter *)
RECURSIVE Named(_,_)
Named(e,ks) == IF ks = <<>> THEN "" ELSE IF Given(e,Head(ks)) THEN Head(ks) ELSE Named(e,Tail(ks))
NumOf(e,ks,d) == LET k == Named(e,ks) IN IF k = "" THEN d ELSE e.n[k]
StrOf(e,ks,d) == LET k == Named(e,ks) IN IF k = "" THEN d ELSE e.s[k]
Sec(e,x) == \E k \in 1..Len(e.d) : e.d[k] = x
B01(b) == IF b THEN 1 ELSE 0

Linear_ == {"l","L","linear","Linear"}
Pbg == {"p","P","pbg","PBG"}
Harmonic == {"h","H","harmonic"}
Undef == {"u","U","undefined"}
Interp(s) == IF s \in Linear_ THEN "linear" ELSE IF s \in Pbg THEN "pbg" ELSE IF s \in Harmonic THEN "harmonic" ELSE IF s \in Undef THEN "undefined" ELSE "error"
ThreeArgs(s) == IF s \in {"m","M","moelans","Moelans2011"} THEN "moelans" ELSE IF s \in {"f","F","folch"} THEN "folch" ELSE "error"
Diffusion(s) == IF s \in Linear_ THEN "linear" ELSE IF s \in Pbg THEN "pbg" ELSE IF s \in {"b","biased"} THEN "biased" ELSE "error"
Average == {"a","arithmetic","h","harmonic"}
Wells == {"s","single","d","double"}
OrientInterp == {"quadratic","q","w","pbg","p","linear","l","t","s","3","constant","c"}
OrientMob == {"pbg","p","inverse","i","exp","e"}

(* ---- settings that other parameters depend on ---- *)
ThreePhases(e) == Flag(e,"three_phases",FALSE)
NOrder(e) == Int_(e,"norderp",1)
NOrderA(e) == Int_(e,"norderp_A", IF NOrder(e) = 1 THEN 1 ELSE NOrder(e)-1)
NOrderB(e) == IF NOrderA(e) > 0 THEN (IF NOrder(e) - NOrderA(e) - 1 < 0 THEN 0 ELSE NOrder(e) - NOrderA(e) - 1) ELSE -1
PhaseB(e) == ThreePhases(e) \/ NOrderB(e) > 0
Conc(e) == Sec(e,"ConcentrationModel")
C(k) == "ConcentrationModel." \o k
TK(e,k) == IF Sec(e,"Temperature") THEN "Temperature." \o k ELSE k
TempType(e) ==
  LET s == IF Sec(e,"Temperature") THEN Str(e,"Temperature.type","missing") ELSE Str(e,"temperature_type","scalar")
  IN CASE s \in {"scalar","Scalar"} -> "scalar" [] s \in {"frozen","Frozen"} -> "frozen" [] s \in {"gaussian","Gaussian"} -> "gaussian"
       [] s \in {"constant","Constant"} -> "constant" [] s \in {"heat","Heat"} -> "heat" [] OTHER -> "error"
Heat(e) == TempType(e) = "heat"
Steady(e) == Heat(e) /\ Str(e,TK(e,"equation_type"),"steady") = "steady"
TempMelting(e) == Num(e,TK(e,"meltingT"),-16)
Rescaled(e) == Heat(e) /\ ~Steady(e) /\ TempMelting(e) > 0
Model(e) == Str(e,C("model"),"missing")
Form(e) ==
  IF Model(e) = "wang_sintering" THEN "wang"
  ELSE LET s == Str(e,C("rhs_form"),"kks") IN IF s \in {"uniform","Beckermann","beckermann"} THEN "beckermann" ELSE s
DiffType(e) == Str(e,C("diffusion_type"), IF Form(e) = "ebs" THEN "composition_dependent" ELSE "temperature_dependent")
TD(e) == DiffType(e) = "temperature_dependent"
NComp(e) == IF Conc(e) THEN Int_(e,C("nspecies"),2) - 1 ELSE 0
Direct(e) == Named(e, <<"epsilon_phi","epsilon_phase","epsilon_parameter">>)
WithPhase(e) == Sec(e,"Interface") \/ Direct(e) # ""
SigmaDelta(e) == Given(e,"Interface.sigma")
EpsIn(e) == IF Sec(e,"Interface") THEN e.n["Interface.epsilon_phi"] ELSE e.n[Direct(e)]
WellKey(e) == IF Sec(e,"Interface") THEN "Interface.phi_well_scale" ELSE Named(e,<<"phi_well_scale","scale_energy_well">>)
Anis(e) == Num(e,"epsilon_anisotropy",-16)
H0(e) == LET h == Num(e,"H_parameter",-16) IN IF Anis(e) > 0 /\ h < 0 THEN 0 ELSE h
EnergyS(e) == StrOf(e,<<"energy_interp_func_type","phi_interp_func_type">>,"pbg")
ConcS(e) == Str(e,"conc_interp_func_type",EnergyS(e))
AvgS(e) == Str(e,"avg_func_type","harmonic")
Volume(e) ==
  IF Given(e,"molar_volume") THEN "" ELSE IF Given(e,"molar_volume_solid_A") THEN "" ELSE C("")
VLiquid(e) == NumOf(e, <<Volume(e) \o "molar_volume", Volume(e) \o "molar_volume_liquid">>, 0)
VSolidA(e) == NumOf(e, <<Volume(e) \o "molar_volume", Volume(e) \o "molar_volume_solid_A">>, 0)
VSolidB(e) == NumOf(e, <<Volume(e) \o "molar_volume", Volume(e) \o "molar_volume_solid_B", Volume(e) \o "molar_volume_solid_A">>, 0)
Melting(e) == IF Conc(e) /\ Model(e) = "dilute" THEN e.n[C("meltingT")] ELSE TempMelting(e)
MobK(k) == "PhaseMobility." \o k
MobType(e) == IF Sec(e,"PhaseMobility") THEN (LET s == Str(e,MobK("type"),"scalar") IN IF s \in {"Kim","kim"} THEN "kim" ELSE s) ELSE "scalar"
Beta(e) == MobType(e) = "kim" /\ Num(e,MobK("kinetics_coefficient"),-16) >= 0
Partition(e) == Str(e,C("partition_coeff"),"none")
PhaseConcModel(e) == Str(e,C("phase_concentration_model"), IF Model(e) \in {"calphad","quadratic","dilute"} THEN "kks" ELSE "none")
QMob(e) == StrOf(e,<<"quat_mobility_func_type","orient_mobility_func_type">>,"pbg")
QI(e) == QMob(e) \in {"inverse","i"}
QE(e) == QMob(e) \in {"exp","e"}
Interp1(e) == StrOf(e,<<"diff_interp_func_type","orient_interp_func_type","orient_interp_func_type1">>,"quadratic")
Species == <<"SpeciesA","SpeciesB","SpeciesC">>
Free(e,k) == IF Sec(e,"FreeEnergyModel") THEN "FreeEnergyModel." \o k ELSE k
FreeType(e) == Str(e,Free(e,"type"),"none")
FreeS(e) == FreeType(e) \in {"scalar","s"}

(* ---- entries without which a database means nothing ---- *)
Required(e) ==
  (IF Sec(e,"Interface") THEN (IF SigmaDelta(e) THEN {"Interface.delta"} ELSE {"Interface.epsilon_phi","Interface.phi_well_scale"}) ELSE {})
  \cup (IF WithPhase(e) /\ ~Sec(e,"PhaseMobility") THEN {"phi_mobility"} ELSE {})
  \cup (IF Sec(e,"PhaseMobility") /\ MobType(e) = "scalar" THEN {MobK("value")} ELSE {})
  \cup (IF MobType(e) = "kim" /\ ~Beta(e) /\ (Given(e,MobK("zeta")) \/ Given(e,MobK("zetaLA"))) THEN {MobK("Tref")} ELSE {})
  \cup (IF Sec(e,"RigidBody") /\ Num(e,"RigidBody.threshold",0) > 0 THEN {"RigidBody.equil_gb"} ELSE {})
  \cup (IF Sec(e,"Temperature") THEN {"Temperature.type"} ELSE {})
  \cup (IF Heat(e) THEN {TK(e,"thermal_diffusivity")} \cup { TK(e,"cp." \o Species[k] \o ".a") : k \in 1..(1 + NComp(e)) } ELSE {})
  \cup (IF Steady(e) /\ Str(e,TK(e,"heat_source_type"),"none") = "composition" THEN {TK(e,"source")} ELSE {})
  \cup (IF Conc(e)
        THEN {C("model")}
             \cup (IF Form(e) = "beckermann" THEN {C("D_liquid"),C("D_solid_A")} ELSE {})
             \cup (IF TD(e) THEN {C("D_liquid")} \cup (IF PhaseB(e) THEN {C("D_solid_A"),C("D_solid_B")} ELSE IF Given(e,C("D_solid_A")) THEN {} ELSE {C("D_solid")}) ELSE {})
             \cup (IF Form(e) = "cahn_hilliard" THEN { C("CahnHilliard." \o k) : k \in {"ca","cb","well_scale","kappa"} } ELSE {})
             \cup (IF Given(e,C("gradT_Q0")) THEN {C("gradT_Q1")} ELSE {})
             \cup (IF Partition(e) = "Aziz" THEN {C("vd")} ELSE {})
             \cup (IF Partition(e) = "uniform" THEN {C("keq")} ELSE {})
             \cup (IF Model(e) = "linear" THEN {C("alpha")} \cup (IF Num(e,C("liquidus_slope"),0) # 0 THEN {C("average_concentration")} ELSE {}) ELSE {})
             \cup (IF Model(e) = "dilute" THEN {C("liquidus_slope"),C("keq"),C("meltingT")} ELSE {})
             \cup (IF Model(e) = "wang_sintering" /\ ~SigmaDelta(e) THEN { C("WangSintering." \o k) : k \in {"A","B","beta"} } ELSE {})
        ELSE {})
  \cup (IF FreeS(e) THEN {Free(e,"free_energy_liquid")} \cup (IF ThreePhases(e) THEN {Free(e,"free_energy_solid_A"),Free(e,"free_energy_solid_B")} ELSE {Free(e,"free_energy_solid")}) ELSE {})
Missing(e) == \E k \in Required(e) : ~Given(e,k)
RequiredNames(e) ==
  IF H0(e) > 0 THEN << <<"orient_mobility","quat_mobility","tau_quat">>, <<"epsilon_orient","epsilon_q","epsilon_quat">> >> ELSE <<>>
Invalid(e) ==
  \/ \E k \in 1..Len(RequiredNames(e)) : Named(e,RequiredNames(e)[k]) = ""
  \/ StrOf(e,<<"phi_well_func_type","energy_well_func_type">>,"double") \notin Wells
  \/ Interp(EnergyS(e)) = "error" \/ Interp(ConcS(e)) \in {"error","undefined"}
  \/ ThreeArgs(Str(e,"energy_three_args_interp_func_type","F")) = "error" \/ ThreeArgs(Str(e,"conc_three_args_interp_func_type","F")) = "error"
  \/ Diffusion(Str(e,"diffusion_interp_func_type","linear")) = "error"
  \/ AvgS(e) \notin Average \/ Str(e,"diffq_avg_func_type",AvgS(e)) \notin Average
  \/ H0(e) > 0 /\ (Interp1(e) \notin OrientInterp \/ QMob(e) \notin OrientMob)
  \/ TempType(e) = "error"
  \/ Sec(e,"PhaseMobility") /\ MobType(e) \notin {"scalar","kim"}
  \/ Conc(e) /\ \/ Model(e) \notin {"calphad","quadratic","linear","independent","dilute","cahn_hilliard","wang_sintering"}
                \/ Form(e) \notin {"kks","ebs","cahn_hilliard","spinodal","beckermann","wang"}
                \/ Form(e) = "ebs" /\ Str(e,C("ebs_stencil"),"regular") \notin {"regular","isotropic","order4"}
                \/ Str(e,C("avg_func_type"),AvgS(e)) \notin Average
Refused(e) == Missing(e) \/ Invalid(e)

(* ---- numbers (1/4096) ---- *)
X(v) == 256*v
One(b) == 4096*B01(b)
PerVolume(e,v) == (4096*v) \div VLiquid(e)                    \* J/mol to pJ/um^3, volumes in 1e-6 m^3/mol
Scaled(e,v) == IF Rescaled(e) THEN 16*v*TempMelting(e) ELSE X(v)
Always(e) ==
  [ norderp |-> 4096*(IF ThreePhases(e) THEN 3 ELSE NOrder(e)), norderpA |-> 4096*NOrderA(e), norderpB |-> 4096*NOrderB(e), withPhaseB |-> One(PhaseB(e)),
    withMultipleOrderP |-> One(NOrder(e) > 1), H_parameter |-> Scaled(e,H0(e)), with_orientation |-> One(H0(e) >= 0), evolveQuat |-> One(H0(e) > 0),
    epsilon_anisotropy |-> X(Anis(e)), q0_phase_mobility |-> X(Num(e,"q0_phi_mobility",0)), with_phase |-> One(WithPhase(e)),
    with_concentration |-> One(Conc(e)), with_three_phases |-> One(ThreePhases(e)), ncompositions |-> 4096*NComp(e), ncompositionFields |-> 4096*NComp(e), gamma |-> 6144,
    with_heat_equation |-> One(Heat(e)), with_unsteady_heat_equation |-> One(Heat(e) /\ ~Steady(e)), with_steady_temperature |-> One(Steady(e)), with_rescaled_temperature |-> One(Rescaled(e)),
    isTemperatureUniform |-> One(TempType(e) = "scalar"), isTemperatureConstant |-> One(TempType(e) \in {"constant","heat"}), isTemperatureGaussian |-> One(TempType(e) = "gaussian"), isTemperatureGradient |-> One(TempType(e) = "frozen"),
    meltingT |-> X(Melting(e)), isHeatSourceCompositionDependent |-> One(Steady(e) /\ Str(e,TK(e,"heat_source_type"),"none") = "composition"),
    use_diffs_to_compute_flux |-> One(Flag(e,"use_diffs_to_compute_flux",FALSE)), useIsotropicStencil |-> One(Str(e,"stencil_type","normal") = "isotropic"),
    movingVelocity |-> X(Num(e,"MovingFrame.velocity",0)), inMovingFrame |-> One(Num(e,"MovingFrame.velocity",0) # 0), adaptMovingFrame |-> One(Flag(e,"MovingFrame.adapt",FALSE)),
    upwindMovingFrame |-> One(Flag(e,"MovingFrame.upwind",FALSE)), useUpwindScheme |-> One(Flag(e,"MovingFrame.upwind",FALSE)),
    nghosts_required |-> 4096*(IF Flag(e,"MovingFrame.upwind",FALSE) \/ (Conc(e) /\ (Form(e) \in {"wang","cahn_hilliard"} \/ (Form(e) = "ebs" /\ Str(e,C("ebs_stencil"),"regular") = "order4"))) THEN 2 ELSE 1),
    withRBmotion |-> One(Sec(e,"RigidBody")), isPhaseMobilityScalar |-> One(WithPhase(e) /\ MobType(e) = "scalar"),
    with_extra_visit_output |-> One(Flag(e,"Visit.extra_output",FALSE)), with_rhs_visit_output |-> One(Flag(e,"Visit.rhs_output",FALSE)),
    with_visit_energy_output |-> One(Flag(e,"Visit.energy_output",FALSE)), with_visit_grain_output |-> One(Flag(e,"Visit.grain_output",FALSE)),
    with_velocity |-> One(Flag(e,"Visit.velocity_output", Conc(e) /\ Partition(e) = "Aziz")) ]
Orient(e) ==
  (IF H0(e) >= 0 THEN [noise_amplitude |-> X(Num(e,"noise_amplitude",0))] ELSE <<>>)
  @@ (IF H0(e) > 0
      THEN [ quat_mobility |-> (LET k == Named(e,RequiredNames(e)[1]) IN IF k = "tau_quat" THEN (4096*16) \div e.n[k] ELSE X(e.n[k])),
             min_quat_mobility |-> (LET k == Named(e,<<"min_orient_mobility","min_quat_mobility">>) IN IF k = "" THEN 0 ELSE X(e.n[k])),
             epsilon_q |-> X(NumOf(e,RequiredNames(e)[2],0)),
             quat_grad_floor |-> (LET k == Named(e,<<"orient_grad_floor","quat_grad_floor">>) IN IF k = "" THEN 41 ELSE X(e.n[k])),
             quat_grad_modulus_from_cells |-> One(Str(e,"quat_grad_modulus_type","cells") = "cells") ]
           @@ (IF QI(e) THEN (LET k == Named(e,<<"max_orient_mobility","max_quat_mobility">>) IN IF k = "" THEN <<>> ELSE [max_quat_mobility |-> X(e.n[k]), quatMobilityScaleFactor |-> X(e.n[k])]) ELSE <<>>)
           @@ (IF QE(e) THEN (LET k == Named(e,<<"exp_scale_orient_mobility","exp_scale_quat_mobility">>) IN IF k = "" THEN <<>> ELSE [exp_scale_quat_mobility |-> X(e.n[k]), quatMobilityScaleFactor |-> X(e.n[k])]) ELSE <<>>)
      ELSE <<>>)
Interface_(e) ==
  IF ~WithPhase(e) THEN <<>>
  ELSE IF SigmaDelta(e) THEN [ surfaceEnergy |-> X(e.n["Interface.sigma"]), interfacialWidth |-> X(e.n["Interface.delta"]), epsilon2 |-> 96*e.n["Interface.sigma"]*e.n["Interface.delta"] ]
  ELSE [ epsilon_phase |-> X(EpsIn(e)) ] @@ (IF WellKey(e) = "" THEN <<>> ELSE [ phase_well_scale |-> X(e.n[WellKey(e)]), m_moelans2011 |-> 8*X(e.n[WellKey(e)]) ])
Mobility(e) ==
  IF WithPhase(e) /\ ~Sec(e,"PhaseMobility") THEN [phase_mobility |-> X(e.n["phi_mobility"])]
  ELSE IF Sec(e,"PhaseMobility") /\ MobType(e) = "scalar" THEN [phase_mobility |-> X(e.n[MobK("value")])]
  ELSE IF MobType(e) = "kim" /\ ~Beta(e) THEN [interfaceMobility |-> X(Num(e,MobK("interface_mobility"),-16))]
  ELSE <<>>
Rigid_(e) ==
  IF Sec(e,"RigidBody")
  THEN [rbStiffness |-> X(Num(e,"RigidBody.stiffness",0)), rbMobility |-> X(Num(e,"RigidBody.mobility",16)), rbThreshold |-> X(Num(e,"RigidBody.threshold",0))]
       @@ (IF Num(e,"RigidBody.threshold",0) > 0 THEN [rbEquilGB |-> X(e.n["RigidBody.equil_gb"])] ELSE <<>>)
  ELSE <<>>
Volumes(e) ==
  IF VLiquid(e) = 0 THEN <<>>
  ELSE [molar_volume_liquid |-> X(VLiquid(e)), molar_volume_solid_A |-> X(VSolidA(e)), molar_volume_solid_B |-> X(VSolidB(e))]
Thermal(e) ==
  (IF Heat(e) THEN [thermal_diffusivity |-> X(e.n[TK(e,"thermal_diffusivity")])] ELSE <<>>)
  @@ (IF Rescaled(e) THEN [rescale_factorT |-> X(TempMelting(e))] ELSE <<>>)
  @@ (IF Given(e,TK(e,"latent_heat")) THEN [latent_heat |-> PerVolume(e,e.n[TK(e,"latent_heat")])] ELSE <<>>)
Bias(e) ==
  IF Conc(e)
  THEN IF Model(e) = "linear"
       THEN [well_bias_alpha |-> X(e.n[C("alpha")]), with_bias_well |-> One(e.n[C("alpha")] > 0), well_bias_gamma |-> Scaled(e,Num(e,C("gamma"),-16)), wellBiasBeckermann |-> One(Num(e,C("gamma"),-16) < 0)]
       ELSE [well_bias_alpha |-> 0, with_bias_well |-> 0, wellBiasBeckermann |-> 0]
  ELSE [well_bias_alpha |-> X(Num(e,"bias_well_alpha",0)), with_bias_well |-> One(Num(e,"bias_well_alpha",0) > 0), wellBiasBeckermann |-> 0]
       @@ (IF Given(e,"bias_well_gamma") THEN [well_bias_gamma |-> X(e.n["bias_well_gamma"])] ELSE <<>>)
Opt(e,k) == X(Num(e,C(k),0))
Composition(e) ==
  IF ~Conc(e) THEN [knownInitCinPhase |-> 0, with_gradT |-> 0, with_antitrapping |-> 0, concRHSstrategyIsEBS |-> 0, concRHSstrategyIsKKS |-> 0, needGhosts4PartitionCoeff |-> 0, conDiffusionStrategyIsCTD |-> 0, with_partition_coeff |-> 0, concentrationModelNeedsPhaseConcentrations |-> 0]
  ELSE [ conc_mobility |-> X(Num(e,C("mobility"),16)), with_gradT |-> One(Given(e,C("gradT_Q0"))), with_antitrapping |-> One(Flag(e,C("antitrapping"),FALSE)), grand_potential |-> One(Flag(e,C("gc"),FALSE)),
         initPhaseConcAtEq |-> One(Flag(e,C("init_phase_conc_eq"),TRUE)), knownInitCinPhase |-> One(Given(e,C("initc_in_phase"))),
         concL_ref |-> X(Num(e,C("concL_ref"),-16)), concA_ref |-> X(Num(e,C("concA_ref"),-16)), concB_ref |-> X(Num(e,C("concB_ref"),-16)),
         isConcentrationModelLinear |-> One(Model(e) = "linear"), isConcentrationModelCALPHAD |-> One(Model(e) = "calphad"), isConcentrationModelQuadratic |-> One(Model(e) = "quadratic"),
         isConcentrationModelCALPHADorQuadratic |-> One(Model(e) \in {"calphad","quadratic"}), isConcentrationModelKKSdilute |-> One(Model(e) = "dilute"), isConcentrationModelWangSintering |-> One(Model(e) = "wang_sintering"),
         concentrationModelNeedsPhaseConcentrations |-> One(Model(e) \in {"calphad","quadratic","linear","dilute","independent"}),
         concRHSstrategyIsKKS |-> One(Form(e) = "kks"), concRHSstrategyIsEBS |-> One(Form(e) = "ebs"), concRHSstrategyIsSPINODAL |-> One(Form(e) = "spinodal"), concRHSstrategyIsBeckermann |-> One(Form(e) = "beckermann"),
         concRHSstrategyIsCahnHilliard |-> One(Form(e) = "cahn_hilliard"), concRHSstrategyIsWangSintering |-> One(Form(e) = "wang"), concRHSneeds2Ghosts |-> One(Form(e) \in {"cahn_hilliard","wang"}),
         needGhosts4PartitionCoeff |-> One(Form(e) = "beckermann"), conDiffusionStrategyIsCTD |-> One(DiffType(e) = "composition_dependent"),
         useEBSisotropicStencil |-> One(Form(e) = "ebs" /\ Str(e,C("ebs_stencil"),"regular") = "isotropic"), useEBS4thOrderStencil |-> One(Form(e) = "ebs" /\ Str(e,C("ebs_stencil"),"regular") = "order4"),
         with_Aziz_partition_coeff |-> One(Partition(e) = "Aziz"), with_uniform_partition_coeff |-> One(Partition(e) = "uniform"), with_partition_coeff |-> One(Partition(e) \in {"Aziz","uniform"}),
         partition_phase_concentration |-> One(PhaseConcModel(e) = "partition"), kks_phase_concentration |-> One(PhaseConcModel(e) = "kks") ]
       @@ (IF Form(e) = "beckermann" \/ TD(e) THEN [D_liquid |-> Opt(e,"D_liquid")] ELSE <<>>)
       @@ (IF Form(e) = "beckermann" \/ TD(e) THEN [D_solid_A |-> X(NumOf(e,<<C("D_solid_A"),C("D_solid")>>,0))] ELSE <<>>)
       @@ (IF TD(e) THEN [Q0_liquid |-> Opt(e,"Q0_liquid"), D0_LA |-> Opt(e,"D0_LA"), Q0_LA |-> Opt(e,"Q0_LA"), D0_AA |-> Opt(e,"D0_AA"), Q0_AA |-> Opt(e,"Q0_AA"),
                          Q0_solid_A |-> (IF PhaseB(e) THEN Opt(e,"Q0_solid_A") ELSE X(NumOf(e,<<C("Q0_solid_A"),C("Q0_solid")>>,0)))] ELSE <<>>)
       @@ (IF TD(e) /\ PhaseB(e) THEN [D_solid_B |-> Opt(e,"D_solid_B"), Q0_solid_B |-> Opt(e,"Q0_solid_B"), D0_LB |-> Opt(e,"D0_LB"), Q0_LB |-> Opt(e,"Q0_LB"), D0_AB |-> Opt(e,"D0_AB"), Q0_AB |-> Opt(e,"Q0_AB"), D0_BB |-> Opt(e,"D0_BB"), Q0_BB |-> Opt(e,"Q0_BB")] ELSE <<>>)
       @@ (IF Partition(e) = "Aziz" THEN [vd |-> Opt(e,"vd"), keq |-> X(Num(e,C("keq"),-16))] ELSE IF Partition(e) = "uniform" \/ Model(e) = "dilute" THEN [keq |-> Opt(e,"keq")] ELSE <<>>)
       @@ (IF Model(e) = "dilute" \/ (Model(e) = "linear" /\ ~Rescaled(e)) THEN [liquidus_slope |-> Opt(e,"liquidus_slope")] ELSE <<>>)
       @@ (IF Model(e) = "linear" /\ Opt(e,"liquidus_slope") # 0 THEN [average_concentration |-> Opt(e,"average_concentration")] ELSE <<>>)
       @@ (IF Form(e) = "cahn_hilliard" THEN [CH_ca |-> Opt(e,"CahnHilliard.ca"), CH_cb |-> Opt(e,"CahnHilliard.cb"), CH_well_scale |-> Opt(e,"CahnHilliard.well_scale"), CH_kappa |-> Opt(e,"CahnHilliard.kappa")] ELSE <<>>)
       @@ (IF Model(e) # "wang_sintering" THEN <<>>
           ELSE IF SigmaDelta(e) THEN [WangSintering_beta_rho |-> 48*e.n["Interface.sigma"]*e.n["Interface.delta"]]
           ELSE [WangSintering_A |-> Opt(e,"WangSintering.A"), WangSintering_B |-> Opt(e,"WangSintering.B"), WangSintering_beta_rho |-> Opt(e,"WangSintering.beta")])
FreeEnergies(e) ==
  IF FreeS(e) THEN [free_energy_liquid |-> X(e.n[Free(e,"free_energy_liquid")]), free_energy_solid_A |-> X(e.n[Free(e,IF ThreePhases(e) THEN "free_energy_solid_A" ELSE "free_energy_solid")])]
                   @@ (IF ThreePhases(e) THEN [free_energy_solid_B |-> X(e.n[Free(e,"free_energy_solid_B")])] ELSE <<>>)
  ELSE [free_energy_solid_A |-> 0, free_energy_solid_B |-> 0]
Numbers(e) == Always(e) @@ Orient(e) @@ Interface_(e) @@ Mobility(e) @@ Rigid_(e) @@ Volumes(e) @@ Thermal(e) @@ Bias(e) @@ Composition(e) @@ FreeEnergies(e)

(* ---- laws that are not a value of the grid: <<result, factor, value, tolerance>> with result*factor = value ---- *)
Laws(e) ==
  (IF WithPhase(e) /\ SigmaDelta(e)
   THEN LET s == e.n["Interface.sigma"]
            d == e.n["Interface.delta"]
        IN { <<"phase_well_scale",d,768*s>>, <<"m_moelans2011",d,6144*s>> } \cup (IF Conc(e) /\ Model(e) = "wang_sintering" THEN { <<"WangSintering_A",4*d,20480*s>>, <<"WangSintering_B",4*d,4096*s>> } ELSE {})
   ELSE IF WithPhase(e) /\ WellKey(e) # ""
   THEN LET q == EpsIn(e)*EpsIn(e)
            w == e.n[WellKey(e)]
        IN { <<"surfaceEnergy2",18,16*q*w>>, <<"interfacialWidth2",2*w,16*q>> }
   ELSE {})
  \cup (IF Conc(e) /\ Model(e) = "linear" /\ Rescaled(e) THEN { <<"liquidus_slope",TempMelting(e),4096*Num(e,C("liquidus_slope"),0)>> } ELSE {})
  \cup (IF Beta(e) THEN { <<"interfaceMobilityR", Melting(e)*(16-e.n[C("keq")])*e.n[MobK("kinetics_coefficient")], -65536*VLiquid(e)*e.n[C("liquidus_slope")]>> } ELSE {})

(* ---- names ---- *)
Texts(e) ==
  [ energy_interp_func_type |-> Interp(EnergyS(e)), conc_interp_func_type |-> Interp(ConcS(e)), diffusion_interp_func_type |-> Diffusion(Str(e,"diffusion_interp_func_type","linear")),
    conc_three_args_interp_func_type |-> ThreeArgs(Str(e,"conc_three_args_interp_func_type","F")), energy_three_args_interp_func_type |-> ThreeArgs(Str(e,"energy_three_args_interp_func_type","F")),
    avg_func_type |-> AvgS(e), diffq_avg_func_type |-> Str(e,"diffq_avg_func_type",AvgS(e)), phase_well_func_type |-> StrOf(e,<<"phi_well_func_type","energy_well_func_type">>,"double"), free_energy_type |-> FreeType(e) ]
  @@ (IF H0(e) > 0 THEN [ orient_interp_func_type1 |-> Interp1(e), orient_interp_func_type2 |-> Str(e,"orient_interp_func_type2","constant"), quat_mobility_func_type |-> QMob(e), quat_grad_floor_type |-> Str(e,"orient_grad_floor_type","max") ] ELSE <<>>)
  @@ (IF Conc(e) THEN [ conc_avg_func_type |-> Str(e,C("avg_func_type"),AvgS(e)) ] ELSE <<>>)

(* ---- lists ---- *)
Times(e,k,q,dim) == [j \in 1..Len(q) |-> q[j]]
CpOf(e,k) ==
  LET at(x) == Num(e,TK(e,"cp." \o Species[k] \o "." \o x),0)
      u(v) == IF Rescaled(e) THEN (256*v*TempMelting(e)) \div VLiquid(e) ELSE PerVolume(e,v)
  IN << u(at("a")), u(at("b")), u(at("dm2")) >>
Zeta(e,q,T) == LET d == T - e.n[MobK("Tref")] \div 16 IN X(q[1] + q[2]*d + q[3]*d*d)
ZetaLists(e) ==
  IF MobType(e) # "kim" THEN <<>>
  ELSE LET kA == IF Beta(e) THEN "" ELSE Named(e,<<MobK("zeta"),MobK("zetaLA")>>)
           kB == MobK("zetaLB")
       IN IF kA = "" THEN [zetaLA |-> [j \in 1..Len(e.T) |-> -4096], zetaLB |-> [j \in 1..Len(e.T) |-> -4096], zeta |-> [j \in 1..Len(e.T) |-> -4096]]
          ELSE [zetaLA |-> [j \in 1..Len(e.T) |-> Zeta(e,e.a[kA],e.T[j])], zeta |-> [j \in 1..Len(e.T) |-> Zeta(e,e.a[kA],e.T[j])]]
               @@ (IF kB \in DOMAIN e.a THEN [zetaLB |-> [j \in 1..Len(e.T) |-> Zeta(e,e.a[kB],e.T[j])]] ELSE <<>>)
Lists(e) ==
  [ cp |-> (IF ~Heat(e) THEN <<>> ELSE IF NComp(e) = 0 THEN CpOf(e,1) ELSE IF NComp(e) = 1 THEN CpOf(e,1) \o CpOf(e,2) ELSE CpOf(e,1) \o CpOf(e,2) \o CpOf(e,3)),
    T_source |-> (IF Steady(e) /\ Str(e,TK(e,"heat_source_type"),"none") = "composition" THEN [j \in 1..Len(e.a[TK(e,"source")]) |-> PerVolume(e,e.a[TK(e,"source")][j])] ELSE <<>>),
    Q_heat_transport |-> (IF Conc(e) /\ Given(e,C("gradT_Q0")) THEN <<X(e.n[C("gradT_Q0")]),X(e.n[C("gradT_Q1")])>> ELSE <<>>),
    initc |-> (IF Conc(e) /\ Given(e,C("initc_in_phase")) THEN (LET q == e.a[C("initc_in_phase")]  m == NComp(e) IN [j \in 1..(2*m) |-> X(q[IF j % 2 = 1 THEN (j+1) \div 2 ELSE m + j \div 2])]) ELSE <<>>) ]
  @@ (IF Sec(e,"RigidBody") THEN [force |-> (IF Given(e,"RigidBody.external_force") THEN [j \in 1..e.dim |-> X(e.a["RigidBody.external_force"][j])] ELSE [j \in 1..e.dim |-> 0])] ELSE <<>>)
  @@ ZetaLists(e)
=============================================================================
