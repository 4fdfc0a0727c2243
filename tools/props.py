"""The list of properties; `python3 tools/props.py` rewrites properties.jsonl and MANIFEST.json from it.
A property is claimed when drivers/<id>.py exists."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F2 = 'source/fortran/2d/%s.m4'
F3 = 'source/fortran/3d/%s.m4'


def ff(*names):
    r = []
    for n in names:
        if "/" in n:
            r.append(n if '/' in n else 'source/fortran/' + n)
        else:
            for f in (F2, F3):
                if os.path.exists('/repo/' + f % n):
                    r.append(f % n)
    return r


WHY = ('The existing tests call six scalar helpers at a handful of arguments; no grid operator is executed by any of '
       'them, and a sample of fields cannot settle a statement about every field, box, ghost width and option.')
WHYC = ('The tests of these classes need SAMRAI and run one input each; the statement is about every configuration and history.')
P = []


def prop(pid, title, statement, over, text, files, mech, note, why=WHY, technique=None, na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, files=files, mech=mech, note=note,
                  why=why, technique=technique, na=na))


TV = 'TLA+ specification; TLC trace validation of the real kernels'
MCTV = 'TLA+ specification model-checked by TLC; TLC trace validation of the real code against it'
TRUST = (' Trusts TLC, the ctypes driver and the field logger. Inputs are dyadic/integer so the expected values are '
         'exact; bounded by the boxes and values generated.')

prop('C01', 'Discrete differential operators compute the stencils they name',
     'For every cell or side of a patch, the differences, cell and side gradients (compact and isotropic variants), '
     'Laplacian, side-to-cell averages, gradient moduli and interface velocity equal their stated finite-difference '
     'formula with the spacing of the right direction, scalar or multi-component. Every entry of the output range is '
     'written, nothing else is, and no input outside the formula\'s stencil influences the result.',
     ['inputs', 'configurations'], 'all fields, patch boxes (any position, any extent >= 1), spacings, ghost widths, component counts, 2D and 3D',
     ['source/QuatModel.cc', 'source/QuatModel.h'] + ff('grad', 'laplacian', 'quatdiffs', 'quatgrad', 'side2cell', 'smoothquat', 'quatrhs'),
     [('stencil kernels', 'source/fortran/*/{grad,laplacian,quatdiffs,quatgrad,side2cell}.m4')],
     'Every event of every kernel call on random boxes/fields is judged by the TLA+ stencil definitions; entries a kernel may not read are NaN, entries it may not write are sentinels.' + TRUST)

prop('C02', 'Species transport is exactly conservative over any patch decomposition',
     'With any face fluxes, the composition update on a tiled domain changes the total amount of each species by exactly the '
     'flux through the domain boundary: on a periodic domain totals never change, also with refined levels (the flux of a coarse '
     'face covered by fine ones is the mean of the fine ones). The rate in each cell is the divergence of its own face fluxes '
     'times the mobility, so neighbouring patches see the same face flux; faces on a no-flux boundary carry none, for every species.',
     ['inputs', 'histories', 'schedules'], 'all fluxes, compositions, domain tilings, refined levels, orders of patch updates, numbers of species and steps',
     ['source/QuatIntegrator.cc', 'source/CompositionRHSStrategy.cc', 'source/CahnHilliardDoubleWell.cc', 'source/WangSinteringCompositionRHSStrategy.cc'] + ff('concentrationrhs'),
     [('composition rate', 'source/QuatIntegrator.cc'), ('boundary faces', 'source/CompositionRHSStrategy.cc'), ('flux divergence', 'source/fortran/*/concentrationrhs.m4')],
     'TLC explores patch update orders in the specification; the whole model, built from input databases on planned levels, evaluates its rates and TLC checks each cell against the spec flux divergence and the total.' + TRUST, why=WHYC, technique=MCTV)

prop('C03', 'Composition fluxes follow their constitutive laws',
     'On every face the composition flux equals the diffusion coefficient times the face gradient the selected model '
     'defines (diffusive, with phase and orientation coupling, per-phase, Cahn-Hilliard, sintering), over all species: right sign, '
     'right direction spacing, arithmetic face averages from the two adjacent cells. '
     'Contributions accumulate onto the flux already there, each species gets its own row of the coefficient matrix.',
     ['inputs', 'configurations'], 'all fields, boxes, spacings, ghost widths, species counts, coefficient values',
     ['source/KKSCompositionRHSStrategy.cc', 'source/EBSCompositionRHSStrategy.cc', 'source/BeckermannCompositionRHSStrategy.cc', 'source/CahnHilliardDoubleWell.cc', 'source/WangSinteringCompositionRHSStrategy.cc', 'source/CompositionRHSStrategyFactory.h'] + ff('concentrationrhs', 'sintering', 'flux'),
     [('flux classes', 'source/EBSCompositionRHSStrategy.cc'), ('flux kernels', 'source/fortran/*/concentrationrhs.m4')],
     'The right-hand-side strategies the project factory builds from a model database are run over planned patches and every face flux judged against the TLA+ constitutive laws.' + TRUST, why=WHYC)

prop('C04', 'Face diffusion coefficients interpolate the phase mobilities',
     'On every face the composition diffusion coefficient is the blend of the phase diffusivities at the face phase fraction '
     'and face temperature (mean of the two adjacent cells), each Arrhenius diffusivity D0 exp(-Q/RT), or the product of atomic mobilities and '
     'second derivatives of the energy; coefficients equal the pure-phase value in the bulk phases. Grain-boundary and interface enhancement terms are '
     'added once per pair, symmetric under exchange of the phases, and vanish in the bulk. The antitrapping current vanishes where the phase gradient does and points along it.',
     ['inputs', 'configurations'], 'all phase/temperature fields, boxes, phase counts, interpolation laws, ghost widths, patch decompositions',
     ['source/TbasedCompositionDiffusionStrategy.cc', 'source/MobilityCompositionDiffusionStrategy.cc', 'source/WangSinteringCompositionDiffusionStrategy.cc', 'source/CompositionDiffusionStrategyFactory.h', 'source/BeckermannCompositionRHSStrategy.cc', 'source/KKSCompositionRHSStrategy.cc'] + ff('concentrationdiffusion'),
     [('coefficient classes', 'source/MobilityCompositionDiffusionStrategy.cc'), ('coefficient kernels', 'source/fortran/*/concentrationdiffusion.m4')],
     'The diffusion strategies the project factory builds are run over planned patches (temperatures and activation energies chosen so that exp() is a power of two) and every face value judged against the TLA+ law.' + TRUST, why=WHYC)

prop('C05', 'Phase-field evolution is the energy-descent direction of the free energy',
     'The right-hand side of each order parameter equals minus the variational derivative of the discrete free energy: '
     'divergence of the gradient flux, minus the double-well derivative, minus the interpolation derivative times the bulk '
     'driving force and orientation coupling, with the selected well, interpolation and coupling laws. Zero driving force in a bulk phase gives zero rate.',
     ['inputs', 'configurations'], 'all phase, orientation, temperature and energy fields, boxes, spacings, laws and ghost widths, 2D and 3D',
     ['source/PhaseRHSStrategyWithQ.cc', 'source/PhaseFluxStrategyFactory.h', 'source/PhaseFluxStrategySimple.cc', 'source/PhaseFluxStrategyIsotropic.cc'] + ff('quatrhs', 'flux', 'sintering', 'multiorder', 'source/fortran/functions.f'), [('right-hand sides', 'source/PhaseRHSStrategyWithQ.cc'), ('kernels', 'source/fortran/*/quatrhs.m4'), ('gradient fluxes', 'source/fortran/*/flux.m4')],
     'Every right-hand-side and gradient-flux kernel judged cell by cell against the TLA+ laws; the spec-level energy identity is checked by TLC on finite fields.' + TRUST, technique=MCTV)

prop('C06', 'Interpolation, well and averaging laws meet their endpoint and derivative laws',
     'Every interpolation law is 0 in one phase and 1 in the other, monotone between and clipped outside as documented; every '
     'double-well law vanishes exactly at its minima; each derivative routine is the exact derivative of the function it belongs to, '
     'for every selectable law; averages are symmetric and lie between their arguments.',
     ['inputs', 'configurations'], 'all arguments (inside, at and outside [0,1]), all law selectors',
     ff('source/fortran/functions.f'), [('law functions', 'source/fortran/functions.f')],
     'Laws are exact polynomials in the spec (derivatives checked there by TLC on grids); every function of the real code is compared to them on dyadic grids.' + TRUST, technique=MCTV)

prop('C07', 'Tilting and pair-weight functions of several phases meet their limits and slopes',
     'For three phases summing to one, the tilting weights are each 1 in their pure phase and 0 in the others, lie in [0,1] and '
     'have the derivatives the companion routines report; the pair weights and multi-order weights are symmetric under exchange of the phases and sum as documented.',
     ['inputs'], 'all phase triples (including permutations, edges and out-of-range values)',
     ['source/TiltingFolchPlapp2005.cc', 'source/TiltingMoelans2011.cc', 'source/computeWeights3Pairs.cc'] + ff('source/fortran/functions.f', 'multiorder'),
     [('tilting', 'source/TiltingFolchPlapp2005.cc'), ('pair weights', 'source/computeWeights3Pairs.cc')],
     'Exact rational evaluation in TLA+ of the tilting polynomials, real code compared on a lattice of triples.' + TRUST)

prop('C08', 'Multi-phase evolution follows its laws and keeps the phase sum constant',
     'In the three-phase model the rates are the energy derivatives projected so that they sum to zero in every cell; in the multi-order model each order parameter '
     'follows its own energy derivative with the pairwise coupling; relabelling the phases relabels the result, for any tiling. The projection step corrects the phases to sum to one along '
     '(1,...,1) and removes that component from the error.',
     ['inputs', 'histories', 'schedules'], 'all phase fields, relabelings, tilings, mobilities and driving forces, numbers of order parameters',
     ['source/ThreePhasesRHSStrategy.cc', 'source/MultiOrderRHSStrategy.cc'] + ff('quatrhs', 'phase', 'multiorder', 'sintering'),
     [('projection', 'source/ThreePhasesRHSStrategy.cc'), ('kernels', 'source/fortran/*/quatrhs.m4')],
     'Kernels, and the two strategy classes over tiled levels, judged cell by cell by laws which do not mention patches.' + TRUST)

prop('C09', 'Energy accounting equals the cell-volume-weighted sum of its terms',
     'Reported total, interface, well, orientation and bulk energies are the sums over cells of the stated densities times the cell weight, '
     'each cell of a tiling counted once; per-cell energies add up to the totals, and energies of constant bulk fields are zero where the law says so.',
     ['inputs', 'configurations'], 'all fields, boxes, weights (including covered cells with zero weight), laws, tilings',
     ff('quatenergy'), [('energy kernels', 'source/fortran/*/quatenergy.m4')],
     'All energy kernels judged against the TLA+ densities on random fields, and additivity over tilings.' + TRUST)

prop('C10', 'Crystal-symmetry reduction picks the closest equivalent orientation',
     'The symmetry operations form a group of unit rotations; for any two orientations the chosen operation maps the second to an equivalent one '
     'no farther from the first than any other, and rotating back with the inverse operation restores it. Quaternion product, conjugate, norm, angle and '
     'rotation matrices obey the algebra of rotations.',
     ['inputs'], 'all orientation pairs, orientation representations (1, 2 or 4 components), all symmetry operations',
     ['source/fortran/quat.f'] + ff('quatrotation'), [('symmetry tables', 'source/fortran/quat.f')],
     'Group laws model-checked in TLA+ (24-fold table and Hurwitz model); every real reduction is checked to be optimal among all operations.' + TRUST, technique=MCTV)

prop('C11', 'Symmetry-aware orientation differences are minimal and path-consistent',
     'The grid differences, gradients, and projections that honour crystal symmetry use on each side the recorded rotation, so that physically equivalent orientations '
     'on neighbouring cells give zero difference, and with identity rotations they coincide with the plain operators. Symmetry corrections of '
     'right-hand sides restore the frame of the cell they are added to.',
     ['inputs', 'configurations'], 'all orientation fields, rotation maps, boxes, component counts',
     ['source/QuatModel.cc', 'source/QuatModel.h'] + ff('quatdiffs', 'quatgrad', 'quatrotation', 'correctrhsquatforsymmetry', 'phase', 'quatfacops'), [('symmetric differences', 'source/fortran/*/quatdiffs.m4')],
     'Judged by the TLA+ group action on each side.' + TRUST)

prop('C12', 'Elliptic solves use one conservative operator on all refinement levels',
     'On any properly nested hierarchy the implicit solvers work with one discrete operator M div(D grad u) + C u per component: fluxes use the spacing of their own '
     'level, sides shared by two levels carry one flux (the mean of the finer ones, with the correction for the coarser value), walls follow the given values or '
     'slopes, covered cells carry no equation. Residual, right-hand side, coarse-level and full solves and the smoother agree on that operator: each red-black pass '
     'solves exactly the rows of its colour, touches no other level, and what a solve reports as converged satisfies the equation. Restriction takes the mean, '
     'correction adds the coarse value, residual norms weight every uncovered cell by its volume. Phase, temperature, composition and coupled variants derive M, D, C from '
     'their own fields and parameters.',
     ['inputs', 'configurations'], 'all nestings, ratios, boxes (any position), fields, coefficients per component, ghost widths, boundary kinds',
     ['source/EllipticFACOps.cc', 'source/EllipticFACOps.h', 'source/EllipticFACSolver.cc', 'source/PhaseFACOps.cc', 'source/PhaseTemperatureFACOps.cc', 'source/TemperatureFACOps.cc',
      'source/ConcFACOps.cc', 'source/CartesianRobinBcHelperWithDepth.cc', 'source/samrai/CellPoissonHypreSolver.cc', 'source/samrai/FACPreconditioner.cc', 'source/samrai/PoissonSpecifications.cc']
     + ff('ellipticfacops', 'hyprepoisson', 'settozero'), [('operators', 'source/EllipticFACOps.cc'), ('coarsest level', 'source/samrai/CellPoissonHypreSolver.cc')],
     'The composite operator is defined once in TLA+ (AmpeFac) from fluxes on level sides; its conservation, symmetry and constants are model checked over all two-level '
     'nestings of a small domain, and what the real operators and solvers (with Hypre) compute is judged row by row against it.' + TRUST, technique=MCTV)

prop('C13', 'Quaternion implicit-solver kernels agree on one discrete operator',
     'Orientation flux, residual, right-hand side and smoothing kernels use the same symmetric face coefficients: residual = rhs - operator, '
     'smoothing leaves exact solutions unchanged, projections keep corrections tangent to the unit sphere and are idempotent.',
     ['inputs', 'schedules'], 'all fields, coefficients, boxes, component counts, red-black orders',
     ff('quatfacops', 'quatlevelsolver', 'phase'), [('level solver', 'source/fortran/*/quatfacops.m4')],
     'Kernels judged row by row against the operator defined once in TLA+.' + TRUST)

prop('C14', 'Inter-level transfers average and interpolate only the cells they must',
     'Coarsening takes the mean of the fine cells under a coarse cell (of grain marks the least that is not negative), refining interpolates linearly between the '
     'coarse cell centres around a fine one, for every refinement ratio and (negative) index; orientations are first replaced by the symmetric equivalents '
     'closest to one reference where symmetry counts, and end with unit length. Exactly the destination boxes are written, every cell of them, '
     'and nothing is read beyond the stencil announced.',
     ['inputs', 'configurations'], 'all fields, destination boxes at any position, refinement ratios, depths 1, 2 and 4, symmetry operations per cell',
     ['source/QuatLinearRefine.cc', 'source/QuatWeightedAverage.cc', 'source/MinIntCoarsen.cc', 'source/fortran/quat.f'] + ff('quatcoarsen', 'quatlinrefine'),
     [('operators', 'source/QuatLinearRefine.cc refine, source/QuatWeightedAverage.cc coarsen, source/MinIntCoarsen.cc coarsen'), ('transfer kernels', 'source/fortran/*/quatcoarsen.m4, quatlinrefine.m4')],
     'Judged cell by cell against the TLA+ transfer laws; TLC checks the laws themselves (partition, linear exactness).' + TRUST, why=WHYC, technique=MCTV)

prop('C15', 'Refinement tagging marks exactly the cells over threshold',
     'A cell is tagged if and only if the spacing-scaled gradient of the phase or of the orientation reaches the threshold of a criterion switched on in the input; '
     'each criterion adds to the tags present, the detector starts from none. No cell outside the patch is tagged, and the result does not depend on the tiling.',
     ['inputs', 'configurations'], 'all fields, thresholds, criteria, boxes, ghost widths, prior tags, level tilings',
     ['source/QuatModel.cc', 'source/QuatModel.h'] + ff('quattag'), [('detector', 'source/QuatModel.cc tagGradientDetectorCells, applyGradientDetector, initializeAmr'), ('tag kernels', 'source/fortran/*/quattag.m4')],
     'Exact iff check by TLC over every cell, of the kernels and of the model over tiled levels.' + TRUST, why=WHYC)

prop('C16', 'Temperature evolution balances conduction, latent heat and sources',
     'The heat rate is diffusivity times the Laplacian plus latent heat times the phase rate plus the sources, with heat capacity '
     'averaged from the composition as stated; steady-state and prescribed (gradient) temperatures follow their formula at every cell centre.',
     ['inputs', 'configurations'], 'all fields, boxes, spacings, species counts, options', ff('temperature', 'quatrhs'),
     [('heat kernels', 'source/fortran/*/temperature.m4')], 'Kernels judged cell by cell.' + TRUST)

prop('C17', 'Rigid-body forces are integrated over all grain pairs and move each grain',
     'The pair force of two solid grains is the integral over the domain (cell weights, every patch once) of its density, times the stiffness: in the '
     'overlap model the force of i on j is minus that of j on i and there is none where the overlap is under the cut-off; re-evaluation does not accumulate. Each solid grain (and the species '
     'it carries) is advected with velocity mobility * force / volume; the liquid is not.',
     ['inputs', 'configurations'], 'all grain fields, weights, thresholds, velocities, boxes, tilings, numbers of grains of phases A and B',
     ['source/RigidBodyForces.cc', 'source/WangRigidBodyForces.cc', 'source/PhaseRigidBodyForces.cc', 'source/RigidBodyMotionRHS.cc',
      'source/RigidBodyMotionConcRHS.cc', 'source/toolsSAMRAI.cc'] + ff('forces', 'rbmotion'),
     [('pair forces', 'source/RigidBodyForces.cc'), ('advection', 'source/RigidBodyMotionRHS.cc')],
     'The C++ classes run over tiled levels of a stand-in for SAMRAI; every force component and every cell judged by the TLA+ laws.' + TRUST)

prop('C18', 'Moving-frame advection is consistent for every field and scheme',
     'Following the front adds velocity times the derivative along the growth direction (x) to the rate of every component of the field: the centred derivative, or the '
     'third-order upwind one (information from larger x) with the centred one as fall-back in the last cells next to a non-periodic upper boundary. Nothing else changes.',
     ['inputs', 'configurations'], 'all fields, velocities, boxes, tilings, boundary types, ghost widths, component counts',
     ['source/MovingFrameRHS.cc'] + ff('quatrhs'),
     [('frame advection', 'source/MovingFrameRHS.cc')], 'MovingFrameRHS over tiled levels and its kernels judged cell by cell.' + TRUST)

prop('C19', 'Results do not depend on how the domain is cut into patches',
     'The rates of all fields and the energies of a whole model - phase, multi-order and three-phase, orientation, composition (KKS, EBS, '
     'Cahn-Hilliard, sintering) and heat, with or without walls - are the same in every cell not covered by a finer level, however each level is '
     'cut into patches, and whatever levels a regrid replaced to get there; and a level that covers the whole domain evolves like a uniform grid of its resolution.',
     ['inputs', 'configurations', 'schedules'], 'all models, fields, tilings of nested levels, boundary types, orders of patch updates',
     ['source/QuatModel.cc', 'source/QuatIntegrator.cc', 'source/PhaseRHSStrategyWithQ.cc', 'source/QuatRefinePatchStrategy.cc', 'source/QuatFACOps.cc', 'source/SimpleGradStrategy.cc', 'source/ConstantHeatCapacityStrategy.cc', 'source/ScalarTemperatureStrategy.cc', 'source/EBSCompositionRHSStrategy.cc'] + ff('quatrhs', 'quatgrad', 'concentrationrhs', 'concentrationdiffusion', 'flux', 'quatenergy', 'temperature'),
     [('rates', 'source/QuatIntegrator.cc evaluateRHSFunction'), ('ghosts', 'source/QuatRefinePatchStrategy.cc'), ('energies', 'source/QuatModel.cc evaluateEnergy')],
     'TLC explores patch update orders and cuts of the specification; pairs of whole models, built from input databases on different tilings of the same levels or brought there by a regrid, are evaluated and compared cell by cell by TLC.' + TRUST, why=WHYC, technique=MCTV)

prop('C20', 'Models are equivariant under translation, axis exchange and reflection',
     'Translating, exchanging the axes of, or reflecting the fields (and spacings, boundary types and refined levels) of a model without anisotropy '
     'translates, exchanges or reflects the rates of all fields and keeps the energies, in 2D and 3D; '
     'a 3D model of fields constant along one axis has on every layer the rates of the 2D model.',
     ['inputs', 'configurations'], 'all models, fields, spacings, axis permutations and reflections, refined levels',
     ['source/QuatModel.cc', 'source/QuatIntegrator.cc', 'source/PhaseRHSStrategyWithQ.cc', 'source/QuatRefinePatchStrategy.cc', 'source/QuatFACOps.cc', 'source/SimpleGradStrategy.cc', 'source/ConstantHeatCapacityStrategy.cc', 'source/ScalarTemperatureStrategy.cc', 'source/EBSCompositionRHSStrategy.cc'] + ff('quatrhs', 'quatgrad', 'concentrationrhs', 'concentrationdiffusion', 'flux', 'quatenergy', 'temperature'),
     [('rates', 'source/QuatIntegrator.cc evaluateRHSFunction'), ('per-axis code blocks', 'source/fortran')],
     'Pairs of whole models, built from input databases, whose fields are images of each other are evaluated and compared by TLC under the symmetry action defined in TLA+.' + TRUST, why=WHYC)

prop('C21', 'Orientation mobility and diffusion coefficients respect their limits',
     'The orientation mobility lies between its minimum and maximum, reaching them in the solid and liquid; its derivative matches; the orientation diffusion '
     'coefficient on each face combines phase interpolation and regularised gradient norm as selected, positive and bounded by the floor.',
     ['inputs', 'configurations'], 'all fields, laws, floors, boxes', ['source/QuatModel.cc', 'source/QuatFaceCoeff.cc', 'source/QuatFaceCoeff.h',
      'source/DerivDiffusionCoeffForQuat.cc', 'source/SimpleQuatMobilityStrategy.cc'] + ff('mobility', 'quatdiffusion', 'source/fortran/functions.f'),
     [('mobility of the model', 'source/QuatModel.cc computeUniformPhaseMobility, computePhaseMobilityPatch, computeQuatMobility'), ('face coefficients', 'source/QuatFaceCoeff.cc'),
      ('mobility kernels', 'source/fortran/*/mobility.m4')], 'The kernels, and the methods of the model that call them over tiled levels, are run on random fields and judged cell by cell and face by face.' + TRUST, why=WHYC)

prop('C23', 'Event schedules fire exactly at their configured intervals',
     'A schedule (output, regrid, restart, ...) given by an interval in steps or in time, with optional first and last firing, fires when its interval has passed since the last '
     'firing, exactly once per step or crossed time, never when inactive; a restart or a first query far into a run does not lose or duplicate firings; '
     'inconsistent configurations are refused. Input settings override the defaults, one by one.',
     ['histories', 'configurations'], 'all configurations, all sequences of steps, times and queries', ['source/EventInterval.cc', 'source/EventInterval.h'],
     [('event interval', 'source/EventInterval.cc')],
     'TLC explores every history of a small schedule in the specification (at most one firing per step, no interval missed, nothing when inactive); random histories of the real class are replayed against it.' + TRUST, why=WHYC, technique=MCTV)

prop('C24', 'Temperature histories interpolate the table they were given',
     'For every time and position inside a table of temperatures, the temperature is the bilinear interpolation of the four surrounding entries (exact at the entries) '
     'and the gradient the slope of the interval, blended towards its neighbours; queries outside the table are refused. Comments and the order of the columns do not matter.',
     ['inputs'], 'all tables, times and positions', ['source/TemperatureHistory.cc', 'source/TemperatureHistory.h'],
     [('history', 'source/TemperatureHistory.cc')], 'Random tables with dyadic steps written as CSV, read and queried by the real class; each answer judged.' + TRUST, why=WHYC)

prop('C25', 'Atomic and phase mobilities follow their thermodynamic parametrisation',
     'The CALPHAD atomic mobility of each species is exp(G(c,T)/RT)/RT with the Redlich-Kister excess terms and temperature polynomials of its database; binary and ternary phase '
     'mobilities combine them symmetrically and vanish where a species is absent. Phase mobilities of thin-interface models (Kim) obey 1/M = alpha + beta zeta, zeta from the temperature '
     'polynomial of the input or from the concentration jump and the diffusivity at the local temperature, alpha only with a finite interface mobility; with three phases the pairs '
     'combine by weights that select a single pair at its interface.',
     ['inputs', 'configurations'], 'all parameter databases, fields, compositions and temperatures, levels and ghost widths', ['source/CALPHADMobility.cc', 'source/CALPHADMobility.h', 'source/KimMobilityStrategy.cc',
     'source/KimMobilityStrategyInfMob.cc', 'source/KimMobilityStrategyFiniteMob.cc', 'source/KimMobilityStrategyFiniteMobAntiTrap.cc', 'source/KimMobilityStrategyInfMob3Phases.cc', 'source/MobilityFactory.h', 'source/KKStools.cc', 'source/computeWeights3Pairs.cc'],
     [('mobilities', 'source/CALPHADMobility.cc'), ('Kim mobilities', 'source/KimMobilityStrategy.cc')], 'Random databases for which the logarithm of the mobility is dyadic; every value judged.' + TRUST, why=WHYC)

prop('C26', 'Database copies keep every entry; collective reductions give the total',
     'Copying an input database to a property tree, JSON or another database keeps every key, nesting, type and value. Sums, gathered arrays and merged maps over any number of '
     'processes hold on each process the total, the concatenation in rank order and the sum per key, whoever owns what; element-wise array operations touch their first argument only.',
     ['inputs', 'schedules'], 'all databases; all distributions over process counts', ['source/Database2JSON.cc', 'source/Database2JSON.h', 'source/tools.cc', 'source/ArrayOperation.cc', 'source/ArrayOperation.h'],
     [('database copy', 'source/Database2JSON.cc'), ('reductions', 'source/tools.cc')],
     'The real functions run on random databases, and on simulated ranks (threads exchanging through a stand-in for MPI).' + TRUST, why=WHYC)

prop('C27', 'Orientation utilities obey quaternion algebra and crystal symmetry',
     'The Python orientation tools: products, conjugates, norms and copies follow the algebra, with or without an output argument and never changing another argument; the symmetry tables list each '
     'operation of the crystal once with the index of its inverse; the equivalent orientation chosen for a reference is a closest one, whatever rotation is tried first.',
     ['inputs'], 'all quaternions, complex numbers and angles; all starting rotations', ['utils/quat.py'],
     [('orientation tools', 'utils/quat.py')], 'Random integer quaternions, exact in TLA+; the group laws are model-checked.' + TRUST, why=WHYC, technique=MCTV)

prop('C28', 'Initial-condition generators paint the geometry and fields asked for',
     'The make_*.py scripts write netCDF files in which every cell holds the phase, composition, temperature and orientation of the grain that contains its centre: spheres, layers, corners and grains on a '
     'boundary, with sharp or diffuse interfaces and periodic images where asked. Compositions derived from a nominal value leave the domain average at that value, every species is written, '
     'and each grain has one unit orientation. The input editor changes only the named parameter; the log reader pairs each value with its own time.',
     ['inputs', 'configurations'], 'all option combinations, domain sizes, grain positions and radii', ['utils/make_sphere.py', 'utils/make_multi_spheres.py', 'utils/make_nuclei.py', 'utils/make_bilayer.py',
      'utils/make4corners.py', 'utils/make_initial_grains_on_boundary.py', 'utils/substituteInputParameter.py', 'utils/volfracvstime.py'],
     [('generators', 'utils/make_nuclei.py'), ('layers', 'utils/make_bilayer.py'), ('input editor', 'utils/substituteInputParameter.py')],
     'Runs the scripts themselves; geometry judged in exact integers by TLA+, diffuse profiles decoded through the inverse of their closed form; the composition balance is model-checked. '
     'The Python 2 scripts (make_nucleiBain*, make_init_1d, add_temperature, initialConditions) cannot run here and are not covered.' + TRUST, why=WHYC, technique=MCTV)

prop('C29', 'A run stops, writes, regrids and restarts when the input asks for it',
     'From the input file or a restart file plus overrides, a run gets its step and time limits, output names, verbosity, grid geometry and level count. It steps while time and step limits allow; plots, '
     'step lines, restart files, grain diagnostics and regrids happen exactly at the steps their schedules name, including before the first and after the last step, never two plots of one time. A restart '
     'file holds the state of its step: the continued run takes the same steps and makes the same outputs as the uninterrupted one.',
     ['inputs', 'configurations', 'histories', 'crash_points'], 'all schedules, limits, step sequences, and chains of restarts from any file written', ['source/PFModel.cc', 'source/PFModel.h', 'source/EventInterval.cc', 'source/Verbosity.h'],
     [('main loop', 'source/PFModel.cc PFModel::Run'), ('restart', 'source/PFModel.cc getFromRestart'), ('schedules', 'source/EventInterval.cc')],
     'The run loop is a TLA+ state machine, model-checked (a run and one restarted from any of its files in lock step); the real PFModel runs under a recording model and whole runs are validated against it.'
     + TRUST, why=WHYC, technique=MCTV)

prop('C30', 'Integrals over refined meshes count every place once, with its volume',
     'With any nesting of refined levels, the weight of a cell is its volume where no finer level covers it and zero elsewhere, so sums over all levels integrate a field exactly once: total volume, '
     'phase fractions, phase compositions, thermal energy. Weights of a diagnostics subdomain select the cells whose centre lies inside it, on every level, and follow a regrid. '
     'Copies between fields move each component to its own place.',
     ['inputs', 'configurations'], 'all level hierarchies, refinement ratios, patch tilings, fields, subdomains and component counts',
     ['source/QuatModel.cc', 'source/QuatModel.h'],
     [('weights', 'source/QuatModel.cc computeVectorWeights'), ('integrals', 'source/QuatModel.cc evaluateVolumeSolid, evaluateIntegralConcentration, computeThermalEnergy')],
     'A TLA+ model of nested levels is model-checked (weights partition the volume); the real methods run on random hierarchies and every weight and integral is judged exactly.' + TRUST, why=WHYC, technique=MCTV)

prop('C31', 'Grains are the connected solid regions, wherever patches and levels are',
     'Cells whose phase reaches the threshold get the number of their grain, others -1: face neighbours (across patches, periodic boundaries and refinement) share it, each number is one connected region, numbers are 0,1,2,.. without gaps. '
     'Reported volumes, mean concentrations and deviations are those of the numbered cells with composite weights. Extending the orientation leaves grains alone and gives every other cell the orientation of a nearest grain.',
     ['inputs', 'configurations', 'schedules'], 'all phase fields, thresholds, patch tilings, refined levels, periodicities',
     ['source/Grains.cc', 'source/Grains.h', 'source/MinIntCoarsen.cc', 'source/QuatModel.cc', 'source/tools.cc'],
     [('numbering', 'source/Grains.cc findAndNumberGrains'), ('diagnostics', 'source/Grains.cc computeGrainVolumes, computeGrainConcentrations'), ('extension', 'source/Grains.cc extendGrainOrientation')],
     'A TLA+ model of the sweeps over patches and levels is model-checked for all masks, cuts and orders on small grids; whole models are run on random hierarchies and the numbers, sums and orientations they produce are judged by TLC.' + TRUST, why=WHYC, technique=MCTV)

prop('C22', 'A model has the parameters its input database states',
     'Every parameter of a model is the entry of the input database (of its current or older name), its documented default when absent, converted to the units used: J/mol per molar volume, cm2/s, temperatures rescaled by the melting one. '
     'Interface energy and width give epsilon and well height and back. Options name the algorithm they select and the ghost cells it needs. A database without a required entry or with an unknown name is refused. Nothing depends on uninitialised memory.',
     ['inputs', 'configurations'], 'all input databases of documented entries',
     ['source/QuatModelParameters.cc', 'source/QuatModelParameters.h'],
     [('reading', 'source/QuatModelParameters.cc readModelParameters, readConcDB, readTemperatureModel, readPhaseMobility, readFreeEnergies'), ('meaning', 'source/QuatModelParameters.h')],
     'The TLA+ specification is a function from databases to parameters (numbers, laws, names, lists) and to refusals. Random databases, with entries dropped or misspelt and memory filled with garbage before construction, are read by the real class and TLC compares everything it reports.' + TRUST, why=WHYC, technique='TLA+ specification; TLC trace validation of the real classes')

HERE = lambda *a: os.path.join(ROOT, *a)


def main():
    checks, na = [], []
    with open(HERE('properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
            if os.path.exists(HERE('drivers', p['pid'].lower() + '.py')) and not p['na']:
                checks.append({'property': p['pid'], 'quick_cmd': './check ' + p['pid'],
                               'thorough_cmd': './check %s --thorough' % p['pid'],
                               'technique': p['technique'] or TV, 'level': 'model_checking', 'level_note': p['note']})
            else:
                na.append({'property': p['pid'], 'reason': p['na'] or 'The specification covers it only in part so far: its check is not built yet (see DESIGN.md).'})
    m = {'version': 1, 'setup_cmd': '/opt/veriftools/pyvenv/bin/python3 lib/build.py', 'checks': checks, 'not_applicable': na,
         'notes': 'TLA+ with TLC. No hooks in /repo are needed: the kernels are called through their own interface. tools/props.py writes this file.'}
    json.dump(m, open(HERE('MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
