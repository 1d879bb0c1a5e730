#!/usr/bin/env python3
"""The properties and checks of this framework; writes properties.jsonl and MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = "src/models/ClassPotentialOrigin.cpp"
MODELS = [f"src/models/ClassPotential{m}.cpp" for m in ("SM", "CxSM", "R2HDM", "C2HDM", "N2HDM", "CPintheDark")]
P = []


def prop(id, title, statement, over, text, tests, files, mech, harness=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, harness=harness, technique=technique, note=note, na=na))


prop("C01", "Tree-level and counterterm potentials follow the coupling tensors",
     "For every model, field point and order of derivative, the tree-level and counterterm potentials equal the polynomial given by the model's (counterterm) coupling tensors up to fourth order, and its field derivatives. "
     "Evaluating at a vector of VEVs gives the same result as at the field vector in which those VEVs are embedded, and the model's closed formulas agree with the tensors wherever only VEV fields are non-zero. "
     "Counterterms enter linearly, each shifting the potential like the corresponding tree-level operator.",
     ["inputs", "configurations"], "all six shipped models and arbitrary synthetic models (random tensors, 1-8 fields, any VEV ordering), all field points, couplings and counterterms",
     "The tests compare the potential of one parameter point per model at a handful of fixed field points.",
     [O, "include/BSMPT/models/ClassPotentialOrigin.h", *MODELS],
     [("tensor sums", O + " VTree, CounterTerm"), ("closed formulas", "src/models/ClassPotential*.cpp VTreeSimplified, VCounterSimplified"), ("VEV embedding", O + " MinimizeOrderVEV, VEff")],
     "models", "property-based testing against a naive polynomial evaluator, with metamorphic relations",
     "Random synthetic and real models against an independent evaluation of the polynomial, to 1e-11; field values up to 400 GeV.")

prop("C02", "Mass spectra are the eigenvalues of the field-dependent mass matrices",
     "For every model, field point and temperature, the squared masses reported for scalars, gauge bosons, quarks and leptons are the eigenvalues of the mass matrices the coupling tensors give, with scalar and gauge masses receiving the thermal (Debye) corrections the couplings determine when a temperature is passed. "
     "They are real, sorted, of the documented multiplicity and invariant under orthogonal rotations of the fields.",
     ["inputs", "configurations"], "all shipped models and random synthetic models, all field points and temperatures",
     "The tests see the spectrum only through benchmark points at the electroweak vacuum.",
     [O, *MODELS], [("mass matrices", O + " HiggsMassMatrix, GaugeMassMatrix, QuarkMassMatrix, LeptonMassMatrix"), ("Debye corrections", O + " CalculateDebye, CalculateDebyeGauge"), ("closed formulas", "src/models/ClassPotential*.cpp CalculateDebyeSimplified")],
     "models", "property-based testing against an independent diagonalisation (Jacobi) and Debye formula",
     "Reference matrices and eigenvalues computed independently; multiplicities and rotations as metamorphic relations.")

prop("C03", "One-loop effective potential is the sum over the mass spectrum",
     "The one-loop potential equals the Coleman-Weinberg sum plus the thermal sum plus the Arnold-Espinosa resummation over the field-dependent spectrum, with the documented degrees of freedom, signs and renormalisation constants, and the full potential is its sum with tree level and counterterms. "
     "Changing the renormalisation scale changes it exactly by the logarithm times the supertrace, and it tends to the zero-temperature potential as the temperature vanishes and to the ideal-gas pressure at high temperature.",
     ["inputs", "configurations"], "all shipped and random synthetic models, field points including tachyonic directions, temperatures 0 to 10 TeV and scales",
     "The tests evaluate few points at benchmark parameters and cannot separate the contributions.",
     [O, "src/ThermalFunctions/ThermalFunctions.cpp"], [("sum over states", O + " V1Loop"), ("contributions", O + " boson, fermion, CWTerm")],
     "models", "property-based testing against an independent evaluation and exact scale dependence", "Agreement to 1e-10 of the summed magnitudes for the formula.")

prop("C04", "Derivatives of the potential and masses are the true derivatives",
     "Every field and temperature derivative offered for the loop potential, the effective potential and the squared masses equals the derivative of the corresponding value, including for degenerate, massless and tachyonic states and at finite temperature.",
     ["inputs", "configurations"], "all shipped and random synthetic models, field points with degenerate, zero and negative eigenvalues, each direction, and temperatures 0 to 500",
     "The tests check the first derivative at a benchmark minimum only; the derivative functions have special branches for degenerate and massless states.",
     [O], [("derivative branches", O + " V1Loop, FirstDerivativeOfEigenvalues, SecondDerivativeOfEigenvaluesNonRepeated, boson, fermion")],
     "models", "property-based testing against perturbation theory on independently diagonalised matrices",
     "First-order perturbation theory and trace moments; thermal integrals to the 2e-4 the integrator reaches.")

prop("C05", "Coleman-Weinberg derivatives in the vacuum (Weinberg formulas)",
     "The first to fourth field derivatives of the one-loop zero-temperature potential at the vacuum, from which counterterms and effective couplings are built, equal the derivatives of the one-loop potential itself for every field content and every pattern of degenerate, massless and complex-coupled states.",
     ["inputs", "configurations"], "random synthetic models with degeneracies, complex Yukawa tensors, symmetric and massless sectors",
     "The tests use the real models at a few points, where most entries vanish by symmetry and couplings are real.",
     [O], [("Weinberg derivatives", O + " WeinbergFirstDerivative ... WeinbergForthDerivative"), ("finite-difference kernels", O + " fbase, fbaseTri, fbaseFour")],
     "models", "property-based testing against high-order finite differences of the one-loop potential",
     "Central-difference oracle over random tensors; orders 3 and 4 only away from infrared divergences of massless states.")

prop("C06", "Thermal functions agree with their defining integrals",
     "The numerical boson and fermion thermal integrals and their derivatives agree with the defining integrals, the low- and high-temperature series of any order agree with the published expansions and converge to the integrals, and the tabulated function for negative squared masses agrees with the real part of the integral. "
     "The piecewise approximations the potential uses are finite, continuous across their joins, monotonic for positive arguments and consistent with their derivatives.",
     ["inputs"], "all arguments from -3000 to 2500, all orders of the series and both derivatives",
     "The tests sample a few arguments.",
     ["src/ThermalFunctions/ThermalFunctions.cpp", "src/ThermalFunctions/NegativeBosonSpline.cpp", "src/ThermalFunctions/thermalcoefficientcalculator.cpp"],
     [("integrals and expansions", "src/ThermalFunctions/ThermalFunctions.cpp"), ("table", "src/ThermalFunctions/NegativeBosonSpline.cpp")],
     "thermal", "property-based testing against tanh-sinh quadrature and the published series", "Independent quadrature with end-point singularities resolved; tolerances stated in DESIGN.md.")

prop("C07", "Counterterms keep vacuum and masses at their tree-level values",
     "For every model and physically valid parameter point, the calculated counterterms make the first and second field derivatives of counterterm plus one-loop potential vanish at the vacuum for every component the scheme fixes, so the vacuum stays stationary and the tree-level masses and mixings are kept; they are finite and reproducible.",
     ["inputs", "configurations"], "all shipped models over random tachyon-free parameter points and Yukawa types",
     "The tests compare the counterterms with stored numbers at one point per model.",
     MODELS, [("counterterm formulas", "src/models/ClassPotential*.cpp calc_CT"), ("loop derivatives", O)],
     "models", "property-based testing of the renormalisation conditions", "Conditions evaluated with the tensors and an independent loop derivative.")

prop("C08", "Models have the Standard Model content and a stationary vacuum",
     "Every model contains the Standard Model: W, Z, photon and fermion masses and the CKM matrix at the vacuum are the Standard Model inputs for every parameter point and Yukawa type, gauge bosons couple to complete doublets only, and coupling tensors are symmetric. "
     "The physical vacuum is a stationary point of the tree-level potential, input masses and parameters are reproduced, and each fermion type couples to the doublet its Yukawa type prescribes.",
     ["inputs", "configurations"], "all shipped models, Yukawa types and random parameter points",
     "The tests check fixed benchmark points.", MODELS + ["src/models/SMParam.cpp"],
     [("model set-up", "src/models/ClassPotential*.cpp set_gen, SetCurvatureArrays")],
     "models", "property-based testing of structural invariants", "Random parameter points; all Yukawa types; CKM checked through the charged couplings.")

prop("C09", "Results depend only on the current parameter point, not on history",
     "After any sequence of re-initialisations, scale changes, evaluations and counterterm or triple-coupling calculations on one model object, all observable results equal those of a fresh object set to the same point, and evaluating a line of an input file gives what passing its numbers gives, whatever other lines were read before.",
     ["histories", "inputs"], "sequences of up to 12 operations on one object over all shipped models and random points",
     "The tests use a fresh object per test.", [O, *MODELS],
     [("state reset", O + " initModel, resetbools, set_All"), ("line reading", "src/models/ClassPotential*.cpp ReadAndSet")],
     "models", "stateful model-based testing against a freshly constructed object", "Differential comparison of a digest of all public results.")

prop("C10", "The effective potential respects gauge and discrete symmetries",
     "Spectra and the potential are unchanged under every global gauge rotation of the fields and under the discrete symmetries of each model applied to fields and couplings together; a change of basis of the couplings and fields leaves the physics unchanged.",
     ["inputs", "configurations"], "all shipped models, random field points, temperatures, rotations and parameter points",
     "No test relates two evaluations by a symmetry.", [O, *MODELS],
     [("tensors", "src/models/ClassPotential*.cpp SetCurvatureArrays"), ("potential", O)],
     "models", "metamorphic property-based testing (symmetry transformations)", "Symmetry-related points must agree to rounding plus thermal-table tolerance.")

prop("C11", "Triple Higgs couplings are third derivatives in the mass basis",
     "The reported triple Higgs couplings at tree, counterterm and one-loop level equal the third derivatives of the corresponding potential rotated to the mass eigenbasis, are totally symmetric, and are listed once each under labels that name the right particles in documented order.",
     ["inputs", "configurations"], "all shipped models over random viable parameter points",
     "The tests compare stored values at one point per model.", MODELS,
     [("rotation", "src/models/ClassPotential*.cpp TripleHiggsCouplings, AdjustRotationMatrix")],
     "models", "property-based testing against independently rotated third derivatives", "Blocks of states compared basis-independently.")

T = "src/minimum_tracer/minimum_tracer.cpp"
M = ["src/minimizer/Minimizer.cpp", "src/minimizer/MinimizeGSL.cpp", "src/minimizer/LibNLOPT/MinimizeNLOPT.cpp", "src/minimizer/Minfunc_gen.cpp"]
prop("C12", "Minimisation returns the global minimum",
     "Each available minimiser, alone or combined, single- or multi-threaded, returns a point that is a local minimum of the effective potential at that temperature and is not above any other minimum that is found by exhaustive search, up to numerical tolerance, also when local searches fail; the minimiser selection is what was requested, and following local minima over temperature visits exactly the requested temperatures.",
     ["inputs", "configurations", "schedules"], "random synthetic and real models, temperatures and minimiser selections",
     "The tests know the minimum of a few benchmark points.", M,
     [("global search", "src/minimizer/Minimizer.cpp Minimize_gen_all"), ("minimisers", "src/minimizer/MinimizeGSL.cpp, src/minimizer/LibNLOPT/MinimizeNLOPT.cpp")],
     "minim", "property-based testing: random potentials with known minima, random real parameter points, minimiser selections and thread use; every returned point compared", "Closed-form minima for synthetic potentials, an independent restarted simplex from many points for real models. NLopt alone in three or more fields is a known finding.")
prop("C13", "The one-step critical temperature is where the broken phase becomes degenerate",
     "The critical temperature finder returns success only with a temperature between the bounds at which the electroweak minimum is still present just below and gone or degenerate just above, with the minimum and its size reported consistently; otherwise it reports the reason, and its answer does not depend on thread use.",
     ["inputs", "configurations"], "random synthetic models with known critical temperature and real models, temperature ranges",
     "The tests compare stored numbers.", ["src/minimizer/Minimizer.cpp"], [("bisection", "src/minimizer/Minimizer.cpp PTFinder_gen_all")],
     "minim", "property-based testing: one-step potentials with closed-form critical temperature over random temperature ranges, and random real parameter points judged by an independent minimiser", "Every status is predicted for the synthetic potentials.")
prop("C14", "Constrained minimisation stays in the requested plane",
     "Minimisation in the plane between two minima returns a point in that plane that is a minimum of the potential restricted to it, for any two points and any parametrising direction.",
     ["inputs"], "random synthetic and real models and pairs of points", "The tests do not cover it beyond one point.",
     ["src/minimizer/MinimizePlane.cpp"], [("plane coordinates", "src/minimizer/MinimizePlane.cpp TransformCoordinates")],
     "minim", "property-based testing: random potentials, planes and minimisers; plane membership, reported value and an independent minimiser in the plane", "In four or more dimensions a collapsed simplex is tolerated in at most 4% of the cases.")
prop("C15", "Traced phases are continuous curves of minima",
     "Every phase traced over temperature consists of points that are local minima of the effective potential at their temperature, with the stored potential value, ordered and continuous within the tracing range, and evaluating the phase between stored points gives a local minimum too.",
     ["inputs", "configurations"], "random synthetic potentials with analytically known minima and real models",
     "The tests compare stored phase end points of benchmark models.", [T], [("tracing", T + " TrackPhase, LocateMinimum, Phase::Get")],
     "tracer", "property-based testing: random potentials whose minima, free energies and phase ends are known in closed form, and random real parameter points; every traced point compared", "The exact minima are the oracle for synthetic potentials, gradient and Hessian of the potential for real models.")
prop("C16", "Discrete symmetries and flat directions are found and used consistently",
     "The symmetry group found for a model contains exactly the sign flips that leave the potential unchanged, minima related by it are reduced to one canonical representative, and flat directions are reported if and only if the potential does not depend on them.",
     ["inputs"], "random synthetic potentials with chosen sign-flip symmetry and flat directions; all shipped models", "The tests check single models.",
     [T], [("symmetry group", T + " FindDiscreteSymmetries, GroupElements, ReduceVEV"), ("flat directions", T + " FindFlatDirections")],
     "tracer", "property-based testing: random potentials with chosen sign-flip group, flat circles, spheres and exchange symmetries; orbits reduced to one point", "The group is computed from the parities of the terms; for real models by evaluating the potential at random points.")
prop("C17", "Coexisting phase pairs and critical temperatures are complete and exact",
     "For any set of phases each pair that overlaps in temperature is reported once with its overlap interval, and the critical temperature reported for a pair is where the two potential values cross inside the overlap, present if and only if they cross the right way.",
     ["inputs", "histories"], "random sets of synthetic phases with known free energies", "The tests use benchmark models with few phases.",
     [T], [("pairs", T + " CoexPhases, CalculateTc, Vacuum")],
     "tracer", "property-based testing: random sets of phases with free energies in closed form, all tracing modes; pairs and crossings recomputed by scanning and bisection", "Includes phases that only touch.")
prop("C18", "High-temperature restoration and NLO stability verdicts match the potential",
     "The verdict on electroweak symmetry restoration at high temperature matches the curvature and minimum of the high-temperature potential at the origin, and the NLO stability verdict matches whether the electroweak vacuum is the global minimum at zero temperature.",
     ["inputs"], "random real parameter points and synthetic models", "The tests check few points.",
     [T], [("restoration", T + " IsThereEWSymmetryRestoration, IsGlobMin")],
     "tracer", "property-based testing: random high-temperature potentials with known curvature and minimum, random wells for the stability verdict, random real parameter points against the rescaled potential", "Real points without a clear sign of the curvature are discarded.")
A = "src/bounce_solution/action_calculation.cpp"
prop("C19", "The bounce action obeys its exact scaling laws and invariances",
     "The calculated tunnelling action scales exactly under rescaling of the potential and of the fields, is unchanged by translations, rotations and constant shifts of the potential, grows with the barrier, and its two parts satisfy the virial relation.",
     ["inputs"], "random one- and multi-field potentials with two minima, zero and finite temperature", "The tests check two fixed potentials.",
     [A], [("shooting", A + " BounceActionInt")],
     "action", "metamorphic property testing: scaling laws, frame changes, rigorous bounds from fixed paths and fewer fields, monotonicity, repeated calculation over dirty memory", "Random potentials with one to five fields; bounds come from an independent shooting solver.")
prop("C20", "The bounce solves the equation of motion",
     "The returned tunnelling profile starts near the true vacuum, ends at the false vacuum, satisfies the equation of motion of the inverted potential, and its action agrees with an independent calculation and with the thin-wall limit.",
     ["inputs"], "random one-field potentials from thin to thick wall in both dimensionalities, and multi-field potentials with known path", "The tests check two fixed potentials.",
     [A], [("shooting", A + " BounceActionInt")],
     "action", "differential property testing against an independent shooting solver, plus residuals of the equation of motion on the returned profile", "One-field bounces from thin to thick wall, in both dimensionalities, embedded in up to five fields; curved solutions with known action.")
B = "src/bounce_solution/bounce_solution.cpp"
prop("C21", "Nucleation, percolation and completion temperatures satisfy their definitions",
     "The reported approximate and exact nucleation, percolation and completion temperatures are roots of their defining conditions for the action curve, the highest one where there are several, ordered, inside the interval where the phases coexist, and reported as not met exactly when no root exists.",
     ["inputs"], "random monotone and non-monotone action curves, wall velocities and false vacuum fractions", "The tests check benchmark points.",
     [B], [("temperatures", B + " CalculateNucleationTemp, CalculatePercolationTemp, CalculateCompletionTemp, CalcFalseVacFraction")],
     "bounce", "model-based property testing against an independent quadrature and root bracketing", "Random action curves; roots are bracketed and counted on a dense grid, the bubble fraction is integrated with exact conformal distances.")
prop("C22", "Transition strength, inverse duration and wall velocity follow their formulas",
     "The strength, inverse time scale and wall velocity at the percolation temperature equal their defining expressions of the phases' potential, temperature derivative and action curve.",
     ["inputs"], "random phase pairs, action curves and temperatures, every wall-velocity option", "The tests check benchmark points.",
     [B], [("parameters", B + " CalculatePTStrength, GetInvTimeScale, CalculateWallVelocity")],
     "bounce", "property-based testing with synthetic potentials of known minima and free energies", "The strength, inverse time scale and wall velocity are recomputed from the exact free energies; every wall velocity option.")
prop("C23", "Gravitational-wave spectra and signal-to-noise follow their formulas",
     "For every physically meaningful set of transition parameters the peak frequencies, amplitudes, spectral shapes and signal-to-noise ratio equal the documented expressions, are finite and non-negative, and are the same whatever was calculated before on the same object.",
     ["inputs", "histories"], "random transition parameters over the documented ranges and evaluation orders", "The tests check one point.",
     ["src/gravitational_waves/gw.cpp"], [("spectra", "src/gravitational_waves/gw.cpp")],
     "gw", "differential property testing against an independent implementation, with evaluation histories", "Peak values, spectra and signal-to-noise ratio for random transition parameters and evaluation orders.")
prop("C24", "Transition results, status flags and column labels are consistent",
     "For every point and option setting the output of the transition finder is self-consistent and follows the options: one label per value in the same order, status flags that match the presence of values, temperatures inside the search range and below the critical temperature, minima that are those of the two phases at each temperature, the requested wall velocity, vacuum fractions, transition temperature and filters used, values equal to those of the bounce solution and gravitational-wave calculation of that transition, and a transition history that follows the completed transitions. No point ends the program or runs forever.",
     ["inputs", "configurations"], "all shipped models over random points and option settings", "The tests check benchmark points.",
     ["src/transition_tracer/transition_tracer.cpp"], [("output", "src/transition_tracer/transition_tracer.cpp")],
     "transition", "property-based testing of the transition finder on generated potentials and models, with every value recomputed step by step", "Random wells with known transitions (1-3 phases and fields) and real models with random options; labels, statuses, temperatures, minima, gravitational-wave values and history.")
prop("C25", "Command-line and JSON options are parsed faithfully or rejected",
     "Options given on the command line in any order, in either form or in a configuration file are read with the value given, defaults apply to the rest, required and unknown options are reported, and malformed input is rejected with an error without crash.",
     ["inputs"], "random option sets, orders, values and files, and malformed inputs", "The tests use one fixed set.",
     ["src/utility/parser.cpp"], [("parser", "src/utility/parser.cpp")],
     "cli", "model-based property testing of the parser plus fuzzing of malformed arguments and JSON", "Random declarations, option lists, files and call sequences against a reference map.")
prop("C26", "Names, options and log settings round-trip",
     "Model, minimiser, status and option names map to identifiers and back without loss, unknown names are rejected, and each log level is written or suppressed as selected with the remaining output unaffected.",
     ["inputs", "histories"], "all names with random case changes, random strings and sequences of log settings", "The tests check a few names.",
     ["src/utility/Logger.cpp", "src/models/IncludeAllModels.cpp"], [("names", "src/models/IncludeAllModels.cpp"), ("logging", "src/utility/Logger.cpp")],
     "cli", "round-trip and stateful model-based testing", "All names; random sequences of log operations against a model of levels and sinks.")
prop("C27", "The programs process exactly the requested lines of the input",
     "Every program, given a tab-separated input file and a line range, writes a header and one row per requested line, in order, with the input columns unchanged, as many values as labels, independent of the other lines (but for measured run times), and rejects invalid ranges, models and options with a non-zero exit and no row.",
     ["inputs", "configurations"], "random input files, line ranges, separators, programs and models", "No test runs a program.",
     ["src/prog/CalcCT.cpp", "src/prog/BSMPT.cpp", "src/prog/NLOVEV.cpp", "src/prog/VEVEVO.cpp", "src/prog/TripleHiggsNLO.cpp", "src/prog/MinimaTracer.cpp", "src/prog/CalcTemps.cpp", "src/prog/CalcGW.cpp"],
     [("line loop", "src/prog/*.cpp")],
     "progs", "property-based testing of the built programs on random input files, against the library and line by line", "Rows of the three tracing programs are compared without the measured run time; input is tab-separated as documented.")
prop("C28", "The programs print what the library calculates",
     "Every value a program writes equals the library's result for the same parameter point, options and label.",
     ["inputs", "configurations"], "random parameter points, models and programs", "No test runs a program.",
     ["src/prog/CalcCT.cpp", "src/prog/BSMPT.cpp", "src/prog/NLOVEV.cpp", "src/prog/VEVEVO.cpp", "src/prog/TripleHiggsNLO.cpp", "src/prog/PotPlotter.cpp"], [("output", "src/prog/*.cpp")],
     "progs", "differential property-based testing of the built programs against the library", "Single-threaded and multi-threaded minimisation; values are compared to the printed precision, minima to the minimiser's.")
prop("C29", "Path splines interpolate their points at constant speed",
     "The path through any list of field-space points passes through them in order, is parametrised by its length, and its derivatives are those of the path, also after points are added.",
     ["inputs", "histories"], "random point lists in one to six dimensions and sequences of changes", "The tests check one path.",
     ["src/utility/const_velocity_spline.cpp"], [("spline", "src/utility/const_velocity_spline.cpp")],
     "util", "property-based testing against a dense reference spline, with operation histories", "Arc lengths are kept in single precision by the code: agreement to 3e-6 of the length.")
prop("C30", "Numerical derivatives and vector helpers are correct",
     "Numerical gradients and Hessians agree with analytic derivatives of smooth functions to their order of accuracy, and the vector, string and special-function helpers satisfy their defining identities.",
     ["inputs"], "random polynomials, vectors, strings and arguments", "The tests check single values.",
     ["src/utility/NumericalDerivatives.cpp", "src/utility/utility.cpp", A], [("helpers", "src/utility/utility.cpp")],
     "util", "property-based testing against analytic derivatives and reference implementations", "Truncation bounds of the finite differences are computed from the exact derivatives.")
prop("C31", "The baryon asymmetry solves the transport equations",
     "The baryon asymmetry calculated for a point solves the stated transport equations along the wall and depends only on the inputs.",
     ["inputs"], "points with a strong transition", "The tests do not build it.",
     ["src/baryo_calculation/transport_equations.cpp"], [("transport", "src/baryo_calculation/transport_equations.cpp")],
     na="The baryogenesis library needs Boost.odeint set-up that the pinned build does not compile, so nothing executable exists to generate inputs for.")
prop("C32", "The CMA-ES minimiser agrees with the others",
     "The CMA-ES minimiser returns the same global minimum as the others.",
     ["inputs"], "random models", "Not built.", ["src/minimizer/LibCMAES/MinimizeLibCMAES.cpp"], [("interface", "src/minimizer/LibCMAES")],
     na="libcmaes is not installed in the sandbox, so the code cannot be built or run.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"checks/run.sh {p['harness']} {p['id']}",
                   thorough_cmd=f"checks/run.sh {p['harness']} {p['id']} --thorough",
                   technique=p["technique"], level="exploration", level_note=p["note"])
              for p in P if p["harness"]]
    na = [dict(property=p["id"], reason=p["na"] or "The check is not built yet.") for p in P if not p["harness"]]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="python3 tools/build.py all", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")


main()
