"""The properties and what decides them. engine/mkmanifest.py turns this file
into properties.jsonl and MANIFEST.json."""
COMMON = [
 "floating point operations are read as exact real operations; comparisons carry the stated tolerances",
 "eigenvector, linear-system and transcendental kernels (LAPACK, exp, log, sqrt, trigonometric functions) are encoded by their exact values and first derivatives at the base point; results are exact over the whole box where they enter the encoded terms only as constants",
 "the solver decides every obligation for all values of the symbolic inputs inside the stated box, along the explored control paths; option sets, layer and quadrature counts are those of the scenarios",
 "scenarios whose obligation is not linear or polynomial in the symbols are decided for first-order perturbations (all directions) about the base point, plus the base point itself",
]
SYM = "compiler-IR symbolic execution of the library, obligations decided by Z3 (linear/polynomial real arithmetic); counterexamples replayed on the plain build"
PROPS = {}; NA = {}
def add(pid, title, statement, over, qtext, why, files, mech, drivers=(), cbmc=(), bounds="", assumptions=COMMON, level_note="", technique=SYM, observe=("xrtm_solution()", "xrtm_radiance()"), state=()):
    (PROPS if drivers or cbmc else NA)[pid] = dict(drivers=list(drivers), cbmc=list(cbmc), bounds=bounds, assumptions=list(assumptions), technique=technique, level_note=level_note or bounds,
        spec=dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
            anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

SOLV = ["src/xrtm_model.c", "src/xrtm_adding.c", "src/xrtm_doub_rts.c", "src/xrtm_eig_rts.c", "src/xrtm_eig_bvp.c", "src/xrtm_pade_rts.c", "src/xrtm_mem_bvp.c", "src/xrtm_sos.c", "src/xrtm_two_os.c", "src/xrtm_single.c", "src/xrtm_two_stream.c", "src/xrtm_four_stream.c", "src/xrtm_six_stream.c"]
TESTS = "The eight example programs run one solver (eigenvector adding) on a few fixed scenes and compare printed numbers; "

add("P01", "Radiances and fluxes are linear in the sources",
 "For fixed optical properties, geometry and surface, every radiance, mean radiance and flux that a solver returns is the superposition of what each source (solar beam, isotropic illumination of top and bottom, Planck emission of levels and surface) produces alone. Without any source every output is zero.",
 ["inputs", "configurations"], "every combination of source strengths, every solver that accepts the configuration, every option family",
 TESTS + "superposition over a continuum of source strengths is never compared.",
 SOLV, [("source terms enter each solver additively", "src/xrtm_model.c get_solution_internal"), ("layer sources", "src/xrtm_source.c")], ["linear"],
 bounds="source strengths in [0,10]x[0,4]x[0,3] (solar, isotropic, Planck) symbolic at once, superposition and zero-source obligations over the whole box; about 40 configurations (2-3 layers, 1-4 quadrature angles) x every accepting solver; up to 4 control paths each")
add("P02", "Every solver gives the same answer to the same problem",
 "All solvers that solve the full multiple scattering problem and accept a configuration return the same radiances, mean radiances and fluxes for it, to within their documented accuracy. Options that only select an algorithm, a Fourier convergence test or keep intermediate results do not change the answer; a vanishing Fourier tolerance gives the untruncated answer.",
 ["inputs", "configurations"], "every scene the configuration admits: source strengths, optical depths, albedos, phase functions, surface parameters, solar angle, and every pair of accepting solvers",
 TESTS + "the other ten solvers are never run, and agreement is only meaningful over all inputs.",
 SOLV, [("independent solution methods behind one interface", "src/xrtm_model.c get_fourier"), ("option and solver compatibility", "src/xrtm_interface.c xrtm_check_solvers")], ["cross"],
 bounds="modes sources/iso: source strengths symbolic over the whole box; mode optical: layer depths, albedos, expansion coefficients, surface amplitudes and parameters, solar angle symbolic, first order in all directions about the scene; cold_top: Planck function zero at boundaries; fourier: tolerance 1e-14 against none, old and new convergence test, with and without derivatives; every accepting solver against the eigenvector boundary-value solver")
add("P03", "Linearised outputs are the exact derivatives of the outputs",
 "With derivatives enabled, each derivative of radiance, mean radiance or flux equals the directional derivative of that output for the linearised inputs supplied: layer optical depth, albedo, expansion coefficients, surface amplitudes and parameters, Planck and isotropic sources. Base outputs are those of a run without derivatives, and reusing stacks of layers changes no derivative.",
 ["inputs", "configurations"], "every direction in the space of all inputs at once, every accepting solver and option family",
 TESTS + "linearised outputs are compared with stored numbers for a few single-parameter perturbations; all directions, other solvers, levels and options stay open.",
 SOLV + ["src/xrtm_brdf.c", "src/xrtm_scatter.c"], [("tangent linear code in every solver", "src/*_l.c and *_l variables"), ("which layers a derivative touches", "src/xrtm_derivs.c")], ["deriv"],
 bounds="four derivatives at once (all inputs; one layer's optics; surface; sources and first layer depth), every direction symbolic; the derivative of the encoded outputs at the scene's base point compared with the reported derivative for every direction in the box; stacks: four to six layers, stack reuse on against off, solar and thermal sources, every kind of surface, over a chain of changes; configurations as P01")

add("P04", "Reverse (adjoint) derivatives equal the tangent linear derivatives",
 "Where the reverse mode of the derivative calculation is implemented, it returns the same radiances and the same derivatives of every radiance as the forward (tangent linear) mode for the same linearised inputs, on the first solve of an instance and on later ones, with and without reused stacks.",
 ["inputs", "configurations"], "every direction in the space of layer and surface inputs at once; eigenvector and single scattering solvers, solar source, Lambertian surface",
 "No test or example enables the reverse mode.",
 ["src/xrtm_model_a.c", "src/xrtm_eig_rts_a.c", "src/xrtm_eig_bvp_a.c", "src/xrtm_adding_a.c", "src/xrtm_source_a.c", "src/xrtm_scatter_a.c", "src/xrtm_single_a.c", "src/xrtm_interface.c"],
 [("adjoint of every forward routine, in reverse order, on saved intermediates", "src/*_a.c"), ("assembly of derivatives from adjoints", "src/xrtm_interface.c xrtm_solution_2")], ["adjoint"],
 bounds="four derivatives at once, all directions symbolic over their box, tangent linear and adjoint results compared as linear forms over the whole box; eigenvector adding, eigenvector boundary value and single scattering solvers; up to five layers; each instance solved again after a change of its inputs; what is accepted but not implemented is recorded as findings", observe=("xrtm_radiance_2()",))
add("P05", "The answer depends on the current inputs, not on the history of calls",
 "After any sequence of input changes and solves on one instance, a solve returns exactly what a fresh instance given the same inputs returns, with or without the options that save intermediate results and with or without derivatives, whichever solvers the instance served before and whatever other instances do. Repeating a solve without changes repeats the answer.",
 ["histories", "inputs", "configurations"], "a chain of about 25 kinds of changes (every setter, one layer or all), a solve after each, every solver and option family, all new values symbolic",
 "Every test program sets its inputs once and solves once: stale saved results cannot show.",
 ["src/xrtm_interface.c", "src/xrtm_model.c", "src/xrtm_derivs.c"], [("which saved results an input change invalidates", "src/xrtm_model.c *_deps(), resolve_deps*()"), ("marking of saved results as stale", "src/xrtm_interface.c set_deps()")], ["history"],
 bounds="one instance per configuration, solver and save/derivative option set, a fixed chain of up to 26 changes with symbolic new values (box 1-5 % around them), compared after every change with a fresh instance; the same chain in reverse with two changes between solves, one instance serving all its solvers in turn, and two instances in use at once; same-term comparison, over the whole box", observe=("xrtm_solution()",), state=[("dep_flags_*", "what must be recalculated at the next use", "src/xrtm_interface.h")])

add("P06", "What is asked for does not change what is answered",
 "Each radiance, mean radiance and flux has the same value whether it is requested alone or together with other output levels, optical depths, angles, azimuths, directions and quantities, through the combined or the single-quantity entry points, and whichever other solvers the instance also offers or has run.",
 ["inputs", "configurations"], "every scene, every split of the requested outputs into single requests, every solver",
 "Each test asks for one fixed set of outputs once.",
 ["src/xrtm_model.c", "src/xrtm_interface.c"] + SOLV[1:], [("selection of levels, angles and directions", "src/xrtm_model.c get_solution_internal"), ("entry points for one quantity", "src/xrtm_interface.c xrtm_radiance() .. xrtm_flux()")], ["select"],
 bounds="six modes (levels, angles, azimuths, directions, quantities, entry points with every solver in one instance), all configurations of P01, scene inputs symbolic in a box, same-term comparison over the box", observe=("xrtm_solution()", "xrtm_radiance()", "xrtm_mean_radiance()", "xrtm_flux()"))
add("P07", "Azimuth enters only relative to the sun, and integrates out of the fluxes",
 "Radiances depend on the azimuth of view relative to that of the sun only, are periodic in 360 degrees and symmetric about the solar plane (U and V antisymmetric); without azimuthal dependence they do not vary. Mean radiances and fluxes are the quadrature of the azimuthally averaged radiances over the hemisphere, plus the direct beam for the downward ones, and do not depend on azimuth.",
 ["inputs", "configurations"], "every source strength, depth, albedo, solar angle; every accepting solver and option family, scalar and polarised",
 TESTS + "few of them look beyond one azimuth, none compares azimuths or integrates.",
 SOLV + ["src/xrtm_scatter.c", "src/xrtm_brdf.c"], [("Fourier series in azimuth", "src/xrtm_model.c get_solution_internal"), ("rotation of the phase matrix", "src/xrtm_scatter.c scat_vector_rotate_hovenier"), ("integrated quantities", "src/xrtm_model.c")], ["azimuth"],
 bounds="four modes (shift, period, mirror, hemispherical integral with eight azimuths); configurations of P01; sources symbolic over the whole box, optical inputs to first order about the scene", observe=("xrtm_solution()",))
add("P08", "Only the optical profile matters, not how it is cut into layers",
 "Splitting a layer into two of the same material, and asking for a level by its optical depth instead of its index, change no output; the radiances inside a layer at an optical depth are those at the level of a model whose layer is cut there.",
 ["inputs", "configurations"], "every scene and cut position in the box, every accepting solver",
 TESTS + "no test compares two layerings or output at optical depths with output at levels.",
 SOLV, [("layer composition", "src/xrtm_adding.c"), ("radiances inside layers", "src/xrtm_eig_bvp_x.c CALC_RADIANCE_TAUS and the like")], ["layers"],
 bounds="three modes (split, taus, cut); configurations of P01; sources symbolic over the whole box, optical inputs and the position of the cut to first order about the scene")
add("P09", "Equivalent descriptions of one problem give one answer",
 "Equivalent inputs give the same output: delta-M scaling done by the library or by the caller; a pseudo-spherical model in the flat limit and the plane-parallel one; scalar scattering and the same scattering with polarisation decoupled; three and four Stokes parameters when V decouples; output at quadrature angles and at user angles equal to them; source function integration and interpolation at added nodes; expansion coefficients beyond what is used; a surface kernel and the same kernel split in two, in any order; a user-defined kernel and the built-in one it copies; no azimuthal dependence and the azimuthal average.",
 ["inputs", "configurations"], "every scene in the box, every accepting solver",
 TESTS + "no test states one problem in two ways.",
 SOLV + ["src/xrtm_scatter.c", "src/xrtm_brdf.c", "src/xrtm_sfi.c"], [("delta-M scaling", "src/xrtm_model.c"), ("pseudo-spherical beam", "src/xrtm_model.c"), ("user angles", "src/xrtm_sfi.c"), ("kernel sum", "src/xrtm_brdf.c")], ["equiv"],
 bounds="twelve equivalences on the configurations of P01 they apply to; sources and kernel amplitudes symbolic, optical inputs to first order about the scene; relative tolerance 1e-6 (2e-5 doubling, 1e-4 successive orders)")
add("P10", "Transmission, emission and single scattering have their closed forms",
 "Without scattering, every solver returns the transmitted and emitted radiation of the radiative transfer equation: radiances, mean radiances and fluxes follow from exponential attenuation, linear in optical depth Planck emission, the direct beam (plane-parallel or pseudo-spherical) and one reflection at the surface. With little scattering, they tend to the single scattering solution, which the single scattering solver returns for any albedo.",
 ["inputs", "configurations"], "every layer optical depth, albedo, expansion coefficient, solar angle, source strength and surface albedo in the box, at every output level, depth, angle and azimuth, every accepting solver",
 TESTS + "no test has an independent analytic answer.",
 SOLV + ["src/xrtm_source.c", "src/xrtm_sfi.c"], [("beam attenuation and average secants", "src/xrtm_model.c update_beam_params"), ("thermal source", "src/xrtm_source.c"), ("single scattering", "src/xrtm_single.c")], ["closed"],
 bounds="three modes (single: any albedo; thin: albedo 1e-6; transmission: albedo 1e-10); oracle: closed forms written from the radiative transfer equation in checks/closed.cpp; configurations of P01 with Lambertian or black surface; sources symbolic over the whole box, optical inputs to first order about the scene; relative tolerance 1e-7 (thin 3e-5, doubling 1e-4, successive orders 2e-3)", observe=("xrtm_solution()",))
add("P11", "Energy is neither created nor lost, and the boundaries are as specified",
 "Without absorption the net flux is the same at every level of a plane-parallel atmosphere; with absorption it does not increase downwards, fluxes and mean radiances are not negative, and no more is reflected than came in. At the top the downward radiation is exactly the solar beam and the isotropic illumination; over a Lambertian surface the upward radiation is isotropic and equal to the albedo's share of the downward flux plus emission and illumination.",
 ["inputs", "configurations"], "every layer optical depth, albedo, expansion coefficient, solar angle, source strength and surface albedo in the box, every accepting solver of the full problem",
 TESTS + "none has a conservative atmosphere or sums a budget.",
 SOLV + ["src/xrtm_brdf.c"], [("normalisation of the phase function and the quadrature", "src/xrtm_scatter.c, src/xrtm_interface.c"), ("boundary conditions", "src/xrtm_model.c"), ("flux integration", "src/xrtm_model.c")], ["energy"],
 bounds="three modes (budget; conservative: albedo in [1-5e-5,1-2e-5] extrapolated to 1, the library replaces albedos above 1-1e-5; boundary); configurations of P01 without top-down and bottom-up adding; boundary mode: sources symbolic over the whole box; optical inputs to first order about the scene", observe=("xrtm_solution()",))
add("P12", "Sun and observer can be exchanged (reciprocity)",
 "For a reciprocal surface the reflected radiance per unit incident flux is unchanged when the solar and viewing directions are exchanged, and the diffusely transmitted radiance becomes that of the same stack of layers upside down.",
 ["inputs", "configurations"], "every pair of directions, relative azimuth, layer optical depth, albedo, expansion coefficient and surface amplitude in the box, every accepting solver, scalar and polarised (total intensity)",
 TESTS + "no test exchanges directions.",
 SOLV + ["src/xrtm_brdf.c", "src/xrtm_scatter.c", "src/xrtm_sfi.c"], [("phase matrices for solar, quadrature and user angles", "src/xrtm_scatter.c"), ("surface reflection for the beam and for diffuse light", "src/xrtm_brdf.c")], ["recip"],
 bounds="two modes (reflection, transmission); configurations of P01 with a solar source, plane-parallel, without Li kernels (not reciprocal by definition); all inputs to first order about the scene in every direction; relative tolerance 1e-7 (doubling 1e-4, successive orders 1e-3)", observe=("xrtm_solution()",))

CB = "bounded symbolic execution of the library's C (CBMC: goto programs compiled from the current tree, bit-precise integers and IEEE doubles), obligations decided by SAT; counterexamples replayed on the plain (or address-sanitised) build"
CBA = ["the C library and the compiler behave as CBMC models them; snprintf() and strtok_r() of the name lists are replaced by small C versions",
 "quadrature nodes, work space and the solution itself are replaced by stand-ins: these properties do not depend on their values",
 "all loops are unwound completely (unwinding assertions are proved), so within the sizes of a harness nothing is cut off",
 "doubles are finite (no NaN or infinity is given as an input)"]
IFC = ["src/xrtm_interface.c"]
add("P13", "Inputs are checked, read back as set, and left alone by refused calls",
 "Every setter accepts exactly the values, sizes and indexes in its documented range, whichever form (one element, a row, everything at once) is used; every getter returns what was set last by any form, other elements stay as they were, and reading something that was never set or lies out of range gives the error value. A call that is refused leaves the instance as it was.",
 ["inputs", "histories of calls"], "every finite double and every integer index given to the setters and getters of scalar inputs, layer inputs, boundary and surface inputs, geometry, output levels, phase functions and their linearisations",
 "The examples only set valid inputs, once, and never read them back.",
 IFC, [("XRTM_SET_SCALAR / SET_*_N macros and checks of values", "src/xrtm_interface.c"), ("input flags per element", "src/xrtm_interface.c set_flags_*")],
 cbmc=["cb_api/" + h for h in "h_source h_params h_unavailable h_unset h_omega h_ltau h_omega_l h_ltau_l h_source_l h_levels_b h_geometry h_out_levels h_coef h_coef_n h_coef_l h_kernel h_kernel_l".split()],
 bounds="instances of 2 layers, up to 2 derivatives, 2 coefficients, 2 output levels or angles, 2 kernels; sequences of up to four setter calls with getters after each; values, indexes and (for phase functions) counts symbolic; g is not covered (no solver uses it)", assumptions=CBA, technique=CB, observe=("xrtm_set_*()", "xrtm_get_*()"))
add("P14", "Names, indexes, values and masks are translations of each other",
 "For options, solvers, outputs and surface kernels the conversions between name, index and mask (or value) are inverse to each other and agree with the documented constants; every other string, index or value is refused. Lists made of a mask contain exactly its members, in order, and never more than the caller has room for; a list of names in any of the separators makes up the mask again.",
 ["inputs"], "every index, every string of up to 14 characters, every mask of solvers and outputs, every mask of options in three overlapping windows, every length of list or buffer",
 "The tests use the names in the example inputs only.",
 ["misc/gindex_name_value.c", "misc/gindex_name_value.h"] + IFC + ["src/xrtm_brdf.c"], [("tables and templates", "misc/gindex_name_value.h")],
 cbmc=["cb_names/" + h for h in "h_names_option h_names_rest h_any_name h_lists h_lists_lo h_lists_mid h_lists_hi h_name_lists h_text".split()],
 bounds="strings up to 14 characters; option masks with bits 0-11, 11-21 or 21-31 free and lists of up to 12; name lists of one or two names; text buffers of 1 to 48 characters", assumptions=CBA, technique=CB, observe=("xrtm_*_name_to_*()", "xrtm_*_mask_to_*()", "xrtm_*_list_to_mask()"))
add("P15", "Instances and requests are accepted exactly when all they need is there",
 "xrtm_create() succeeds exactly for the combinations of options, sizes and solvers that are consistent and that every requested solver supports; it fills in the documented defaults and changes nothing else. A solution is given exactly when all required inputs have been set, the solver was requested at creation and it provides the requested outputs; otherwise the call is refused.",
 ["configurations", "inputs", "histories of calls"], "every 32 bit option mask together with every set of solvers and all sizes; every subset of the required inputs; every solver and output mask requested",
 "The tests create a handful of valid instances and never an invalid one.",
 IFC, [("option, size and solver checks", "src/xrtm_interface.c xrtm_check_options, xrtm_check_counts, xrtm_check_solvers"), ("required inputs", "src/xrtm_interface.c check_inputs"), ("requests", "src/xrtm_interface.c xrtm_solution")],
 cbmc=["cb_make/" + h for h in "h_sizes h_create h_required_sun h_required_hot h_request".split()],
 bounds="creation: n_quad<=8, max_coef<=40, n_derivs<=4, n_layers<=6, n_out_levels<=6, n_out_thetas<=4, everything else unrestricted, followed up to the first allocation; required inputs: one solar spherical instance (16 inputs) and one thermal instance with derivatives (10 inputs), all subsets; requests: one instance with three solvers, every solver bit, output mask and number of azimuths", assumptions=CBA, technique=CB, observe=("xrtm_create()", "xrtm_get_options()", "xrtm_radiance()", "xrtm_solution()"))

add("P16", "Finite differences are differences of ordinary solutions",
 "The finite difference interface returns, for every derivative, the difference of two ordinary solutions over the interval of its method (forward f(x+p)-f(x), backward f(x)-f(x-p), central f(x+p)-f(x-p)) divided by its step, together with the unperturbed solution, and leaves the instance as it was. Perturbations read back as set; indexes out of range are refused.",
 ["inputs", "configurations", "histories of calls"], "every perturbation of sources, albedos, optical depths, phase functions and surface in the box, all three methods; every finite double and integer index given to the perturbation setters",
 "No test uses the finite difference interface.",
 ["src/xrtm_fd_interface.c"], [("perturb, solve, restore", "src/xrtm_fd_interface.c xrtm_fd_solution()"), ("perturbation inputs", "src/xrtm_fd_interface.c xrtm_fd_set_*(), xrtm_fd_get_*()")], ["fd"],
 cbmc=["cb_fd/" + h for h in "h_omega h_ltau h_source h_levels_b h_coef h_kernel".split()],
 bounds="solutions: three derivatives (all inputs; sources; one layer), configurations and solvers of P01, perturbations up to 1.2%; setters and getters: 2 layers, 2 derivatives, 2 coefficients, 2 kernels, values and indexes symbolic",
 assumptions=COMMON + CBA, technique=SYM + "; setters and getters: " + CB, observe=("xrtm_fd_solution()", "xrtm_fd_radiance()", "xrtm_fd_set_*_p_*()", "xrtm_fd_get_*_p()"))
add("P17", "Quadratures are exact and special functions match definitions",
 "Gauss-Legendre rules (half range, double, on any interval, fitted) integrate every polynomial up to the degree of their order, Simpson's and the trapezoidal rules are the composite rules, their derivatives with respect to the interval are derivatives; Legendre polynomials, associated Legendre functions and generalized spherical functions equal the explicit sums that define them.",
 ["inputs", "sizes"], "every polynomial with coefficients in [-1,1], every interval in the box, every cosine in [-1,1] (normalised associated functions: about three cosines), every order and degree within the bound",
 "The tests use one or two quadrature orders inside whole solutions, where an inexact rule only changes digits.",
 ["misc/rtutil_math.c"], [("Newton iteration for the nodes", "misc/rtutil_math.c gauss_leg_point()"), ("recurrences", "misc/rtutil_math.c leg_poly2(), leg_poly_assoc2(), gen_spher_funcs_prt2()")], ["quad"],
 bounds="rules of 1 to 16 points (thorough: 32), Simpson and trapezoidal 1 to 9 (15); degrees below 10 (16), orders up to 5; oracle: moments of monomials and explicit Jacobi sums written in checks/quad.cpp; absolute tolerance 1e-9 to 1e-13",
 observe=("gauss_leg_quad*()", "simpsons_rule_quad()", "leg_poly*()", "gen_spher_funcs*()"))
add("P18", "C++, Fortran and Python interfaces are the C interface",
 "For every routine of the published interface definition, calling it through the C++, Fortran 77, Fortran 90 or Python interface does what calling the C function does: the same values arrive whatever the array arguments' shapes, the same values and errors come back, and solutions agree. Named constants have the C values. Python refuses arrays of another shape; an index out of range is refused, not dereferenced.",
 ["inputs", "configurations"], "every value of every scalar and array argument of every routine within 2% of a plausible one, independent symbols per call and element",
 "The tests of the interfaces run one example program each, through a quarter of the routines, with one configuration.",
 ["interfaces"], [("array views", "interfaces/xrtm_int_f77_util.c, xrtm_int_f90_util.c"), ("Python conversion and shape checks", "interfaces/xrtm_int_py.c"), ("C++ class", "interfaces/xrtm_int_cpp.cpp"), ("Fortran modules", "interfaces/xrtm_int_f77.f, xrtm_int_f90.f90")],
 drivers=("lang",), bounds="three configurations (thermal with all derivatives and three kernels; vector with three derivatives; scalar without surface) with pairwise different dimensions; adapters generated from a copy of the interface definition kept in checks/api.def; C, C++ and Python glue is executed symbolically, Fortran sources run natively and only move values; outside: Julia, IDL (no runtime here), the finite difference interfaces (the pinned Fortran and IDL sources of those do not compile)",
 observe=("all of interfaces/xrtm_interface.def",))
