#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable and diffable)."""
import json, os
SC = "src/physics/single_chain"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["public Rust API (free functions and model objects)"], hook_needed=None)))
DOM = "all numbers of links, link lengths, hinge masses, stiffnesses, energies, well widths, persistence lengths, temperatures and loads in the model's domain"
SAMPLED = "The existing tests draw 8 random points per function around one nominal chain (5-25 links, unit link, 300 K); "

prop("C01", "All call forms of a function agree: free function, model object, C interface",
 "For every thermodynamic function and every equilibrium distribution of every chain model, the free function, the method of an initialised model object (reached through any nesting of the object, e.g. model -> thermodynamics -> ensemble -> approximation -> Legendre) and the exported C function return the same value for the same chain parameters and arguments. Every nested object carries exactly the parameters its parent was initialised with.",
 ["inputs", "configurations"], DOM + "; all 554 functions in three forms",
 SAMPLED + "they call only methods of one nesting level, never the C functions, and compare a few methods with each other, so a swapped argument or a parameter not handed on in one of ~1700 near-identical wrappers is invisible.",
 [SC + "/**/mod.rs", SC + "/**/ex.rs"], [("argument forwarding in impl blocks and init()", SC + "/**/mod.rs"), ("extern wrappers", SC + "/**/ex.rs")],
 observe=["Rust free functions", "methods", "exported C symbols physics_single_chain_*"])

prop("C02", "The Python package returns exactly what the core returns",
 "For every class, attribute and method of the Python package (chain models in all ensembles and approximations, and the constitutive models), the values returned for NumPy inputs equal, element by element and in order, what the core library returns for the corresponding scalars, whatever the length of the array. Attributes report the parameters the object was constructed with.",
 ["inputs", "programs"], "all classes and methods of the extension module, arrays of any length including 1 and empty, " + DOM,
 "The repository's Python tests check only that objects can be constructed and a handful of attributes; no value computed through Python is compared with the core.",
 [SC + "/**/py.rs", "src/constitutive/**/py.rs", "src/lib.rs"], [("pymethods mapping NumPy arrays over core functions", SC + "/**/py.rs")],
 observe=["import polymers in Python", "C symbols of the same shared library"])

prop("C03", "Dimensional and nondimensional forms of a quantity agree",
 "For every chain model, ensemble and approximation, a dimensional quantity equals its nondimensional counterpart times its unit (force kT/l, length l or contour length, energy kT, density contour length^-3 or ^-1) when the nondimensional inputs are formed from the dimensional ones (force f l/kT, end-to-end length xi/(N l), stiffness k l^2/kT, energy e/kT, well width w/l, persistence length l_p/(N l), potential distance d/(N l)). This holds at any temperature, link length and number of links, so results obey dimensional scaling exactly.",
 ["inputs"], DOM, SAMPLED + "all with link length near 1 and temperature near 300 K where a wrong power of the link length or a dropped temperature factor is nearly invisible.",
 [SC + "/**/mod.rs"], [("nondimensionalisation inside the dimensional functions", SC + "/**/mod.rs")])

prop("C04", "Whole-chain quantities are number_of_links times per-link quantities",
 "For every chain model, ensemble and approximation, an end-to-end length, free energy or relative free energy of the whole chain equals the number of links times its per-link form for the same chain and load, in dimensional and nondimensional form.",
 ["inputs"], DOM + ", number of links 1-255 where the model allows it", SAMPLED + "with 5-25 links.",
 [SC + "/**/mod.rs"], [("per_link variants", SC + "/**/mod.rs")])

prop("C05", "Relative free energies are differences of absolute ones and vanish at zero load",
 "For every chain model, ensemble and approximation, the relative free energy at a load equals the absolute free energy at that load minus the absolute free energy of the same chain at zero load (or, in the modified canonical ensemble, at zero potential distance), in all four forms (whole chain or per link, dimensional or not). It vanishes as the load vanishes and does not depend on hinge mass, and the nondimensional form does not depend on temperature or link length separately.",
 ["inputs"], DOM, SAMPLED + "the zero point is tested only at one fixed tiny load and the difference only between relative values.",
 [SC + "/**/mod.rs"], [("relative_* functions", SC + "/**/mod.rs")])

prop("C06", "Isometric force is the derivative of the Helmholtz free energy",
 "In the isometric ensemble of every chain model and approximation, the expected force equals the derivative of the Helmholtz free energy with respect to end-to-end length at fixed temperature (dA/dxi); nondimensionally, the force equals the derivative of the nondimensional Helmholtz free energy per link with respect to nondimensional end-to-end length per link. It holds for absolute and relative energies alike.",
 ["inputs"], DOM + ", end-to-end lengths over the whole reachable range", SAMPLED + "and integrate over a fixed window of extension for one chain.",
 [SC + "/**/isometric/**/mod.rs"], [("force and Helmholtz free energy implemented by separate closed forms", SC + "/**/isometric/**/mod.rs")])

prop("C07", "Isotensional end-to-end length is minus the derivative of the Gibbs energy",
 "In the isotensional ensemble of every chain model and approximation, the expected end-to-end length equals minus the derivative of the Gibbs free energy with respect to force at fixed temperature (xi = -dG/df); nondimensionally, the end-to-end length per link equals minus the derivative of the nondimensional Gibbs free energy per link with respect to nondimensional force. In the modified canonical ensemble the expected force is likewise the derivative of the Helmholtz free energy with respect to the potential distance and the end-to-end length follows from it.",
 ["inputs"], DOM, SAMPLED + "at stiff chains (kappa ~ 200) only.",
 [SC + "/**/isotensional/**/mod.rs", SC + "/fjc/thermodynamics/modified_canonical/**/mod.rs"], [("length and Gibbs free energy implemented separately", SC + "/**/isotensional/**/mod.rs")])

prop("C08", "Legendre-transform approximations are Legendre transforms of their parent",
 "For every model, the Helmholtz free energy of the isotensional Legendre approximation as a function of force equals the Gibbs free energy plus force times expected end-to-end length, and the Gibbs free energy of the isometric Legendre approximation as a function of end-to-end length equals the Helmholtz free energy minus force times end-to-end length, in absolute and relative form. Eliminating the load between the isotensional and the isometric Legendre approximations of one model gives the same free energy curve, the absolute energies differing by exactly one link's momentum (and link-reference) contribution because a chain of N links held at both ends has N-1 free hinges.",
 ["inputs"], DOM, SAMPLED + "and check only a few of the models and only relative energies.",
 [SC + "/**/legendre/mod.rs"], [("legendre modules", SC + "/**/legendre/mod.rs")])

prop("C09", "Force from length inverts length from force for each Legendre pair",
 "For every model that offers both, the isometric force in the Legendre approximation is the inverse function of the corresponding isotensional end-to-end length: applying one and then the other returns the starting load, over the whole range from the linear regime to near full extension (and beyond it for extensible links, up to link rupture). Both are continuous across any internal switch of formula or solver.",
 ["inputs"], DOM + "; forces from 1e-3 to several hundred kT/l", "Tests sample a narrow window of loads for stiff chains; the inversion uses closed forms, iterative solvers and switches that behave differently elsewhere.",
 [SC + "/**/isometric/**/legendre/mod.rs", "src/math/mod.rs"], [("Newton inversion and approximate inverse Langevin", "src/math/mod.rs")])

prop("C10", "Equilibrium distributions are normalised and consistent with free energies",
 "For every model that provides equilibrium distributions and every number of links, the density of end-to-end vectors is nonnegative and integrates to one over space, the radial density equals 4 pi r^2 times it and integrates to one over the reachable lengths, and dimensional and nondimensional densities differ by exactly the contour-length factor. The ratio of the density at two lengths equals the Boltzmann factor of the difference in isometric Helmholtz free energy.",
 ["inputs"], DOM + ", end-to-end lengths from near zero to full extension", "Tests integrate the distributions for one random chain each; normalisations are computed per object from numerical quadrature and handed through constructors.",
 [SC + "/**/isometric/**/mod.rs"], [("normalization_nondimensional_equilibrium_distribution", SC + "/**/isometric/**/mod.rs")])

prop("C11", "The exact freely jointed chain matches the exact sphere-convolution result",
 "For every number of links for which the freely jointed chain isometric functions are evaluated, the equilibrium distribution, Helmholtz free energy and force equal those of the exact distribution of a sum of independent unit vectors, at every end-to-end length between zero and full extension including the lengths where the piecewise polynomial changes form.",
 ["inputs"], "numbers of links 3-26 (beyond which the implementation overflows, recorded as a known finding), all end-to-end lengths", "Tests compare the functions with each other (derivatives, Legendre limits), never with an independent exact distribution.",
 [SC + "/fjc/thermodynamics/mod.rs", SC + "/fjc/thermodynamics/isometric/mod.rs"], [("treloar_sums", SC + "/fjc/thermodynamics/mod.rs")])

prop("C12", "Isotensional exact models equal their statistical-mechanical partition functions",
 "For the ideal, freely jointed, extensible (EFJC), square-well and arbitrary-potential (Morse, log-squared, Lennard-Jones) freely jointed chains, the isotensional Gibbs free energy (absolute, including the documented momentum and reference terms, and relative) and end-to-end length equal those computed directly from the single-link partition function of the model's link potential. This holds for soft and stiff links and small and large forces, up to link rupture where the potential has one.",
 ["inputs"], DOM, SAMPLED + "and compare approximations only in the stiff limit; the partition function itself is never evaluated independently.",
 [SC + "/efjc/thermodynamics/isotensional/mod.rs", SC + "/swfjc/thermodynamics/isotensional/mod.rs", SC + "/ufjc/*/thermodynamics/isotensional/mod.rs", SC + "/fjc/thermodynamics/isotensional/mod.rs", SC + "/ideal/thermodynamics/isotensional/mod.rs"], [("closed forms with error functions and numerical quadrature", SC + "/**/isotensional/mod.rs")])

prop("C13", "Asymptotic approximations have their documented form and converge when stiff",
 "Every asymptotic, reduced-asymptotic and alternative-asymptotic approximation of an extensible model equals its documented closed form (freely jointed response plus link stretching from the link potential plus, for the full form, the stiffness correction), in isotensional and isometric ensembles. Its error against the exact isotensional model vanishes as link stiffness grows, the full form's error vanishing faster than the reduced form's.",
 ["inputs"], DOM + "; stiffness from 20 to 1e5", "Tests check one residual ratio at two stiffness values for one chain.",
 [SC + "/*/thermodynamics/isotensional/asymptotic/**/mod.rs", SC + "/ufjc/*/thermodynamics/isotensional/asymptotic/**/mod.rs", SC + "/**/isometric/asymptotic/**/mod.rs"], [("asymptotic modules", SC + "/**/asymptotic/**/mod.rs")])

prop("C14", "Models reduce to one another in their common limits",
 "The extensible freely jointed chain becomes the freely jointed chain as link stiffness grows, the square-well chain becomes the freely jointed chain as the well width vanishes, each arbitrary-potential chain becomes the extensible one with the same stiffness for stiff links, the freely jointed chain becomes the ideal chain at small load, and every response is linear at small load with the model's zero-load compliance. These limits hold for end-to-end lengths, forces, relative free energies and, where defined, distributions.",
 ["inputs"], DOM, "Tests visit one limiting value for one chain per pair, if at all.",
 [SC + "/**/mod.rs"], [("independent implementations of related models", SC + "/**/mod.rs")])

prop("C15", "Ensembles and approximations agree in the long-chain and potential limits",
 "The exact freely jointed isometric response differs from its Legendre approximation by an amount that decreases like the inverse of the number of links, the modified canonical response approaches the isometric one for strong potentials and the isotensional one for weak distant potentials, and its strong- and weak-potential asymptotic forms approach the exact modified canonical response in the respective limits.",
 ["inputs"], DOM + "; numbers of links up to 26 for the exact form, potential stiffness over ten decades", "Tests compare one residual ratio for one chain.",
 [SC + "/fjc/thermodynamics/modified_canonical/**/mod.rs", SC + "/fjc/thermodynamics/isometric/**/mod.rs"], [("asymptotic expansions of the modified canonical partition function", SC + "/fjc/thermodynamics/modified_canonical/asymptotic/**/mod.rs")])

prop("C16", "The modified canonical ensemble equals its defining integral",
 "For the freely jointed chain under a harmonic potential, the modified canonical Helmholtz and Gibbs free energies, force and end-to-end length equal those obtained by integrating the exact end-to-end distribution against the potential's Boltzmann factor, and satisfy force = stiffness times (potential distance minus end-to-end length) with the dimensional factors documented. The Gibbs and Helmholtz free energies differ by the energy of the potential at its distance.",
 ["inputs"], "numbers of links 3-26, potential distances 0-3 contour lengths, nondimensional potential stiffness over several decades", SAMPLED + "and never compare with an independent integral.",
 [SC + "/fjc/thermodynamics/modified_canonical/mod.rs"], [("numerical quadrature of the exact distribution", SC + "/fjc/thermodynamics/modified_canonical/mod.rs")])

prop("C17", "Responses are monotone, bounded, odd/even as physics requires, and stable",
 "In every stable ensemble and approximation, end-to-end length strictly increases with force (and force with end-to-end length), has the sign of the load, never exceeds the contour length for inextensible links, and stays above the inextensible response for extensible links; relative Gibbs energy is negative and concave in force and relative Helmholtz energy positive and increasing in load. Nothing in this depends on absolute scale: the same holds at every temperature, link length and number of links.",
 ["inputs"], DOM + ", ordered pairs of loads", "Tests evaluate isolated points; order relations between pairs over the whole load range are not checked.",
 [SC + "/**/mod.rs"], [("all response functions", SC + "/**/mod.rs")])

prop("C18", "Special functions are accurate over their whole domain",
 "The public special functions (inverse Langevin, Lambert W, modified Bessel functions of order 0 and 1 for either sign of the argument, error function, complementary and scaled complementary error function) agree with independent evaluations to the accuracy the library relies on, at every argument in their domain including table-interval and branch edges, and are continuous and monotone where the mathematical function is.",
 ["inputs"], "arguments over the full domain: table of 100 polynomial pieces, branch points, tiny, huge and negative arguments", "The tests evaluate each function at a handful of points and never at negative Bessel arguments or at most of the 100 table intervals.",
 ["src/math/mod.rs"], [("piecewise polynomial tables and branches", "src/math/mod.rs")])

prop("C19", "Quadrature rules and root finders meet their contracts for arbitrary functions",
 "Every numerical integrator approximates the integral of any smooth integrand over any box with second-order convergence in the number of points (exact for integrands linear in each variable), with grid and non-grid forms identical on the midpoint grid and symmetric and general forms identical on a square. The Newton inverse solvers return a root of f(x) = y to the requested tolerance for well-conditioned monotone functions.",
 ["inputs"], "random integrands, intervals (reversed, shifted, asymmetric in x and y), numbers of points 1-300; random monotone functions and targets", "Unit tests use constant or single integrands on fixed intervals.",
 ["src/math/mod.rs"], [("integrate_* and inverse_newton_raphson*", "src/math/mod.rs")])

prop("C20", "Every sampled Monte Carlo configuration obeys its chain's geometry",
 "Each random configuration of the freely jointed chain consists of unit links, of the freely rotating chain unit links with exactly the prescribed angle between consecutive links, of the extensible variants links whose lengths follow the prescribed normal law (and prescribed angles), with coordinates the cumulative sums of the links, so the end-to-end length never exceeds the geometric maximum; the reported end-to-end length is the distance of the last hinge from the origin. The cross product used to build them is the exact vector product.",
 ["inputs", "schedules"], "all samples, angles 0-pi, stiffnesses, several chain lengths", "The tests run one histogram per model and assert nothing about individual configurations.",
 [SC + "/*/thermodynamics/isometric/monte_carlo/mod.rs"], [("random_configuration", SC + "/*/thermodynamics/isometric/monte_carlo/mod.rs")])

prop("C21", "Monte Carlo histograms are normalised densities of the right distribution",
 "The Monte Carlo radial distributions return bin centres that are the midpoints of equal bins from zero to the maximum extension and bin values that are nonnegative and sum, times bin width, to the fraction of samples binned (one); they converge to the model's exact radial distribution and moments, with isotropic, independent link directions.",
 ["inputs", "schedules"], "bin counts, sample counts, chain lengths, angles, stiffnesses; random streams", "The tests only check that the call completes or one coarse comparison for one chain.",
 [SC + "/*/thermodynamics/isometric/monte_carlo/mod.rs"], [("nondimensional_equilibrium_radial_distribution", SC + "/*/thermodynamics/isometric/monte_carlo/mod.rs")])

prop("C22", "Evaluation is pure: results do not depend on call history or other instances",
 "Evaluating any function of any model object any number of times, in any order, interleaved with any other calls on this or other objects, in any thread, returns the identical value; constructing, dropping or evaluating other objects never changes it. Two objects initialised with the same parameters are indistinguishable.",
 ["histories", "schedules", "inputs"], "random histories of construct/evaluate/drop operations over all models, on one and several threads", "Tests call each function once per object.",
 [SC + "/**/mod.rs", "src/math/mod.rs", "src/constitutive/**/mod.rs"], [("absence of shared or cached state", "src/**/mod.rs")])

prop("C23", "Every function is total on its documented domain",
 "For every admissible chain and load, every function of every model returns a finite value (densities and lengths also nonnegative) without panicking, overflowing or failing to converge, from very small loads to loads near full extension or link rupture.",
 ["inputs"], DOM + " (limits beyond which the present implementation overflows, such as freely jointed isometric sums of more than 34 links, are known findings)", SAMPLED + "so overflow, cancellation and solver divergence outside that window are never seen.",
 ["src/math/mod.rs", SC + "/**/mod.rs"], [("hyperbolic functions, factorial sums, iterative solvers", "src/math/mod.rs, " + SC + "/**/mod.rs")])

prop("C24", "Isotensional and isometric ensembles are Laplace transforms of one another",
 "For the ideal, freely jointed and worm-like chains, the isotensional partition function obtained by integrating the isometric Boltzmann factor against the work of the force gives exactly the library's isotensional relative Gibbs free energy and end-to-end length, for every finite number of links.",
 ["inputs"], "numbers of links (3-26 for the freely jointed chain), forces from the linear to the strongly stretched regime", "No test relates the exact ensembles of a finite chain to one another except in the long-chain limit.",
 [SC + "/ideal/thermodynamics/**/mod.rs", SC + "/fjc/thermodynamics/**/mod.rs", SC + "/wlc/thermodynamics/**/mod.rs"], [("separately implemented ensembles", SC + "/**/thermodynamics/**/mod.rs")])

prop("C25", "The hyperelastic model is stress free at rest, monotone and frame consistent",
 "The Buche-Silberstein hyperelastic model gives zero stress at unit stretch (up to the resolution of its integration grid), tension positive above and negative below it, increasing with stretch, equals the stress obtained by integrating the chain force over the deformed equilibrium chain distribution, and relates equibiaxial to uniaxial tension by incompressibility (equibiaxial stress at stretch s is minus the uniaxial stress at s^-2). For many links its small-strain modulus approaches that of an incompressible Gaussian network (3 in uniaxial, 6 in equibiaxial tension, in units of nkT), and method, number of links and stiffness act as documented, in the Rust and the C interface alike.",
 ["inputs"], "methods 2 and 3, stiffness 10-1000, numbers of links 2-100, stretches 0.3-6", "There are no Rust unit tests of the constitutive models.",
 ["src/constitutive/hyperelastic/buche_silberstein/mod.rs", "src/constitutive/hyperelastic/buche_silberstein/ex.rs"], [("element, grid, normalization precomputation", "src/constitutive/hyperelastic/buche_silberstein/mod.rs")])

prop("C26", "Damage depends on history only through the largest past stretch, irreversibly",
 "In the hyperelastic damage model the response to any stretch history depends, at each step, only on the current stretch and the largest stretch reached so far (including the current one); the surviving-chain probability never increases along a history of growing maximum stretch, reloading below the previous maximum retraces the unloading curve, and without exceeded critical extension there is no damage. Stress and surviving probability equal the integrals over the surviving chains, swelling included, and without damage or swelling the stress is that of the hyperelastic model. Extending, splitting or padding the history with smaller stretches never changes responses at other steps.",
 ["histories", "inputs"], "random stretch histories with loading, unloading and reloading, methods 2 and 3, stiffness, numbers of links, critical extensions, swelling ratios", "There are no Rust unit tests of the constitutive models.",
 ["src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs"], [("maximum_previous_stretch tracking and the survival indicator", "src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs")],
 state=[dict(name="maximum_previous_stretch", meaning="largest stretch so far in the history", where="src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs")])

prop("C27", "The worm-like chain follows its interpolated radial distribution in both regimes",
 "The worm-like chain's isometric Helmholtz free energy, force and distributions equal those of the published interpolated end-to-end distribution for every persistence length, flexible or stiff, on both sides of the regime switch, and its Legendre approximations are consistent with them; flexible chains approach the Gaussian response with mean square length 2 l_p L - 2 l_p^2 (1 - exp(-L/l_p)).",
 ["inputs"], "nondimensional persistence lengths 0.01-10, all extensions, numbers of links", "Tests use persistence lengths around 2.5 nm with 5-25 unit links only, and relate functions only to each other.",
 [SC + "/wlc/thermodynamics/**/mod.rs", "src/math/mod.rs"], [("interpolation formula, Bessel functions", SC + "/wlc/thermodynamics/isometric/mod.rs")])

prop("C28", "Absolute free energies carry exactly the momentum contribution of each hinge",
 "Multiplying hinge mass by c shifts the nondimensional isotensional Gibbs free energy per link by -ln c and the isometric Helmholtz free energy of a chain by -(N-1) ln c (-N ln c for the ideal chain), and changes neither force, length, relative energy nor distribution; temperature and link length enter the absolute energies only through the same thermal wavelength term and the documented link-potential reference. The absolute constants equal those given by the Boltzmann and Planck constants.",
 ["inputs"], DOM, "Absolute free energies are tested only against each other at one hinge mass.",
 [SC + "/**/mod.rs", "src/physics/mod.rs"], [("PLANCK_CONSTANT and BOLTZMANN_CONSTANT terms", SC + "/**/mod.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
