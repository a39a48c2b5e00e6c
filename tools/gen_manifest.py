"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "generated chains and loads (proptest, with shrinking) over every module: "
T = {
    "C01": (G + "free function, method and C symbol compared", "differential between three call forms of 554 functions; a defect shared by all three is for the other properties"),
    "C02": ("hypothesis-generated arrays and chains through the built Python extension, compared with the core served by the Rust harness", "every method of every class by introspection; trusts pyo3 and NumPy"),
    "C03": (G + "dimensional against nondimensional forms, and rescaled chains", "metamorphic; tolerance is the measured rounding noise of each function"),
    "C04": (G + "whole chain against per-link forms", "metamorphic; tolerance is the measured rounding noise"),
    "C05": (G + "relative energies against differences of absolute ones", "metamorphic; tolerance is the measured rounding noise at zero load"),
    "C06": (G + "free-energy differences against the integral of the force", "fundamental theorem of calculus between random pairs of lengths, adaptive quadrature of the library's own force"),
    "C07": (G + "free-energy differences against the integral of the length", "as C06, isotensional and modified canonical; one known finding for the WLC"),
    "C08": (G + "Legendre modules against their parents' energies and loads, and both Legendre branches against each other", "metamorphic identity with measured rounding noise"),
    "C09": (G + "round trips force to length to force and back, and continuity across solver switches", "round trip within the solvers' documented tolerance"),
    "C10": (G + "distributions integrated, compared with each other and with free energies", "quadrature of the library's densities"),
    "C11": ("generated lengths, including knots, against an exact B-spline reference model", "independent reference in double-double arithmetic for 3 to 26 links"),
    "C12": (G + "Gibbs energies and lengths against the link partition function", "independent adaptive quadrature of the single-link partition function"),
    "C13": (G + "documented closed forms, and decay of the error with stiffness", "closed forms re-derived from the documentation; rate test between two stiffnesses"),
    "C14": (G + "pairs of models near their common limits", "metamorphic with a first-order bound of the distance from the limit"),
    "C15": (G + "one chain in two ensembles at one or two distances from the limit", "metamorphic with asymptotic error bounds"),
    "C16": ("generated chains and potentials against quadrature of the exact distribution", "independent reference within the library's stated quadrature"),
    "C17": (G + "ordering, sign, bounds, curvature and parity of responses", "invariants on pairs and triples of loads"),
    "C18": ("generated arguments against independent evaluations, continuity and monotonicity", "integral representations, defining equations and series in higher precision"),
    "C19": ("random integrands, boxes and monotone functions against antiderivatives and roots", "rigorous midpoint bound for the integrators; exact for linear integrands"),
    "C20": ("generated random streams; every sampled configuration checked against the chain's geometry", "deterministic randomness injected below the library's generator; per-configuration invariants and distribution tests of link lengths"),
    "C21": ("generated random streams; histograms and moments tested against exact laws", "statistical, false-alarm probability below 1e-12 per comparison; fixed by the seed"),
    "C22": ("model-based random histories of construct, evaluate and drop on one and several threads", "every value bit for bit equal to its first evaluation; schedules are those the operating system gives"),
    "C23": (G + "totality: finite, non-negative where it must be, no panic, with overflow checks on", "runs with debug assertions and overflow checks; limits of the present code are listed known findings"),
    "C24": ("generated chains and forces; the library's isometric distribution transformed by quadrature into its isotensional ensemble", "differential between separately implemented ensembles"),
    "C25": ("generated networks and stretches against an independent polar quadrature, and frame relations", "reference within the discretisation error of the library's grid"),
    "C26": ("random stretch histories against a stateless model of (current, largest) and an independent integral", "model-based; discretisation error of the library's grid is allowed for"),
    "C27": ("generated worm-like chains against an independent evaluation of the published distribution", "differential against a reference model on both sides of the regime switch"),
    "C28": (G + "hinge mass, link length and temperature rescaled", "metamorphic count of momentum factors; the Planck constant is a known finding"),
}
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} --thorough",
        "technique": "property-based testing: " + T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1],
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks: the checks use /repo's public items, C symbols and Python extension. See DESIGN.md.",
}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
