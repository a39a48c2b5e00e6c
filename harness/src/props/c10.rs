//! C10 equilibrium distributions; C11 the exact freely jointed chain.
use super::c06::integral;
use super::Prop;
use crate::fw::*;
use crate::mods::*;
use crate::models::*;
use crate::num::*;
use crate::params::P;
use crate::reg::{entry, m};
use crate::registry::make;
use std::f64::consts::PI;

fn with_g(p: &P, g: f64) -> P {
    let mut q = p.clone();
    q.set_gamma(g);
    q
}
/// largest reachable nondimensional length of a module's distribution (for the ideal chain: where it has vanished)
fn reach(m: M, p: &P) -> f64 {
    match m {
        Sw => varsigma(p),
        Ideal => 10.0 / p.n().sqrt(),
        _ => 1.0,
    }
}
/// independent unnormalised 3D densities
fn shape(path: &str, p: &P, g: f64) -> f64 {
    match path {
        "fjc/thermodynamics/isometric" => fjc_density(p.nl as usize, g).0,
        "ideal/thermodynamics/isometric" => (-1.5 * p.n() * g * g).exp(),
        "wlc/thermodynamics/isometric" => super::c16::wlc_lnq(p.nlp, g).exp(),
        "fjc/thermodynamics/isometric/legendre" => {
            let e = inv_langevin(g);
            (p.n() * (lnshc(e) - e * g)).exp()
        }
        _ => {
            let s = varsigma(p);
            let e = sw_force(p, g);
            let _ = s;
            (p.n() * (-exact_link(Sw, p, e).0 - e * g - ((s.powi(3) - 1.0) / 3.0).ln())).exp()
        }
    }
}
/// force of the square-well chain at a length, by bisection of its own response
pub fn sw_force(p: &P, g: f64) -> f64 {
    let s = varsigma(p);
    // mean extension in closed form, stable for large forces: Z = [x ch x - sh x]_{e}^{s e} / e^3
    let ext = |e: f64| -> f64 {
        if e < 0.5 {
            return exact_link(Sw, p, e).1;
        }
        // scaled by exp(s e)
        let d = (-(s - 1.0) * e).exp();
        let (c1, s1) = (0.5 * (1.0 + (-2.0 * s * e).exp()), 0.5 * (1.0 - (-2.0 * s * e).exp()));
        let (c0, s0) = (0.5 * d * (1.0 + (-2.0 * e).exp()), 0.5 * d * (1.0 - (-2.0 * e).exp()));
        let z = s * e * c1 - s1 - e * c0 + s0;
        let dz = s * s * e * s1 - e * s0;
        dz / z - 3.0 / e
    };
    let mut hi = 1.0;
    while ext(hi) < g && hi < 1e9 {
        hi *= 2.0;
    }
    let mut lo = if hi > 1.0 { hi / 2.0 } else { 0.0 };
    for _ in 0..60 {
        let m = 0.5 * (lo + hi);
        if ext(m) < g {
            lo = m
        } else {
            hi = m
        }
    }
    0.5 * (lo + hi)
}

/// long square-well chains: the unnormalised density is a power of N that leaves the range of f64 (known finding)
pub fn sw_density_in_range(p: &P) -> bool {
    (p.n() * ((varsigma(p).powi(3) - 1.0) / 3.0).ln()).abs() < 500.0
}

pub fn c10(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods().into_iter().filter(|d| entry(d.path, "equilibrium_distribution").is_some()) {
        let (pd, rd) = (m(d.path, "equilibrium_distribution"), m(d.path, "equilibrium_radial_distribution"));
        let (pn, rn) = (m(d.path, "nondimensional_equilibrium_distribution"), m(d.path, "nondimensional_equilibrium_radial_distribution"));
        let hp = if d.path == "fjc/thermodynamics/isometric/legendre" { d.path } else { d.path };
        let an = m(hp, "nondimensional_helmholtz_free_energy");
        let ad = m(hp, "helmholtz_free_energy");
        let rel = [m(hp, "nondimensional_relative_helmholtz_free_energy"), m(hp, "relative_helmholtz_free_energy")];
        let nl = || match d.m {
            // long square-well chains: the density is a power of N that leaves the range of f64 (known finding)
            Sw => Mix(vec![Int(2, 30), Int(2, 100)]),
            _ if d.path == "fjc/thermodynamics/isometric/legendre" => nl_exact(), // its Gibbs energies use the exact sums
            _ => d.nl(),
        };
        let admissible = move |p: &P| d.m != Sw || sw_density_in_range(p);
        let mut dims = chain_dims(d.m, nl());
        dims.push(dim("length_1", Mix(vec![Lin(0.005, 0.995), Log(1e-3, 0.9)])));
        dims.push(dim("length_2", Lin(0.02, 0.98)));
        let dd = d.clone();
        jobs.push(job(format!("{} pointwise", d.path), ctx.n(3000), dims, move |v| {
            let p0 = chain(dd.m, v);
            if !admissible(&p0) {
                return Out::Skip;
            }
            let top = if dd.m == Ideal { 2.0 } else { reach(dd.m, &p0) };
            let (p1, p2) = (with_g(&p0, v[NCH] * top), with_g(&p0, v[NCH + 1] * top));
            let mut c = C::new();
            let cl = p0.contour();
            for q in [&p1, &p2] {
                let (a, b, x, y) = (pn(q), rn(q), pd(q), rd(q));
                c.yes(&format!("nonnegative and finite densities at {}: {a} {b} {x} {y}", q.g), [a, b, x, y].iter().all(|z| z.is_finite() && *z >= -1e-9 * pn(&p2).abs()));
                let j = 20.0 * jitter(pn, q);
                c.near("radial density against 4 pi g^2 times the density", b, 4.0 * PI * q.g * q.g * a, 1e-11 * b.abs() + 4.0 * PI * q.g * q.g * j + 1e-300);
                c.near("dimensional density times contour length cubed", x * cl.powi(3), a, 1e-11 * a.abs() + j + 1e-300);
                c.near("dimensional radial density times contour length", y * cl, b, 1e-11 * b.abs() + 4.0 * PI * q.g * q.g * j + 1e-300);
            }
            // Boltzmann factor of the Helmholtz free energy
            let (a, b) = (pn(&p1), pn(&p2));
            if a > 1e-250 && b > 1e-250 {
                let want = (a / b).ln();
                let j = 20.0 * (jitter(pn, &p1) / a + jitter(pn, &p2) / b);
                for (f, u) in [(an, 1.0), (ad, p0.kt()), (rel[0], 1.0), (rel[1], p0.kt())] {
                    let got = -(f(&p1) - f(&p2)) / u;
                    let mut jj = 20.0 * (jitter(f, &p1) + jitter(f, &p2)) / u;
                    if dd.m == Sw {
                        jj += 40.0 * p0.n() * (sw_noise(&p1, sw_force(&p1, p1.g)) + sw_noise(&p2, sw_force(&p2, p2.g)));
                    }
                    c.near("ln of the density ratio against the difference in Helmholtz free energy", got, want, 1e-10 * (1.0 + want.abs()) + j + jj + 1e-13 * f(&p1).abs() / u);
                }
            }
            c.done(if p1.g < 0.1 { "short" } else if p1.g < 0.9 { "medium" } else { "long" })
        }));
        let dims = chain_dims(d.m, nl());
        let dd = d.clone();
                jobs.push(job(format!("{} normalised", d.path), ctx.n(if dd.path == "fjc/thermodynamics/isometric" { 800 } else if dd.m == Sw { 400 } else { 2000 }), dims, move |v| {
            let mut p = chain(dd.m, v);
            p.set_gamma(0.5);
            if !admissible(&p) || (dd.m == Wlc && (p.nlp - 0.125).abs() < 1e-9) {
                return Out::Skip;
            }
            // the densities from inverted forces are available up to forces of 600 (see known findings)
            let full = reach(dd.m, &p);
            let top = if dd.m == Sw { exact_link(Sw, &p, 600.0 / varsigma(&p)).1 } else if dd.path == "fjc/thermodynamics/isometric/legendre" { langevin(600.0) } else { full };
            let knots = if dd.path == "fjc/thermodynamics/isometric" { p.nl as usize } else { 0 };
            let int = |f: &dyn Fn(f64) -> f64| -> f64 {
                if knots > 0 {
                    return integral(f, 1e-9, 1.0, knots);
                }
                // panels graded towards both ends
                let mut cuts: Vec<f64> = (1..10).map(|i| i as f64 / 10.0).collect();
                cuts.extend([0.0, 0.02, 0.05, 0.95, 0.975, 0.99, 0.995, 0.998, 0.9995, 1.0, 0.15, 0.25]);
                cuts.sort_by(|x, y| x.partial_cmp(y).unwrap());
                cuts.windows(2).map(|w| quad(f, (w[0] * top).max(1e-9), (w[1] * top).min(top * (1.0 - 1e-9)), 1)).sum()
            };
            // the normalisation is a 64-point midpoint sum in all but the closed forms: its own error, from the reference
            let mut tol = 1e-6;
            let closed = matches!(dd.path, "fjc/thermodynamics/isometric" | "ideal/thermodynamics/isometric");
            if !closed {
                let w = |g: f64| g * g * shape(dd.path, &p, g);
                let inner = int(&w);
                let ex = inner + if top < full { quad(&w, top, full * (1.0 - 1e-9), 4) } else { 0.0 };
                let mid: f64 = (0..64).map(|i| w(1e-6 + (i as f64 + 0.5) / 64.0 * (full - 1e-6))).sum::<f64>() * (full - 1e-6) / 64.0;
                tol += 2.0 * (mid / ex - 1.0).abs() + (1.0 - inner / ex).abs();
                if tol > 0.1 {
                    return Out::Skip;
                }
            }
            let mut c = C::new();
            let at = |g: f64| with_g(&p, g);
            // one object per chain: its construction integrates the density
            let o = make(dd.path, &p);
            let on = |f: &str| {
                let e = entry(dd.path, f).unwrap().on.unwrap();
                let o = &o;
                move |q: &P| e(o, q)
            };
            let (pd, rd) = (on("equilibrium_distribution"), on("equilibrium_radial_distribution"));
            let (pn, rn) = (on("nondimensional_equilibrium_distribution"), on("nondimensional_equilibrium_radial_distribution"));
            c.near("integral of the nondimensional radial density", int(&|g| rn(&at(g))), 1.0, tol);
            c.near("integral of the nondimensional density over space", int(&|g| 4.0 * PI * g * g * pn(&at(g))), 1.0, tol);
            c.near("integral of the radial density", int(&|g| rd(&at(g))) * p.contour(), 1.0, tol);
            c.near("integral of the density over space", int(&|g| 4.0 * PI * (g * p.contour()).powi(2) * pd(&at(g))) * p.contour(), 1.0, tol);
            if closed {
                c.near("mean square length times the number of links", p.n() * int(&|g| g * g * rn(&at(g))), 1.0, 1e-6);
            }
            c.done(if p.nl < 6 { "few links" } else if p.nl < 30 { "medium" } else { "many links" })
        }));
    }
    Prop { jobs, rule: "a chain (and two lengths) drawn at random inside the domain; the densities are compared with each other, with the Helmholtz energies, and integrated" }
}

pub fn c11(ctx: &Ctx) -> Prop {
    let path = "fjc/thermodynamics/isometric";
    let leg = "fjc/thermodynamics/isometric/legendre";
    let mut jobs = vec![];
    let (pd, rd) = (m(path, "equilibrium_distribution"), m(path, "equilibrium_radial_distribution"));
    let (pn, rn) = (m(path, "nondimensional_equilibrium_distribution"), m(path, "nondimensional_equilibrium_radial_distribution"));
    let (an, al, ad, adl) = (
        m(path, "nondimensional_helmholtz_free_energy"), m(path, "nondimensional_helmholtz_free_energy_per_link"),
        m(path, "helmholtz_free_energy"), m(path, "helmholtz_free_energy_per_link"),
    );
    let (rn0, rl, rdd, rdl) = (
        m(path, "nondimensional_relative_helmholtz_free_energy"), m(path, "nondimensional_relative_helmholtz_free_energy_per_link"),
        m(path, "relative_helmholtz_free_energy"), m(path, "relative_helmholtz_free_energy_per_link"),
    );
    let (fnd, fd) = (m(path, "nondimensional_force"), m(path, "force"));
    let gl = m(leg, "nondimensional_gibbs_free_energy_per_link");
    let grl = m(leg, "nondimensional_relative_gibbs_free_energy");
    let check = move |p: &P, knot: bool| -> Out {
        let n = p.nl as usize;
        let (q, dl) = fjc_density(n, p.g);
        if !(q > 0.0) {
            return Out::Skip;
        }
        let mut c = C::new();
        let cl = p.contour();
        let j = 20.0 * jitter(pn, p) + 1e-14 / p.g;
        let tp = 1e-9 * q + j;
        c.near("density", pn(p), q, tp);
        let r = 4.0 * PI * p.g * p.g;
        c.near("radial density", rn(p), r * q, r * tp);
        c.near("dimensional density (times contour length cubed)", pd(p) * cl.powi(3), q, tp);
        c.near("dimensional radial density (times contour length)", rd(p) * cl, r * q, r * tp);
        let a = -(q / cl.powi(3)).ln() - (p.n() - 1.0) * p.lam();
        let ta = 1e-9 + j / q + 1e-12 * a.abs();
        for (f, u, name) in [(an, 1.0, "nondimensional"), (al, 1.0 / p.n(), "nondimensional per link"), (ad, p.kt(), "dimensional"), (adl, p.kt() / p.n(), "dimensional per link")] {
            c.near(&format!("{name} Helmholtz free energy (whole chain, kT)"), f(p) / u, a, ta);
        }
        let q0 = fjc_density(n, 1e-6).0;
        let ra = -(q / q0).ln();
        let z = { let mut z = p.clone(); z.set_gamma(1e-6); z };
        let tr = ta + 20.0 * jitter(pn, &z) / q0 + 1e-14 / 1e-6;
        for (f, u, name) in [(rn0, 1.0, "nondimensional"), (rl, 1.0 / p.n(), "nondimensional per link"), (rdd, p.kt(), "dimensional"), (rdl, p.kt() / p.n(), "dimensional per link")] {
            if n > 2 {
                c.near(&format!("{name} relative Helmholtz free energy (whole chain, kT)"), f(p) / u, ra, tr);
            }
        }
        if !knot {
            let f = -dl / p.n();
            let tf = 1e-9 * (1.0 + f.abs()) + 20.0 * jitter(fnd, p) + 1e-13 / p.g;
            c.near("nondimensional force", fnd(p), f, tf);
            c.near("dimensional force (in kT/l)", fd(p) * p.ll / p.kt(), f, tf);
            // the Legendre transforms back to Gibbs energies are built from the same exact functions
            c.near("Legendre Gibbs free energy (whole chain, kT)", gl(p) * p.n(), a - p.n() * f * p.g, ta + p.n() * p.g * tf);
            let z = with_g(p, 1e-6);
            let wz = fnd(&z) * 1e-6 * p.n();
            if n > 2 {
                c.near("relative Legendre Gibbs free energy (whole chain, kT)", grl(p), ra - p.n() * f * p.g + wz, tr + p.n() * p.g * tf);
            }
        }
        c.done(if knot { "at or next to a knot" } else if p.g < 0.1 { "short" } else if p.g < 0.9 { "medium" } else { "long" })
    };
    let near_knot = |n: f64, g: f64, e: f64| { let x = n * (1.0 + g) / 2.0; (x - x.round()).abs() < e };
    // anywhere between zero and full extension
    let mut dims = chain_dims(Fjc, nl_exact());
    dims.push(dim("length", Mix(vec![Lin(0.002, 0.999), Log(1e-5, 0.99), Lin(0.9, 0.9999)])));
    jobs.push(job("all lengths", ctx.n(20000), dims, move |v| {
        let p = with_g(&chain(Fjc, v), v[NCH]);
        // the second derivative of the density of three links is a step at the knots
        if p.nl <= 3 && near_knot(p.n(), p.g, 1e-9) {
            return Out::Skip;
        }
        check(&p, false)
    }));
    // at and around the lengths where the polynomial changes form
    let mut dims = chain_dims(Fjc, nl_exact());
    dims.push(dim("knot", Lin(0.0, 1.0)));
    dims.push(dim("offset", Mix(vec![Pick(vec![0.0]), Log(1e-14, 1e-2)])));
    dims.push(dim("side", Pick(vec![1.0, -1.0])));
    jobs.push(job("knots", ctx.n(12000), dims, move |v| {
        let p = chain(Fjc, v);
        let n = p.nl as i64;
        let ks: Vec<f64> = (0..=n).map(|k| (2 * k - n) as f64 / n as f64).filter(|g| *g > 0.0 && *g < 1.0).collect();
        if ks.is_empty() {
            return Out::Skip;
        }
        let g = ks[((v[NCH] * ks.len() as f64) as usize).min(ks.len() - 1)] + v[NCH + 1] * v[NCH + 2];
        if g >= 1.0 {
            return Out::Skip;
        }
        let p = with_g(&p, g);
        let step = p.nl <= 3 && v[NCH + 1] < 1e-9; // the force jumps there
        check(&p, step || (p.nl == 4 && v[NCH + 1] == 0.0))
    }));
    Prop { jobs, rule: "a chain of 3 to 26 links and a length, uniform, logarithmic, next to full extension, or at and around a knot of the piecewise polynomial; all functions compared with the B-spline reference" }
}
