//! C12 isotensional partition functions; C13 asymptotic forms and their convergence.
use super::Prop;
use crate::fw::*;
use crate::mods::*;
use crate::models::*;
use crate::num::*;
use crate::params::P;
use crate::reg::m;
use std::f64::consts::PI;

pub const G8: [&str; 8] = [
    "nondimensional_X_free_energy", "nondimensional_X_free_energy_per_link", "X_free_energy", "X_free_energy_per_link",
    "nondimensional_relative_X_free_energy", "nondimensional_relative_X_free_energy_per_link", "relative_X_free_energy", "relative_X_free_energy_per_link",
];
pub const X4: [&str; 4] = ["nondimensional_end_to_end_length", "nondimensional_end_to_end_length_per_link", "end_to_end_length", "end_to_end_length_per_link"];

/// the library's 64-midpoint rule applied to the reference integrand of an arbitrary-potential link
pub fn mid_link(mo: M, p: &P, eta: f64) -> (f64, f64) {
    let hi = lam_max(mo, p);
    let h = (hi - 1e-6) / 64.0;
    let pts: Vec<f64> = (0..64).map(|i| 1e-6 + (i as f64 + 0.5) * h).collect();
    let lw = |l: f64| lnshc(eta * l) + 2.0 * l.ln() - u(mo, p, l);
    let r = pts.iter().map(|&l| lw(l)).fold(f64::NEG_INFINITY, f64::max);
    let z: f64 = pts.iter().map(|&l| (lw(l) - r).exp()).sum();
    let n: f64 = pts.iter().map(|&l| (lw(l) - r).exp() * l * langevin(eta * l)).sum();
    (-((z * h).ln() + r) - 2f64.ln(), n / z)
}
fn compare(d: &Md, p: &P, c: &mut C, reference: &dyn Fn(f64) -> (f64, f64), floor_g: f64, floor_x: f64, floor_g0: f64, g8: &[fn(&P) -> f64], x4: &[fn(&P) -> f64]) {
    let n = p.n();
    let (g, x) = reference(p.nf);
    let (g0, _) = reference(1e-6);
    for i in 0..8 {
        let name = G8[i].replace('X', "gibbs");
        let u = if i % 4 >= 2 { p.kt() } else { 1.0 } * if i % 2 == 0 { n } else { 1.0 };
        let want = if i < 4 { g - p.lam() } else { g - g0 };
        let tol = 1e-11 * (1.0 + want.abs() + p.nf.min(1.0)) + floor_g + if i >= 4 { floor_g0 } else { 0.0 } + 20.0 * d.noise(&name, p) / u;
        c.near(&format!("{name} (per link and kT)"), g8[i](p) / u, want, tol);
    }
    for i in 0..4 {
        let u = if i >= 2 { p.ll } else { 1.0 } * if i % 2 == 0 { n } else { 1.0 };
        c.near(&format!("{} (per link and l)", X4[i]), x4[i](p) / u, x, 1e-10 * x.abs() + 1e-15 + floor_x + 20.0 * jitter(x4[i], p) / u);
    }
}

pub fn c12(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for &(mo, k) in ISOT.iter().filter(|(mo, k)| *k == Exact && *mo != Wlc) {
        let _ = k;
        let d = md(Box::leak(isot(mo, Exact).into_boxed_str()));
        let g8: Vec<_> = G8.iter().map(|f| m(d.path, &f.replace('X', "gibbs"))).collect();
        let x4: Vec<_> = X4.iter().map(|f| m(d.path, f)).collect();
        let mut dims = d.dims_far();
        match mo {
            Efjc => dims[4] = dim("link_stiffness_nondim", Mix(vec![Log(2.0, 100.0), Log(50.0, 1e5)])),
            Morse | LogSq | Lj => dims[4] = dim("link_stiffness_nondim", Log(10.0, 2e3)),
            _ => {}
        }
        if matches!(mo, Ideal | Fjc) {
            dims[NCH] = dim("force_coordinate", Mix(vec![Log(1e-3, 600.0), Lin(0.1, 30.0)]));
        }
        let n = match mo { Morse | LogSq | Lj => 5000, Sw | Efjc => 4000, _ => 6000 };
        jobs.push(job(d.path, ctx.n(n), dims, move |v| {
            let p = d.set(v);
            if mo == LogSq && super::c22::stretch_peak(&p) > 650.0 {
                return Out::Skip; // known finding of C23
            }
            let mut c = C::new();
            let (mut fg, mut fx, mut fg0) = (0.0, 0.0, 0.0);
            match mo {
                Sw => {
                    fg = 20.0 * sw_noise(&p, p.nf);
                    fx = 20.0 * sw_noise(&p, p.nf) / p.nf;
                    fg0 = 20.0 * sw_ref(&p);
                }
                Efjc => {
                    fx = 8e-16 / (p.nf * p.nf).min(1.0); // hyperbolic functions subtracted at small force
                    fg0 = 1e-9;
                    // the Newton series of erf in the library: 1.2e-7 where it does not saturate (soft links)
                    let q = ((p.nls - p.nf).abs() / (2.0 * p.nls).sqrt()).min(6.0);
                    if q < 5.9 { fg += 1e-7; fx += 1e-6 * (1.0 + p.nf / p.nls); fg0 += 1e-7; }
                }
                Morse | LogSq | Lj => {
                    let ((ge, xe), (gm, xm)) = (exact_link(mo, &p, p.nf), mid_link(mo, &p, p.nf));
                    let (ge0, gm0) = (exact_link(mo, &p, 1e-6).0, mid_link(mo, &p, 1e-6).0);
                    fg = 3.0 * (ge - gm).abs() + 1e-10;
                    fx = 3.0 * (xe - xm).abs() + 1e-10;
                    fg0 = 3.0 * (ge0 - gm0).abs() + 1e-9;
                    if !(fg + fx + fg0 < 0.3) {
                        return Out::Skip; // the weight is narrower than the points of the quadrature rule
                    }
                }
                Fjc => fx = 1e-15 / p.nf, // coth x - 1/x
                _ => {}
            }
            compare(&d, &p, &mut c, &|e| exact_link(mo, &p, e), fg, fx, fg0, &g8, &x4);
            c.done(if p.nf < 0.3 { "small force" } else if p.nf < 10.0 { "medium" } else { "large force" })
        }));
    }
    Prop { jobs, rule: "a chain and a force below rupture drawn at random; eight Gibbs energies and four lengths compared with the single-link partition function integrated independently" }
}

pub fn c13(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    // documented closed forms, isotensional
    for &(mo, k) in ISOT.iter().filter(|(_, k)| *k != Exact) {
        let d = md(Box::leak(isot(mo, k).into_boxed_str()));
        let g8: Vec<_> = G8.iter().map(|f| m(d.path, &f.replace('X', "gibbs"))).collect();
        let x4: Vec<_> = X4.iter().map(|f| m(d.path, f)).collect();
        let mut dims = d.dims_far();
        dims[4] = dim("link_stiffness_nondim", Log(10.0, 1e5));
        jobs.push(job(format!("{} closed form", d.path), ctx.n(3000), dims, move |v| {
            let p = d.set(v);
            let mut c = C::new();
            // stretch of a link near rupture: ill-conditioned Lambert function or root
            let r = match mo { Efjc => 0.0, _ => 3e-9 / (1.0 - p.nf / eta_max(mo, &p)).sqrt() };
            compare(&d, &p, &mut c, &|e| asym_link(mo, k, &p, e), r * p.nf.max(1e-3), r + 1e-15 / p.nf, 1e-10, &g8, &x4);
            c.done(if p.nf < 0.3 { "small force" } else if p.nf < 10.0 { "medium" } else { "large force" })
        }));
    }
    // isometric: force solves the documented relation, energies assembled from it
    for &(mo, k) in ISOML.iter().filter(|(_, k)| *k != Exact) {
        let d = md(Box::leak(isom_leg(mo, k).into_boxed_str()));
        let a8: Vec<_> = G8.iter().map(|f| (m(d.path, &f.replace('X', "helmholtz")), f.replace('X', "helmholtz"))).collect();
        let (fnd, fd) = (m(d.path, "nondimensional_force"), m(d.path, "force"));
        let mut dims = d.dims_far();
        dims[4] = dim("link_stiffness_nondim", Log(20.0, 1e4));
        jobs.push(job(format!("{} closed form", d.path), ctx.n(2500), dims, move |v| {
            let p = d.set(v);
            let n = p.n();
            let mut c = C::new();
            let e = p.nf;
            let h = 1e-4;
            let slope = (asym_link(mo, k, &p, e * (1.0 + h)).1 - asym_link(mo, k, &p, e * (1.0 - h)).1) / (2.0 * h * e);
            if !(slope > 0.0) {
                return Out::Skip;
            }
            let t = super::c06::inv_tol(mo) * p.g + 3e-9 / (1.0 - e / eta_max(mo, &p)).sqrt();
            let tf = t / slope * 1.1 + 1e-10 * e;
            c.near("nondimensional force at the length the documented relation gives for it", fnd(&p), e, tf);
            c.near("force (kT/l)", fd(&p) * p.ll / p.kt(), e, tf);
            let a = asym_link(mo, k, &p, e).0 + e * p.g;
            let c0 = -0.5 * (2.0 * PI * p.ll * p.ll / p.nls).ln();
            let a0 = asym_link(mo, k, &p, 1e-6).0; // the work at zero load is quadratically small
            for i in 0..8 {
                let u = if i % 4 >= 2 { p.kt() } else { 1.0 } * if i % 2 == 0 { n } else { 1.0 };
                let want = if i < 4 { a - (1.0 - 1.0 / n) * p.lam() - c0 / n } else { a - a0 };
                c.near(&format!("{} (per link and kT)", a8[i].1), a8[i].0(&p) / u, want, 1e-10 * (1.0 + want.abs()) + t * t / slope + t * 1e-9 + 3e-9 / (1.0 - e / eta_max(mo, &p)).sqrt() * e.max(1e-3) + 20.0 * d.noise(&a8[i].1, &p) / u);
            }
            c.done(if e < 0.3 { "small force" } else if e < 10.0 { "medium" } else { "large force" })
        }));
    }
    // convergence towards the library's exact model
    for mo in [Efjc, Morse, LogSq, Lj] {
        let names: Vec<K> = if mo == Efjc { vec![Asym, Alt, Reduced] } else { vec![Asym, Reduced] };
        let get = |k: K, f: &str| m(&isot(mo, k), f);
        let (xf, gf) = ("nondimensional_end_to_end_length_per_link", "nondimensional_relative_gibbs_free_energy_per_link");
        let ex = (get(Exact, xf), get(Exact, gf));
        let ap: Vec<_> = names.iter().map(|&k| (get(k, xf), get(k, gf))).collect();
        let mut dims = chain_dims(mo, nl_any());
        // stiff enough for the barrier at the exact model's cut-off (rupture) to be irrelevant, soft enough for its
        // quadrature to be exact
        let (range, ratio) = match mo { Morse => (Log(400.0, 500.0), 2.5), Lj => (Log(1400.0, 1600.0), 1.9), LogSq => (Log(60.0, 140.0), 4.0), _ => (Log(80.0, 160.0), 4.0) };
        dims[4] = dim("link_stiffness_nondim", range);
        if mo == Morse {
            dims[5] = dim("link_energy_over_stiffness", Log(0.15, 0.4));
        }
        dims.push(dim("force_over_stiffness", match mo { Lj => Log(1e-3, 0.005), _ => Log(0.003, 0.03) }));
        jobs.push(job(format!("{} converges", mo.path()), ctx.n(400), dims, move |v| {
            // the largest error over a set of forces, at stiffness kappa and 4 kappa
            let errs = |kap: f64| -> Vec<(f64, f64)> {
                let mut p = chain(mo, v);
                p.set_kappa(kap);
                if mo == Morse {
                    p.set_eps(v[5] * kap);
                }
                let top = v[NCH] * v[4]; // the same forces at both stiffnesses
                let mut out = vec![(0.0f64, 0.0f64); ap.len()];
                for i in 1..=8 {
                    let mut q = p.clone();
                    q.set_eta(top * i as f64 / 8.0);
                    for (o, a) in out.iter_mut().zip(&ap) {
                        o.0 = o.0.max((a.0(&q) - ex.0(&q)).abs());
                        o.1 = o.1.max((a.1(&q) - ex.1(&q)).abs());
                    }
                }
                out
            };
            let (e1, e2) = (errs(v[4]), errs(ratio * v[4]));
            let mut c = C::new();
            let full = 0;
            let red = ap.len() - 1;
            let fl = 3e-9;
            for (what, f) in [("length", 0usize), ("relative Gibbs free energy", 1)] {
                let pick = |x: &(f64, f64)| if f == 0 { x.0 } else { x.1 };
                c.yes(&format!("{what}: error of the reduced form shrinks with stiffness ({:e} then {:e})", pick(&e1[red]), pick(&e2[red])), pick(&e2[red]) < 1.7 / ratio * pick(&e1[red]) + fl);
                c.yes(&format!("{what}: error of the full form shrinks quadratically with stiffness ({:e} then {:e})", pick(&e1[full]), pick(&e2[full])), pick(&e2[full]) < 2.2 / ratio.powi(2) * pick(&e1[full]) + fl);
                c.yes(&format!("{what}: the full form is better than the reduced one ({:e} against {:e})", pick(&e2[full]), pick(&e2[red])), pick(&e2[full]) < 0.5 * pick(&e2[red]) + fl);
                if ap.len() == 3 {
                    c.yes(&format!("{what}: the alternative form lies between ({:e} against {:e})", pick(&e2[1]), pick(&e2[red])), pick(&e2[1]) < 0.5 * pick(&e2[red]) + fl);
                    c.yes(&format!("{what}: error of the alternative form shrinks ({:e} then {:e})", pick(&e1[1]), pick(&e2[1])), pick(&e2[1]) < 2.2 / ratio.powi(2) * pick(&e1[1]) + fl);
                }
            }
            c.done("converging")
        }));
    }
    Prop { jobs, rule: "a chain and a load below rupture drawn at random against the documented closed form; and pairs of stiffnesses with the same forces against the library's exact model" }
}
