//! C06 force = dA/dxi; C07 length = -dG/df (and the modified canonical analogue); C08 Legendre transforms;
//! C09 inversion of the Legendre pairs.
use super::Prop;
use crate::fw::*;
use crate::mods::*;
use crate::models::*;
use crate::num::*;
use crate::params::P;
use crate::reg::{entry, m};
use std::f64::consts::PI;

/// Relative accuracy to which a Newton inversion of the library determines the length it inverts (its stopping
/// tolerance; the damped variant of the arbitrary-potential chains converges linearly, so it does not do better).
pub fn inv_tol(mo: M) -> f64 {
    match mo {
        Morse | LogSq | Lj => 2e-6,
        Fjc | Sw => 2e-6, // linear formula below 1e-3
        _ => 1e-8,
    }
}
/// integral of f over [a,b], split at the knots of the exact freely jointed chain of n links (if n > 0)
pub fn integral(f: &dyn Fn(f64) -> f64, a: f64, b: f64, n: usize) -> f64 {
    if n == 0 {
        return quad(f, a, b, 3);
    }
    // exact freely jointed chain: split at the knots, panels graded towards zero and full extension
    let mut cuts = vec![a, b];
    for k in 0..n {
        let x = (2.0 * k as f64 - n as f64) / n as f64;
        if x > a && x < b {
            cuts.push(x);
        }
    }
    for k in 1..14 {
        for x in [2f64.powi(-k), 1.0 - 2f64.powi(-k)] {
            if x > a && x < b {
                cuts.push(x);
            }
        }
    }
    cuts.sort_by(|x, y| x.partial_cmp(y).unwrap());
    cuts.windows(2).filter(|w| w[1] > w[0]).map(|w| quad(f, w[0], w[1], 1)).sum()
}
const A8: [&str; 8] = [
    "nondimensional_X_free_energy", "nondimensional_X_free_energy_per_link", "nondimensional_relative_X_free_energy", "nondimensional_relative_X_free_energy_per_link",
    "X_free_energy", "X_free_energy_per_link", "relative_X_free_energy", "relative_X_free_energy_per_link",
];

pub fn c06(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods().into_iter().filter(|d| matches!(d.cl, Iso | IsoLeg) && entry(d.path, "force").is_some()) {
        let mut dims = d.dims();
        dims.push(dim("step", Log(0.02, 1.0)));
        let fd = m(d.path, "force");
        let fnd = m(d.path, "nondimensional_force");
        let en: Vec<_> = A8.iter().map(|a| a.replace('X', "helmholtz")).map(|a| (m(d.path, &a), a)).collect();
        jobs.push(job(format!("{} dA = f dxi", d.path), ctx.n(if matches!(d.m, LogSq | Sw) { 1500 } else if matches!(d.m, Wlc | Lj) { 2500 } else { 6000 }), dims, move |v| {
            let n = v.len();
            let p1 = d.set(&v[..n - 1]);
            let step = v[n - 1];
            let mut p2 = p1.clone();
            match d.cl {
                IsoLeg => {
                    let mut w = v[..n - 1].to_vec();
                    w[NCH] *= 1.0 + step;
                    p2 = d.set(&w);
                }
                _ => {
                    let top = if d.m == Ideal { 2.0 } else if d.m == Wlc { 0.985 } else { 0.998 };
                    p2.set_gamma((p1.g * (1.0 + step)).min(p1.g + step * (top - p1.g)));
                }
            }
            if !(p2.g > p1.g * (1.0 + 1e-3)) {
                return Out::Skip;
            }
            let knots = if d.path == "fjc/thermodynamics/isometric" { p1.nl as usize } else if d.m == Wlc { 1 } else { 0 };
            let at = |g: f64| {
                let mut q = p1.clone();
                q.set_gamma(g);
                q
            };
            // the integrals of the library's forces
            let i_nd = integral(&|g| fnd(&at(g)), p1.g, p2.g, knots);
            let i_d = p1.contour() * integral(&|g| fd(&at(g)), p1.g, p2.g, knots);
            let (e1, e2) = (fnd(&p1), fnd(&p2));
            // error of the forces: inverse functions are determined to a relative accuracy in length
            let mut tol0 = 1e-9 * i_nd.abs() + 1e-11;
            if d.cl == IsoLeg {
                tol0 += 1.5 * inv_tol(d.m) * p2.g * (e2 - e1).abs();
            }
            let mut c = C::new();
            for (f, name) in &en {
                let dimensional = !name.starts_with("nondim");
                let whole = !name.ends_with("per_link");
                let u = if dimensional { p1.kt() } else { 1.0 } * if whole { p1.n() } else { 1.0 };
                let want = if dimensional { i_d / (p1.kt() * p1.n()) } else { i_nd };
                let got = (f(&p2) - f(&p1)) / u;
                let tol = tol0 + 1e-13 * f(&p2).abs() / u + 20.0 * (jitter(*f, &p1) + jitter(*f, &p2)) / u
                    + 20.0 * (p2.g - p1.g) * (jitter(fnd, &p1) + jitter(fnd, &p2))
                    + if d.m == Sw { 20.0 * sw_noise(&p1, e1) } else { 0.0 };
                c.near(&format!("change of {name} per link and kT over the step, against the integral of the force"), got, want, tol);
            }
            c.done(if p1.g < 0.1 { "short" } else if p1.g < 0.9 { "medium" } else { "long" })
        }));
    }
    Prop { jobs, rule: "a chain and two lengths at least 0.1 % apart drawn at random; all eight free energies compared with the integrals of the two forces" }
}

pub fn c07(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods().into_iter().filter(|d| d.cl == T) {
        let mut dims = d.dims();
        dims.push(dim("step", Mix(vec![Log(0.02, 0.5), Log(0.3, 30.0)])));
        let xs: Vec<_> = ["nondimensional_end_to_end_length_per_link", "nondimensional_end_to_end_length", "end_to_end_length_per_link", "end_to_end_length"].iter().map(|f| m(d.path, f)).collect();
        let en: Vec<_> = A8.iter().map(|a| a.replace('X', "gibbs")).map(|a| (m(d.path, &a), a)).collect();
        let heavy = d.m == Wlc || (d.k == Exact && matches!(d.m, Morse | LogSq | Lj));
        jobs.push(job(format!("{} dG = -xi df", d.path), ctx.n(if heavy { 800 } else { 3000 }), dims, move |v| {
            let n = v.len();
            let mut w = v[..n - 1].to_vec();
            let p1 = d.set(&w);
            // (the worm-like chain's own sum is a staircase over wide ranges of force for long chains)
            let top: f64 = if d.m == Wlc { w[NCH] * 1.5 } else if heavy { 300.0 } else { 690.0 };
            w[NCH] = (w[NCH] * (1.0 + v[n - 1])).min(top.max(w[NCH] * 1.02));
            let p2 = d.set(&w);
            if !(p2.nf > p1.nf * (1.0 + 1e-4)) {
                return Out::Skip;
            }
            // panels: no wider than a factor of two, and graded towards the link's rupture
            let mut cuts = vec![p1.nf, p2.nf];
            let r = if d.m == Wlc { (3.0 + (p2.nf - p1.nf) * p1.n() / 300.0).floor() } else { (p2.nf / p1.nf).log2().ceil().max(2.0) };
            for k in 1..r as usize {
                cuts.push(p1.nf * (p2.nf / p1.nf).powf(k as f64 / r));
            }
            let top = eta_max(d.m, &p1);
            if top.is_finite() {
                cuts.extend((1..8).map(|k| top * (1.0 - 0.5f64.powi(k))).filter(|x| *x > p1.nf && *x < p2.nf));
            }
            cuts.sort_by(|x, y| x.partial_cmp(y).unwrap());
            // integrals of the four lengths, in units of kT (per link or whole)
            let want: Vec<f64> = xs.iter().enumerate().map(|(i, x)| {
                let u = if i >= 2 { p1.ll } else { 1.0 };
                let at = |e: f64| {
                    let mut q = p1.clone();
                    q.set_eta(e);
                    x(&q) / u
                };
                cuts.windows(2).map(|c| quad(at, c[0], c[1], 1)).sum()
            }).collect();
            let mut c = C::new();
            let jx = jitter(xs[0], &p1) + jitter(xs[0], &p2);
            for (f, name) in &en {
                let dimensional = !name.starts_with("nondim");
                let whole = !name.ends_with("per_link");
                let nf = if whole { p1.n() } else { 1.0 };
                let u = if dimensional { p1.kt() } else { 1.0 } * nf;
                let want = want[if dimensional { 2 } else { 0 } + if whole { 1 } else { 0 }] / nf;
                let got = -(f(&p2) - f(&p1)) / u;
                let dx = p2.nf - p1.nf;
                let tol = 1e-9 * want.abs() + 1e-12 + 1e-13 * f(&p2).abs() / u + 20.0 * (jitter(*f, &p1) + jitter(*f, &p2)) / u + 20.0 * dx * jx
                    + if d.m == Sw { 60.0 * sw_noise(&p1, p1.nf) } else { 0.0 };
                c.near(&format!("minus the change of {name} (per link and kT) over the step, against the integral of the length"), got, want, tol);
            }
            c.done(if p1.nf < 0.3 { "small force" } else if p1.nf < 10.0 { "medium" } else { "large force" })
        }));
    }
    // modified canonical
    for d in mods().into_iter().filter(|d| matches!(d.cl, Mc | McStrong)) {
        let mut dims = d.dims();
        dims.push(dim("step", Log(0.02, 0.3)));
        let fd = m(d.path, "force");
        let fnd = m(d.path, "nondimensional_force");
        let en: Vec<_> = A8.iter().map(|a| a.replace('X', "helmholtz")).map(|a| (m(d.path, &a), a)).collect();
        jobs.push(job(format!("{} dA = f dd", d.path), ctx.n(400), dims, move |v| {
            let n = v.len();
            let p1 = d.set(&v[..n - 1]);
            let mut w = v[..n - 1].to_vec();
            w[NCH] = if d.cl == McStrong { (w[NCH] * (1.0 + v[n - 1])).min(w[NCH] + v[n - 1] * (0.97 - w[NCH])) } else { w[NCH] * (1.0 + v[n - 1]) };
            let p2 = d.set(&w);
            if !(p2.npd > p1.npd * (1.0 + 1e-3)) {
                return Out::Skip;
            }
            let at = |x: f64| {
                let mut q = p1.clone();
                q.set_pot(x, p1.npk);
                q
            };
            let knots = if d.cl == McStrong { p1.nl as usize } else { 0 };
            if d.cl == McStrong && p1.nl < 8 && (0..=p1.nl).any(|k| { let x = (2.0 * k as f64 - p1.n()) / p1.n(); x >= p1.npd && x <= p2.npd }) {
                return Out::Skip; // the asymptotic form has no derivative at the knots of short chains
            }
            let i_nd = integral(&|x| fnd(&at(x)), p1.npd, p2.npd, knots);
            let i_d = p1.contour() * integral(&|g| fd(&at(g)), p1.npd, p2.npd, knots);
            let mut c = C::new();
            for (f, name) in &en {
                let dimensional = !name.starts_with("nondim");
                let whole = !name.ends_with("per_link");
                let u = if dimensional { p1.kt() } else { 1.0 } * if whole { p1.n() } else { 1.0 };
                let want = if dimensional { i_d / (p1.kt() * p1.n()) } else { i_nd };
                let got = (f(&p2) - f(&p1)) / u;
                let tol = 1e-8 * i_nd.abs() + 1e-10 + 1e-13 * f(&p2).abs() / u + 20.0 * (jitter(*f, &p1) + jitter(*f, &p2)) / u + 20.0 * (p2.npd - p1.npd) * (jitter(fnd, &p1) + jitter(fnd, &p2));
                c.near(&format!("change of {name} per link and kT over the step, against the integral of the force"), got, want, tol);
            }
            c.done("compared")
        }));
    }
    {
        let d = md("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential");
        let mut dims = d.dims();
        dims.push(dim("step", Log(0.02, 0.5)));
        let xnd = m(d.path, "nondimensional_end_to_end_length_per_link");
        let xd = m(d.path, "end_to_end_length_per_link");
        let en: Vec<_> = A8.iter().map(|a| a.replace('X', "gibbs")).map(|a| (m(d.path, &a), a)).collect();
        jobs.push(job(format!("{} dG = -xi df", d.path), ctx.n(1500), dims, move |v| {
            let n = v.len();
            let mut w = v[..n - 1].to_vec();
            let p1 = d.set(&w);
            w[NCH] *= 1.0 + v[n - 1];
            let p2 = d.set(&w);
            if p2.n() * p2.npk * p2.npd > 600.0 {
                return Out::Skip;
            }
            let nk = p1.n() * p1.npk;
            let at = |e: f64| {
                let mut q = p1.clone();
                q.set_pot(e / nk, p1.npk);
                q
            };
            let (e1, e2) = (nk * p1.npd, nk * p2.npd);
            let i_nd = integral(&|e| xnd(&at(e)), e1, e2, 0);
            let i_d = integral(&|e| xd(&at(e)), e1, e2, 0) / p1.ll;
            let mut c = C::new();
            for (f, name) in &en {
                let dimensional = !name.starts_with("nondim");
                let whole = !name.ends_with("per_link");
                let u = if dimensional { p1.kt() } else { 1.0 } * if whole { p1.n() } else { 1.0 };
                let want = if dimensional { i_d } else { i_nd };
                let got = -(f(&p2) - f(&p1)) / u;
                let tol = 1e-9 * (e2 - e1).min(i_nd.abs() + (e2 - e1) * nk) + 1e-12 + 1e-13 * f(&p2).abs() / u + 20.0 * (jitter(*f, &p1) + jitter(*f, &p2)) / u
                    + 20.0 * (e2 - e1) * (jitter(xnd, &p1) + jitter(xnd, &p2));
                c.near(&format!("minus the change of {name} per link and kT over the step, against the integral of the length"), got, want, tol);
            }
            c.done("compared")
        }));
    }
    jobs.push(job("probe: worm-like chain across a force of 100", 1, vec![dim("number_of_links", Pick(vec![8.0])), dim("persistance_length", Pick(vec![0.1])), dim("force_below", Pick(vec![99.0])), dim("force_above", Pick(vec![101.0]))], |v| {
        use polymers::physics::single_chain::wlc::thermodynamics::isotensional as w;
        let n = v[0] as u8;
        let g = |e: f64| w::nondimensional_relative_gibbs_free_energy_per_link(&n, &v[1], &e);
        let x = |e: f64| w::nondimensional_end_to_end_length_per_link(&n, &v[1], &e);
        let mut c = C::new();
        c.near("change of Gibbs free energy, against the length", g(v[2]) - g(v[3]), (v[3] - v[2]) * 0.5 * (x(v[2]) + x(v[3])), 1e-2);
        c.done("compared")
    }));
    Prop { jobs, rule: "a chain and two loads at least 0.01 % apart drawn at random; all eight free energies compared with the integrals of the two lengths (or forces)" }
}

/// one link's share of momentum and, for the asymptotic forms of extensible links, of the link stiffness reference
pub fn one_link(d: &Md, p: &P) -> f64 {
    p.lam() + if d.m.has_kappa() && d.k != Exact { 0.5 * (2.0 * PI * p.ll * p.ll / p.nls).ln() } else { 0.0 }
}

pub fn c08(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods().into_iter().filter(|d| d.cl == TL) {
        let parent = d.path.strip_suffix("/legendre").unwrap();
        let g8: Vec<_> = A8.iter().map(|a| a.replace('X', "gibbs")).map(|a| m(parent, &a)).collect();
        let a8: Vec<_> = A8.iter().map(|a| a.replace('X', "helmholtz")).map(|a| (m(d.path, &a), a)).collect();
        let xs = [m(parent, "nondimensional_end_to_end_length"), m(parent, "nondimensional_end_to_end_length_per_link"), m(parent, "end_to_end_length"), m(parent, "end_to_end_length_per_link")];
        jobs.push(job(format!("{} A = G + f xi", d.path), ctx.n(if d.m == Wlc { 500 } else if d.k == Exact { 4000 } else { 8000 }), d.dims_far(), move |v| {
            let p = d.set(v);
            if d.m == LogSq && d.k == Exact && super::c22::stretch_peak(&p) > 650.0 {
                return Out::Skip; // known finding of C23
            }
            let mut c = C::new();
            let z = d.zero(&p);
            for i in 0..8 {
                let dimensional = i >= 4;
                let whole = i % 2 == 0;
                let relative = i % 4 >= 2;
                let u = if dimensional { p.kt() } else { 1.0 } * if whole { p.n() } else { 1.0 };
                let x = xs[(i % 2) + if dimensional { 2 } else { 0 }];
                let load = if dimensional { p.f } else { p.nf };
                let g = g8[i];
                let (a, name) = (&a8[i].0, &a8[i].1);
                let got = a(&p) / u;
                let mut want = (g(&p) + load * x(&p)) / u;
                if relative {
                    // the parent's zero load reference and the child's differ by the (quadratically small) work at zero load
                    let lz = if dimensional { z.f } else { z.nf };
                    want -= lz * x(&z) / u;
                }
                let tol = 1e-11 * (1.0 + got.abs() + (g(&p) / u).abs()) + 20.0 * (jitter(*a, &p) + jitter(g, &p) + load * jitter(x, &p)) / u
                    + if d.m == Sw { 80.0 * sw_noise(&p, p.nf) } else { 0.0 }
                    + if relative { 20.0 * (d.noise(name, &p) + jitter(g8[i - 2], &z)) / u + if d.m == Sw { 80.0 * sw_ref(&p) } else { 0.0 } } else { 0.0 };
                c.near(&format!("{name} (per link and kT)"), got, want, tol);
            }
            c.done(if p.nf < 0.3 { "small force" } else if p.nf < 10.0 { "medium" } else { "large force" })
        }));
    }
    // isometric Legendre: same curve through elimination of the load
    for &(mo, k) in ISOML {
        let iso = md(Box::leak(isom_leg(mo, k).into_boxed_str()));
        let tl = format!("{}/legendre", isot(mo, k));
        let a_t: Vec<_> = A8.iter().map(|a| a.replace('X', "helmholtz")).map(|a| m(&tl, &a)).collect();
        let a_i: Vec<_> = A8.iter().map(|a| a.replace('X', "helmholtz")).map(|a| (m(iso.path, &a), a)).collect();
        let xs = m(&isot(mo, k), "nondimensional_end_to_end_length_per_link");
        let fi = m(iso.path, "nondimensional_force");
        jobs.push(job(format!("{} same curve as {}", iso.path, tl), ctx.n(if mo == LogSq { 1200 } else if matches!(mo, Sw | Lj) { 2500 } else { 8000 }), iso.dims_far(), move |v| {
            let mut p = iso.set(v);
            let e = p.nf;
            p.set_gamma(xs(&p));
            let dxde = ref_slope(mo, k, &p, e);
            let mut c = C::new();
            let z = iso.zero(&p);
            for i in 0..8 {
                let u = if i >= 4 { p.kt() } else { 1.0 } * if i % 2 == 0 { p.n() } else { 1.0 };
                let got = a_i[i].0(&p) / u;
                let mut want = a_t[i](&p) / u;
                if i % 4 < 2 {
                    want += one_link(&iso, &p) / p.n();
                }
                // stationary in the force: an error in length of relative size t changes it by (t xi)^2 / 2 xi'; for
                // relative energies the zero loads also differ by their quadratically small work
                let t = inv_tol(mo) * p.g;
                let tol = 1e-11 * (1.0 + got.abs()) + t * t / dxde.abs().max(1e-9)
                    + 20.0 * (jitter(a_i[i].0, &p) + jitter(a_t[i], &p) + jitter(xs, &p) * e * p.n()) / u
                    + if i % 4 >= 2 { 20.0 * (iso.noise(&a_i[i].1, &p)) / u + 20.0 * jitter(a_t[i - 2], &{ let mut q = z.clone(); q.set_eta(1e-6); q }) / u } else { 0.0 }
                    + if mo == Sw { 80.0 * (sw_noise(&p, e) + if i % 4 >= 2 { sw_ref(&p) } else { 0.0 }) } else { 0.0 };
                c.near(&format!("{} (per link and kT)", a_i[i].1), got, want, tol);
            }
            let _ = fi;
            c.done(if p.nf < 0.3 { "small force" } else if p.nf < 10.0 { "medium" } else { "large force" })
        }));
    }
    // isometric Legendre Gibbs energies
    for (path, parent) in [("fjc/thermodynamics/isometric/legendre", "fjc/thermodynamics/isometric"), ("wlc/thermodynamics/isometric/legendre", "wlc/thermodynamics/isometric")] {
        let d = md(parent);
        let g8: Vec<_> = A8.iter().map(|a| a.replace('X', "gibbs")).map(|a| (m(path, &a), a)).collect();
        let a8: Vec<_> = A8.iter().map(|a| a.replace('X', "helmholtz")).map(|a| m(parent, &a)).collect();
        let fnd = m(parent, "nondimensional_force");
        let fd = m(parent, "force");
        jobs.push(job(format!("{path} G = A - f xi"), ctx.n(2500), d.dims(), move |v| {
            let p = d.set(v);
            let z = d.zero(&p);
            let mut c = C::new();
            for i in 0..8 {
                let dimensional = i >= 4;
                let relative = i % 4 >= 2;
                let u = if dimensional { p.kt() } else { 1.0 } * if i % 2 == 0 { p.n() } else { 1.0 };
                let w = |q: &P| if dimensional { fd(q) * q.xi / q.kt() / q.n() } else { fnd(q) * q.g };
                let got = g8[i].0(&p) / u;
                let mut want = a8[i](&p) / u - w(&p);
                let mut tol = 1e-11 * (1.0 + got.abs() + w(&p).abs()) + 20.0 * (jitter(g8[i].0, &p) + jitter(a8[i], &p)) / u + 20.0 * p.g * jitter(fnd, &p);
                if relative {
                    want += w(&z);
                    tol += 20.0 * (jitter(g8[i - 2].0, &z) + jitter(a8[i - 2], &z)) / u + 20.0 * z.g * jitter(fnd, &z);
                }
                c.near(&format!("{} (per link and kT)", g8[i].1), got, want, tol);
            }
            c.done(if p.g < 0.1 { "short" } else if p.g < 0.9 { "medium" } else { "long" })
        }));
    }
    Prop { jobs, rule: "chain and load drawn at random; all eight free energies of the Legendre module compared with those assembled from its parent" }
}
/// d(length)/d(force) per link by differencing the reference
fn ref_slope(mo: M, k: K, p: &P, e: f64) -> f64 {
    let h = 1e-4;
    (ref_link(mo, k, p, e * (1.0 + h)).1 - ref_link(mo, k, p, e * (1.0 - h)).1) / (2.0 * h * e)
}

pub fn c09(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for &(mo, k) in ISOML {
        let iso = md(Box::leak(isom_leg(mo, k).into_boxed_str()));
        let t = isot(mo, k);
        let (x, xd) = (m(&t, "nondimensional_end_to_end_length_per_link"), m(&t, "end_to_end_length"));
        let (f, fd) = (m(iso.path, "nondimensional_force"), m(iso.path, "force"));
        let d = iso.clone();
        jobs.push(job(format!("{} inverts {}", iso.path, t), ctx.n(4000), iso.dims_far(), move |v| {
            let mut p = d.set(v);
            let e = p.nf;
            let g = x(&p);
            p.set_gamma(g);
            let tol = inv_tol(mo);
            let mut c = C::new();
            // length -> force -> length
            let e2 = f(&p);
            let g2 = { let mut q = p.clone(); q.set_eta(e2); x(&q) };
            let noise = |e: f64| if mo == Sw { 60.0 * sw_noise(&p, e) / e } else { 0.0 } + 20.0 * jitter(x, &p) + 1e-13;
            c.near("length recovered through the force", g2, g, tol * g + noise(e));
            // force -> length -> force
            let slope = ref_slope(mo, k, &p, e);
            if slope > 0.0 {
                c.near("force recovered through the length", e2, e, (tol * g + noise(e)) / slope * 1.1 + 1e-10 * e);
            }
            // dimensional forms
            let mut q = p.clone();
            q.xi = xd(&p);
            let f2 = fd(&q);
            if slope > 0.0 {
                c.near("dimensional force recovered through the dimensional length (in kT/l)", f2 * p.ll / p.kt(), e, (tol * g + noise(e)) / slope * 1.1 + 1e-10 * e);
            }
            c.done(if g < 2e-3 { "linear regime" } else if g < 0.9 { "medium" } else if g < 1.0 { "near full extension" } else { "beyond full extension" })
        }));
        // continuity across the internal switches: fine steps around a length
        let d = iso.clone();
        let mut dims = chain_dims(mo, nl_any());
        dims.push(dim("switch", Pick(vec![1e-3, 0.9, 1.0, 0.99, 0.5, 0.1])));
        dims.push(dim("delta", Log(1e-9, 1e-5)));
        jobs.push(job(format!("{} continuous across switches", iso.path), ctx.n(600), dims, move |v| {
            let mut p = chain(mo, v);
            let s = if mo == Sw && v[NCH] > 0.01 { v[NCH] * varsigma(&p) } else { v[NCH] };
            let top = if mo == Fjc { 0.9999 } else if mo == Sw { 0.995 * varsigma(&p) } else { ref_link(mo, k, &p, force_of(mo, &p, 250.0)).1 };
            if s * 1.001 > top {
                return Out::Skip;
            }
            let at = |g: f64| { let mut q = p.clone(); q.set_gamma(g); f(&q) };
            let (a, b) = (at(s * (1.0 - v[NCH + 1])), at(s * (1.0 + v[NCH + 1])));
            p.set_gamma(s);
            p.set_eta(a);
            let slope = ref_slope(mo, k, &p, a);
            let mut c = C::new();
            let noise = if mo == Sw { 60.0 * sw_noise(&p, a) / a } else { 0.0 };
            if slope > 0.0 {
                c.near("force on both sides of the length", a, b, (2.0 * inv_tol(mo) * s + 3.0 * v[NCH + 1] * s + noise) / slope + 1e-9 * a);
            }
            let _ = &d;
            c.done("compared")
        }));
    }
    Prop { jobs, rule: "chain and force drawn at random; both round trips evaluated" }
}
