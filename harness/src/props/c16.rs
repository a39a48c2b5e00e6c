//! C16 modified canonical ensemble; C24 Laplace transforms; C27 worm-like chain; C28 absolute constants.
use super::c06::integral;
use super::Prop;
use crate::fw::*;
use crate::mods::*;
use crate::models::*;
use crate::num::*;
use crate::params::{P, H, KB};
use crate::reg::{entry, m};
use std::f64::consts::PI;

/// Becker, Rosa & Everaers (2010): ln of the (unnormalised) density of end-to-end vectors of a worm-like chain, k = l_p/L
pub fn wlc_lnq(k: f64, r: f64) -> f64 {
    let r2 = r * r;
    let (a, b) = (14.054, 0.473);
    let c = 1.0 - (1.0 + (0.38 * k.powf(-0.95)).powf(-5.0)).powf(-0.2);
    let (d, lnj) = if k < 0.125 {
        (1.0, 1.5 * (3.0 / (4.0 * PI * k)).ln() + (1.0 - 1.25 * k).ln())
    } else {
        (1.0 - 1.0 / (0.177 / (k - 0.111) + 6.40 * (k - 0.111).powf(0.783)), 112.04f64.ln() + 2.0 * k.ln() + 0.246 / k - a * k)
    };
    let poly = (-0.75 / k - 0.5) * r2 + (23.0 / 64.0 / k + 17.0 / 16.0) * r2 * r2 + (-7.0 / 64.0 / k - 9.0 / 16.0) * r2 * r2 * r2;
    let den = 1.0 - b * b * r2;
    lnj + 2.5 * ((1.0 - c * r2) / (1.0 - r2)).ln() + poly / (1.0 - r2) - d * k * a * b * (1.0 + b) * r2 / den + ln_i0(d * k * a * (1.0 + b) * r / den)
}
/// derivative of the above, analytically
pub fn wlc_dlnq(k: f64, r: f64) -> f64 {
    let r2 = r * r;
    let (a, b) = (14.054, 0.473);
    let c = 1.0 - (1.0 + (0.38 * k.powf(-0.95)).powf(-5.0)).powf(-0.2);
    let d = if k < 0.125 { 1.0 } else { 1.0 - 1.0 / (0.177 / (k - 0.111) + 6.40 * (k - 0.111).powf(0.783)) };
    let (p1, p2, p3) = (-0.75 / k - 0.5, 23.0 / 64.0 / k + 17.0 / 16.0, -7.0 / 64.0 / k - 9.0 / 16.0);
    let poly = p1 * r2 + p2 * r2 * r2 + p3 * r2 * r2 * r2;
    let dpoly = 2.0 * r * (p1 + 2.0 * p2 * r2 + 3.0 * p3 * r2 * r2);
    let den = 1.0 - b * b * r2;
    let q = d * k * a * (1.0 + b);
    let x = q * r / den;
    let dx = q * (1.0 + b * b * r2) / (den * den);
    2.5 * (-2.0 * c * r / (1.0 - c * r2) + 2.0 * r / (1.0 - r2)) + dpoly / (1.0 - r2) + poly * 2.0 * r / (1.0 - r2).powi(2)
        - q * b * (2.0 * r / den + r2 * 2.0 * b * b * r / (den * den))
        + bessel_i_scaled(1, x) / bessel_i_scaled(0, x) * dx
}
fn with_g(p: &P, g: f64) -> P {
    let mut q = p.clone();
    q.set_gamma(g);
    q
}
fn with_e(p: &P, e: f64) -> P {
    let mut q = p.clone();
    q.set_eta(e);
    q
}
fn mid64(f: impl Fn(f64) -> f64) -> f64 {
    let h = (1.0 - 1e-6) / 64.0;
    (0..64).map(|i| f(1e-6 + (i as f64 + 0.5) * h)).sum::<f64>() * h
}

/// (ln Z, mean extension) of n freely jointed links under the potential, d and K = N^2 kappa; quadrature by the caller
fn mc_parts(n: usize, d: f64, kk: f64) -> (impl Fn(f64) -> f64, impl Fn(f64) -> f64, f64) {
    // log of the angular average of the Boltzmann factor over 4 pi: exp(-K(d^2+g^2)/2) sinh(K d g)/(K d g)
    let lnb = move |g: f64| -0.5 * kk * (d * d + g * g) + lnshc(kk * d * g);
    let r = {
        let x = d.clamp(0.01, 0.99);
        lnb(x).max(lnb(0.5))
    };
    let w = move |g: f64| if g <= 0.0 || g >= 1.0 { 0.0 } else { 4.0 * PI * g * g * fjc_density(n, g).0 * (lnb(g) - r).exp() };
    // d/dd of lnb: -K d + K g L(K d g)
    let wf = move |g: f64| if g <= 0.0 || g >= 1.0 { 0.0 } else { 4.0 * PI * g * g * fjc_density(n, g).0 * (lnb(g) - r).exp() * kk * (d - g * langevin(kk * d * g)) };
    (w, wf, r)
}

pub fn c16(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    let d = md("fjc/thermodynamics/modified_canonical");
    let get = |f: &str| m("fjc/thermodynamics/modified_canonical", f);
    let aa: Vec<_> = ["helmholtz", "gibbs"].iter().flat_map(|k| {
        ["nondimensional_X_free_energy", "nondimensional_X_free_energy_per_link", "X_free_energy", "X_free_energy_per_link",
         "nondimensional_relative_X_free_energy", "nondimensional_relative_X_free_energy_per_link", "relative_X_free_energy", "relative_X_free_energy_per_link"]
            .iter().map(|s| s.replace('X', k)).map(|s| (get(&s), s)).collect::<Vec<_>>()
    }).collect();
    let (fnd, fd) = (get("nondimensional_force"), get("force"));
    let xs = [(get("nondimensional_end_to_end_length"), "nondimensional_end_to_end_length"), (get("nondimensional_end_to_end_length_per_link"), "nondimensional_end_to_end_length_per_link"),
              (get("end_to_end_length"), "end_to_end_length"), (get("end_to_end_length_per_link"), "end_to_end_length_per_link")];
    jobs.push(job("integral of the exact distribution against the potential", ctx.n(3000), d.dims(), move |v| {
        let p = d.set(v);
        let n = p.nl as usize;
        let nf = p.n();
        let kk = nf * nf * p.npk;
        let mut c = C::new();
        let solve = |dd: f64| {
            let (w, wf, r) = mc_parts(n, dd, kk);
            let (z, f) = (integral(&|g| w(g), 1e-9, 1.0, n), integral(&|g| wf(g), 1e-9, 1.0, n));
            let (zm, fm) = (mid64(&w), mid64(&wf));
            // (A config, force per ... = dA/dd / N, quadrature error of A, of the force)
            (-(z.ln() + r), f / z / nf, (zm / z).ln().abs(), (fm / zm - f / z).abs() / nf)
        };
        let (a, f, qa, qf) = solve(p.npd);
        if !(qa < 0.05) {
            return Out::Skip; // the potential is narrower than the points of the quadrature rule
        }
        let (a0, _, qa0, _) = solve(1e-6);
        let lam = (nf - 1.0) * p.lam();
        let pot = 0.5 * kk * p.npd * p.npd;
        let pot0 = 0.5 * kk * 1e-12;
        for (i, (func, name)) in aa.iter().enumerate() {
            let gibbs = i >= 8;
            let relative = i % 8 >= 4;
            let u = if i % 4 >= 2 { p.kt() } else { 1.0 } / if i % 2 == 1 { nf } else { 1.0 };
            let want = if relative { a - a0 - if gibbs { pot - pot0 } else { 0.0 } } else { a - lam - if gibbs { pot } else { 0.0 } };
            let q = 3.0 * (qa + if relative { qa0 } else { 0.0 }) + 1e-9;
            let z = d.zero(&p);
            let j = 20.0 * jitter(*func, &p) / u + if relative { 20.0 * jitter(aa[i - 4].0, &z) / u } else { 0.0 };
            c.near(&format!("{name} (whole chain, kT)"), func(&p) / u, want, q + 1e-12 * want.abs() + j);
        }
        let tf = 3.0 * qf + 1e-9 * (1.0 + f.abs()) + 20.0 * jitter(fnd, &p);
        c.near("nondimensional force", fnd(&p), f, tf);
        c.near("force (kT/l)", fd(&p) * p.ll / p.kt(), f, tf);
        // force = stiffness times (distance minus length)
        for (x, name) in &xs {
            let u = if name.starts_with("nondim") { 1.0 } else { p.ll } * if name.ends_with("per_link") { 1.0 } else { nf };
            let fl = fnd(&p);
            c.near(&format!("{name} against distance minus force over stiffness"), x(&p) / u, p.npd - fl / (nf * p.npk), 1e-11 * (p.npd + (fl / (nf * p.npk)).abs()) + 20.0 * jitter(*x, &p) / u);
            c.near(&format!("{name} against the integral"), x(&p) / u, p.npd - f / (nf * p.npk), (tf / (nf * p.npk)) + 1e-11 + 20.0 * jitter(*x, &p) / u);
        }
        c.done(if kk < 3.0 { "weak potential" } else if kk < 100.0 { "medium" } else { "strong potential" })
    }));
    // documented asymptotic forms
    let s = md("fjc/thermodynamics/modified_canonical/asymptotic/strong_potential");
    let sp = s.path;
    let (sf, sfd) = (m(sp, "nondimensional_force"), m(sp, "force"));
    let sa = [m(sp, "nondimensional_helmholtz_free_energy"), m(sp, "nondimensional_helmholtz_free_energy_per_link"), m(sp, "helmholtz_free_energy"), m(sp, "helmholtz_free_energy_per_link")];
    jobs.push(job("strong potential closed form", ctx.n(4000), s.dims(), move |v| {
        let p = s.set(v);
        let n = p.nl as usize;
        let nf = p.n();
        let x = nf * (1.0 + p.npd) / 2.0;
        if n < 6 && (x - x.round()).abs() < 1e-6 {
            return Out::Skip; // the derivatives jump at the knots of short chains
        }
        let q = fjc_derivs(n, p.npd);
        let kk = nf * nf * p.npk;
        let (l1, p2, p3) = (q[1] / q[0], q[2] / q[0], q[3] / q[0]);
        let e0 = -l1 / nf;
        let e1 = -(p2 - l1 * l1) / nf;
        let e2 = -(p3 - 3.0 * p2 * l1 + 2.0 * l1.powi(3)) / nf;
        let f = e0 - (e0 * e1 - e2 / (2.0 * nf)) / (nf * p.npk);
        let a = -(fjc_density(n, p.npd).0).ln() - (nf - 1.0) * p.lam() - 1.5 * (2.0 * PI / kk).ln() - 0.5 * p2 / kk;
        let mut c = C::new();
        let corr = (e0 * e1).abs() / (nf * p.npk) + e2.abs() / (2.0 * nf * nf * p.npk);
        let tf = 1e-8 * (1.0 + e0.abs() + corr) + 20.0 * jitter(sf, &p);
        c.near("nondimensional force", sf(&p), f, tf);
        c.near("force (kT/l)", sfd(&p) * p.ll / p.kt(), f, tf);
        for (i, u) in [(0, 1.0), (1, 1.0 / nf), (2, p.kt()), (3, p.kt() / nf)] {
            c.near("Helmholtz free energy (whole chain, kT)", sa[i](&p) / u, a, 1e-8 * (1.0 + (0.5 * p2 / kk).abs()) + 1e-12 * a.abs() + 20.0 * jitter(sa[i], &p) / u);
        }
        c.done(if kk < 100.0 { "weak" } else { "strong" })
    }));
    let w = md("fjc/thermodynamics/modified_canonical/asymptotic/weak_potential");
    let wp = w.path;
    let (wf, wfd) = (m(wp, "nondimensional_force"), m(wp, "force"));
    let wx = [m(wp, "nondimensional_end_to_end_length"), m(wp, "nondimensional_end_to_end_length_per_link"), m(wp, "end_to_end_length"), m(wp, "end_to_end_length_per_link")];
    let wg: Vec<_> = ["nondimensional_X", "nondimensional_X_per_link", "X", "X_per_link"].iter().flat_map(|s| {
        let abs = s.replace('X', "gibbs_free_energy");
        let rel = s.replace('X', "relative_gibbs_free_energy");
        vec![(m(wp, &abs), m(wp, &rel))]
    }).collect();
    jobs.push(job("weak potential closed form", ctx.n(6000), w.dims(), move |v| {
        let p = w.set(v);
        let nf = p.n();
        let nk = nf * p.npk;
        let e = nk * p.npd;
        if e > 600.0 {
            return Out::Skip;
        }
        let mut c = C::new();
        let l = langevin(e);
        let x = l * (1.0 - nk * dlangevin(e));
        let g = -lnshc(e) + 0.5 * nk * l * l - p.lam();
        let e0 = nk * 1e-6;
        let g0 = -lnshc(e0) + 0.5 * nk * langevin(e0).powi(2) - p.lam();
        c.near("nondimensional force", wf(&p), e, 1e-12 * e);
        c.near("force (kT/l)", wfd(&p) * p.ll / p.kt(), e, 1e-12 * e);
        let z = w.zero(&p);
        for (i, (ux, ue)) in [(nf, nf), (1.0, 1.0), (nf * p.ll, nf * p.kt()), (p.ll, p.kt())].into_iter().enumerate() {
            c.near("end-to-end length (per link and l)", wx[i](&p) / ux, x, 1e-10 * (l + x.abs()) + 20.0 * jitter(wx[i], &p) / ux);
            c.near("Gibbs free energy (per link and kT)", wg[i].0(&p) / ue, g, 1e-11 * (1.0 + g.abs() + e) + 20.0 * jitter(wg[i].0, &p) / ue);
            c.near("relative Gibbs free energy (per link and kT)", wg[i].1(&p) / ue, g - g0, 1e-11 * (1.0 + (g - g0).abs() + e) + 20.0 * (jitter(wg[i].1, &p) + jitter(wg[i].0, &z)) / ue);
        }
        c.done(if e < 0.3 { "small force" } else if e < 10.0 { "medium" } else { "large" })
    }));
    Prop { jobs, rule: "a chain of 3 to 26 links and a potential drawn at random; every function compared with the integral of the exact distribution (or with the documented asymptotic form)" }
}

pub fn c24(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for mo in [Ideal, Fjc, Wlc] {
        let (iso, ten) = (format!("{}/thermodynamics/isometric", mo.path()), format!("{}/thermodynamics/isotensional", mo.path()));
        let (pn, pd) = (m(&iso, "nondimensional_equilibrium_distribution"), m(&iso, "equilibrium_radial_distribution"));
        let rel: Vec<_> = ["nondimensional_relative_gibbs_free_energy", "nondimensional_relative_gibbs_free_energy_per_link", "relative_gibbs_free_energy", "relative_gibbs_free_energy_per_link"].iter().map(|f| (m(&ten, f), *f)).collect();
        let xs: Vec<_> = ["nondimensional_end_to_end_length", "nondimensional_end_to_end_length_per_link", "end_to_end_length", "end_to_end_length_per_link"].iter().map(|f| (m(&ten, f), *f)).collect();
        let ad = m(&iso, "helmholtz_free_energy");
        let dd = md(Box::leak(ten.clone().into_boxed_str()));
        let nl = match mo { Fjc => nl_exact(), Wlc => Mix(vec![Int(2, 30), Int(2, 60), Int(2, 255)]), _ => nl_any() };
        let mut dims = chain_dims(mo, nl);
        dims.push(dim("nondimensional_force", Mix(vec![Log(0.05, 25.0), Lin(0.2, 15.0)])));
        jobs.push(job(format!("{ten} from {iso}"), ctx.n(if mo == Ideal { 2000 } else { 1200 }), dims, move |v| {
            let mut p = chain(mo, v);
            p.set_eta(v[NCH]);
            let (nf, e) = (p.n(), p.nf);
            let lo = 1e-9;
            if mo == Ideal && nf.sqrt() * e / 3.0 > 14.0 {
                return Out::Skip; // the density leaves the range of f64 in the tail that matters
            }
            let top = if mo == Ideal { e / 3.0 + 7.0 / nf.sqrt() } else { 1.0 };
            let ne = nf * e;
            // two routes: the density, the dimensional radial density
            let k = v[0] as i64 % 2;
            let lnw = |q: &P| -> f64 {
                if k == 0 { pn(q).ln() } else { (pd(q) * q.contour() / (4.0 * PI * q.g * q.g)).ln() }
            };
            let _ = ad;
            let int = |f: &dyn Fn(f64) -> f64| -> f64 {
                if mo == Fjc {
                    return integral(f, lo, 1.0, p.nl as usize);
                }
                let from = if mo == Ideal { (e / 3.0 - 7.0 / nf.sqrt()).max(lo) } else { lo };
                let mut cuts: Vec<f64> = (0..=16).map(|i| from + (top - from) * i as f64 / 16.0).collect();
                if mo == Wlc {
                    cuts.pop();
                    cuts.extend([0.96, 0.98, 0.99, 0.995, 0.998, 0.9995, 1.0 - 1e-9]);
                }
                cuts.windows(2).map(|w| quad(f, w[0], w[1], 1)).sum()
            };
            // reference exponent: near the maximum of the integrand
            let mut r = f64::NEG_INFINITY;
            for i in 1..200 {
                let g = top * i as f64 / 200.0;
                let x = 2.0 * g.ln() + lnw(&with_g(&p, g)) + lnshc(ne * g);
                if x > r { r = x; }
            }
            let w = |g: f64| { let x = 4.0 * PI * g * g * (lnw(&with_g(&p, g)) + lnshc(ne * g) - r).exp(); if x.is_finite() { x } else { 0.0 } };
            let z = int(&w);
            let x = int(&|g| w(g) * g * langevin(ne * g)) / z;
            let z0 = if mo == Ideal { quad(|g| 4.0 * PI * g * g * lnw(&with_g(&p, g)).exp(), lo, 7.0 / nf.sqrt(), 16) } else { int(&|g| { let q = with_g(&p, g); let x = 4.0 * PI * g * g * lnw(&q).exp() * (1.0 + (nf * 1e-6 * g).powi(2) / 6.0); if x.is_finite() { x } else { 0.0 } }) };
            let dg = -(z.ln() + r - z0.ln());
            // the worm-like chain is integrated with 64 midpoints in the library: that rule's own error
            let (mut ta, mut tx) = (1e-8 * (1.0 + dg.abs()), 1e-8);
            if mo == Wlc {
                let (zm, xm) = (mid64(&w), mid64(|g| w(g) * g * langevin(ne * g)));
                let z0m = mid64(|g| 4.0 * PI * g * g * lnw(&with_g(&p, g)).exp());
                ta += 3.0 * ((zm / z).ln().abs() + (z0m / z0).ln().abs());
                tx += 3.0 * (xm / zm - x).abs();
                if ta > 0.05 { return Out::Skip; }
            }
            let mut c = C::new();
            let zero = dd.zero(&p);
            for (i, (f, name)) in rel.iter().enumerate() {
                let u = if i >= 2 { p.kt() } else { 1.0 } / if i % 2 == 1 { nf } else { 1.0 };
                let j = 20.0 * (dd.noise(name, &p) + 0.0 * zero.nf) / u;
                c.near(&format!("{name} (whole chain, kT) against the transform"), f(&p) / u, dg, ta + j);
            }
            for (f, name) in &xs {
                let u = if name.starts_with("nondim") { 1.0 } else { p.ll } * if name.ends_with("per_link") { 1.0 } else { nf };
                c.near(&format!("{name} (per link and l) against the transform"), f(&p) / u, x, tx + 20.0 * jitter(*f, &p) / u);
            }
            c.done(if e < 0.3 { "small force" } else if e < 5.0 { "medium" } else { "large force" })
        }));
    }
    Prop { jobs, rule: "a chain and a force drawn at random; the library's isometric distribution is transformed and compared with the library's isotensional functions" }
}

pub fn c27(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    let iso = "wlc/thermodynamics/isometric";
    let d = md(iso);
    let an: Vec<_> = ["nondimensional_helmholtz_free_energy", "nondimensional_helmholtz_free_energy_per_link", "helmholtz_free_energy", "helmholtz_free_energy_per_link",
        "nondimensional_relative_helmholtz_free_energy", "nondimensional_relative_helmholtz_free_energy_per_link", "relative_helmholtz_free_energy", "relative_helmholtz_free_energy_per_link"]
        .iter().map(|f| (m(iso, f), *f)).collect();
    let (fnd, fd) = (m(iso, "nondimensional_force"), m(iso, "force"));
    let (pn, rn, pd, rd) = (m(iso, "nondimensional_equilibrium_distribution"), m(iso, "nondimensional_equilibrium_radial_distribution"), m(iso, "equilibrium_distribution"), m(iso, "equilibrium_radial_distribution"));
    let dd = d.clone();
    let mut dims = chain_dims(Wlc, Int(2, 255));
    dims[4] = dim("persistance_length_over_contour", Mix(vec![Log(0.003, 5.0), Lin(0.11, 0.14), Pick(vec![0.1249999, 0.125, 0.125000001])]));
    dims.push(dim("length", Mix(vec![Lin(0.01, 0.985), Log(1e-3, 0.9)])));
    jobs.push(job("isometric functions", ctx.n(12000), dims, move |v| {
        let mut p = chain(Wlc, v);
        p.set_gamma(v[NCH]);
        let (nf, g, k) = (p.n(), p.g, p.nlp);
        let lq = wlc_lnq(k, g);
        let th = (-1.0 / k).exp().acos();
        let lam = p.lam() + (0.5 * th.sin()).ln();
        let a = -lq - (nf - 1.0) * lam;
        let ra = -(lq - wlc_lnq(k, 1e-6));
        let mut c = C::new();
        let z = dd.zero(&p);
        // accuracy of the library's Bessel functions (polynomial fits)
        let tb = 3e-7;
        for (i, (f, name)) in an.iter().enumerate() {
            let u = if i % 4 >= 2 { p.kt() } else { 1.0 } / if i % 2 == 1 { nf } else { 1.0 };
            let (want, t) = if i < 4 { (a, 0.0) } else { (ra, 20.0 * jitter(an[i - 4].0, &z) / u) };
            c.near(&format!("{name} (whole chain, kT)"), f(&p) / u, want, tb + 1e-11 * want.abs() + 20.0 * jitter(*f, &p) / u + t);
        }
        let f = -wlc_dlnq(k, g) / nf;
        let tf = 1e-6 * (1.0 + 14.0 * k * 1.5) / nf * 3.0 + 1e-9 * f.abs() + 20.0 * jitter(fnd, &p);
        c.near("nondimensional force", fnd(&p), f, tf);
        c.near("force (kT/l)", fd(&p) * p.ll / p.kt(), f, tf);
        // distributions: normalised with 64 midpoints over (1e-6, 1)
        let w = |x: f64| 4.0 * PI * x * x * wlc_lnq(k, x).exp();
        let nrm = mid64(w);
        let cuts = [1e-9, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.975, 0.99, 0.995, 0.998, 0.9995, 1.0 - 1e-9];
        let ex: f64 = cuts.windows(2).map(|x| quad(w, x[0], x[1], 1)).sum();
        let q = lq.exp() / ex;
        let t = q * (1e-6 + 3.0 * (nrm / ex - 1.0).abs()) + 20.0 * jitter(pn, &p) + 1e-300;
        if (nrm / ex - 1.0).abs() < 0.2 {
            let cl = p.contour();
            c.near("density", pn(&p), q, t);
            c.near("radial density", rn(&p), 4.0 * PI * g * g * q, 4.0 * PI * g * g * t);
            // at exactly the switch, rounding of the persistence length over the contour length picks the side
            if (k - 0.125).abs() > 1e-12 {
                c.near("dimensional density (times contour length cubed)", pd(&p) * cl.powi(3), q, t);
                c.near("dimensional radial density (times contour length)", rd(&p) * cl, 4.0 * PI * g * g * q, 4.0 * PI * g * g * t);
            }
        }
        c.done(if k < 0.05 { "flexible" } else if k < 0.125 { "semiflexible, below the switch" } else if k < 0.5 { "semiflexible, above the switch" } else { "stiff" })
    }));
    // continuity across the regime switch is that of the published fit; the mean square length tests the fit itself
    let mut dims = chain_dims(Wlc, Mix(vec![Int(2, 60), Int(2, 255)]));
    dims[4] = dim("persistance_length_over_contour", Mix(vec![Log(0.003, 2.0), Lin(0.11, 0.14)]));
    jobs.push(job("mean square length", ctx.n(1500), dims, move |v| {
        let p = chain(Wlc, v);
        let k = p.nlp;
        let cuts = [1e-9, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.975, 0.99, 0.995, 0.998, 0.9995, 1.0 - 1e-9];
        let int = |f: &dyn Fn(f64) -> f64| -> f64 { cuts.windows(2).map(|x| quad(f, x[0], x[1], 1)).sum() };
        let at = |g: f64| rn(&with_g(&p, g));
        let r2 = int(&|g| g * g * at(g)) / int(&at);
        let want = 2.0 * k - 2.0 * k * k * (1.0 - (-1.0 / k).exp());
        let mut c = C::new();
        c.near("mean square end-to-end length over contour length squared", r2, want, 0.04 * want);
        c.done(if k < 0.125 { "flexible" } else { "stiff" })
    }));
    // flexible chains approach the Gaussian response
    let mut dims = chain_dims(Wlc, Mix(vec![Int(2, 60), Int(2, 255)]));
    dims[4] = dim("persistance_length_over_contour", Log(0.002, 0.03));
    dims.push(dim("length_over_gaussian_size", Lin(0.05, 1.0)));
    jobs.push(job("Gaussian limit", ctx.n(3000), dims, move |v| {
        let mut p = chain(Wlc, v);
        let k = p.nlp;
        let r2 = 2.0 * k - 2.0 * k * k * (1.0 - (-1.0 / k).exp());
        p.set_gamma(v[NCH] * r2.sqrt());
        let want = 3.0 * p.g / r2 / p.n();
        let mut c = C::new();
        c.near("force of a flexible chain against the Gaussian force", fnd(&p), want, (7.0 * k + 4.0 * p.g * p.g) * want);
        c.done("compared")
    }));
    // Legendre: isometric Gibbs energies from the published distribution, and the isotensional Legendre module likewise
    let leg = "wlc/thermodynamics/isometric/legendre";
    let g4: Vec<_> = ["nondimensional_gibbs_free_energy", "nondimensional_gibbs_free_energy_per_link", "gibbs_free_energy", "gibbs_free_energy_per_link"].iter().map(|f| (m(leg, f), *f)).collect();
    let mut dims = chain_dims(Wlc, Int(2, 255));
    dims[4] = dim("persistance_length_over_contour", Mix(vec![Log(0.003, 5.0), Lin(0.11, 0.14)]));
    dims.push(dim("length", Mix(vec![Lin(0.01, 0.98), Log(1e-3, 0.9)])));
    jobs.push(job("Legendre Gibbs energies", ctx.n(4000), dims, move |v| {
        let mut p = chain(Wlc, v);
        p.set_gamma(v[NCH]);
        let (nf, g, k) = (p.n(), p.g, p.nlp);
        let lam = p.lam() + (0.5 * (-1.0 / k).exp().acos().sin()).ln();
        let dl = wlc_dlnq(k, g);
        let want = -wlc_lnq(k, g) - (nf - 1.0) * lam + dl * g;
        let mut c = C::new();
        for (i, (f, name)) in g4.iter().enumerate() {
            let u = if i >= 2 { p.kt() } else { 1.0 } / if i % 2 == 1 { nf } else { 1.0 };
            c.near(&format!("{name} (whole chain, kT)"), f(&p) / u, want, 3e-6 * (1.0 + 20.0 * k * g) + 1e-9 * (want.abs() + dl.abs() * g) + 20.0 * jitter(*f, &p) / u);
        }
        c.done("compared")
    }));
    Prop { jobs, rule: "a chain with a persistence length on either side of the regime switch and a length drawn at random; every function compared with the published distribution, evaluated independently" }
}

/// number of hinges carrying momentum in a whole-chain energy
fn hinges(d: &Md, p: &P) -> f64 {
    match (d.m, d.cl) {
        (Ideal, _) => p.n(),
        (_, T) | (_, TL) | (_, McWeak) => p.n(),
        _ => p.n() - 1.0,
    }
}
/// whole-chain dependence on ln(link length) beyond the momentum factor: documented references
fn lnl(d: &Md, p: &P) -> f64 {
    let n = p.n();
    match (d.m, d.cl, d.k) {
        (Efjc, T | TL, Exact) => -n,
        (m, T | TL, k) if m.has_kappa() && k != Exact => -n,
        (m, IsoLeg, k) if m.has_kappa() && k != Exact => -(n - 1.0),
        (Fjc, Iso, _) => 3.0,
        _ => 0.0,
    }
}
pub fn c28(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods() {
        let en: Vec<_> = funcs(d.path).into_iter().filter(|e| parse(e.func).q == Q::Energy && !parse(e.func).relative).collect();
        let inv: Vec<_> = funcs(d.path).into_iter().filter(|e| parse(e.func).q != Q::Energy || parse(e.func).relative).collect();
        if en.is_empty() {
            continue;
        }
        let mut dims = d.dims_far();
        dims.push(dim("hinge_mass_2", Log(0.01, 100.0)));
        dims.push(dim("link_length_2", Log(0.1, 10.0)));
        dims.push(dim("temperature_2", Log(50.0, 1500.0)));
        let heavy = d.m == Wlc || d.cl == Mc || (d.k == Exact && matches!(d.m, Morse | LogSq | Lj));
        let dd = d.clone();
        jobs.push(job(format!("{} mass, temperature and length", d.path), ctx.n(if heavy { 150 } else { 600 }), dims, move |v| {
            let n = v.len();
            let p1 = dd.set(&v[..n - 3]);
            // the same nondimensional state of a chain of another mass; of another mass, length and temperature
            let mut vm = v[..n - 3].to_vec();
            vm[2] = v[n - 3];
            let pm = dd.set(&vm);
            let mut va = vm.clone();
            va[1] = v[n - 2];
            va[3] = v[n - 1];
            let mut pa = chain(dd.m, &va);
            pa.set_eta(p1.nf);
            pa.set_gamma(p1.g);
            pa.set_pot(p1.npd, p1.npk);
            let mut c = C::new();
            for e in &en {
                let (f, nm) = (e.meth.unwrap(), parse(e.func));
                let u = |p: &P| if nm.nondim { 1.0 } else { p.kt() } / if nm.per_link { p.n() } else { 1.0 };
                let g = |p: &P| f(p) / u(p);
                let b = g(&p1);
                let tol = |p: &P| 1e-11 * (1.0 + b.abs() + p1.n()) + 20.0 * (jitter(f, &p1) / u(&p1) + jitter(f, p) / u(p)) + if dd.m == Sw { 200.0 * p1.n() * sw_noise(&p1, p1.nf) } else { 0.0 };
                c.near(&format!("{}: change with hinge mass (whole chain, kT)", e.func), g(&pm) - b, -hinges(&dd, &p1) * (pm.hm / p1.hm).ln(), tol(&pm));
                let fjc_leg_gibbs = dd.path == "fjc/thermodynamics/isometric/legendre" && e.func.contains("gibbs");
                let x = if fjc_leg_gibbs { 3.0 } else { lnl(&dd, &p1) };
                let want = -hinges(&dd, &p1) * (pa.lam() - p1.lam()) + x * (pa.ll / p1.ll).ln();
                c.near(&format!("{}: change with mass, length and temperature at the same nondimensional state (whole chain, kT)", e.func), g(&pa) - b, want, tol(&pa));
            }
            for e in &inv {
                let f = e.meth.unwrap();
                let (a, b) = (f(&p1), f(&pm));
                if dd.m == Sw && e.func.contains("distribution") && !super::c10::sw_density_in_range(&p1) {
                    continue;
                }
                c.near(&format!("{}: unchanged by hinge mass", e.func), b, a, 1e-12 * a.abs() + 20.0 * dd.noise(e.func, &p1) + 1e-300);
            }
            c.done(if p1.nl < 6 { "few links" } else { "many links" })
        }));
    }
    // the constants
    jobs.push(job("Boltzmann constant", 1, vec![dim("unused", Pick(vec![0.0]))], |_| {
        let mut c = C::new();
        c.near("Boltzmann constant in J/(mol K)", polymers::physics::BOLTZMANN_CONSTANT, 1.380649e-23 * 6.02214076e23, 1e-9);
        c.near("constant used by the checks", KB, polymers::physics::BOLTZMANN_CONSTANT, 0.0);
        c.done("compared")
    }));
    jobs.push(job("reduced Planck constant", 1, vec![dim("unused", Pick(vec![0.0]))], |_| {
        let mut c = C::new();
        c.near("Planck constant over 2 pi in J ns/mol", polymers::physics::PLANCK_CONSTANT, 6.62607015e-34 * 6.02214076e23 * 1e9 / (2.0 * PI), 1e-10);
        c.near("constant used by the checks", H, polymers::physics::PLANCK_CONSTANT, 0.0);
        c.done("compared")
    }));
    jobs.push(job("probe: Planck constant", 1, vec![dim("unused", Pick(vec![0.0]))], |_| {
        let mut c = C::new();
        c.near("Planck constant in J ns/mol", polymers::physics::PLANCK_CONSTANT, 6.62607015e-34 * 6.02214076e23 * 1e9, 1e-9);
        c.done("compared")
    }));
    // absolute energies at a small load, against the momentum term with the constants themselves
    let _ = entry;
    Prop { jobs, rule: "one nondimensional state and two chains that differ in hinge mass (and link length and temperature); every absolute energy's change compared with the count of hinges, every other function unchanged" }
}
