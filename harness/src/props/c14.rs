//! C14 common limits of the models; C15 agreement of ensembles in their limits; C17 monotonicity, bounds and signs.
use super::c06::inv_tol;
use super::Prop;
use crate::fw::*;
use crate::mods::*;
use crate::models::*;
use crate::num::*;
use crate::params::P;
use crate::reg::{entry, m};

const X: &str = "nondimensional_end_to_end_length_per_link";
const XD: &str = "end_to_end_length";
const F: &str = "nondimensional_force";
const FD: &str = "force";
const RG: &str = "nondimensional_relative_gibbs_free_energy_per_link";
const RGD: &str = "relative_gibbs_free_energy";
const RA: &str = "nondimensional_relative_helmholtz_free_energy_per_link";
const RAD: &str = "relative_helmholtz_free_energy";

fn g_at(p: &P, g: f64) -> P {
    let mut q = p.clone();
    q.set_gamma(g);
    q
}
fn e_at(p: &P, e: f64) -> P {
    let mut q = p.clone();
    q.set_eta(e);
    q
}
/// leading anharmonic coefficient of the link stretch: lambda - 1 = x + b x^2 + ..., x = eta/kappa
fn anharm(mo: M, p: &P) -> f64 {
    match mo {
        Morse => 1.5 * alpha(p),
        LogSq => 1.5,
        Lj => 10.5,
        _ => 0.0,
    }
}

pub fn c14(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    let fjc_t = isot(Fjc, Exact);
    let fjc_tl = format!("{fjc_t}/legendre");
    let fjc_i = isom_leg(Fjc, Exact);
    let dimless = |f: fn(&P) -> f64, u: fn(&P) -> f64| move |p: &P| f(p) / u(p);
    let _ = dimless;
    // --- extensible -> freely jointed as stiffness grows; arbitrary-potential -> extensible
    for &(mo, k) in ISOT.iter().filter(|(mo, k)| mo.has_kappa() && !(*k == Exact && *mo != Efjc)) {
        let t = isot(mo, k);
        let pairs: Vec<_> = [(X, 0), (XD, 1), (RG, 2), (RGD, 3)].iter().map(|&(f, i)| (m(&t, f), m(&fjc_t, f), i, f)).collect();
        let mut dims = chain_dims(mo, nl_any());
        dims[4] = dim("link_stiffness_nondim", if k == Exact { Log(300.0, 1e5) } else { Log(300.0, 1e8) });
        if mo == Morse {
            dims[5] = dim("link_energy_over_stiffness", Log(0.05, 1.0));
        }
        dims.push(dim("force", Mix(vec![Log(0.01, 30.0), Lin(0.5, 30.0)])));
        let ar = if t.contains("asymptotic") && has_tl(mo, k) { Some((m(&format!("{t}/legendre"), RA), m(&fjc_tl, RA))) } else { None };
        jobs.push(job(format!("{t} becomes freely jointed"), ctx.n(1500), dims.clone(), move |v| {
            let mut p = chain(mo, v);
            if mo == Morse {
                p.set_eps(v[5] * p.nls);
            }
            p.set_eta(v[NCH]);
            let (e, kap, n) = (p.nf, p.nls, p.n());
            if e > 0.3 * eta_max(mo, &p) {
                return Out::Skip;
            }
            // bound on the first-order effect of the stiffness
            let c1 = (1.0 / c_asym(mo, &p)).max(1.0);
            let b = (2.0 * e + 3.0 * c1) / kap + 4.0 * anharm(mo, &p) * (e / kap).powi(2);
            let mut c = C::new();
            for (f, g, i, name) in &pairs {
                let (u, bound) = match i { 0 => (1.0, b), 1 => (n * p.ll, b), 2 => (1.0, b * e), _ => (n * p.kt(), b * e) };
                let fl = if *i < 2 { 1e-14 / e } else { 2e-9 } + 20.0 * (jitter(*f, &p) + jitter(*g, &p)) / u + if *i >= 2 { 20.0 * jitter(m_rel_base(k), &p).max(0.0) } else { 0.0 };
                c.near(&format!("{name} (per link) against the freely jointed chain"), f(&p) / u, g(&p) / u, bound + fl);
                // and the effect is there with the expected sign: extensible links are longer
                if *i == 0 && b < 0.2 {
                    c.yes("extensible response above the inextensible one", f(&p) >= g(&p) - fl);
                }
            }
            if let Some((f, g)) = ar {
                c.near("relative Helmholtz free energy per link", f(&p), g(&p), b * e * 2.0 + 3e-9);
            }
            c.done(if kap < 5e3 { "stiff" } else { "very stiff" })
        }));
        if mo != Efjc {
            let et = isot(Efjc, if k == Exact { Exact } else { k });
            let pairs: Vec<_> = [(X, 0), (XD, 1), (RG, 2), (RGD, 3)].iter().map(|&(f, i)| (m(&t, f), m(&et, f), i, f)).collect();
            jobs.push(job(format!("{t} becomes {et}"), ctx.n(1500), dims, move |v| {
                let mut p = chain(mo, v);
                if mo == Morse {
                    p.set_eps(v[5] * p.nls);
                }
                p.set_eta(v[NCH]);
                let (e, kap, n) = (p.nf, p.nls, p.n());
                if e > 0.2 * eta_max(mo, &p) {
                    return Out::Skip;
                }
                // the two differ in the constant of the stiffness correction and in the anharmonic stretch
                let c1 = if k == Reduced { 0.0 } else { (1.0 / c_asym(mo, &p) - 1.0).abs() };
                let b = 1.5 * c1 / kap + (if k == Reduced { 0.0 } else { 2.0 * (c1 + 1.0).powi(2) * (1.0 + e) / kap / kap }) + 2.5 * anharm(mo, &p) * (e / kap).powi(2);
                let mut c = C::new();
                for (f, g, i, name) in &pairs {
                    let (u, bound) = match i { 0 => (1.0, b), 1 => (n * p.ll, b), 2 => (1.0, b * e), _ => (n * p.kt(), b * e) };
                    let fl = if *i < 2 { 1e-14 / e + 1e-11 } else { 2e-9 } + 20.0 * (jitter(*f, &p) + jitter(*g, &p)) / u;
                    c.near(&format!("{name} (per link) against the extensible chain"), f(&p) / u, g(&p) / u, bound + fl);
                }
                c.done("compared")
            }));
        }
    }
    // isometric Legendre counterparts
    for &(mo, k) in ISOML.iter().filter(|(_, k)| *k != Exact) {
        let t = isom_leg(mo, k);
        let (f, fd, ra, rad) = (m(&t, F), m(&t, FD), m(&t, RA), m(&t, RAD));
        let (f0, ra0) = (m(&fjc_i, F), m(&fjc_i, RA));
        let mut dims = chain_dims(mo, nl_any());
        dims[4] = dim("link_stiffness_nondim", Log(300.0, 1e7));
        if mo == Morse {
            dims[5] = dim("link_energy_over_stiffness", Log(0.05, 1.0));
        }
        dims.push(dim("length", Mix(vec![Lin(0.02, 0.95), Log(5e-3, 0.5)])));
        jobs.push(job(format!("{t} becomes freely jointed"), ctx.n(1500), dims, move |v| {
            let mut p = chain(mo, v);
            if mo == Morse {
                p.set_eps(v[5] * p.nls);
            }
            p.set_gamma(v[NCH]);
            let e0 = f0(&p);
            if e0 > 0.2 * eta_max(mo, &p) {
                return Out::Skip;
            }
            let (kap, n) = (p.nls, p.n());
            let c1 = (1.0 / c_asym(mo, &p)).max(1.0);
            let bx = (2.0 * e0 + 3.0 * c1) / kap + 4.0 * anharm(mo, &p) * (e0 / kap).powi(2) + (inv_tol(mo) + inv_tol(Fjc)) * p.g;
            // lengths within bx of each other: forces within bx over the slope at the larger force
            let slope = dlangevin(e0);
            let mut c = C::new();
            c.near("nondimensional force against the freely jointed chain", f(&p), e0, bx / slope);
            c.near("force (kT/l)", fd(&p) * p.ll / p.kt(), e0, bx / slope);
            let t = inv_tol(mo) * p.g;
            c.near("relative Helmholtz free energy per link", ra(&p), ra0(&p), bx * e0 * 2.0 + t * t / slope + 3e-9);
            c.near("relative Helmholtz free energy", rad(&p) / n / p.kt(), ra0(&p), bx * e0 * 2.0 + t * t / slope + 3e-9);
            c.done("compared")
        }));
    }
    // --- square well -> freely jointed as the well narrows
    {
        let (t, i) = (isot(Sw, Exact), isom_leg(Sw, Exact));
        let tl = format!("{t}/legendre");
        let pairs = [(m(&t, X), m(&fjc_t, X)), (m(&t, RG), m(&fjc_t, RG)), (m(&tl, RA), m(&fjc_tl, RA))];
        let (xd, gd) = (m(&t, XD), m(&t, RGD));
        let mut dims = chain_dims(Sw, nl_any());
        dims[4] = dim("well_width_over_link_length", Log(1e-3, 0.1));
        dims.push(dim("force", Mix(vec![Log(0.05, 100.0), Lin(0.5, 30.0)])));
        jobs.push(job(format!("{t} becomes freely jointed"), ctx.n(3000), dims, move |v| {
            let mut p = chain(Sw, v);
            p.set_eta(v[NCH]);
            let (e, w, n) = (p.nf, p.ww / p.ll, p.n());
            let mut c = C::new();
            let nx = 40.0 * sw_noise(&p, e) / e;
            let ng = 40.0 * (sw_noise(&p, e) + sw_ref(&p));
            // a link's length lies in the well: l L(l eta) for l between 1 and 1+w
            let lo = langevin(e);
            let hi = (1.0 + w) * langevin((1.0 + w) * e);
            for x in [(pairs[0].0)(&p), xd(&p) / n / p.ll] {
                c.yes(&format!("length {x} per link between that of the shortest and the longest links {lo} {hi}"), x >= lo - nx - 1e-12 && x <= hi + nx + 1e-12);
            }
            c.near("length against the freely jointed chain", (pairs[0].0)(&p), (pairs[0].1)(&p), (hi - lo) * 1.0001 + nx + 1e-12);
            let dg = lnshc((1.0 + w) * e) - lnshc(e);
            if ng < 1e-2 {
                c.near("relative Gibbs free energy per link", (pairs[1].0)(&p), (pairs[1].1)(&p), dg * 1.0001 + ng + 1e-10);
                c.near("relative Gibbs free energy", gd(&p) / n / p.kt(), (pairs[1].1)(&p), dg * 1.0001 + ng + 1e-10);
                c.near("relative Helmholtz free energy per link", (pairs[2].0)(&p), (pairs[2].1)(&p), dg + (hi - lo) * e + 4.0 * ng + 1e-10);
            }
            c.done(if w < 0.01 { "narrow" } else { "medium" })
        }));
        let (f, f0, ra, ra0) = (m(&i, F), m(&fjc_i, F), m(&i, RA), m(&fjc_i, RA));
        let mut dims = chain_dims(Sw, nl_any());
        dims[4] = dim("well_width_over_link_length", Log(3e-3, 0.05));
        dims.push(dim("length", Lin(0.05, 0.9)));
        jobs.push(job(format!("{i} becomes freely jointed"), ctx.n(1500), dims, move |v| {
            let mut p = chain(Sw, v);
            p.set_gamma(v[NCH]);
            let w = p.ww / p.ll;
            let e0 = f0(&p);
            let hi = (1.0 + w) * langevin((1.0 + w) * e0);
            let bx = hi - p.g + 4e-6 * p.g + 80.0 * sw_noise(&p, e0) / e0;
            let slope = dlangevin(e0);
            let mut c = C::new();
            c.near("nondimensional force against the freely jointed chain", f(&p), e0, 1.01 * bx / slope);
            let ng = 100.0 * (sw_noise(&p, e0) + sw_ref(&p));
            if ng < 1e-2 {
                c.near("relative Helmholtz free energy per link", ra(&p), ra0(&p), 2.0 * bx * e0 + ng);
            }
            c.done("compared")
        }));
    }
    // --- freely jointed -> ideal at small load
    {
        let it = isot(Ideal, Exact);
        let il = "ideal/thermodynamics/isometric";
        let (x, xi, g, gi) = (m(&fjc_t, X), m(&it, X), m(&fjc_t, RG), m(&it, RG));
        let (f, fi, a, ai) = (m(&fjc_i, F), m(il, F), m(&fjc_i, RA), m(il, RA));
        let mut dims = chain_dims(Fjc, nl_any());
        dims.push(dim("load", Log(2e-3, 0.3)));
        jobs.push(job("freely jointed becomes ideal at small load", ctx.n(4000), dims, move |v| {
            let mut p = chain(Fjc, v);
            let e = v[NCH];
            p.set_eta(e);
            p.set_gamma(e / 3.0);
            let y = p.g;
            let mut c = C::new();
            c.near("length", x(&p), xi(&p), 1.01 * e.powi(3) / 45.0 + 1e-14 / e);
            c.yes("freely jointed chain is the shorter one", x(&p) <= xi(&p) + 1e-14 / e);
            c.near("relative Gibbs free energy per link", g(&p), gi(&p), 1.01 * e.powi(4) / 180.0 + 1e-11);
            c.near("force", f(&p), fi(&p), 1.2 * 1.8 * y.powi(3) + 4e-6 * y);
            c.near("relative Helmholtz free energy per link", a(&p), ai(&p), 1.2 * 0.45 * y.powi(4) + 1e-10);
            c.done("compared")
        }));
        let iso = "fjc/thermodynamics/isometric";
        let (f, a, q, qi, r, ri) = (m(iso, F), m(iso, RA), m(iso, "nondimensional_equilibrium_distribution"), m(il, "nondimensional_equilibrium_distribution"),
            m(iso, "nondimensional_equilibrium_radial_distribution"), m(il, "nondimensional_equilibrium_radial_distribution"));
        let mut dims = chain_dims(Fjc, Int(8, 26));
        dims.push(dim("length_over_gaussian_size", Lin(0.1, 1.0)));
        jobs.push(job("exact isometric freely jointed becomes ideal", ctx.n(3000), dims, move |v| {
            let mut p = chain(Fjc, v);
            let n = p.n();
            p.set_gamma(v[NCH] / n.sqrt());
            let mut c = C::new();
            let t = 2.0 / n + 2.0 * p.g * p.g;
            c.near("force", f(&p), fi(&p), t * fi(&p) + 20.0 * jitter(f, &p) + 1e-12 / p.g);
            c.near("relative Helmholtz free energy", n * a(&p), n * ai(&p), t * n * ai(&p) + 1e-7);
            c.near("density", q(&p), qi(&p), t * qi(&p));
            c.near("radial density", r(&p), ri(&p), t * ri(&p));
            c.done("compared")
        }));
    }
    // --- linear response with the zero-load compliance
    for d in mods().into_iter().filter(|d| d.cl == T && entry(d.path, X).is_some() && d.m != Wlc) {
        let (x, xd, rg) = (m(d.path, X), m(d.path, XD), m(d.path, RG));
        let mut dims = chain_dims(d.m, d.nl());
        dims.push(dim("load", Log(2e-3, 0.05)));
        let dd = d.clone();
        jobs.push(job(format!("{} linear at small force", d.path), ctx.n(800), dims, move |v| {
            let mut p = chain(dd.m, v);
            let e = v[NCH];
            p.set_eta(e);
            let n = p.n();
            // compliance of the reference at zero load
            let h = 0.02;
            let (x1, x2) = (ref_link(dd.m, dd.k, &p, h).1 / h, ref_link(dd.m, dd.k, &p, 2.0 * h).1 / (2.0 * h));
            let k0 = (4.0 * x1 - x2) / 3.0;
            let size = if dd.m == Sw { varsigma(&p).powi(4) } else { 1.0 + 30.0 / p.nls * anharm(dd.m, &p).max(1.0) };
            let mut c = C::new();
            let nx = 20.0 * jitter(x, &p) + 3e-13 / e + if dd.m == Efjc { 1e-15 / e / e } else { 0.0 } + if dd.m == Sw { 40.0 * sw_noise(&p, e) / e } else { 0.0 };
            let quad_skip = dd.k == Exact && matches!(dd.m, Morse | LogSq | Lj) && (super::c12::mid_link(dd.m, &p, e).1 - exact_link(dd.m, &p, e).1).abs() > 1e-9;
            if quad_skip {
                return Out::Skip;
            }
            c.near("length over force against the zero-load compliance", x(&p) / e, k0, size * e * e * 0.2 + 1e-6 * k0 + nx / e + anharm(dd.m, &p) * (4.0 * e + 0.04) / p.nls / p.nls);
            c.near("dimensional length over force", xd(&p) / p.ll / n / e, k0, size * e * e * 0.2 + 1e-6 * k0 + nx / e + anharm(dd.m, &p) * (4.0 * e + 0.04) / p.nls / p.nls);
            let ng = if dd.m == Sw { 60.0 * (sw_noise(&p, e) + sw_ref(&p)) } else { 3e-9 } + 20.0 * jitter(rg, &p);
            c.near("relative Gibbs free energy is quadratic", rg(&p), -0.5 * k0 * e * e, size * e.powi(4) * 0.2 + 1e-6 * e * e + ng + anharm(dd.m, &p) * (4.0 * e + 0.04) * e * e / p.nls / p.nls);
            c.done("linear")
        }));
    }
    Prop { jobs, rule: "a chain near one of the common limits and a load drawn at random; responses and relative energies of the two models compared within the first-order effect of the distance from the limit" }
}
fn has_tl(mo: M, k: K) -> bool {
    entry(&format!("{}/legendre", isot(mo, k)), RA).is_some()
}
fn m_rel_base(_: K) -> fn(&P) -> f64 {
    |_| 0.0
}

pub fn c15(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    let iso = "fjc/thermodynamics/isometric";
    let leg = "fjc/thermodynamics/isometric/legendre";
    let (f, fl, fd, fld) = (m(iso, F), m(leg, F), m(iso, FD), m(leg, FD));
    let (a, al) = (m(iso, RA), m(leg, RA));
    let mut dims = chain_dims(Fjc, Int(6, 26));
    dims.push(dim("length", Lin(0.05, 0.9)));
    jobs.push(job("exact isometric against Legendre: inverse in the number of links", ctx.n(6000), dims.clone(), move |v| {
        let mut p = chain(Fjc, v);
        p.set_gamma(v[NCH]);
        let (n, g) = (p.n(), p.g);
        // saddle point: P is exp(-N(eta g - ln shc eta)) / sqrt(L'(eta) (g/eta)^2): the first correction in 1/N
        let first = |g: f64| { let e = inv_langevin(g); 0.5 * (dlangevin(e) * (g / e).powi(2)).ln() };
        let c1 = deriv(first, g, 1e-4 * g.min(1.0 - g));
        let mut c = C::new();
        let tol = 8.0 / (n * n * (1.0 - g)) + 1e-5 / (1.0 - g).powi(2);
        c.near("nondimensional force beyond its Legendre approximation", f(&p) - fl(&p), c1 / n, tol);
        c.near("force beyond its Legendre approximation (kT/l)", (fd(&p) - fld(&p)) * p.ll / p.kt(), c1 / n, tol);
        c.near("relative Helmholtz free energy beyond its Legendre approximation", a(&p) - al(&p), (first(g) - first(1e-3)) / n, 4.0 / (n * n) + 1e-6 / (1.0 - g));
        c.done(if n < 12.0 { "few links" } else { "many links" })
    }));
    // modified canonical -> isometric for strong potentials, -> isotensional for weak distant ones
    let mc = "fjc/thermodynamics/modified_canonical";
    let st = "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential";
    let wk = "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential";
    let (fm, fs) = (m(mc, F), m(st, F));
    let (xm, xw, xt) = (m(mc, X), m(wk, X), m(&isot(Fjc, Exact), X));
    let mut dims = chain_dims(Fjc, Int(8, 26));
    dims.push(dim("stiffness_coordinate", Log(120.0, 350.0))); // N^2 kappa
    jobs.push(job("strong potentials: modified canonical becomes isometric", ctx.n(1200), dims, move |v| {
        let p = chain(Fjc, v);
        let n = p.n();
        let errs = |k: f64| {
            let (mut e, mut es) = (0.0f64, 0.0f64);
            for i in 1..=6 {
                let mut q = p.clone();
                q.set_gamma(0.1 * i as f64);
                q.set_pot(0.1 * i as f64, k / (n * n));
                e = e.max((fm(&q) - f(&q)).abs());
                es = es.max((fs(&q) - fm(&q)).abs());
            }
            (e, es)
        };
        let (e1, e2) = (errs(v[NCH]), errs(4.0 * v[NCH]));
        let mut c = C::new();
        c.yes(&format!("difference from the isometric force decreases with the stiffness ({:e} then {:e})", e1.0, e2.0), e2.0 < 0.6 * e1.0 + 1e-6);
        c.yes(&format!("difference of the strong-potential form decreases with the stiffness ({:e} then {:e})", e1.1, e2.1), e2.1 < 0.6 * e1.1 + 1e-6);
        c.done("converging")
    }));
    // the strong-potential form improves on the isometric response where its terms matter
    let mut dims = chain_dims(Fjc, Int(4, 26));
    dims.push(dim("stiffness_coordinate", Log(0.02, 0.3)));
    dims.push(dim("force", Lin(0.3, 12.0)));
    jobs.push(job("weak distant potentials: modified canonical becomes isotensional", ctx.n(1500), dims, move |v| {
        let p = chain(Fjc, v);
        let n = p.n();
        let e = v[NCH + 1];
        let errs = |k: f64| {
            let mut q = p.clone();
            q.set_eta(e);
            q.set_pot(e * n / k, k / (n * n)); // N kappa d = eta
            // the force itself and the length
            ((fm(&q) - e).abs(), (xm(&q) - xt(&q)).abs(), (xm(&q) - xw(&q)).abs(), xm(&q), 20.0 * jitter(xm, &q), xm(&q) - xw(&q))
        };
        // stiffness per link well below one: N kappa = k/N
        let (a1, a2) = (errs(v[NCH]), errs(v[NCH] / 4.0));
        // the length is a small difference of the distance and the force over the stiffness
        let fl = 1e-6 + a1.4.max(a2.4) + 3e-7 * e * n / v[NCH];
        let mut c = C::new();
        let _ = (a1.0, a1.3);
        // the length is the distance minus force over stiffness: the two forces agree to the stiffness times the length
        let nk = v[NCH] / n;
        c.yes(&format!("force approaches that of the distant potential ({:e}, {:e})", a1.0, nk), a1.0 <= nk * 1.0001 + fl * nk);
        c.yes(&format!("length approaches the isotensional one ({:e} then {:e})", a1.1, a2.1), a2.1 < 0.35 * a1.1 + fl && a1.1 < nk);
        // to first order in the stiffness the exact length is L (1 - (N - 1) kappa L'), the documented form has N for N - 1
        let (ll, kap) = (langevin(e) * dlangevin(e), v[NCH] / (n * n));
        for (a, k) in [(&a1, kap), (&a2, kap / 4.0)] {
            c.near("weak-potential length beyond the modified canonical one", a.5, k * ll, 2.0 * (n * k).powi(2) + fl);
        }
        c.done("converging")
    }));
    let mut dims = chain_dims(Fjc, Int(6, 26));
    dims.push(dim("stiffness_coordinate", Log(300.0, 1500.0)));
    dims.push(dim("distance", Lin(0.15, 0.7)));
    let (am, asx) = (m(mc, "nondimensional_helmholtz_free_energy"), m(st, "nondimensional_helmholtz_free_energy"));
    let ai = m(iso, "nondimensional_helmholtz_free_energy");
    jobs.push(job("strong potentials: absolute Helmholtz free energies", ctx.n(2500), dims, move |v| {
        let mut p = chain(Fjc, v);
        let n = p.n();
        p.set_gamma(v[NCH + 1]);
        p.set_pot(v[NCH + 1], v[NCH] / (n * n));
        let k = v[NCH];
        let q = fjc_derivs(p.nl as usize, p.npd);
        // corrections of first order in the inverse stiffness: of the exact one the Laplacian, of the documented form the curvature
        let lap = (q[2] + 2.0 * q[1] / p.npd) / q[0];
        let base = ai(&p) - 3.0 * p.contour().ln() - 1.5 * (2.0 * std::f64::consts::PI / k).ln();
        let mut c = C::new();
        let second = 6.0 * (lap.abs() + 3.0 * n).powi(2) / (k * k);
        c.near("modified canonical Helmholtz free energy", am(&p), base - lap / (2.0 * k), second + 1e-6);
        c.near("strong-potential Helmholtz free energy", asx(&p), base - q[2] / q[0] / (2.0 * k), 1e-8 * base.abs() + 1e-7);
        c.near("strong-potential against modified canonical", asx(&p), am(&p), (2.0 * q[1] / p.npd / q[0]).abs() / (2.0 * k) + second + 1e-6);
        c.done("compared")
    }));
    Prop { jobs, rule: "a chain (at least 4 links) and a load drawn at random, evaluated in both ensembles at one or two distances from the limit" }
}

pub fn c17(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    // isotensional
    for d in mods().into_iter().filter(|d| d.cl == T) {
        let xs: Vec<_> = [X, "nondimensional_end_to_end_length", XD, "end_to_end_length_per_link"].iter().map(|f| (m(d.path, f), *f)).collect();
        let gs: Vec<_> = ["nondimensional_relative_gibbs_free_energy", RG, RGD, "relative_gibbs_free_energy_per_link"].iter().map(|f| (m(d.path, f), *f)).collect();
        let tl = format!("{}/legendre", d.path);
        let ra: Vec<_> = if entry(&tl, RA).is_some() {
            ["nondimensional_relative_helmholtz_free_energy", RA, RAD, "relative_helmholtz_free_energy_per_link"].iter().map(|f| (m(&tl, f), *f)).collect()
        } else { vec![] };
        let mut dims = d.dims();
        dims.push(dim("step", Log(0.03, 1.0)));
        let dd = d.clone();
        let heavy = d.m == Wlc || (d.k == Exact && matches!(d.m, Morse | LogSq | Lj));
        jobs.push(job(d.path, ctx.n(if heavy { 500 } else { 2500 }), dims, move |v| {
            let nv = v.len();
            let p1 = dd.set(&v[..nv - 1]);
            let mut w = v[..nv - 1].to_vec();
            w[NCH] *= 1.0 + v[nv - 1];
            let p2 = dd.set(&w);
            let n = p1.n();
            if !(p2.nf > p1.nf * 1.002) {
                return Out::Skip;
            }
            if dd.m == Wlc && !(n * p1.nf < 300.0) {
                return Out::Skip; // unresolved by the quadrature (known finding)
            }
            let mut c = C::new();
            if dd.k == Exact && matches!(dd.m, Morse | LogSq | Lj) && (super::c12::mid_link(dd.m, &p2, p2.nf).1 - exact_link(dd.m, &p2, p2.nf).1).abs() + (super::c12::mid_link(dd.m, &p1, p1.nf).1 - exact_link(dd.m, &p1, p1.nf).1).abs() > 1e-6 {
                return Out::Skip;
            }
            for (x, name) in &xs {
                let u = if name.starts_with("nondim") { 1.0 } else { p1.ll } * if name.ends_with("per_link") { 1.0 } else { n };
                let (x1, x2) = (x(&p1) / u, x(&p2) / u);
                let nx = 20.0 * (jitter(*x, &p1) + jitter(*x, &p2)) / u + 1e-14 / p1.nf + if dd.m == Sw { 40.0 * sw_noise(&p1, p1.nf) / p1.nf } else { 0.0 } + if dd.m == Efjc { 1e-15 / p1.nf.powi(2).min(1.0) } else { 0.0 };
                c.yes(&format!("{name} increases with force: {x1:e} at {:e}, {x2:e} at {:e}", p1.nf, p2.nf), x2 > x1 - nx && (x2 > x1 || (x2 - x1).abs() <= nx));
                c.yes(&format!("{name} has the sign of the force: {x1:e}"), x1 > -nx);
                match dd.m {
                    Fjc | Wlc => c.yes(&format!("{name} below the contour length: {x2:e}"), x2 < 1.0),
                    Sw => c.yes(&format!("{name} below the longest length: {x2:e}"), x2 < varsigma(&p2) && x2 >= langevin(p2.nf) - nx),
                    Efjc | Morse | LogSq | Lj => {
                        // the exact model of an arbitrary potential is cut off at the rupture stretch
                        c.yes(&format!("{name} above the inextensible response: {x2:e}"), dd.k == Exact && dd.m != Efjc || x2 >= langevin(p2.nf) - nx);
                        if dd.k == Exact && dd.m != Efjc {
                            c.yes(&format!("{name} below the rupture stretch: {x2:e}"), x2 < lam_max(dd.m, &p2));
                        }
                    }
                    Ideal => {}
                }
            }
            for (g, name) in &gs {
                let u = if name.starts_with("nondim") { 1.0 } else { p1.kt() } * if name.ends_with("per_link") { 1.0 } else { n };
                let (g1, g2) = (g(&p1) / u, g(&p2) / u);
                let ng = 20.0 * (dd.noise(name, &p1) + dd.noise(name, &p2)) / u + 3e-9;
                c.yes(&format!("{name} negative: {g1:e}"), g1 < ng);
                c.yes(&format!("{name} decreasing: {g1:e} then {g2:e}"), g2 < g1 + ng);
                // concave: the midpoint lies above the chord
                let mut pm = p1.clone();
                pm.set_eta(0.5 * (p1.nf + p2.nf));
                let gm = g(&pm) / u;
                c.yes(&format!("{name} concave: {g1:e} {gm:e} {g2:e}"), gm >= 0.5 * (g1 + g2) - ng);
            }
            for (a, name) in &ra {
                let u = if name.starts_with("nondim") { 1.0 } else { p1.kt() } * if name.ends_with("per_link") { 1.0 } else { n };
                let (a1, a2) = (a(&p1) / u, a(&p2) / u);
                let tlm = Md { path: dd.path, cl: TL, ..dd.clone() };
                let _ = &tlm;
                let na = 40.0 * (jitter(*a, &p1) + jitter(*a, &p2)) / u + 3e-9 + if dd.m == Sw { 200.0 * (sw_noise(&p1, p1.nf) + sw_ref(&p1)) } else { 0.0 };
                c.yes(&format!("Legendre {name} positive: {a1:e}"), a1 > -na);
                c.yes(&format!("Legendre {name} increasing: {a1:e} then {a2:e}"), a2 > a1 - na);
            }
            c.done(if p1.nf < 0.3 { "small force" } else if p1.nf < 10.0 { "medium" } else { "large force" })
        }));
    }
    // isometric: Legendre forms, the ideal chain, exact chains long enough to be stable everywhere
    for d in mods().into_iter().filter(|d| matches!(d.cl, IsoLeg | Iso) && entry(d.path, F).is_some() && d.m != Wlc) {
        let (f, fd) = (m(d.path, F), m(d.path, FD));
        let ra: Vec<_> = ["nondimensional_relative_helmholtz_free_energy", RA, RAD, "relative_helmholtz_free_energy_per_link"].iter().map(|f| (m(d.path, f), *f)).collect();
        let nl = if d.exact_sums() && d.cl == Iso { Int(6, 26) } else { d.nl() };
        let mut dims = chain_dims(d.m, nl);
        dims.extend(d.load_dims());
        dims.push(dim("step", Log(0.03, 1.0)));
        let dd = d.clone();
        jobs.push(job(d.path, ctx.n(2000), dims, move |v| {
            let nv = v.len();
            let p1 = dd.set(&v[..nv - 1]);
            let mut p2 = p1.clone();
            if dd.cl == IsoLeg {
                let mut w = v[..nv - 1].to_vec();
                w[NCH] *= 1.0 + v[nv - 1];
                p2 = dd.set(&w);
            } else {
                let top = if dd.m == Ideal { 3.0 } else { 0.999 };
                p2.set_gamma((p1.g * (1.0 + v[nv - 1])).min(p1.g + v[nv - 1] * (top - p1.g)));
            }
            if !(p2.g > p1.g * 1.002) {
                return Out::Skip;
            }
            let n = p1.n();
            let mut c = C::new();
            for (f, u) in [(f, 1.0), (fd, p1.kt() / p1.ll)] {
                let (f1, f2) = (f(&p1) / u, f(&p2) / u);
                let slope = (f2 - f1).abs() / (p2.g - p1.g);
                let nf = 20.0 * (jitter(f, &p1) + jitter(f, &p2)) / u + 2.0 * inv_tol(dd.m) * p1.g * slope.min(1e12);
                c.yes(&format!("force increases with length: {f1:e} at {:e}, {f2:e} at {:e}", p1.g, p2.g), f2 > f1 - nf && (f2 > f1 || (f1 - f2).abs() <= nf));
                c.yes(&format!("force has the sign of the length: {f1:e}"), f1 > 0.0);
                // an extensible chain needs less force than the inextensible one
                if dd.cl == IsoLeg && dd.m != Fjc && p1.g < 0.99 {
                    let e0 = inv_langevin(p1.g);
                    c.yes(&format!("force {f1:e} below the inextensible one {e0:e}"), f1 <= e0 * (1.0 + 1e-6) + nf + inv_tol(dd.m) * p1.g / dlangevin(e0));
                }
            }
            for (a, name) in &ra {
                let u = if name.starts_with("nondim") { 1.0 } else { p1.kt() } * if name.ends_with("per_link") { 1.0 } else { n };
                let (a1, a2) = (a(&p1) / u, a(&p2) / u);
                let na = 20.0 * (dd.noise(name, &p1) + dd.noise(name, &p2)) / u + 3e-9 + if dd.m == Sw { 200.0 * (sw_noise(&p1, p1.nf) + sw_ref(&p1)) } else { 0.0 };
                c.yes(&format!("{name} positive: {a1:e}"), a1 > -na);
                c.yes(&format!("{name} increasing: {a1:e} then {a2:e}"), a2 > a1 - na);
            }
            c.done(if p1.g < 0.1 { "short" } else if p1.g < 0.9 { "medium" } else { "long" })
        }));
    }
    // worm-like chain: stable between the linear regime and near full extension for flexible chains
    {
        let path = "wlc/thermodynamics/isometric";
        let (f, a) = (m(path, F), m(path, RA));
        let mut dims = chain_dims(Wlc, Int(2, 60));
        dims[4] = dim("persistance_length_over_contour", Log(0.005, 0.1));
        dims.push(dim("length", Lin(0.02, 0.97)));
        dims.push(dim("step", Log(0.03, 0.9)));
        jobs.push(job(path, ctx.n(2500), dims, move |v| {
            let mut p = chain(Wlc, v);
            p.set_gamma(v[NCH]);
            let q = g_at(&p, p.g + v[NCH + 1] * (0.985 - p.g));
            let mut c = C::new();
            c.yes(&format!("force increases with length: {:e} then {:e}", f(&p), f(&q)), f(&q) > f(&p));
            c.yes("force positive", f(&p) > 0.0);
            c.yes(&format!("relative Helmholtz free energy positive and increasing: {:e} {:e}", a(&p), a(&q)), a(&p) > -1e-7 && a(&q) > a(&p));
            c.done("flexible")
        }));
    }
    // modified canonical: force increases with the distance, length stays inside the contour
    {
        let d = md("fjc/thermodynamics/modified_canonical");
        let (f, x, a) = (m(d.path, F), m(d.path, X), m(d.path, RA));
        let mut dims = chain_dims(Fjc, Int(6, 26));
        dims.extend(d.load_dims());
        dims.push(dim("step", Log(0.03, 1.0)));
        let dd = d.clone();
        jobs.push(job(d.path, ctx.n(800), dims, move |v| {
            let p = dd.set(&v[..v.len() - 1]);
            let mut q = p.clone();
            q.set_pot(p.npd * (1.0 + v[v.len() - 1]), p.npk);
            let mut c = C::new();
            let nf = 20.0 * (jitter(f, &p) + jitter(f, &q)) + 1e-6;
            c.yes(&format!("force increases with distance: {:e} then {:e}", f(&p), f(&q)), f(&q) > f(&p) - nf);
            c.yes("force pulls towards the potential", f(&p) > -nf);
            let nx = 20.0 * (jitter(x, &p) + jitter(x, &q)) + 1e-9 + nf / (p.n() * p.npk);
            c.yes(&format!("length increases with distance and stays below the contour length: {:e} then {:e}", x(&p), x(&q)), x(&q) > x(&p) - nx && x(&q) < 1.0 + nx && x(&p) > -nx);
            c.yes(&format!("relative Helmholtz free energy positive and increasing: {:e} {:e}", a(&p), a(&q)), a(&p) > -1e-6 && a(&q) > a(&p) - 1e-6);
            c.done("compared")
        }));
    }
    // odd and even: negative forces where the model's formulas are symmetric
    for (mo, k) in [(Ideal, Exact), (Fjc, Exact), (Efjc, Asym), (Efjc, Reduced), (Efjc, Alt)] {
        let t = isot(mo, k);
        let d = md(Box::leak(t.clone().into_boxed_str()));
        let xs: Vec<_> = [X, "nondimensional_end_to_end_length", XD, "end_to_end_length_per_link"].iter().map(|f| m(&t, f)).collect();
        let gs: Vec<_> = ["nondimensional_relative_gibbs_free_energy", "nondimensional_gibbs_free_energy_per_link", RGD, "gibbs_free_energy"].iter().map(|f| m(&t, f)).collect();
        jobs.push(job(format!("{t} odd lengths and even energies"), ctx.n(600), d.dims(), move |v| {
            let p = d.set(v);
            let q = e_at(&p, -p.nf);
            let mut c = C::new();
            for x in &xs {
                c.near("length at the opposite force", x(&q), -x(&p), 1e-12 * x(&p).abs() + 20.0 * jitter(*x, &p));
            }
            for g in &gs {
                c.near("energy at the opposite force", g(&q), g(&p), 1e-12 * g(&p).abs() + 20.0 * jitter(*g, &p));
            }
            c.done("compared")
        }));
    }
    Prop { jobs, rule: "a chain and two loads (or a load and its opposite) drawn at random; orderings, signs, bounds and curvature compared" }
}
