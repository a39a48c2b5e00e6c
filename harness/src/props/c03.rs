//! C03 dimensional = nondimensional * unit; C04 whole = N * per link; C05 relative = difference of absolutes.
use super::Prop;
use crate::fw::*;
use crate::mods::*;
use crate::models::*;
use crate::reg::entry;

pub fn c03(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods() {
        for e in funcs(d.path) {
            if e.func.starts_with("nondimensional_") {
                continue;
            }
            let nf = format!("nondimensional_{}", e.func);
            let Some(ne) = entry(d.path, &nf) else { continue };
            let (f, g) = (e.meth.unwrap(), ne.meth.unwrap());
            let (ff, gf) = (e.free, ne.free);
            let func = e.func;
            let d = d.clone();
            jobs.push(job(format!("{} {}", d.path, e.func), ctx.n(300), d.dims_fn_signed(e.func), move |v| {
                let p = d.set_signed(v);
                let u = unit(func, &p);
                let s = scale(func, &p);
                let (a, b) = (f(&p) / u, g(&p));
                if !a.is_finite() && !b.is_finite() {
                    return Out::Skip;
                }
                let tol = 1e-10 * b.abs() + 1e-10 * s + 20.0 * (d.noise(&nf, &p) + d.noise(func, &p) / u);
                let mut c = C::new();
                c.near("dimensional value / unit", a, b, tol);
                if let (Some(ff), Some(gf)) = (ff, gf) {
                    let (fa, fb) = (ff(&p) / u, gf(&p));
                    if fa.is_finite() || fb.is_finite() {
                        c.near("free functions: dimensional value / unit", fa, fb, 1e-10 * fb.abs() + 1e-10 * s + 20.0 * (jitter(gf, &p) + jitter(ff, &p) / u) + tol);
                    }
                }
                c.done("compared")
            }));
        }
        // scaling: a chain with other units but the same nondimensional state gives the same nondimensional answers
        for e in funcs(d.path) {
            if e.func.starts_with("nondimensional_") || e.func.contains("distribution") || (parse(e.func).q == Q::Energy && !parse(e.func).relative) {
                continue;
            }
            let f = e.meth.unwrap();
            let func = e.func;
            let d = d.clone();
            let mut dims = d.dims_far();
            dims.push(dim("length_factor", Log(0.2, 5.0)));
            dims.push(dim("temperature_factor", Log(0.3, 3.0)));
            jobs.push(job(format!("scaling {} {}", d.path, e.func), ctx.n(60), dims, move |v| {
                let p = d.set(v);
                let n = v.len();
                let mut v2 = v.to_vec();
                v2[1] *= v[n - 2];
                v2[3] *= v[n - 1];
                let q = d.set(&v2[..n - 2]);
                let (a, b) = (f(&p) / unit(func, &p), f(&q) / unit(func, &q));
                if !a.is_finite() && !b.is_finite() {
                    return Out::Skip;
                }
                let mut c = C::new();
                let tol = 1e-10 * b.abs() + 1e-10 * scale(func, &p) + 20.0 * (d.noise(func, &q) / unit(func, &q) + d.noise(func, &p) / unit(func, &p));
                c.near("value / unit at another temperature and link length", a, b, tol);
                c.done("compared")
            }));
        }
    }
    Prop { jobs, rule: "chain, temperature and load drawn at random; both forms evaluated finite and compared" }
}

pub fn c04(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods() {
        for e in funcs(d.path) {
            if !e.func.ends_with("_per_link") {
                continue;
            }
            let wn = e.func.strip_suffix("_per_link").unwrap();
            let w = entry(d.path, wn).unwrap();
            let (f, g) = (w.meth.unwrap(), e.meth.unwrap());
            let func = e.func;
            let d = d.clone();
            jobs.push(job(format!("{} {}", d.path, wn), ctx.n(400), d.dims_fn_signed(e.func), move |v| {
                let p = d.set_signed(v);
                let u = if func.starts_with("nondim") { 1.0 } else { unit(func, &p) };
                let n = p.n();
                let (a, b) = (f(&p) / u, g(&p) / u);
                if !a.is_finite() && !b.is_finite() {
                    return Out::Skip;
                }
                let tol = 1e-11 * n * b.abs() + 1e-11 * n + 20.0 * (n * d.noise(func, &p) + d.noise(wn, &p)) / u;
                let mut c = C::new();
                c.near("whole chain, against number_of_links * per link", a, n * b, tol);
                c.done(if n == 1.0 { "one link" } else { "compared" })
            }));
        }
    }
    Prop { jobs, rule: "chain, temperature and load drawn at random; both forms evaluated finite and compared" }
}

pub fn c05(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods() {
        for e in funcs(d.path) {
            if !e.func.contains("relative_") {
                continue;
            }
            let an = e.func.replace("relative_", "");
            let a = entry(d.path, &an).unwrap();
            let (f, g) = (e.meth.unwrap(), a.meth.unwrap());
            let func = e.func;
            {
                let d = d.clone();
                jobs.push(job(format!("{} {}", d.path, e.func), ctx.n(300), d.dims_fn(e.func), move |v| {
                    let p = d.set(v);
                    let u = if func.starts_with("nondim") { 1.0 } else { unit(func, &p) };
                    let s = scale(func, &p);
                    let z = d.zero(&p);
                    let (a, b, b0) = (f(&p) / u, g(&p) / u, g(&z) / u);
                    if !a.is_finite() && !b.is_finite() {
                        return Out::Skip;
                    }
                    let tol = 1e-10 * s + 1e-10 * (b.abs() + b0.abs()) + 20.0 * (d.noise(func, &p) + jitter(g, &p) + jitter(g, &z)) / u;
                    let mut c = C::new();
                    c.near("relative energy, against the difference of absolute energies", a, b - b0, tol);
                    // independence of the hinge mass
                    let mut q = p.clone();
                    q.hm *= 3.7;
                    let tm = 1e-11 * s + 1e-10 * a.abs() + 20.0 * d.noise(func, &p) / u;
                    c.near("relative energy with another hinge mass", f(&q) / u, a, tm);
                    c.done("compared")
                }));
            }
            // vanishes with the load, quadratically
            let d = d.clone();
            let mut dims = chain_dims(d.m, d.nl());
            dims.push(dim("load", Log(1e-6, 1e-4)));
            dims.push(dim("potential_stiffness_coordinate", Log(0.1, 1000.0)));
            jobs.push(job(format!("at zero load {} {}", d.path, e.func), ctx.n(60), dims, move |v| {
                let mut p = chain(d.m, v);
                if d.exact_sums() && p.nl == 2 {
                    return Out::Skip; // the density of two links diverges at zero length, and so does the reference
                }
                let n = p.n();
                let x = v[NCH];
                p.set_eta(x);
                p.set_gamma(x);
                p.set_pot(x, v[NCH + 1] / (n * n));
                let u = if func.starts_with("nondim") { 1.0 } else { unit(func, &p) };
                let s = scale(func, &p);
                let z = d.zero(&p);
                let a = f(&p) / u;
                // quadratic response: every model is softer than 100 times the ideal chain at zero load
                let bound = match d.cl {
                    // the density of a chain of four links has a cusp at zero length
                    Iso | IsoLeg if d.exact_sums() && p.nl == 4 => 10.0 * x,
                    T | TL => 1e3 * x * x,
                    Iso | IsoLeg => 1e3 * x * x,
                    Mc | McStrong => (v[NCH + 1] + 10.0) * 1e3 * x * x,
                    McWeak => (v[NCH + 1] + 1.0).powi(3) * 1e3 * x * x,
                };
                let mut c = C::new();
                c.near("relative energy near zero load", a, 0.0, s * (1e-9 + bound * (1.0 + p.nlp) * if d.m == Sw { 10.0 } else { 1.0 }) + 1e-12 * (g(&z) / u).abs() + 20.0 * (d.noise(func, &p) + jitter(g, &p) + jitter(g, &z)) / u);
                c.done("compared")
            }));
        }
    }
    jobs.push(job("probe: strong potential near the origin", 1, vec![dim("number_of_links", Pick(vec![3.0])), dim("potential_distance", Pick(vec![1e-4])), dim("potential_stiffness_coordinate", Pick(vec![1.0]))], |v| {
        let f = polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy;
        let mut c = C::new();
        c.near("relative Helmholtz free energy near zero potential distance", f(&(v[0] as u8), &v[1], &(v[2] / v[0] / v[0])), 0.0, 1e-3);
        c.done("compared")
    }));
    Prop { jobs, rule: "chain, temperature and load drawn at random; relative and absolute energies evaluated finite and compared" }
}
