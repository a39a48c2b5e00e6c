//! C01 all call forms agree.
use super::Prop;
use crate::fw::*;
use crate::mods::*;
use crate::models::*;
use crate::registry::FIELDS;

pub fn c01(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods() {
        for e in funcs(d.path) {
            let d = d.clone();
            let with_norm = e.free_args.contains(&"norm");
            let func = e.func;
            jobs.push(job(format!("{} {}", d.path, e.func), ctx.n(200), d.dims_fn_signed(e.func), move |v| {
                let p = d.set_signed(v);
                let (fr, me, ro, ex) = (e.free.unwrap(), e.meth.unwrap(), e.root.unwrap(), e.ext.unwrap());
                let (a, r) = (me(&p), ro(&p));
                let mut q = p.clone();
                if with_norm {
                    // the normalisation the object holds, read off at another length
                    let mut r = p.clone();
                    r.set_gamma(0.11 * if d.m == Sw { varsigma(&p) } else { 1.0 });
                    r.norm = 1.0;
                    q.norm = fr(&r) / me(&r);
                    if !(q.norm.is_normal() && fr(&r) > 1e-290) {
                        return Out::Skip; // under- or overflow, see the findings
                    }
                }
                let (b, x) = (fr(&q), ex(&q));
                let u = unit(func, &p) * scale(func, &p);
                let u = if func.starts_with("nondim") { scale(func, &p) } else { u };
                let mut c = C::new();
                if !a.is_finite() && !b.is_finite() && !x.is_finite() && !r.is_finite() {
                    return Out::Skip;
                }
                let tol = 1e-11 * a.abs() + 1e-12 * u + 20.0 * d.noise(func, &p) + if with_norm { 1e-9 * a.abs() } else { 0.0 };
                c.near("free function, against the method", b, a, tol);
                c.near("method of the module's own object, against the same through the whole model's", a, r, 1e-13 * a.abs() + tol * 1e-3);
                c.near("C interface, against the free function", x, b, 1e-13 * b.abs() + tol * 1e-3);
                c.done("compared")
            }));
        }
    }
    // parameters at every level of nesting
    for mo in [Ideal, Fjc, Efjc, Sw, Morse, LogSq, Lj, Wlc] {
        let mut dims = chain_dims(mo, Int(2, 255));
        for x in dims.iter_mut().skip(1) {
            if x.name != "unused_a" && x.name != "unused_b" && x.name != "persistance_length_over_contour" {
                x.dist = Log(0.1, 100.0);
            }
        }
        jobs.push(job(format!("{} parameters of every nested object", mo.path()), ctx.n(200), dims, move |v| {
            let p = chain(mo, v);
            let mut c = C::new();
            let mut k = 0;
            for (module, field, f) in FIELDS.iter().filter(|x| x.0 == mo.path() || x.0.starts_with(&format!("{}/", mo.path()))) {
                let (got, want) = f(&p);
                c.yes(&format!("{module}: {field} is {got}, initialised with {want}"), got == want);
                k += 1;
            }
            c.yes("no fields", k > 5);
            c.done("compared")
        }));
    }
    Prop { jobs, rule: "chain and load drawn at random; free function, method and exported C symbol evaluated finite and compared" }
}
