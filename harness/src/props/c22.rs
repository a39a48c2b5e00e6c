//! C22 purity over histories; C23 totality.
use super::Prop;
use crate::fw::*;
use crate::models::*;
use crate::mods::*;
use crate::num::*;
use crate::params::P;
use crate::reg::Obj;
use crate::registry::make;

/// families with held model objects
const FAM: [(M, &str); 8] = [
    (Ideal, "ideal"), (Fjc, "fjc"), (Efjc, "efjc"), (Sw, "swfjc"), (Morse, "ufjc/morse"), (LogSq, "ufjc/log_squared"), (Lj, "ufjc/lennard_jones"), (Wlc, "wlc"),
];
/// an admissible state of the family drawn from few shapes, so that different states share some of their parameters
fn state(m: M, d: &Md, w: &[f64]) -> P {
    let pick = |i: usize, v: &[f64]| v[((w[i] * v.len() as f64) as usize).min(v.len() - 1)];
    let n = if m == Wlc { pick(0, &[5.0, 8.0, 25.0]) } else { pick(0, &[3.0, 8.0, 20.0]) };
    let (a, b) = match m {
        Efjc => (pick(4, &[60.0, 200.0, 1000.0]), 0.0),
        Sw => (pick(4, &[0.2, 0.7, 1.1]), 0.0),
        Morse => (pick(4, &[100.0, 200.0, 700.0]), pick(5, &[10.0, 50.0, 90.0])),
        LogSq | Lj => (pick(4, &[100.0, 200.0, 700.0]), 0.0),
        Wlc => (pick(4, &[0.06, 0.2, 0.7]), 0.0),
        _ => (0.0, 0.0),
    };
    let mut p = chain(m, &[n, pick(1, &[1.0, 0.7, 2.0]), pick(2, &[1.0, 3.0]), pick(3, &[300.0, 250.0, 400.0]), a, b]);
    match d.cl {
        Iso => p.set_gamma(pick(6, &[0.2, 0.5, 0.8])),
        McStrong => p.set_pot(pick(6, &[0.2, 0.5, 0.8]), pick(7, &[1e3, 1e4]) / (n * n)),
        Mc => p.set_pot(pick(6, &[0.2, 0.5, 0.8]), pick(7, &[1.0, 100.0]) / (n * n)),
        McWeak => p.set_pot(pick(6, &[2.0, 5.0, 80.0]), pick(7, &[0.1, 1.0]) / (n * n)),
        _ => {
            let x = pick(6, &[0.5, 2.0, 6.0]);
            let e = if m == Wlc { x } else { force_of(m, &p, x) };
            p.set_eta(e);
            p.set_gamma(if d.cl == IsoLeg { asym_link(m, if d.k == Exact { Asym } else { d.k }, &p, e).1.min(if matches!(m, Fjc | Sw) { 0.9 } else { 9.0 }) } else { 0.5 });
        }
    }
    p
}
struct Slot {
    m: usize,
    /// chain parameters of the object
    w: Vec<f64>,
    o: Obj,
}
/// One operation is four numbers: which slot, what to do, which function, which load.
const NOPS: usize = 40;

pub fn c22(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for (mode, cases) in [("one family", 1500), ("all families", 1000), ("threads", 400)] {
        let mut d = vec![dim("length", Int(4, NOPS as i64)), dim("family", Int(0, 7))];
        for i in 0..NOPS {
            let s: &'static str = Box::leak(format!("op{i}").into_boxed_str());
            let t: &'static str = Box::leak(format!("at{i}").into_boxed_str());
            d.push(dim(s, Lin(0.0, 1.0)));
            d.push(dim(t, Lin(0.0, 1.0)));
        }
        jobs.push(job(format!("histories, {mode}"), ctx.n(cases), d, move |v| {
            let len = v[0] as usize;
            // digits of one generated number
            let bits = |x: f64, k: u32| (x * 16f64.powi(k as i32)).fract();
            let fam = v[1] as usize;
            let mods: Vec<Vec<Md>> = FAM.iter().map(|(m, _)| crate::mods::mods().into_iter().filter(|d| d.m == *m).collect()).collect();
            let new = |a: f64, b: f64| {
                let m = if mode == "one family" { fam } else { (a * 8.0) as usize % 8 };
                let w = vec![bits(b, 1), bits(b, 2), bits(b, 3), bits(b, 4), bits(b, 5), bits(b, 6)];
                let p = state(FAM[m].0, &mods[m][0], &[&w[..], &[0.5, 0.5]].concat());
                Slot { m, o: make(FAM[m].1, &p), w }
            };
            let mut slots: Vec<Slot> = vec![new(bits(v[2], 7), v[3])];
            // what every evaluation of the history returned: (module, function, state, value)
            let mut seen: Vec<(usize, &'static crate::reg::Entry, P, f64)> = vec![];
            let mut c = C::new();
            let mut evals = 0;
            for k in 0..len {
                let (a, b) = (v[2 + 2 * k], v[3 + 2 * k]);
                match (a * 10.0) as usize {
                    0 | 1 => slots.push(new(bits(a, 1), b)),
                    2 if slots.len() > 1 => {
                        slots.swap_remove((bits(a, 1) * slots.len() as f64) as usize);
                    }
                    3 if !seen.is_empty() => {
                        // something evaluated earlier, again: on a new object and as a free function
                        let (m, e, p, x) = seen[(bits(a, 1) * seen.len() as f64) as usize].clone();
                        let o = make(FAM[m].1, &p);
                        let y = (e.on.unwrap())(&o, &p);
                        c.yes(&format!("{} {} again: {x:e} and then {y:e}", e.module, e.func), x.to_bits() == y.to_bits());
                        evals += 1;
                    }
                    _ => {
                        let s = &slots[(bits(a, 1) * slots.len() as f64) as usize];
                        let md = &mods[s.m][(bits(a, 2) * mods[s.m].len() as f64) as usize];
                        let fs = funcs(md.path);
                        let e = fs[(bits(a, 3) * fs.len() as f64) as usize];
                        let p = state(md.m, md, &[&s.w[..], &[bits(b, 1), bits(b, 2)]].concat());
                        let on = e.on.unwrap();
                        let x = if mode == "threads" {
                            // the same evaluation by several threads at once, while others evaluate other functions
                            let (o, p, fam) = (&s.o, &p, FAM[s.m].1);
                            let other = fs[(bits(a, 4) * fs.len() as f64) as usize].on.unwrap();
                            let q = &state(md.m, md, &[&s.w[..], &[bits(b, 3), bits(b, 4)]].concat());
                            let r = std::thread::scope(|sc| {
                                let h: Vec<_> = (0..4)
                                    .map(|i| {
                                        sc.spawn(move || {
                                            guarded(|| {
                                                let own;
                                                let o = if o.shareable {
                                                    o
                                                } else {
                                                    own = make(fam, p);
                                                    &own
                                                };
                                                if i % 2 == 1 {
                                                    other(o, q);
                                                }
                                                on(o, p)
                                            })
                                        })
                                    })
                                    .collect();
                                h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
                            });
                            let x = match &r[0] {
                                Ok(x) => *x,
                                Err(m) => return Out::Fail(format!("panic: {m}")),
                            };
                            for y in &r {
                                let y = y.as_ref().map_or(f64::NAN, |y| *y);
                                c.yes(&format!("{} {} in several threads: {x:e} and {y:e}", e.module, e.func), x.to_bits() == y.to_bits());
                            }
                            x
                        } else {
                            on(&s.o, &p)
                        };
                        // a new object of the same parameters, in the same breath
                        let y = on(&make(FAM[s.m].1, &p), &p);
                        c.yes(&format!("{} {} of equal objects: {x:e} and {y:e}", e.module, e.func), x.to_bits() == y.to_bits());
                        // twice in a row
                        let y = on(&s.o, &p);
                        c.yes(&format!("{} {} twice: {x:e} and {y:e}", e.module, e.func), x.to_bits() == y.to_bits());
                        seen.push((s.m, e, p, x));
                        evals += 1;
                    }
                }
            }
            // everything once more, backwards, each in a thread that has evaluated nothing before
            for (m, e, p, x) in seen.iter().rev() {
                let y = std::thread::scope(|sc| sc.spawn(|| guarded(|| (e.on.unwrap())(&make(FAM[*m].1, p), p))).join().unwrap());
                let y = y.unwrap_or(f64::NAN);
                c.yes(&format!("{} {} of {:?} at the end in a new thread: {x:e} and then {y:e}", e.module, e.func, p), x.to_bits() == y.to_bits());
            }
            c.done(if evals > 15 { "long" } else if evals > 1 { "short" } else { "trivial" })
        }));
    }
    jobs.push(orders(ctx, "nearly equal calls in two orders, in two processes", 0, 8, 6000));
    jobs.push(orders(ctx, "nearly equal calls of constitutive models in two orders, in two processes", 9, 9, 20));
    Prop { jobs, rule: "a random history of construct, evaluate, re-evaluate and drop operations on objects of one or all families; every value bit for bit the same whenever, wherever and in whatever order it is evaluated" }
}

/// Nearly equal calls on nearly equal objects, in two new processes: one makes the calls forwards, the other backwards.
/// Whatever survives a call (a cache under a rounded key, a kept root, a lazily set constant) is met in another order.
const NCALLS: usize = 24;
fn orders(ctx: &Ctx, label: &str, first: i64, last: i64, cases: u32) -> Job {
    let mut d = vec![dim("calls", Int(2, NCALLS as i64)), dim("family", Int(first, last))];
    for s in ["base_0", "base_1", "base_2", "base_3", "base_4", "base_5", "load_0", "load_1", "function_0", "function_1"] {
        d.push(dim(s, Lin(0.0, 1.0)));
    }
    d.push(dim("difference", Mix(vec![Log(1e-15, 0.05), Log(1e-4, 0.02)])));
    for i in 0..NCALLS {
        d.push(dim(Box::leak(format!("call{i}").into_boxed_str()), Lin(0.0, 1.0)));
    }
    job(label, ctx.n(cases), d, |v| {
        let bits = |x: f64, k: u32| (x * 16f64.powi(k as i32)).fract();
        let at = |x: f64, n: usize| ((x * n as f64) as usize).min(n - 1);
        let (fam, e) = (v[1] as usize, v[12]);
        // the constitutive models take a hundred times longer than the chains
        let n = if fam == 9 { (v[0] as usize).min(3) } else { v[0] as usize };
        let mut lines: Vec<String> = vec![];
        for k in 0..n {
            let a = v[13 + k];
            // a tenth of the calls is exactly the base, the others differ from it by few of a handful of steps
            let step = |i: u32| if bits(a, i) < 0.5 { 0.0 } else { e * ((bits(a, i) * 8.0).floor() - 5.0) };
            let which = if bits(a, 5) < 0.6 { 10 } else { 11 };
            if fam < 8 {
                let m = FAM[fam].0;
                let mods: Vec<Md> = crate::mods::mods().into_iter().filter(|d| d.m == m).collect();
                let md = &mods[at(v[which], mods.len())];
                let fs = funcs(md.path);
                let en = fs[at(bits(v[which], 2), fs.len())];
                let mut p = state(m, md, &v[2..10]);
                let chain: [&mut f64; 7] = [&mut p.ll, &mut p.hm, &mut p.ls, &mut p.le, &mut p.ww, &mut p.lp, &mut p.t];
                for (i, x) in chain.into_iter().enumerate() {
                    if i == at(bits(a, 3), 7) {
                        *x *= 1.0 + step(1);
                    }
                }
                if bits(a, 6) < 0.1 {
                    p.nl += 1;
                }
                for x in [&mut p.f, &mut p.xi, &mut p.pd, &mut p.pk, &mut p.nf, &mut p.g, &mut p.npd, &mut p.npk, &mut p.nls, &mut p.nle, &mut p.nlp] {
                    *x *= 1.0 + step(2);
                }
                let form = if en.free.is_some() && bits(a, 4) < 0.3 { "free" } else { "on" };
                let w = [p.nl as f64, p.ll, p.hm, p.ls, p.le, p.ww, p.lp, p.t, p.f, p.xi, p.pd, p.pk, p.nf, p.g, p.nls, p.nle, p.nlp, p.npd, p.npk, p.norm];
                lines.push(format!("{form} {} {} {}{}", en.module, en.func, FAM[fam].1, w.iter().map(|x| format!(" {x:?}")).collect::<String>()));
            } else if fam == 8 {
                let i = at(v[which], crate::serve::MATH.len());
                lines.push(format!("math {} {:?}", i, (v[8] * 0.98 + 0.01) * (1.0 + step(1)) * (1.0 + 0.1 * step(2)) * if v[9] > 0.7 && i > 0 { 20.0 } else { 1.0 }));
            } else {
                let kind = if v[which] < 0.5 { "hyperelastic" } else { "damage" };
                lines.push(format!("{kind} {} {:?} {} {:?} {:?}", 2 + at(v[2], 2), (50.0 + 100.0 * v[3]) * (1.0 + step(1)), 5 + at(v[4], 20) + (bits(a, 6) < 0.1) as usize, 1.0 + 0.3 * v[5].round() + if kind == "damage" { step(3) } else { 0.0 }, (1.0 + 2.0 * v[8]) * (1.0 + step(2).abs())));
            }
        }
        let run = |l: &[String]| -> Vec<String> {
            use std::io::Write;
            let mut c = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("history").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("a process");
            c.stdin.take().unwrap().write_all((l.join("\n") + "\n").as_bytes()).unwrap();
            let o = c.wait_with_output().unwrap();
            String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
        };
        let mut rev = lines.clone();
        rev.reverse();
        let (x, mut y) = (run(&lines), run(&rev));
        y.reverse();
        if x.len() != n || y.len() != n {
            return Out::Fail(format!("a process ended early: {} and {} answers of {n}", x.len(), y.len()));
        }
        let mut c = C::new();
        for k in 0..n {
            c.yes(&format!("{}: {} forwards and {} backwards", lines[k], x[k], y[k]), x[k] == y[k]);
        }
        c.done(if x.iter().any(|s| s.starts_with("panic") || s == "NaN") { "some undefined" } else { "all finite" })
    })
}

/// loads from the smallest to the largest a module is meant for
fn wide(d: &Md) -> Vec<Dim> {
    let (nl, cap) = (d.nl(), 690.0f64);
    let mut v = chain_dims(d.m, nl);
    v[1].dist = Mix(vec![Log(1e-2, 1e3), Pick(vec![1.0])]);
    v[2].dist = Mix(vec![Log(1e-3, 1e3), Pick(vec![1.0])]);
    v[3].dist = Mix(vec![Log(1.0, 1e4), Pick(vec![300.0])]);
    let special = |mut a: Vec<f64>, hi: f64| {
        a.retain(|x| *x <= hi);
        Mix(vec![Log(1e-6, hi), Lin(0.0, hi), Pick(a)])
    };
    match d.cl {
        T | TL | IsoLeg if d.m == Wlc => v.push(dim("nondimensional_force", Mix(vec![Log(1e-4, 95.0), Lin(0.01, 95.0)]))),
        T | TL => v.push(dim("force_coordinate", special(vec![1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 1.0, 10.0, 100.0, 690.0], cap))),
        IsoLeg => {
            v.push(dim("force_coordinate", special(vec![1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 1.0, 10.0, 100.0, 690.0], cap)));
            // lengths given outright, for the extensible chains; 0 takes that of the force
            v.push(dim("length", if d.m == Efjc { Mix(vec![Pick(vec![0.0]), Pick(vec![1e-6, 1e-3, 0.5, 0.9, 0.999, 1.0 - 1e-6, 1.0 - 1e-9, 1.0 - 1e-12, 1.0, 1.0 + 1e-12, 1.0 + 1e-9, 1.0 + 1e-6, 1.001, 1.5, 3.0]), Lin(0.01, 2.0)]) } else { Pick(vec![0.0]) }));
        }
        Iso if d.m == Ideal => v.push(dim("nondimensional_length", Mix(vec![Log(1e-6, 5.0), Lin(0.0, 2.0), Pick(vec![1e-6, 0.5, 1.0])]))),
        Iso => v.push(dim("nondimensional_length", Mix(vec![Log(1e-6, 0.999), Lin(1e-6, 0.9999), Pick(vec![1e-6, 1e-3, 0.1, 0.2, 0.25, 1.0 / 3.0, 0.5, 0.75, 0.9, 0.99, 0.999])]))),
        Mc => {
            v.push(dim("potential_distance", Mix(vec![Log(1e-4, 50.0), Lin(0.0, 1.5), Pick(vec![1e-3, 0.5, 1.0, 2.0, 10.0])])));
            v.push(dim("potential_stiffness_coordinate", Log(1e-3, 1e5)));
        }
        McStrong => {
            v.push(dim("potential_distance", Mix(vec![Lin(0.005, 0.995), Pick(vec![0.2, 0.5, 0.9])])));
            v.push(dim("potential_stiffness_coordinate", Log(1.0, 1e8)));
        }
        McWeak => {
            v.push(dim("nondimensional_force", Mix(vec![Log(1e-3, 690.0), Pick(vec![1.0, 690.0])])));
            v.push(dim("potential_stiffness_coordinate", Log(1e-6, 10.0)));
        }
    }
    v
}
/// exponent of the log-squared link's weight at its largest
pub fn stretch_peak(p: &P) -> f64 {
    let l = stretch(LogSq, p, p.nf);
    p.nf * l - 0.5 * p.nls * l.ln().powi(2)
}
pub fn c23(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for d in mods() {
        for e in funcs(d.path) {
            let d = d.clone();
            let func = e.func;
            let me = e.root.unwrap();
            let nm = parse(func);
            jobs.push(job(format!("{} {} is total", d.path, func), ctx.n(2500), wide(&d), move |v| {
                let mut w = v.to_vec();
                if d.cl == IsoLeg && d.m != Wlc {
                    w.pop();
                }
                w[NCH] = w[NCH].max(1e-6);
                let mut p = d.set(&w);
                if d.cl == IsoLeg && d.m != Wlc && v[NCH + 1] > 0.0 {
                    p.set_gamma(v[NCH + 1]);
                }
                // a potential that pulls with thousands of kT per link concentrates the chain below the grid of its quadrature
                if d.cl == Mc && p.npk * p.n() * p.n() * (p.npd - 1.0) > 5e4 {
                    return Out::Skip;
                }
                // known findings, probed below: over- and underflow of powers and exponentials
                if d.m == Sw && d.cl == IsoLeg && p.n() * ((varsigma(&p).powi(3) - 1.0) / 3.0).ln().abs() > 650.0 && matches!(nm.q, Q::Density | Q::Radial) {
                    return Out::Skip;
                }
                if d.m == LogSq && d.k == Exact && stretch_peak(&p) > 650.0 {
                    return Out::Skip;
                }
                let x = me(&p);
                let mut c = C::new();
                c.yes(&format!("{func} is {x}"), x.is_finite());
                match nm.q {
                    Q::Density | Q::Radial => c.yes(&format!("{func} is {x}"), x >= 0.0),
                    _ => {}
                }
                c.done("finite")
            }));
        }
    }
    use polymers::physics::single_chain as sc;
    let fin = |l: &str, x: f64| if x.is_finite() { Out::Ok("finite", 0.0) } else { Out::Fail(format!("{l} is {x}")) };
    jobs.push(job("probe: freely jointed sums of 40 links", 1, vec![dim("number_of_links", Pick(vec![40.0])), dim("length", Pick(vec![0.3]))], move |v| {
        let x = sc::fjc::thermodynamics::isometric::nondimensional_force(&(v[0] as u8), &v[1]);
        // the force of a long freely jointed chain, to a few percent
        if (x / inv_langevin(v[1]) - 1.0).abs() < 0.1 { Out::Ok("near", 0.0) } else { Out::Fail(format!("force is {x}")) }
    }));
    jobs.push(job("probe: freely jointed chain at a force of 800", 1, vec![dim("nondimensional_force", Pick(vec![800.0]))], move |v| {
        fin("relative Gibbs free energy", sc::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&v[0]))
    }));
    jobs.push(job("probe: extensible chain at a force of 800", 1, vec![dim("nondimensional_force", Pick(vec![800.0])), dim("link_stiffness", Pick(vec![500.0]))], move |v| {
        fin("relative Gibbs free energy", sc::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&v[1], &v[0]))
    }));
    // wide wells at small lengths, where the partition function is a small difference of large terms
    jobs.push(job("square-well Legendre functions of wide wells at small lengths", ctx.n(8000), vec![dim("number_of_links", Int(2, 255)), dim("well_width", Log(2.0, 12.0)), dim("length", Log(2e-4, 0.1))], move |v| {
        use sc::swfjc::thermodynamics::isometric::legendre as l;
        let (n, w, g) = (v[0] as u8, v[1], v[2]);
        let force = l::nondimensional_force(&1.0, &w, &g);
        let mut c = C::new();
        for (name, x) in [
            ("force", force),
            ("Helmholtz free energy", l::nondimensional_helmholtz_free_energy_per_link(&n, &1.0, &1.0, &w, &g, &300.0)),
            ("relative Helmholtz free energy", l::nondimensional_relative_helmholtz_free_energy(&n, &1.0, &w, &g)),
        ] {
            c.yes(&format!("{name} is {x}"), x.is_finite());
        }
        let s = 1.0 + w;
        let line = 5.0 * g * (s * s + s + 1.0) / (s.powi(4) + s.powi(3) + s * s + s + 1.0);
        c.near("force, against the zero-load compliance", force, line, line * (1e-3 + 5.0 * (g / s).powi(2)));
        c.done("compared")
    }));
    jobs.push(job("probe: square-well Legendre distribution of 255 links", 1, vec![dim("number_of_links", Pick(vec![255.0])), dim("well_width", Pick(vec![0.05])), dim("length", Pick(vec![0.3]))], move |v| {
        fin("equilibrium distribution", sc::swfjc::SWFJC::init(v[0] as u8, 1.0, 1.0, v[1]).thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&v[2]))
    }));
    jobs.push(job("probe: stiff log-squared chain near rupture", 1, vec![dim("link_stiffness", Pick(vec![1910.0])), dim("nondimensional_force", Pick(vec![680.0]))], move |v| {
        fin("relative Gibbs free energy", sc::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&v[0], &v[1]))
    }));
    jobs.push(job("probe: Lennard-Jones chain of stiffness 60000", 1, vec![dim("link_stiffness", Pick(vec![6e4])), dim("nondimensional_force", Pick(vec![5.0]))], move |v| {
        fin("end-to-end length", sc::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&v[0], &v[1]))
    }));
    Prop { jobs, rule: "a random admissible chain and load, from very small loads to full extension or rupture; finite" }
}
