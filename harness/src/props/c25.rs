//! C25 hyperelastic model; C26 hyperelastic damage model.
use super::Prop;
use crate::fw::*;
use crate::num::*;
use polymers::constitutive::hyperelastic as hy;
use polymers::constitutive::hyperelastic_damage as da;
use std::f64::consts::PI;

/// force of the reduced asymptotic extensible chain at length g per contour length, and relative free energy per link
struct Link {
    kap: f64,
}
impl Link {
    fn len(&self, e: f64) -> f64 {
        langevin(e) + e / self.kap
    }
    fn force(&self, g: f64) -> f64 {
        // safeguarded Newton: the length is concave in the force
        let (mut lo, mut hi) = (0.0, self.kap * g);
        let mut x = (3.0 * g).min(hi);
        for _ in 0..200 {
            let r = self.len(x) - g;
            if r.abs() < 1e-13 * g {
                break;
            }
            if r > 0.0 { hi = x } else { lo = x }
            let d = dlangevin(x) + 1.0 / self.kap;
            let n = x - r / d;
            x = if n > lo && n < hi { n } else { 0.5 * (lo + hi) };
        }
        x
    }
    fn energy(&self, g: f64) -> f64 {
        let e = self.force(g);
        e * langevin(e) - lnshc(e) + 0.5 * e * e / self.kap
    }
}
/// Reference of both models: stress and intact probability at a stretch, for chains that break when their extension
/// exceeds gc at the largest stretch m, in a network swollen by j. Integrated in the reference configuration.
/// Third and fourth: what a grid of unit spacing starting one cell from the plane through the origin adds to each.
fn reference(method: u8, kap: f64, n: f64, lam: f64, m: f64, gc: f64, j: f64) -> (f64, f64, f64, f64) {
    let l = Link { kap };
    let factor = 1.5 * n * kap * (kap + 1.0) / (kap * kap + 6.0 * kap + 3.0);
    let u = |g: f64| if method == 2 { n * l.energy(g) } else { factor * g * g };
    // where the distribution has decayed
    let top = bisect(|g| u(g) - 60.0, 0.0, 60.0);
    let j3 = j.cbrt();
    // the normalisation runs over the grid of the model, up to the critical extension
    let norm = quad(|g| 4.0 * PI * g * g * (-u(g)).exp(), 0.0, top.min(gc), 24);
    let stress = |c: f64| {
        let ext = j3 * (lam * lam * c * c + (1.0 - c * c) / lam).sqrt();
        let ext_m = j3 * (m * m * c * c + (1.0 - c * c) / m).sqrt();
        let cut = top.min(gc / ext_m);
        quad(|g| { let x = g * ext; g.powi(4) * (-u(g)).exp() * l.force(x) / x }, 1e-9, cut, 12) * j3 * j3 * (2.0 * lam * lam * c * c - (1.0 - c * c) / lam)
    };
    let prob = |c: f64| {
        let ext_m = j3 * (m * m * c * c + (1.0 - c * c) / m).sqrt();
        quad(|g| g * g * (-u(g)).exp(), 0.0, top.min(gc / ext_m), 12)
    };
    let s = quad(stress, 0.0, 1.0, 3) * 2.0 * PI * n / j;
    let p = quad(prob, 0.0, 1.0, 3) * 4.0 * PI;
    // the plane, in the coordinates of the deformed state: r is stretched by x
    let (x, xm) = (j3 / lam.sqrt(), j3 / m.sqrt());
    let cut = top.min(gc / xm) * x;
    let hs = quad(|r| r * r * l.force(r) * (-u(r / x)).exp(), 1e-9, cut, 12) * PI * n / (j * j);
    let hp = quad(|r| r * (-u(r / x)).exp(), 0.0, cut, 12) * 2.0 * PI / j;
    (s / norm, p / norm, hs / norm, -hp / norm)
}
/// Distance between got and the interval between want and want + half
fn off(got: f64, want: f64, half: f64) -> f64 {
    let (lo, hi) = if half > 0.0 { (want, want + half) } else { (want + half, want) };
    if got >= lo && got <= hi { 0.0 } else { (got - lo).abs().min((got - hi).abs()) + if got.is_nan() { f64::NAN } else { 0.0 } }
}
/// Where the undeformed distribution has decayed by e^-10
fn extent(method: u8, kap: f64, n: f64) -> f64 {
    let l = Link { kap };
    let factor = 1.5 * n * kap * (kap + 1.0) / (kap * kap + 6.0 * kap + 3.0);
    bisect(|g| if method == 2 { n * l.energy(g) } else { factor * g * g } - 10.0, 0.0, 60.0)
}
/// What a caller of the C functions passes: chains on an inverse hyperbolic tangent grid, weighted by force and orientation.
fn grid(method: u8, kap: f64, n: f64) -> (Box<[[f64; 256]; 256]>, f64, [f64; 256], f64) {
    let l = Link { kap };
    let dw = 1.0 / 257.0;
    let w = |i: usize| (i + 1) as f64 * dw;
    let g: [f64; 256] = std::array::from_fn(|i| w(i).atanh());
    let mut e = Box::new([[0.0; 256]; 256]);
    for i in 0..256 {
        for j in 0..256 {
            let (z, r) = (g[i], g[j]);
            let x = z.hypot(r);
            e[i][j] = l.force(x) * (2.0 * z * z - r * r) * 2.0 * PI * n * r / x / (1.0 - w(i).powi(2)) / (1.0 - w(j).powi(2)) * dw * dw;
        }
    }
    let factor = if method == 2 { 0.0 } else { 1.5 * n * kap * (kap + 1.0) / (kap * kap + 6.0 * kap + 3.0) };
    let norm: f64 = (0..256).map(|i| g[i] * g[i] / (1.0 - w(i).powi(2)) * (-(if method == 2 { n * l.energy(g[i]) } else { factor * g[i] * g[i] })).exp()).sum();
    (e, factor, g, norm * 4.0 * PI * dw)
}
extern "C" {
    fn constitutive_hyperelastic_buche_silberstein_uniaxial_tension(e: *const [[f64; 256]; 256], factor: f64, g: *const [f64; 256], norm: f64, method: u8, kap: f64, n: u8, s: f64) -> f64;
    fn constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(e: *const [[f64; 256]; 256], factor: f64, g: *const [f64; 256], norm: f64, method: u8, kap: f64, n: u8, s: f64) -> f64;
}

pub fn c25(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    let base = || vec![dim("link_stiffness", Log(20.0, 1000.0)), dim("number_of_links", Mix(vec![Int(3, 100), Int(3, 30)]))];
    for method in [2u8, 3] {
        let q = if method == 2 { 40 } else { 120 };
        let mut d = base();
        d.push(dim("stretch", Mix(vec![Lin(0.4, 3.0), Lin(0.9, 1.1), Lin(1.0, 5.0)])));
        jobs.push(job(format!("method {method} stress against the integral"), ctx.n(q), d, move |v| {
            let (kap, n, s) = (v[0], v[1], v[2]);
            // the grid reaches to an extension of 3.1 and is coarse beyond 2
            let ext = extent(method, kap, n);
            let (in_u, in_e) = (s.max(1.0 / s.sqrt()) * ext < 2.2, s.max(1.0 / (s * s)) * ext < 2.2);
            if !in_u {
                return Out::Skip;
            }
            let o = Box::new(hy::BucheSilberstein::init(method, kap, n as u8));
            let u = reference(method, kap, n, s, s, 1e9, 1.0);
            let b = reference(method, kap, n, 1.0 / (s * s), 1.0, 1e9, 1.0);
            let mut c = C::new();
            // up to the half cell at the plane through the origin, which the sums leave out
            let dw = 1.0 / 257.0;
            let tol = 2e-3 + 0.1 / n / n;
            c.near(&format!("uniaxial stress {:e} off {:e}", o.uniaxial_tension(&s), u.0), off(o.uniaxial_tension(&s), u.0, u.2 * dw), 0.0, tol * (1.0 + u.0.abs()));
            if in_e {
            c.near(&format!("equibiaxial stress {:e} off {:e}", o.equibiaxial_tension(&s), -b.0), off(o.equibiaxial_tension(&s), -b.0, -b.2 * dw), 0.0, tol * (1.0 + b.0.abs()));
            }
            c.yes("parameters", o.nondimensional_link_stiffness == kap && o.number_of_links == n as u8);
            c.done(if s < 1.0 { "compression" } else { "tension" })
        }));
        let mut d = base();
        d.push(dim("stretch", Mix(vec![Lin(0.5, 3.0), Lin(0.95, 1.05), Lin(1.0, 5.0)])));
        jobs.push(job(format!("method {method} forms"), ctx.n(q / 2), d, move |v| {
            let (kap, n, s) = (v[0], v[1] as u8, v[2]);
            let o = Box::new(hy::BucheSilberstein::init(method, kap, n));
            let (u, b) = (o.uniaxial_tension(&s), o.equibiaxial_tension(&s));
            let mut c = C::new();
            let tol = 1e-9 * (1.0 + u.abs());
            // the C functions take their grid and elements from the caller: use those of the method
            let (e, f, g, w) = grid(method, kap, v[1]);
            unsafe {
                c.near("C uniaxial", constitutive_hyperelastic_buche_silberstein_uniaxial_tension(&*e, f, &g, w, method, kap, n, s), u, tol);
                c.near("C equibiaxial", constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(&*e, f, &g, w, method, kap, n, s), b, 1e-9 * (1.0 + b.abs()));
            }
            // equibiaxial tension is uniaxial compression, seen from the side
            c.rel("equibiaxial is minus uniaxial at s^-2", o.equibiaxial_tension(&s), -o.uniaxial_tension(&s.powi(-2)), 1e-6, 1e-6);
            c.rel("uniaxial is minus equibiaxial at s^-1/2", o.uniaxial_tension(&s), -o.equibiaxial_tension(&s.powf(-0.5)), 1e-6, 1e-6);
            c.done("compared")
        }));
        let mut d = base();
        d.push(dim("stretch", Mix(vec![Lin(0.5, 3.0), Lin(0.9, 1.1), Lin(1.0, 5.0)])));
        d.push(dim("step", Log(0.003, 0.5)));
        jobs.push(job(format!("method {method} monotone and stress free at rest"), ctx.n(q / 2), d, move |v| {
            let (kap, n, s) = (v[0], v[1], v[2]);
            let o = Box::new(hy::BucheSilberstein::init(method, kap, n as u8));
            let mut c = C::new();
            let s2 = s * (1.0 + v[3]);
            for (f, name, e) in [(hy::BucheSilberstein::uniaxial_tension as fn(&hy::BucheSilberstein, &f64) -> f64, "uniaxial", 3.0), (hy::BucheSilberstein::equibiaxial_tension, "equibiaxial", 6.0)] {
                c.near(&format!("{name} stress at rest"), f(&o, &1.0), 0.0, 3.5e-3 * n.sqrt() + 0.1 / n / n);
                let (a, b) = (f(&o, &s), f(&o, &s2));
                // beyond the stretch at which the bulk of the chains is fully extended compression saturates the grid
                if name == "uniaxial" || s2 < 2.0 {
                    c.yes(&format!("{name} stress increases with stretch: {a:e} at {s}, {b:e} at {s2}"), b > a - 1e-9);
                }
                if (s - 1.0).abs() > 2e-3 * n.sqrt() + 0.05 / n {
                    c.yes(&format!("{name} stress has the sign of the strain: {a:e} at {s}"), a.signum() == (s - 1.0).signum());
                }
                if n >= 40.0 && kap > 100.0 {
                    let h = 0.01;
                    c.near(&format!("{name} small-strain modulus"), (f(&o, &(1.0 + h)) - f(&o, &(1.0 - h))) / (2.0 * h), e, e * (3.0 / n + 6.0 / kap));
                }
            }
            c.done("ordered")
        }));
    }
    Prop { jobs, rule: "a random method, link stiffness, number of links and stretch(es); stress against an independent polar quadrature over the undeformed distribution and against the other forms and states" }
}

fn damage(o: &da::BucheSilberstein, h: &[f64]) -> Vec<[f64; 2]> {
    match h.len() {
        1 => o.uniaxial_tension::<1>(h).to_vec(),
        2 => o.uniaxial_tension::<2>(h).to_vec(),
        3 => o.uniaxial_tension::<3>(h).to_vec(),
        4 => o.uniaxial_tension::<4>(h).to_vec(),
        5 => o.uniaxial_tension::<5>(h).to_vec(),
        6 => o.uniaxial_tension::<6>(h).to_vec(),
        8 => o.uniaxial_tension::<8>(h).to_vec(),
        12 => o.uniaxial_tension::<12>(h).to_vec(),
        _ => unreachable!(),
    }
}
fn rest_dims() -> Vec<Dim> {
    vec![
        dim("critical_extension", Mix(vec![Lin(0.7, 2.5), Lin(0.7, 1.2)])),
        dim("link_stiffness", Log(20.0, 500.0)),
        dim("number_of_links", Int(3, 40)),
        dim("swelling_ratio", Mix(vec![Pick(vec![1.0]), Lin(1.0, 3.0), Lin(0.6, 1.0)])),
    ]
}

pub fn c26(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for method in [2u8, 3] {
        let q = if method == 2 { 16 } else { 160 };
        // --- histories
        let mut d = rest_dims();
        d.push(dim("length", Pick(if method == 2 { vec![2.0, 3.0, 5.0] } else { vec![1.0, 2.0, 3.0, 5.0, 8.0, 12.0] })));
        for i in 0..12 {
            d.push(dim(["s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11"][i], Mix(vec![Lin(1.0, 4.0), Lin(1.0, 1.5), Pick(vec![1.0, 2.0, 3.0])])));
        }
        d.push(dim("pad_at", Lin(0.0, 1.0)));
        d.push(dim("pad_fraction", Lin(0.0, 1.0)));
        jobs.push(job(format!("method {method} histories"), ctx.n(q), d, move |v| {
            let (gc, kap, n, j) = (v[0], v[1], v[2] as u8, v[3]);
            let len = v[4] as usize;
            let h = &v[5..5 + len];
            let o = Box::new(da::BucheSilberstein::init(method, gc, kap, n, j));
            let r = damage(&o, h);
            let mut c = C::new();
            c.yes("parameters", o.nondimensional_critical_extension == gc && o.nondimensional_link_stiffness == kap && o.number_of_links == n && o.swelling_ratio == j);
            let mut m = 1.0f64;
            let mut below = false;
            for (i, s) in h.iter().enumerate() {
                m = m.max(*s);
                below |= *s < m;
                // the response is that of (current, largest) alone: that after the shortest history with them
                let one = damage(&o, &[m, *s])[1];
                c.near(&format!("stress of step {i}"), r[i][0], one[0], 1e-11 * (1.0 + one[0].abs()));
                c.near(&format!("intact probability of step {i}"), r[i][1], one[1], 1e-11);
                c.yes(&format!("intact probability between 0 and 1: {}", r[i][1]), r[i][1] >= -1e-12 && (r[i][1] <= 1.0 + 0.02 || extent(method, kap, v[2]) > gc));
                // unchanged by anything that comes later or by dips below the maximum
                for k in 0..i {
                    if h[k] == *s && h[..=k].iter().fold(1.0, |a: f64, b| a.max(*b)) == m {
                        c.near("the same state again", r[i][0], r[k][0], 1e-11 * (1.0 + r[k][0].abs()));
                    }
                }
            }
            // insert a smaller stretch somewhere: no other step changes
            if len < 6 && len != 4 || len == 3 {
                let at = 1 + (v[17] * (len - 1) as f64) as usize;
                let mx = h[..at].iter().fold(1.0, |a: f64, b| a.max(*b));
                let mut h2 = h.to_vec();
                h2.insert(at, 1.0 + v[18] * (mx - 1.0));
                let mut r2 = damage(&o, &h2);
                r2.remove(at);
                for i in 0..len {
                    c.near("stress unchanged by an inserted smaller stretch", r2[i][0], r[i][0], 1e-11 * (1.0 + r[i][0].abs()));
                    c.near("intact probability unchanged by an inserted smaller stretch", r2[i][1], r[i][1], 1e-11);
                }
            }
            c.done(if len == 1 { "one step" } else if below { "with unloading" } else { "loading" })
        }));
        // --- irreversibility: growing maximum
        let mut d = rest_dims();
        d.push(dim("largest", Mix(vec![Lin(1.0, 3.5), Lin(2.0, 8.0)])));
        d.push(dim("larger_by", Log(0.01, 1.5)));
        d.push(dim("current", Lin(0.0, 1.0)));
        jobs.push(job(format!("method {method} irreversible"), ctx.n(q), d, move |v| {
            let (gc, kap, n, j) = (v[0], v[1], v[2] as u8, v[3]);
            let (m1, m2) = (v[4], v[4] + v[5]);
            let s = 1.0 + v[6] * (m1 - 1.0);
            let o = Box::new(da::BucheSilberstein::init(method, gc, kap, n, j));
            let r = damage(&o, &[m1, s, m2, s]);
            let mut c = C::new();
            c.yes(&format!("intact probability falls with the largest stretch: {} then {}", r[1][1], r[3][1]), r[3][1] <= r[1][1] + 1e-12);
            c.yes(&format!("intact probability on first loading falls: {} then {}", r[0][1], r[2][1]), r[2][1] <= r[0][1] + gc / 256.0 * (3.0 * v[2]).sqrt() * j.cbrt() * m1.sqrt());
            // nothing heals on unloading; the map to the unloaded state keeps the number of chains (up to the grid)
            let dz = gc / 256.0 * (3.0 * v[2]).sqrt() / j.cbrt();
            c.near("intact probability does not change on unloading", r[1][1], r[0][1], 0.02 + 2.0 * dz * m1);
            let first = damage(&o, &[s])[0];
            c.yes(&format!("softer after damage: {} at first loading, {} after {m1}, {} after {m2}", first[0], r[1][0], r[3][0]),
                r[1][1] > 0.0 && (r[1][0] <= first[0] + 0.02 * first[0].abs() + 0.02) || r[1][1] == 0.0);
            c.done(if r[3][1] < 0.9 * r[1][1] { "damaging" } else { "little damage" })
        }));
        // --- against the integral
        let mut d = rest_dims();
        d.push(dim("largest", Mix(vec![Lin(1.0, 4.0), Lin(1.0, 8.0), Pick(vec![1.0])])));
        d.push(dim("current", Mix(vec![Lin(0.0, 1.0), Pick(vec![1.0])])));
        jobs.push(job(format!("method {method} against the integral"), ctx.n(q), d, move |v| {
            let (gc, kap, n, j) = (v[0], v[1], v[2], v[3]);
            let m = v[4];
            let s = 1.0 + v[5] * (m - 1.0);
            let o = Box::new(da::BucheSilberstein::init(method, gc, kap, n as u8, j));
            let r = damage(&o, &[m, s])[1];
            // chains wholly beyond the critical extension at rest: the model's own normalisation is all that is left
            let (ws, wp, hs, hp) = reference(method, kap, n, s, m, gc, j);
            let at_rest = reference(method, kap, n, 1.0, 1.0, gc, j).1;
            if at_rest < 0.9 {
                return Out::Skip;
            }
            let dz = gc / 256.0;
            let mut c = C::new();
            // up to the half cell at the plane through the origin, which the sums leave out; the cut at the critical
            // extension is resolved to a fraction of a cell
            let tol = 1e-3 + 2.0 * dz * dz * n * m * m + if wp < 0.999 || extent(method, kap, n) > gc { 1.5 * dz } else { 0.0 };
            c.near(&format!("intact probability {:e} off {wp:e}", r[1]), off(r[1], wp, hp * dz), 0.0, tol);
            c.near(&format!("stress {:e} off {ws:e}", r[0]), off(r[0], ws, hs * dz), 0.0, tol * 3.0 * (ws.abs() + 1.0));
            c.done(if wp < 0.9 { "damaged" } else { "intact" })
        }));
        // --- no damage without exceeded extension: the damage model is the hyperelastic one
        jobs.push(job(format!("method {method} undamaged equals hyperelastic"), ctx.n(q / 2), vec![
            dim("critical_extension", Lin(2.0, 3.0)), dim("link_stiffness", Log(20.0, 500.0)), dim("number_of_links", Int(10, 30)), dim("stretch", Lin(1.0, 1.6)),
        ], move |v| {
            let (gc, kap, n, s) = (v[0], v[1], v[2] as u8, v[3]);
            let o = Box::new(da::BucheSilberstein::init(method, gc, kap, n, 1.0));
            let h = Box::new(hy::BucheSilberstein::init(method, kap, n));
            let r = damage(&o, &[s])[0];
            let dz = gc / 256.0 * (3.0 * v[2]).sqrt() * s;
            let mut c = C::new();
            c.near("stress", r[0], h.uniaxial_tension(&s), (0.02 + 1.5 * dz) * (1.0 + h.uniaxial_tension(&s).abs()));
            c.near("intact probability", r[1], 1.0, 0.01 + 1.0 * dz);
            c.done("compared")
        }));
    }
    Prop { jobs, rule: "a random method, critical extension, stiffness, number of links, swelling ratio and stretch history; each step against the free function of (current, largest) and an independent integral" }
}
