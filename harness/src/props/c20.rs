//! C20 geometry of sampled configurations; C21 the distributions they follow.
use super::Prop;
use crate::entropy::{with_stream, Rng};
use crate::fw::*;
use crate::num::*;
use polymers::physics::single_chain::{efjc, efrc, fjc, frc};
use rand_distr::Normal;
use std::f64::consts::{PI, TAU};

type V3 = [f64; 3];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mo {
    Fjc,
    Frc,
    Efjc,
    Efrc,
}
use Mo::*;
impl Mo {
    fn has_theta(self) -> bool {
        matches!(self, Frc | Efrc)
    }
    fn has_kappa(self) -> bool {
        matches!(self, Efjc | Efrc)
    }
    fn name(self) -> &'static str {
        match self {
            Fjc => "fjc",
            Frc => "frc",
            Efjc => "efjc",
            Efrc => "efrc",
        }
    }
}
const ALL: [Mo; 4] = [Fjc, Frc, Efjc, Efrc];

macro_rules! by_links {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            1 => $f::<1>($($a),*),
            2 => $f::<2>($($a),*),
            3 => $f::<3>($($a),*),
            4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*),
            8 => $f::<8>($($a),*),
            13 => $f::<13>($($a),*),
            24 => $f::<24>($($a),*),
            65 => $f::<65>($($a),*),
            _ => unreachable!(),
        }
    };
}
const LINKS: [f64; 9] = [1.0, 2.0, 3.0, 4.0, 5.0, 8.0, 13.0, 24.0, 65.0];

#[allow(deprecated)]
fn configs_n<const N: usize>(mo: Mo, th: f64, kap: f64, m: usize) -> Vec<Vec<V3>> {
    use polymers::physics::single_chain as sc;
    let mut rng = rand::thread_rng();
    let dist = Normal::new(1.0, 1.0 / kap.sqrt()).unwrap();
    (0..m)
        .map(|_| match mo {
            Fjc => sc::fjc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&mut rng).to_vec(),
            Frc => sc::frc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&th, &mut rng).to_vec(),
            Efjc => sc::efjc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(dist, &mut rng).to_vec(),
            Efrc => sc::efrc::thermodynamics::isometric::monte_carlo::random_configuration::<N>(&th, dist, &mut rng).to_vec(),
        })
        .collect()
}
#[allow(deprecated)]
fn lengths_n<const N: usize>(mo: Mo, th: f64, kap: f64, m: usize) -> Vec<f64> {
    use polymers::physics::single_chain as sc;
    let mut rng = rand::thread_rng();
    let dist = Normal::new(1.0, 1.0 / kap.sqrt()).unwrap();
    (0..m)
        .map(|_| match mo {
            Fjc => sc::fjc::thermodynamics::isometric::monte_carlo::random_nondimensional_end_to_end_length::<N>(&mut rng),
            Frc => sc::frc::thermodynamics::isometric::monte_carlo::random_nondimensional_end_to_end_length::<N>(&th, &mut rng),
            Efjc => sc::efjc::thermodynamics::isometric::monte_carlo::random_nondimensional_end_to_end_length::<N>(dist, &mut rng),
            Efrc => sc::efrc::thermodynamics::isometric::monte_carlo::random_nondimensional_end_to_end_length::<N>(&th, dist, &mut rng),
        })
        .collect()
}
fn hist_nb<const N: usize, const B: usize>(mo: Mo, th: f64, kap: f64, gmax: f64, m: usize) -> (Vec<f64>, Vec<f64>) {
    let (a, b) = match mo {
        Fjc => fjc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(m),
        Frc => frc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&th, m),
        Efjc => efjc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&gmax, &kap, m),
        Efrc => efrc::thermodynamics::isometric::monte_carlo::nondimensional_equilibrium_radial_distribution::<B, N>(&gmax, &kap, &th, m),
    };
    (a.to_vec(), b.to_vec())
}
fn hist_n<const N: usize>(bins: usize, mo: Mo, th: f64, kap: f64, gmax: f64, m: usize) -> (Vec<f64>, Vec<f64>) {
    match bins {
        1 => hist_nb::<N, 1>(mo, th, kap, gmax, m),
        2 => hist_nb::<N, 2>(mo, th, kap, gmax, m),
        7 => hist_nb::<N, 7>(mo, th, kap, gmax, m),
        30 => hist_nb::<N, 30>(mo, th, kap, gmax, m),
        100 => hist_nb::<N, 100>(mo, th, kap, gmax, m),
        _ => unreachable!(),
    }
}

fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn norm(a: &V3) -> f64 {
    dot(a, a).sqrt()
}
fn crs(a: &V3, b: &V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn links(c: &[V3]) -> Vec<V3> {
    let mut p: V3 = [0.0; 3];
    c.iter().map(|x| { let r = sub(x, &p); p = *x; r }).collect()
}
/// largest end-to-end length of a chain of n unit links at angle th: the planar zigzag
fn gmax_zigzag(n: usize, th: f64) -> f64 {
    let nf = n as f64;
    let c = th.cos();
    if n % 2 == 0 { (0.5 * (1.0 + c)).sqrt() } else { (0.5 * ((nf * nf + 1.0) + (nf * nf - 1.0) * c)).sqrt() / nf }
}
/// the harness' own sampler of end-to-end lengths
fn own_length(mo: Mo, n: usize, th: f64, kap: f64, rng: &mut Rng) -> f64 {
    let mut p: V3 = [0.0; 3];
    let mut d: V3 = [0.0, 0.0, 1.0];
    for _ in 0..n {
        if mo.has_theta() {
            let k = if d[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
            let mut e1 = crs(&d, &k);
            let l = norm(&e1);
            e1.iter_mut().for_each(|x| *x /= l);
            let e2 = crs(&d, &e1);
            let ph = TAU * rng.u();
            for i in 0..3 {
                e1[i] = th.sin() * (ph.cos() * e1[i] + ph.sin() * e2[i]) + th.cos() * d[i];
            }
            let l = norm(&e1);
            d = [e1[0] / l, e1[1] / l, e1[2] / l];
        } else {
            let z = 2.0 * rng.u() - 1.0;
            let ph = TAU * rng.u();
            let s = (1.0 - z * z).sqrt();
            d = [s * ph.cos(), s * ph.sin(), z];
        }
        let lam = if mo.has_kappa() { 1.0 + rng.normal() / kap.sqrt() } else { 1.0 };
        for i in 0..3 {
            p[i] += lam * d[i];
        }
    }
    norm(&p)
}

fn chain_d(mo: Mo, n: Vec<f64>) -> Vec<Dim> {
    vec![
        dim("number_of_links", Pick(n)),
        dim("theta", if mo.has_theta() { Mix(vec![Lin(0.02, 3.12), Pick(vec![PI / 2.0, PI / 3.0, 0.1, 1e-3])]) } else { Pick(vec![1.0]) }),
        dim("kappa", if mo.has_kappa() { Log(60.0, 1e5) } else { Pick(vec![100.0]) }),
        dim("stream", Int(0, 1 << 52)),
    ]
}

pub fn c20(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    jobs.push(job("cross product", ctx.n(20000), (0..6).map(|i| dim(["u0", "u1", "u2", "v0", "v1", "v2"][i], Mix(vec![Lin(-3.0, 3.0), Pick(vec![0.0, 1.0, -1.0])]))).collect(), |v| {
        let (a, b) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
        let r = frc::thermodynamics::isometric::monte_carlo::cross(&a, &b);
        let w = crs(&a, &b);
        let mut c = C::new();
        for i in 0..3 {
            c.near("component", r[i], w[i], 1e-14 * (norm(&a) * norm(&b) + 1e-300));
        }
        c.done("vectors")
    }));
    for mo in ALL {
        jobs.push(job(format!("{} configurations", mo.name()), ctx.n(800), chain_d(mo, LINKS.to_vec()), move |v| {
            let (n, th, kap, seed) = (v[0] as usize, v[1], v[2], v[3] as u64);
            let m = (3000 / n).max(40);
            let cs = with_stream(seed, || by_links!(n, configs_n, mo, th, kap, m));
            let mut c = C::new();
            let sd = 1.0 / kap.sqrt();
            for cf in &cs {
                c.yes("one coordinate per link", cf.len() == n);
                let l = links(cf);
                let far = cf.iter().map(norm).fold(1.0, f64::max);
                for (i, r) in l.iter().enumerate() {
                    if mo.has_kappa() {
                        c.near("link length within nine standard deviations of one", norm(r), 1.0, 9.0 * sd);
                    } else {
                        c.near("link length", norm(r), 1.0, 1e-12 * far);
                    }
                    if mo.has_theta() && i > 0 {
                        let q = &l[i - 1];
                        // the frame built on the previous link loses digits where the auxiliary vector is close to it
                        c.near("cosine of the angle between consecutive links", dot(r, q) / norm(r) / norm(q), th.cos(), 1e-8);
                    }
                }
                let e = norm(&cf[n - 1]);
                let longest: f64 = l.iter().map(norm).sum();
                c.yes("end-to-end length at most the contour length", e <= longest * (1.0 + 1e-12));
                if mo == Frc {
                    c.yes(&format!("end-to-end length {e} at most that of the zigzag {}", n as f64 * gmax_zigzag(n, th)), e <= n as f64 * gmax_zigzag(n, th) * (1.0 + 1e-8));
                    if n == 2 {
                        c.near("two links", e, (2.0 + 2.0 * th.cos()).sqrt(), 1e-7);
                    }
                }
            }
            // not all alike
            c.yes("configurations differ", cs[0] != cs[1] && cs[1] != cs[2]);
            c.done(if n == 1 { "one link" } else if n < 5 { "few links" } else { "many links" })
        }));
        jobs.push(job(format!("{} end-to-end lengths", mo.name()), ctx.n(300), chain_d(mo, LINKS.to_vec()), move |v| {
            let (n, th, kap, seed) = (v[0] as usize, v[1], v[2], v[3] as u64);
            let m = 3000;
            let ls = with_stream(seed, || by_links!(n, lengths_n, mo, th, kap, m));
            let cs = with_stream(seed ^ 0x5555, || by_links!(n, configs_n, mo, th, kap, m));
            let mut c = C::new();
            let top = if mo == Frc { gmax_zigzag(n, th) } else { 1.0 + if mo.has_kappa() { 9.0 / kap.sqrt() } else { 0.0 } };
            c.yes("within the geometric maximum", ls.iter().all(|l| *l >= 0.0 && *l <= n as f64 * top * (1.0 + 1e-8)));
            ks2(&mut c, "end-to-end length against the distance of the last hinge", ls, cs.iter().map(|c| norm(&c[n - 1])).collect(), 1e-7);
            c.done(if n < 5 { "few links" } else { "many links" })
        }));
    }
    Prop { jobs, rule: "a random stream, number of links, angle and stiffness; 40 to 3000 configurations sampled from it, every link and angle of every one checked" }
}

/// two-sample Kolmogorov-Smirnov; alarms at a probability below 1e-14; values closer than eps count as equal
fn ks2(c: &mut C, what: &str, mut a: Vec<f64>, mut b: Vec<f64>, eps: f64) {
    a.sort_by(f64::total_cmp);
    b.sort_by(f64::total_cmp);
    let d = |a: &Vec<f64>, b: &Vec<f64>| {
        let mut d: f64 = 0.0;
        let mut j = 0;
        for (i, x) in a.iter().enumerate() {
            while j < b.len() && b[j] < x - eps {
                j += 1;
            }
            // F_b(x-) - F_a(x)
            d = d.max(j as f64 / b.len() as f64 - (i + 1) as f64 / a.len() as f64);
        }
        d
    };
    let ne = (a.len() * b.len()) as f64 / (a.len() + b.len()) as f64;
    let s = d(&a, &b).max(d(&b, &a)) * ne.sqrt();
    c.near(&format!("{what}: Kolmogorov-Smirnov statistic"), s, 0.0, 4.1);
}
/// one-sample Kolmogorov-Smirnov
fn ks1(c: &mut C, what: &str, mut a: Vec<f64>, f: impl Fn(f64) -> f64) {
    if a.len() < 100 {
        return;
    }
    a.sort_by(f64::total_cmp);
    let n = a.len() as f64;
    let mut d: f64 = 0.0;
    for (i, x) in a.iter().enumerate() {
        let y = f(*x);
        d = d.max(((i + 1) as f64 / n - y).abs()).max((y - i as f64 / n).abs());
    }
    c.near(&format!("{what}: Kolmogorov-Smirnov statistic"), d * n.sqrt(), 0.0, 4.1);
}
/// mean of independent values against its expectation, eight standard errors
fn mean(c: &mut C, what: &str, a: &[f64], want: f64) {
    let n = a.len() as f64;
    if n < 200.0 {
        return;
    }
    let m = a.iter().sum::<f64>() / n;
    let var = a.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n;
    c.near(&format!("mean of {what}"), m, want, 8.0 * (var / n).sqrt() + 1e-9);
}
fn dihedral(a: &V3, b: &V3, d: &V3) -> f64 {
    let (n1, n2) = (crs(a, b), crs(b, d));
    dot(&crs(&n1, &n2), b).atan2(dot(&n1, &n2) * norm(b))
}

pub fn c21(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    for mo in ALL {
        let th_ok = |th: f64| (0.05..3.09).contains(&th);
        jobs.push(job(format!("{} link statistics", mo.name()), ctx.n(250), chain_d(mo, vec![2.0, 3.0, 4.0, 5.0, 8.0, 13.0, 24.0]), move |v| {
            let (n, th, kap, seed) = (v[0] as usize, v[1], v[2], v[3] as u64);
            if mo.has_theta() && !th_ok(th) {
                return Out::Skip;
            }
            let m = 60_000 / n;
            let cs = with_stream(seed, || by_links!(n, configs_n, mo, th, kap, m));
            let ls: Vec<Vec<V3>> = cs.iter().map(|c| links(c)).collect();
            let mut c = C::new();
            if !mo.has_theta() {
                let dirs: Vec<V3> = ls.iter().flatten().map(|r| { let l = norm(r); [r[0] / l, r[1] / l, r[2] / l] }).collect();
                let u = |x: f64| 0.5 * (1.0 + x);
                for i in 0..3 {
                    ks1(&mut c, &format!("direction component {i}"), dirs.iter().map(|d| d[i]).collect(), u);
                }
                ks1(&mut c, "azimuth", dirs.iter().map(|d| d[1].atan2(d[0])).collect(), |p| (p + PI) / TAU);
                for (i, j) in [(0, 1), (1, 2), (2, 0)] {
                    mean(&mut c, "product of direction components", &dirs.iter().map(|d| d[i] * d[j]).collect::<Vec<_>>(), 0.0);
                }
                // successive links are independent
                for (i, j) in [(0usize, 1usize), (n - 2, n - 1), (0, n - 1)] {
                    let f: Vec<f64> = ls.iter().map(|l| dot(&l[i], &l[j]) / norm(&l[i]) / norm(&l[j])).collect();
                    ks1(&mut c, &format!("cosine between links {i} and {j}"), f, u);
                }
                if n >= 3 {
                    mean(&mut c, "triple product", &ls.iter().map(|l| dot(&crs(&l[0], &l[1]), &l[2])).collect::<Vec<_>>(), 0.0);
                }
                // the same law at every position along the chain
                for i in [0, n / 2, n - 1] {
                    mean(&mut c, "z of one link", &ls.iter().map(|l| l[i][2] / norm(&l[i])).collect::<Vec<_>>(), 0.0);
                    mean(&mut c, "z^2 of one link", &ls.iter().map(|l| (l[i][2] / norm(&l[i])).powi(2)).collect::<Vec<_>>(), 1.0 / 3.0);
                    mean(&mut c, "x^2 of one link", &ls.iter().map(|l| (l[i][0] / norm(&l[i])).powi(2)).collect::<Vec<_>>(), 1.0 / 3.0);
                }
            } else if n >= 3 {
                // torsions uniform and independent
                let t: Vec<Vec<f64>> = ls.iter().map(|l| l.windows(3).map(|w| dihedral(&w[0], &w[1], &w[2])).collect()).collect();
                ks1(&mut c, "torsion angle", t.iter().flatten().copied().collect(), |p| (p + PI) / TAU);
                for k in [0, n - 3] {
                    ks1(&mut c, &format!("torsion angle {k}"), t.iter().map(|t| t[k]).collect(), |p| (p + PI) / TAU);
                }
                if n >= 4 {
                    for s in [1.0, -1.0] {
                        let d: Vec<f64> = t.iter().map(|t| (t[0] + s * t[1]).rem_euclid(TAU)).collect();
                        ks1(&mut c, "sum or difference of successive torsion angles", d, |p| p / TAU);
                    }
                }
            }
            if mo.has_kappa() {
                let phi = |x: f64| 0.5 * libm::erfc(-(x - 1.0) * kap.sqrt() / 2f64.sqrt());
                ks1(&mut c, "link length", ls.iter().flatten().map(norm).collect(), phi);
                for i in [0, n - 1] {
                    ks1(&mut c, &format!("length of link {i}"), ls.iter().map(|l| norm(&l[i])).collect(), phi);
                }
                mean(&mut c, "correlation of successive lengths", &ls.iter().map(|l| (norm(&l[0]) - 1.0) * (norm(&l[1]) - 1.0) * kap).collect::<Vec<_>>(), 0.0);
                mean(&mut c, "correlation of length and direction", &ls.iter().map(|l| (norm(&l[1]) - 1.0) * kap.sqrt() * l[1][2] / norm(&l[1])).collect::<Vec<_>>(), 0.0);
                mean(&mut c, "variance of the length", &ls.iter().flatten().map(|r| (norm(r) - 1.0).powi(2) * kap).collect::<Vec<_>>(), 1.0);
            }
            // mean square end-to-end length
            let q = th.cos();
            let (nf, var) = (n as f64, if mo.has_kappa() { 1.0 / kap } else { 0.0 });
            let r2 = if mo.has_theta() { nf * (1.0 + q) / (1.0 - q) - 2.0 * q * (1.0 - q.powi(n as i32)) / (1.0 - q).powi(2) } else { nf };
            mean(&mut c, "squared end-to-end length", &cs.iter().map(|c| dot(&c[n - 1], &c[n - 1])).collect::<Vec<_>>(), r2 + nf * var);
            c.done(if n < 5 { "few links" } else { "many links" })
        }));
        let mut d = chain_d(mo, LINKS.to_vec());
        d.push(dim("bins", Pick(vec![1.0, 2.0, 7.0, 30.0, 100.0])));
        d.push(dim("samples", Pick(vec![1.0, 10.0, 777.0, 20000.0, 20000.0, 20000.0])));
        d.push(dim("gamma_max_factor", if mo.has_kappa() { Lin(1.0, 2.0) } else { Pick(vec![1.0]) }));
        jobs.push(job(format!("{} histogram", mo.name()), ctx.n(300), d, move |v| {
            let (n, th, kap, seed, b, m) = (v[0] as usize, v[1], v[2], v[3] as u64, v[4] as usize, v[5] as usize);
            let nf = n as f64;
            let gmax = match mo {
                Fjc => 1.0,
                Frc => gmax_zigzag(n, th),
                _ => (1.0 + 8.5 / kap.sqrt()) * v[6],
            };
            let (x, p) = with_stream(seed, || by_links!(n, hist_n, b, mo, th, kap, gmax, m));
            let mut c = C::new();
            let w = gmax / b as f64;
            c.yes("as many centres and values as bins", x.len() == b && p.len() == b);
            let mut tot = 0.0;
            let mut counts = vec![0.0; b];
            for i in 0..b {
                c.near("bin centre", x[i], (i as f64 + 0.5) * w, 1e-12);
                let k = p[i] * w * m as f64;
                c.near("bin value is a count over samples and width", k, k.round(), 1e-6);
                c.yes("bin value nonnegative", p[i] >= 0.0);
                counts[i] = k.round();
                tot += k;
            }
            c.near("total probability (in samples)", tot, m as f64, 1e-6 * m as f64);
            if m >= 1000 && c.msg.is_none() {
                // against the harness' own samples of the same chain
                let mut rng = Rng(seed ^ 0xabcdef);
                let mut own = vec![0.0; b];
                for _ in 0..m {
                    let g = own_length(mo, n, th, kap, &mut rng) / nf;
                    own[((g / w) as usize).min(b - 1)] += 1.0;
                }
                let point = (n == 1 && !mo.has_kappa()) || (n == 2 && mo == Frc); // a single value, at the edge of a bin
                let (mut ca, mut cb) = (0.0, 0.0);
                for i in 0..b {
                    if !point {
                        c.near(&format!("count of bin {i} against independent samples"), counts[i], own[i], 7.5 * (counts[i] + own[i]).sqrt() + 10.0);
                    }
                    ca += counts[i];
                    cb += own[i];
                    c.near(&format!("cumulative count of bin {i} against independent samples"), ca, cb, 4.1 * (2.0 * m as f64).sqrt());
                }
                if mo == Fjc && n >= 3 {
                    for i in 0..b {
                        let pr = quad(|g| 4.0 * PI * g * g * fjc_density(n, g).0, i as f64 * w + 1e-9, (i + 1) as f64 * w - 1e-9, 24);
                        let e = m as f64 * pr;
                        c.near(&format!("count of bin {i} against the exact distribution"), counts[i], e, 7.5 * e.sqrt() + 10.0 + 1e-6 * m as f64);
                    }
                }
            }
            c.done(if m < 1000 { "few samples" } else { "many samples" })
        }));
    }
    Prop { jobs, rule: "a random stream, number of links, angle, stiffness, number of bins and samples; statistics of the sampled links and histogram bins against their laws (alarms at probability below 1e-12)" }
}
