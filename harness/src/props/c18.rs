//! C18 special functions; C19 quadrature rules and Newton inverses.
use super::Prop;
use crate::fw::*;
use crate::num::{bessel_i_scaled, langevin, quad};
use polymers::math::*;
use std::f64::consts::PI;

/// exp(x^2) erfc(x) for x >= 0 from its integral representation
fn erfcx_ref(x: f64) -> f64 {
    // 2/sqrt(pi) int_0^inf exp(-t^2 - 2 x t) dt ; the integrand is below 1e-17 beyond t_max
    let tmax = (-x + (x * x + 42.0).sqrt()).min(6.5);
    2.0 / PI.sqrt() * quad(|t| (-t * (t + 2.0 * x)).exp(), 0.0, tmax, 24)
}
fn erfcx_any(x: f64) -> f64 {
    if x >= 0.0 { erfcx_ref(x) } else { 2.0 * (x * x).exp() - erfcx_ref(-x) }
}
fn erf_series(x: f64) -> f64 {
    // Maclaurin series, |x| small
    let (mut t, mut s) = (x, x);
    for n in 1..60 {
        t *= -x * x / n as f64;
        s += t / (2 * n + 1) as f64;
    }
    2.0 / PI.sqrt() * s
}

pub fn c18(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    // --- error functions: the table has 100 pieces in 400/(4 + |x|)
    let table_edge = |v: &[f64]| 400.0 / v[0] - 4.0;
    let arg = || vec![dim("argument", Mix(vec![Lin(-6.2, 6.2), Lin(-27.0, 60.0), Log(1e-12, 60.0), Log(1e-3, 1e9), Pick(vec![0.0, -0.0, 50.0, 5e7, -6.1, -26.7, 49.999999999, 1e30, 1e100])]))];
    jobs.push(job("erfcx", ctx.n(120000), arg(), move |v| {
        let x = v[0];
        if x < -26.6 {
            // documented saturation
            let mut c = C::new();
            c.yes("saturates", erfcx(&x) >= f64::MAX.min(2.0 * (26.6f64 * 26.6).exp()) && !erfcx(&x).is_nan());
            return c.done("saturated");
        }
        let mut c = C::new();
        let want = if x > 1e6 { (1.0 - 0.5 / x / x) / PI.sqrt() / x } else { erfcx_any(x) };
        c.rel("erfcx", erfcx(&x), want, 4e-14 + if x < 0.0 { 1e-15 * x * x } else { 0.0 }, 1e-300);
        c.done(if x < 0.0 { "negative" } else if x < 50.0 { "table" } else { "continued fraction" })
    }));
    jobs.push(job("erfc and erf", ctx.n(120000), arg(), move |v| {
        let x = v[0];
        let mut c = C::new();
        let want = if x > 27.5 { 0.0 } else if x < -7.0 { 2.0 } else if x < 0.0 { 2.0 - erfcx_ref(-x) * (-x * x).exp() } else { erfcx_ref(x) * (-x * x).exp() };
        c.rel("erfc", erfc(&x), want, 4e-14 + 2e-15 * (x * x).min(800.0), 5e-300);
        c.near("erf", erf(&x), 1.0 - want, 4e-14);
        if x.abs() < 1.5 {
            c.near("erf against its series", erf(&x), erf_series(x), 4e-14);
        }
        c.near("erf odd", erf(&-x), -erf(&x), 6e-14);
        c.near("erfc(-x) = 2 - erfc(x)", erfc(&-x), 2.0 - erfc(&x), 6e-14);
        c.yes("range", (0.0..=2.0).contains(&erfc(&x)) && erf(&x).abs() <= 1.0);
        c.done(if x < 0.0 { "negative" } else { "positive" })
    }));
    jobs.push(job("erfcx at the table edges", ctx.n(60000), vec![dim("piece", Int(1, 100)), dim("offset", Mix(vec![Log(1e-15, 1e-3), Pick(vec![0.0])])), dim("sign", Pick(vec![-1.0, 1.0]))], move |v| {
        let x0 = table_edge(v);
        let (a, b) = ((x0 * (1.0 - v[1]) - v[1]).max(0.0), x0 * (1.0 + v[1]) + v[1]);
        if b >= 50.0 {
            return Out::Skip;
        }
        let mut c = C::new();
        for x in [a, x0, b] {
            c.rel("erfcx", erfcx(&x), erfcx_ref(x), 4e-14, 0.0);
        }
        c.yes("erfcx decreases across the edge", erfcx(&a) >= erfcx(&b) * (1.0 - 2e-15));
        c.yes("erfc decreases, erf increases across the edge", erfc(&a) >= erfc(&b) - 4e-16 && erf(&a) <= erf(&b) + 4e-16);
        let (na, nb) = (-a, -b);
        c.yes("the same at negative arguments", erfc(&na) <= erfc(&nb) + 1e-15 && erf(&na) >= erf(&nb) - 1e-15);
        c.done("edge")
    }));
    jobs.push(job("erfcx helper", ctx.n(8000), vec![dim("z", Mix(vec![Lin(7.5, 100.0), Int(8, 100), Lin(99.0, 100.0)]))], move |v| {
        // z = 400/(4 + x)
        let mut c = C::new();
        let x = 400.0 / v[0] - 4.0;
        c.rel("erfcx_helper(400/(4 + x))", erfcx_helper(&v[0]), erfcx_ref(x), 4e-14, 0.0);
        c.done("table")
    }));
    jobs.push(job("error functions monotone", ctx.n(10000), vec![dim("argument", Lin(-8.0, 30.0)), dim("step", Log(1e-9, 5.0))], move |v| {
        let (x, y) = (v[0], v[0] + v[1]);
        let mut c = C::new();
        c.yes("erfc decreasing", erfc(&y) <= erfc(&x) * (1.0 + 4e-15) + 1e-300);
        c.yes("erf increasing", erf(&y) >= erf(&x) - 4e-15);
        c.yes("erfcx decreasing", erfcx(&y) <= erfcx(&x) * (1.0 + 4e-15));
        c.done("pair")
    }));
    // --- inverse Langevin
    jobs.push(job("inverse Langevin", ctx.n(160000), vec![dim("y", Mix(vec![Lin(-1.0, 1.0), Lin(0.0, 1.0), Log(1e-9, 0.5), Pick(vec![1e-3, 1.0000001e-3, 0.0, 0.5]), Lin(0.9, 1.0)])), dim("one_minus_y", Mix(vec![Log(1e-6, 0.1), Pick(vec![0.0])]))], move |v| {
        let y = if v[1] > 0.0 && v[0] > 0.9 { 1.0 - v[1] } else { v[0] };
        if !(y.abs() < 1.0 - 1e-6) {
            return Out::Skip;
        }
        let x = inverse_langevin(&y);
        let mut c = C::new();
        if y.abs() <= 1e-3 {
            c.rel("linear range", x, 3.0 * y + 1.8 * y.powi(3), 2e-6, 0.0);
        }
        c.near("Langevin of the inverse", langevin(x), y, 1e-6 * y.abs());
        c.near("the inverse near full extension", 1.0 - langevin(x.abs()), 1.0 - y.abs(), 1e-3 * (1.0 - y.abs()) + 1e-9 + 1e-6 * y.abs() * (1.0 - y.abs()));
        c.yes("odd", inverse_langevin(&-y) == -x || y == 0.0 && x == 0.0);
        let y2 = y + 0.2 * (1.0 - y.abs());
        c.yes("increasing", inverse_langevin(&y2) > x);
        c.done(if y.abs() <= 1e-3 { "linear" } else if y < 0.0 { "negative" } else if y < 0.9 { "middle" } else { "near full extension" })
    }));
    // --- Lambert W, principal branch
    jobs.push(job("Lambert W", ctx.n(160000), vec![dim("x", Mix(vec![Lin(-0.36, 3.0), Lin(0.0, 100.0), Log(1e-12, 1e12), Log(1e12, 1e60), Pick(vec![0.0, 1.0, std::f64::consts::E])])), dim("above_branch_point", Mix(vec![Pick(vec![0.0]), Log(1e-9, 0.3)]))], move |v| {
        let x = if v[1] > 0.0 && v[0] < 0.0 { -(-1f64).exp() + v[1] } else { v[0] };
        let w = lambert_w(&x);
        let mut c = C::new();
        let u = x - -(-1f64).exp();
        let tol = if u < 0.05 { 1e-9 / u.min(1.0) } else { 1e-11 };
        let _ = tol;
        // w + ln w = ln x for large x, else w e^w = x
        if x > 10.0 {
            c.near("w + ln w", w + w.ln(), x.ln(), 1e-12 * (1.0 + x.ln()));
        } else {
            c.near("w exp(w)", w * w.exp(), x, 1e-11 * x.abs().max(1e-3) + if x.abs() < 1e-3 { 1e-14 } else { 0.0 });
        }
        c.yes("principal branch", w >= -1.0);
        c.yes("sign", w == 0.0 || (w > 0.0) == (x > 0.0) || x.abs() < 1e-14);
        c.yes("increasing", lambert_w(&(x + 0.01 * (1.0 + x.abs()))) > w);
        c.done(if x < -0.3 { "near the branch point" } else if x < 0.0 { "negative" } else if x < 100.0 { "moderate" } else { "large" })
    }));
    // --- modified Bessel functions
    jobs.push(job("modified Bessel functions", ctx.n(60000), vec![dim("x", Mix(vec![Lin(-20.0, 20.0), Lin(7.7, 7.8), Lin(499.0, 501.0), Log(1e-8, 690.0), Lin(-690.0, 690.0), Pick(vec![0.0, 7.75, -7.75, 500.0, -500.0, 8.0])]))], move |v| {
        let x = v[0];
        let (i0, i1) = (bessel_i(&0, &x), bessel_i(&1, &x));
        let e = x.abs().exp();
        let mut c = C::new();
        let t = 1e-12;
        c.rel("I0", i0 / e, bessel_i_scaled(0, x), t, 0.0);
        // power series where the scaled integral loses digits
        let w1 = if x.abs() < 3.0 {
            let (mut t, mut s) = (x / 2.0, x / 2.0);
            for k in 1..40 {
                t *= x * x / 4.0 / (k * (k + 1)) as f64;
                s += t;
            }
            s / e
        } else { bessel_i_scaled(1, x) };
        c.rel("I1", i1 / e, w1, t, 1e-300);
        c.yes("I0 even, I1 odd", i0 == bessel_i(&0, &-x) && i1 == -bessel_i(&1, &-x));
        c.yes("I0 > |I1|", i0 > i1.abs());
        // I0' = I1
        c.done(if x.abs() < 7.75 { "series" } else if x.abs() < 500.0 { "asymptotic" } else { "large" })
    }));
    jobs.push(job("modified Bessel functions at the branch edges", ctx.n(3000), vec![dim("edge", Pick(vec![7.75, 500.0])), dim("offset", Log(1e-15, 1e-2)), dim("sign", Pick(vec![-1.0, 1.0]))], move |v| {
        let (a, b) = (v[2] * v[0] * (1.0 - v[1]), v[2] * v[0] * (1.0 + v[1]));
        let mut c = C::new();
        for nu in [0u8, 1] {
            let (x, y) = (bessel_i(&nu, &a), bessel_i(&nu, &b));
            // d ln I/dx is close to one
            c.near("log-continuity", (y / x).ln(), (b - a).abs(), 0.3 * (b - a).abs() + 4e-14);
        }
        c.done("edge")
    }));
    Prop { jobs, rule: "an argument drawn from the function's domain (every table piece, branch edges, tiny, huge and negative arguments); value compared with an independent evaluation (integral representation, defining equation or series)" }
}

/// a smooth function of one variable with its antiderivative and a bound on its second derivative
struct F1 {
    a: f64, w: f64, p: f64, b: f64, k: f64, c0: f64, c1: f64, c2: f64,
}
impl F1 {
    fn new(v: &[f64]) -> F1 {
        F1 { a: v[0], w: v[1], p: v[2], b: v[3], k: v[4], c0: v[5], c1: v[6], c2: v[7] }
    }
    fn f(&self, x: f64) -> f64 {
        self.a * (self.w * x + self.p).sin() + self.b * (self.k * x).exp() + self.c0 + self.c1 * x + self.c2 * x * x
    }
    fn int(&self, x: f64) -> f64 {
        let e = if self.k.abs() < 1e-9 { x } else { (self.k * x).exp_m1() / self.k };
        let h = 0.5 * self.w * x;
        let s = x * (h + self.p).sin() * if h.abs() < 1e-9 { 1.0 } else { h.sin() / h };
        self.a * s + self.b * e + self.c0 * x + self.c1 * x * x / 2.0 + self.c2 * x.powi(3) / 3.0
    }
    fn d2(&self, lo: f64, hi: f64) -> f64 {
        self.a.abs() * self.w * self.w + self.b.abs() * self.k * self.k * (self.k * lo).exp().max((self.k * hi).exp()) + 2.0 * self.c2.abs()
    }
    fn mag(&self, lo: f64, hi: f64) -> f64 {
        let m = lo.abs().max(hi.abs());
        self.a.abs() + self.b.abs() * (self.k * lo).exp().max((self.k * hi).exp()) + self.c0.abs() + self.c1.abs() * m + self.c2.abs() * m * m
    }
    fn dims() -> Vec<Dim> {
        vec![
            dim("sine_amplitude", Mix(vec![Lin(-3.0, 3.0), Pick(vec![0.0])])),
            dim("sine_frequency", Lin(0.0, 4.0)),
            dim("sine_phase", Lin(0.0, 6.3)),
            dim("exp_amplitude", Mix(vec![Lin(-2.0, 2.0), Pick(vec![0.0])])),
            dim("exp_rate", Lin(-1.5, 1.5)),
            dim("constant", Lin(-5.0, 5.0)),
            dim("linear", Lin(-5.0, 5.0)),
            dim("quadratic", Mix(vec![Lin(-2.0, 2.0), Pick(vec![0.0])])),
        ]
    }
}
fn interval(name: [&'static str; 2]) -> Vec<Dim> {
    vec![dim(name[0], Lin(-3.0, 3.0)), dim(name[1], Mix(vec![Lin(0.05, 4.0), Lin(-3.0, -0.1)]))]
}

pub fn c19(ctx: &Ctx) -> Prop {
    let mut jobs = vec![];
    let npts = || Mix(vec![Int(1, 300), Int(1, 8), Pick(vec![1.0, 2.0, 64.0, 256.0])]);
    let mut d = F1::dims();
    d.extend(interval(["x_min", "x_extent"]));
    d.push(dim("points", npts()));
    jobs.push(job("integrate_1d", ctx.n(12000), d, |v| {
        let g = F1::new(v);
        let (a, b, n) = (v[8], v[8] + v[9], v[10] as u128);
        let h = v[9] / n as f64;
        let exact = g.int(b) - g.int(a);
        let (lo, hi) = (a.min(b), a.max(b));
        let round = 1e-13 * g.mag(lo, hi) * v[9].abs() + 1e-14 * (g.int(b).abs() + g.int(a).abs());
        let mut c = C::new();
        let calls = std::cell::RefCell::new(vec![]);
        let f = |x: &f64| { calls.borrow_mut().push(*x); g.f(*x) };
        let r = integrate_1d(&f, &a, &b, &n);
        c.near("midpoint rule", r, exact, v[9].abs() * h * h * g.d2(lo, hi) / 24.0 * 1.0001 + round);
        c.yes("as many evaluations as points", calls.borrow().len() == n as usize);
        c.yes("evaluations inside the interval", calls.borrow().iter().all(|x| *x >= lo && *x <= hi));
        // grid form on the midpoint grid
        let grid: Vec<f64> = (0..n as usize).map(|i| a + (i as f64 + 0.5) * h).collect();
        c.near("grid form on the same grid", integrate_1d_grid(&|x: &f64| g.f(*x), &grid, &h), r, 4.0 * round);
        // additive over a split of the interval with the same spacing
        if n % 2 == 0 {
            let m = a + v[9] / 2.0;
            c.near("additive", integrate_1d(&|x: &f64| g.f(*x), &a, &m, &(n / 2)) + integrate_1d(&|x: &f64| g.f(*x), &m, &b, &(n / 2)), r, 4.0 * round);
        }
        c.near("reversed interval", integrate_1d(&|x: &f64| g.f(*x), &b, &a, &n), -r, 4.0 * round);
        // second order: the error divides by four
        if n >= 64 {
            let r2 = integrate_1d(&|x: &f64| g.f(*x), &a, &b, &(2 * n));
            c.near("second order", r2 - exact, (r - exact) / 4.0, 0.1 * h * h * v[9].abs() * g.d2(lo, hi) / 24.0 + 4.0 * round);
        }
        c.done(if n == 1 { "one point" } else if n < 10 { "few points" } else { "many points" })
    }));
    // arbitrary grids: a weighted sum
    let mut d = F1::dims();
    d.extend(vec![dim("points", Int(0, 40)), dim("seed", Int(1, 1 << 40)), dim("weight", Lin(-2.0, 2.0))]);
    jobs.push(job("grid forms on arbitrary grids", ctx.n(4000), d, |v| {
        let g = F1::new(v);
        let mut s = v[9] as u64;
        let mut next = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 11) as f64 / (1u64 << 53) as f64 * 4.0 - 2.0 };
        let gx: Vec<f64> = (0..v[8] as usize).map(|_| next()).collect();
        let gy: Vec<f64> = (0..(v[9] as usize % 23)).map(|_| next()).collect();
        let w = v[10];
        let mut c = C::new();
        let (mut s1, mut s2, mut s3, mut mag) = (0.0, 0.0, 0.0, 1.0);
        let f2 = |x: &f64, y: &f64| g.f(*x) * (1.0 + y) + x * x * y;
        for x in &gx {
            s1 += g.f(*x);
            for y in &gy {
                s2 += f2(x, y);
                mag += f2(x, y).abs();
            }
            for y in &gx {
                s3 += f2(x, y);
                mag += f2(x, y).abs();
            }
            mag += g.f(*x).abs();
        }
        c.near("integrate_1d_grid", integrate_1d_grid(&|x: &f64| g.f(*x), &gx, &w), s1 * w, 1e-13 * mag);
        c.near("integrate_2d_grid", integrate_2d_grid(&f2, &gx, &gy, &w), s2 * w, 1e-13 * mag);
        c.near("integrate_2d_symmetric_grid", integrate_2d_symmetric_grid(&f2, &gx, &w), s3 * w, 1e-13 * mag);
        c.done(if gx.is_empty() || gy.is_empty() { "empty" } else { "sum" })
    }));
    // two dimensions: product plus a coupled sine
    let mut d = F1::dims();
    d.extend(interval(["x_min", "x_extent"]));
    d.extend(interval(["y_min", "y_extent"]));
    d.extend(vec![dim("u", Lin(-2.0, 2.0)), dim("v", Lin(-2.0, 2.0)), dim("points", Mix(vec![Int(1, 40), Int(30, 120), Pick(vec![1.0, 2.0])]))]);
    jobs.push(job("integrate_2d", ctx.n(6000), d, |v| {
        let g = F1::new(v);
        let (a, dx, b, dy, u, w, n) = (v[8], v[9], v[10], v[11], v[12], v[13], v[14] as u128);
        if u.abs() < 0.05 || w.abs() < 0.05 {
            return Out::Skip;
        }
        // f(x, y) = g(x) (1 + 2 y) + sin(u x + w y)
        let f = |x: &f64, y: &f64| g.f(*x) * (1.0 + 2.0 * y) + (u * x + w * y).sin();
        let anti = |x: f64, y: f64| -((u * x + w * y).sin()) / (u * w);
        let box_int = |a: f64, dx: f64, b: f64, dy: f64| {
            let (a2, b2) = (a + dx, b + dy);
            (g.int(a2) - g.int(a)) * (dy + b2 * b2 - b * b) + anti(a2, b2) - anti(a, b2) - anti(a2, b) + anti(a, b)
        };
        let bound = |a: f64, dx: f64, b: f64, dy: f64| {
            let (hx, hy) = (dx / n as f64, dy / n as f64);
            let ym = 1.0 + 2.0 * b.abs().max((b + dy).abs());
            let (lo, hi) = (a.min(a + dx), a.max(a + dx));
            let gm = g.mag(lo, hi) * ym + 1.0;
            ((dx * dy).abs() * (hx * hx * (g.d2(lo, hi) * ym + u * u) + hy * hy * w * w) / 24.0 * 1.0001, 1e-13 * (gm * (dx * dy).abs() + 8.0 / (u * w).abs() + (g.int(hi).abs() + g.int(lo).abs()) * ym * (1.0 + dy.abs())))
        };
        let mut c = C::new();
        let r = integrate_2d(&f, &a, &(a + dx), &b, &(b + dy), n);
        let (e, round) = bound(a, dx, b, dy);
        c.near("midpoint rule", r, box_int(a, dx, b, dy), e + round);
        let gx: Vec<f64> = (0..n as usize).map(|i| a + (i as f64 + 0.5) * dx / n as f64).collect();
        let gy: Vec<f64> = (0..n as usize).map(|i| b + (i as f64 + 0.5) * dy / n as f64).collect();
        c.near("grid form", integrate_2d_grid(&f, &gx, &gy, &(dx * dy / (n * n) as f64)), r, 4.0 * round);
        // the symmetric form covers the square with x and y over the same interval
        let rs = integrate_2d_symmetric(&f, &a, &(a + dx), n);
        let (e, round) = bound(a, dx, a, dx);
        c.near("symmetric midpoint rule", rs, box_int(a, dx, a, dx), e + round);
        c.near("symmetric form against the general one", rs, integrate_2d(&f, &a, &(a + dx), &a, &(a + dx), n), 4.0 * round);
        c.near("symmetric grid form", integrate_2d_symmetric_grid(&f, &gx, &(dx * dx / (n * n) as f64)), rs, 4.0 * round);
        // iterated one-dimensional rules
        let hy = dy / n as f64;
        let it: f64 = gy.iter().map(|y| integrate_1d(&|x: &f64| f(x, y), &a, &(a + dx), &n)).sum::<f64>() * hy;
        c.near("iterated one-dimensional rule", it, r, 4.0 * bound(a, dx, b, dy).1);
        c.done(if n == 1 { "one point" } else { "many points" })
    }));
    // --- Newton inverses
    let nd = || vec![
        dim("linear", Log(0.1, 10.0)),
        dim("cubic", Mix(vec![Log(1e-3, 3.0), Pick(vec![0.0])])),
        dim("root", Mix(vec![Log(0.01, 20.0), Lin(0.1, 5.0)])),
        dim("guess_over_root", Mix(vec![Log(0.2, 5.0), Pick(vec![1.0])])),
        dim("tolerance", Log(1e-10, 1e-2)),
        dim("power", Int(1, 5)),
    ];
    jobs.push(job("Newton inverses", ctx.n(12000), nd(), |v| {
        let (a, b, x0, p) = (v[0], v[1], v[2], v[5] as i32);
        let f = |x: &f64| a * x + b * x.powi(3);
        let fp = |x: &f64| a + 3.0 * b * x * x;
        let y = f(&x0);
        let mut c = C::new();
        let x = inverse_newton_raphson(&y, &f, &fp, &(x0 * v[3]), &v[4], &100);
        c.near("plain: residual", f(&x), y, v[4] * y * 1.0001);
        c.near("plain: root", x, x0, 3.0 * v[4] * x0);
        let x = inverse_newton_raphson_powered(&y, &f, &fp, &(x0 * v[3]), &v[4], &250, p);
        c.near("powered: residual", f(&x), y, v[4] * y * 1.0001 + 1e-15 * y);
        c.near("powered: root", x, x0, 3.0 * v[4] * x0 + 1e-15);
        // the iteration cap is respected: exactly that many evaluations
        let n = std::cell::Cell::new(0u32);
        let g = |x: &f64| { n.set(n.get() + 1); f(x) };
        let _ = inverse_newton_raphson(&y, &g, &fp, &(x0 * 4.0), &0.0, &7);
        c.yes("plain: at most max_iters evaluations", n.get() <= 7);
        c.done(if b == 0.0 { "linear" } else if v[3] == 1.0 { "guess is the root" } else { "cubic" })
    }));
    jobs.push(job("Newton steps", ctx.n(4000), nd(), |v| {
        // with k iterations allowed and no tolerance the result is the k-th Newton iterate (damped by the power)
        let (a, b, x0, p) = (v[0], v[1], v[2], v[5] as i32);
        let f = |x: &f64| a * x + b * x.powi(3);
        let fp = |x: &f64| a + 3.0 * b * x * x;
        let y = f(&x0);
        let mut c = C::new();
        let (mut x1, mut xp) = (x0 * v[3], x0 * v[3]);
        if v[3] == 1.0 {
            return Out::Skip;
        }
        for k in 1..=3u8 {
            x1 -= (f(&x1) - y) / fp(&x1);
            xp -= (f(&xp) - y) / fp(&xp) / p as f64;
            c.near("plain", inverse_newton_raphson(&y, &f, &fp, &(x0 * v[3]), &1e-13, &k), x1, 2e-12 * x0.max(x1.abs()));
            c.near("powered", inverse_newton_raphson_powered(&y, &f, &fp, &(x0 * v[3]), &1e-13, &k, p), xp, 2e-12 * x0.max(xp.abs()));
        }
        c.done("steps")
    }));
    Prop { jobs, rule: "a random smooth integrand over a random box (or a random monotone function and target); result compared with the antiderivative within the rigorous midpoint bound (or with the root)" }
}
