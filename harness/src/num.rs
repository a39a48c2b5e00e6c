//! Independent numerics used as oracles.
use std::f64::consts::PI;
use std::sync::OnceLock;

fn gl_nodes() -> &'static (Vec<f64>, Vec<f64>) {
    static N: OnceLock<(Vec<f64>, Vec<f64>)> = OnceLock::new();
    N.get_or_init(|| {
        let n = 16;
        let (mut xs, mut ws) = (vec![], vec![]);
        for i in 0..n {
            let mut x = (PI * (i as f64 + 0.75) / (n as f64 + 0.5)).cos();
            let mut dp = 0.0;
            for _ in 0..100 {
                let (mut p0, mut p1) = (1.0, x);
                for k in 2..=n {
                    let p2 = ((2 * k - 1) as f64 * x * p1 - (k - 1) as f64 * p0) / k as f64;
                    p0 = p1;
                    p1 = p2;
                }
                dp = n as f64 * (x * p1 - p0) / (x * x - 1.0);
                let dx = p1 / dp;
                x -= dx;
                if dx.abs() < 1e-16 {
                    break;
                }
            }
            xs.push(x);
            ws.push(2.0 / ((1.0 - x * x) * dp * dp));
        }
        (xs, ws)
    })
}
/// composite 16-point Gauss-Legendre
pub fn quad(f: impl Fn(f64) -> f64, a: f64, b: f64, panels: usize) -> f64 {
    let (xs, ws) = gl_nodes();
    let h = (b - a) / panels as f64;
    let mut s = 0.0;
    for k in 0..panels {
        let c = a + (k as f64 + 0.5) * h;
        for (x, w) in xs.iter().zip(ws) {
            s += w * f(c + 0.5 * h * x);
        }
    }
    s * 0.5 * h
}
/// L(x) = coth x - 1/x
pub fn langevin(x: f64) -> f64 {
    let a = x.abs();
    if a < 0.3 {
        let y = x * x;
        // series with 8 terms
        let c = [1.0 / 3.0, -1.0 / 45.0, 2.0 / 945.0, -1.0 / 4725.0, 2.0 / 93555.0, -1382.0 / 638512875.0, 4.0 / 18243225.0, -3617.0 / 162820783125.0];
        x * c.iter().rev().fold(0.0, |s, c| s * y + c)
    } else {
        1.0 / x.tanh() - 1.0 / x
    }
}
/// dL/dx
pub fn dlangevin(x: f64) -> f64 {
    let a = x.abs();
    if a < 0.3 {
        let y = x * x;
        let c = [1.0 / 3.0, -3.0 / 45.0, 10.0 / 945.0, -7.0 / 4725.0, 18.0 / 93555.0, -11.0 * 1382.0 / 638512875.0, 13.0 * 4.0 / 18243225.0, -15.0 * 3617.0 / 162820783125.0];
        c.iter().rev().fold(0.0, |s, c| s * y + c)
    } else if a > 300.0 {
        1.0 / (x * x)
    } else {
        1.0 / (x * x) - 1.0 / x.sinh().powi(2)
    }
}
/// ln(sinh(x)/x), stable
pub fn lnshc(x: f64) -> f64 {
    let a = x.abs();
    if a < 0.3 {
        let y = a * a;
        let c = [1.0 / 6.0, -1.0 / 180.0, 1.0 / 2835.0, -1.0 / 37800.0, 1.0 / 467775.0, -691.0 / 3831077250.0, 2.0 / 127702575.0];
        y * c.iter().rev().fold(0.0, |s, c| s * y + c)
    } else {
        a + (-(-2.0 * a).exp()).ln_1p() - (2.0 * a).ln()
    }
}
/// x coth x
pub fn xcoth(x: f64) -> f64 {
    1.0 + x * langevin(x)
}
pub fn bisect(f: impl Fn(f64) -> f64, mut lo: f64, mut hi: f64) -> f64 {
    // f increasing
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if m <= lo || m >= hi {
            break;
        }
        if f(m) < 0.0 {
            lo = m
        } else {
            hi = m
        }
    }
    0.5 * (lo + hi)
}
pub fn inv_langevin(y: f64) -> f64 {
    let mut lo = 0.0;
    let mut hi = 1.0;
    while langevin(hi) < y {
        lo = hi;
        hi *= 2.0;
        if hi > 1e300 {
            return hi;
        }
    }
    bisect(|x| langevin(x) - y, lo, hi)
}
/// 4th-order central first derivative
pub fn deriv(f: impl Fn(f64) -> f64, x: f64, h: f64) -> f64 {
    (8.0 * (f(x + h) - f(x - h)) - (f(x + 2.0 * h) - f(x - 2.0 * h))) / (12.0 * h)
}
/// All cardinal B-splines needed at argument x: B_n(x) (support [0,n]), by the stable de Boor recursion.
pub fn bspline(n: usize, x: f64) -> f64 {
    if x <= 0.0 || x >= n as f64 {
        return 0.0;
    }
    // b[j] = B_k(x - j)
    let mut b = vec![0.0; n];
    for (j, v) in b.iter_mut().enumerate() {
        let y = x - j as f64;
        *v = if (0.0..1.0).contains(&y) { 1.0 } else { 0.0 };
    }
    for k in 2..=n {
        for j in 0..=(n - k) {
            let y = x - j as f64;
            b[j] = (y * b[j] + (k as f64 - y) * b[j + 1]) / (k as f64 - 1.0);
        }
    }
    b[0]
}
/// Exact freely-jointed chain: (P(gamma), d ln P / d gamma) for P the 3D density of the end-to-end vector in units of
/// the contour length. One Cartesian projection of a unit link is uniform on [-1,1], so the projected density is a
/// cardinal B-spline and P(r) = -f'(r)/(2 pi r).
pub fn fjc_density(n: usize, g: f64) -> (f64, f64) {
    let nf = n as f64;
    let x = nf * (1.0 + g) / 2.0; // r = N g -> B-spline argument (sum of N uniforms on [0,1])
    // f(r) = B_n((N+r)/2)/2 ; f' = B'/4 ; f'' = B''/8
    let b1 = |y: f64| bspline(n - 1, y);
    let b2 = |y: f64| bspline(n - 2, y);
    let d1 = b1(x) - b1(x - 1.0);
    let d2 = b2(x) - 2.0 * b2(x - 1.0) + b2(x - 2.0);
    let fp = d1 / 4.0;
    let fpp = d2 / 8.0;
    let r = nf * g;
    let p = -fp / (2.0 * PI * r);
    // d ln P/dr = f''/f' - 1/r
    (p * nf.powi(3), nf * (fpp / fp - 1.0 / r))
}
/// Lambert W principal branch on (-1/e, inf) by bisection
pub fn lambert_w(x: f64) -> f64 {
    bisect(|w: f64| w * w.exp() - x, -1.0, if x > 1.0 { x.ln() + 1.0 } else { 1.0 })
}
/// exp(-|x|) I_nu(x) by the trapezoid rule on the integral representation (exponentially accurate)
pub fn bessel_i_scaled(nu: u32, x: f64) -> f64 {
    let a = x.abs();
    let m = 64 + (12.0 * a.sqrt()) as usize + (if a < 100.0 { 2.0 * a } else { 0.0 }) as usize;
    let mut s = 0.0;
    for k in 0..m {
        let th = PI * (k as f64 + 0.5) / m as f64;
        s += (a * (th.cos() - 1.0)).exp() * (nu as f64 * th).cos();
    }
    let v = s / m as f64;
    if x < 0.0 && nu % 2 == 1 {
        -v
    } else {
        v
    }
}
/// Derivatives of P (0th to 3rd, with respect to gamma, up to a common factor) of the exact freely jointed chain.
pub fn fjc_derivs(n: usize, g: f64) -> [f64; 4] {
    let nf = n as f64;
    let r = nf * g;
    let x = nf * (1.0 + g) / 2.0;
    let mut d = [0.0; 5];
    for k in 1..=4usize {
        if n <= k {
            continue;
        }
        let mut s = 0.0;
        let mut binom = 1.0;
        for j in 0..=k {
            s += if j % 2 == 0 { binom } else { -binom } * bspline(n - k, x - j as f64);
            binom *= (k - j) as f64 / (j + 1) as f64;
        }
        d[k] = -s / 2f64.powi(k as i32);
    }
    [
        d[1] / r,
        (d[2] / r - d[1] / r.powi(2)) * nf,
        (d[3] / r - 2.0 * d[2] / r.powi(2) + 2.0 * d[1] / r.powi(3)) * nf.powi(2),
        (d[4] / r - 3.0 * d[3] / r.powi(2) + 6.0 * d[2] / r.powi(3) - 6.0 * d[1] / r.powi(4)) * nf.powi(3),
    ]
}
/// ln I0(x), ln-scaled
pub fn ln_i0(x: f64) -> f64 {
    bessel_i_scaled(0, x).ln() + x.abs()
}
