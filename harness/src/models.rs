//! The chain models, their parameter spaces, and independently written reference results (per link, nondimensional).
use crate::fw::{Dim, Dist::*, dim};
use crate::num::*;
use crate::params::P;
use std::f64::consts::PI;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum M {
    Ideal,
    Fjc,
    Efjc,
    Sw,
    Morse,
    LogSq,
    Lj,
    Wlc,
}
pub use M::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Exact,
    Asym,
    Reduced,
    Alt,
}
pub use K::*;

impl M {
    pub fn path(self) -> &'static str {
        match self {
            Ideal => "ideal",
            Fjc => "fjc",
            Efjc => "efjc",
            Sw => "swfjc",
            Morse => "ufjc/morse",
            LogSq => "ufjc/log_squared",
            Lj => "ufjc/lennard_jones",
            Wlc => "wlc",
        }
    }
    pub fn of(module: &str) -> M {
        [Ideal, Fjc, Efjc, Sw, Morse, LogSq, Lj, Wlc].into_iter().find(|m| module.starts_with(&format!("{}/", m.path()))).unwrap()
    }
    pub fn has_kappa(self) -> bool {
        matches!(self, Efjc | Morse | LogSq | Lj)
    }
}
/// (model, kind) of every isotensional module
pub const ISOT: &[(M, K)] = &[
    (Ideal, Exact), (Fjc, Exact), (Efjc, Exact), (Efjc, Asym), (Efjc, Alt), (Efjc, Reduced), (Sw, Exact),
    (Morse, Exact), (Morse, Asym), (Morse, Reduced), (LogSq, Exact), (LogSq, Asym), (LogSq, Reduced),
    (Lj, Exact), (Lj, Asym), (Lj, Reduced), (Wlc, Exact),
];
pub fn suffix(k: K) -> &'static str {
    match k {
        Exact => "",
        Asym => "/asymptotic",
        Reduced => "/asymptotic/reduced",
        Alt => "/asymptotic/alternative",
    }
}
pub fn isot(m: M, k: K) -> String {
    format!("{}/thermodynamics/isotensional{}", m.path(), suffix(k))
}
/// isometric Legendre module of (model, kind), where there is one
pub fn isom_leg(m: M, k: K) -> String {
    format!("{}/thermodynamics/isometric{}/legendre", m.path(), suffix(k))
}
/// the (model, kind) pairs with an isometric Legendre module (kind of the isotensional relation it inverts)
pub const ISOML: &[(M, K)] = &[
    (Fjc, Exact), (Efjc, Asym), (Efjc, Alt), (Efjc, Reduced), (Sw, Exact), (Morse, Asym), (Morse, Reduced),
    (LogSq, Asym), (LogSq, Reduced), (Lj, Asym), (Lj, Reduced),
];

// ---------------------------------------------------------------------------------------------------------------
// parameter spaces

/// dimensions describing a chain and a temperature: nl ll hm t a b
pub fn chain_dims(m: M, nl: crate::fw::Dist) -> Vec<Dim> {
    let (a, b) = match m {
        Ideal | Fjc => (Pick(vec![0.0]), Pick(vec![0.0])),
        Efjc => (Mix(vec![Log(50.0, 5e3), Log(20.0, 1e5)]), Pick(vec![0.0])),
        Sw => (Mix(vec![Log(0.05, 3.0), Lin(0.5, 1.5), Lin(2.5, 10.0)]), Pick(vec![0.0])),
        Morse => (Log(20.0, 2e3), Log(2.0, 200.0)),
        LogSq | Lj => (Log(20.0, 2e3), Pick(vec![0.0])),
        Wlc => (Mix(vec![Log(0.02, 3.0), Lin(0.05, 0.5), Pick(vec![0.1249, 0.1249999, 0.1250001, 0.126])]), Pick(vec![0.0])),
    };
    vec![
        dim("number_of_links", nl),
        dim("link_length", Mix(vec![Log(0.1, 10.0), Log(0.01, 100.0), Lin(0.8, 1.2), Pick(vec![1.0])])),
        dim("hinge_mass", Mix(vec![Log(0.05, 20.0), Pick(vec![1.0])])),
        dim("temperature", Mix(vec![Lin(250.0, 350.0), Log(20.0, 3000.0), Pick(vec![300.0])])),
        dim(match m { Efjc | Morse | LogSq | Lj => "link_stiffness_nondim", Sw => "well_width_over_link_length", Wlc => "persistance_length_over_contour", _ => "unused_a" }, a),
        dim(if m == Morse { "link_energy_nondim" } else { "unused_b" }, b),
    ]
}
pub fn nl_any() -> crate::fw::Dist {
    Mix(vec![Int(3, 30), Int(1, 255), Pick(vec![1.0, 2.0, 3.0, 8.0, 25.0, 26.0, 255.0])])
}
/// numbers of links for which the exact freely jointed sums are representable (see known findings)
pub fn nl_exact() -> crate::fw::Dist {
    Mix(vec![Int(3, 26), Int(3, 26), Int(2, 34), Pick(vec![3.0, 4.0, 5.0, 8.0, 25.0, 26.0, 34.0])])
}
pub const NCH: usize = 6;
pub fn chain(m: M, v: &[f64]) -> P {
    let mut p = P::new(v[0] as u8, v[1], v[2], v[3]);
    match m {
        Efjc | LogSq | Lj => p.set_kappa(v[4]),
        Morse => {
            p.set_kappa(v[4]);
            p.set_eps(v[5]);
        }
        Sw => p.set_w(v[4]),
        Wlc => p.set_nlp(v[4]),
        _ => {}
    }
    p
}
/// extra "shape" parameters
pub fn varsigma(p: &P) -> f64 {
    1.0 + p.ww / p.ll
}
pub fn alpha(p: &P) -> f64 {
    (p.nls / p.nle / 2.0).sqrt()
}
/// maximum force before rupture (infinite where there is none)
pub fn eta_max(m: M, p: &P) -> f64 {
    let lm = lj_lmax();
    match m {
        Morse => (p.nle * p.nls / 8.0).sqrt(),
        LogSq => p.nls / 1f64.exp(),
        Lj => p.nls / 6.0 * (lm.powi(-7) - lm.powi(-13)),
        _ => f64::INFINITY,
    }
}
pub fn lj_lmax() -> f64 {
    (13.0f64 / 7.0).powf(1.0 / 6.0)
}
/// link potential (nondimensional), its zero convention being that of the library
pub fn u(m: M, p: &P, l: f64) -> f64 {
    match m {
        Efjc => 0.5 * p.nls * (l - 1.0).powi(2),
        Morse => p.nle * (1.0 - (-alpha(p) * (l - 1.0)).exp()).powi(2),
        LogSq => 0.5 * p.nls * l.ln().powi(2),
        Lj => p.nls / 72.0 * (l.powi(-12) - 2.0 * l.powi(-6)),
        _ => 0.0,
    }
}
pub fn du(m: M, p: &P, l: f64) -> f64 {
    match m {
        Efjc => p.nls * (l - 1.0),
        Morse => {
            let e = (-alpha(p) * (l - 1.0)).exp();
            2.0 * p.nle * alpha(p) * (1.0 - e) * e
        }
        LogSq => p.nls * l.ln() / l,
        Lj => p.nls / 6.0 * (l.powi(-7) - l.powi(-13)),
        _ => 0.0,
    }
}
pub fn lam_max(m: M, p: &P) -> f64 {
    match m {
        Morse => 1.0 + 2f64.ln() / alpha(p),
        LogSq => 1f64.exp(),
        Lj => lj_lmax(),
        _ => f64::INFINITY,
    }
}
/// link stretch in mechanical equilibrium with a force (bisection on du = eta)
pub fn stretch(m: M, p: &P, eta: f64) -> f64 {
    if m == Efjc {
        return 1.0 + eta / p.nls;
    }
    bisect(|l| du(m, p, l) - eta, 1.0, lam_max(m, p))
}
/// stiffness-correction constant of the full asymptotic form
pub fn c_asym(m: M, p: &P) -> f64 {
    match m {
        Efjc => 1.0,
        Morse => 1.0 / (1.0 + 1.5 * alpha(p)),
        LogSq => 0.4,
        Lj => 2.0 / 23.0,
        _ => f64::NAN,
    }
}
// moments of the single-link weight: returns (ln Z, mean extension per link) for Z = int lambda^2 shc(eta lambda) e^-u
fn link_z(m: M, p: &P, eta: f64, lo: f64, hi: f64, panels: usize) -> (f64, f64) {
    // exponent reference: maximum of lnshc(eta l) + 2 ln l - u over a scan
    let mut e0 = f64::NEG_INFINITY;
    for i in 1..=400 {
        let l = lo + (hi - lo) * i as f64 / 400.0;
        if l > 0.0 {
            e0 = e0.max(lnshc(eta * l) + 2.0 * l.ln() - u(m, p, l));
        }
    }
    let w = |l: f64| if l <= 0.0 { 0.0 } else { (lnshc(eta * l) + 2.0 * l.ln() - u(m, p, l) - e0).exp() };
    let z = quad(w, lo, hi, panels);
    let n = quad(|l| w(l) * l * langevin(eta * l), lo, hi, panels);
    (z.ln() + e0, n / z)
}
/// independent evaluation of the exact single-link isotensional partition function: (-ln Z without momentum, extension)
pub fn exact_link(m: M, p: &P, eta: f64) -> (f64, f64) {
    match m {
        Ideal => (-eta * eta / 6.0, eta / 3.0),
        Fjc => (-lnshc(eta), langevin(eta)),
        Sw => {
            let s = varsigma(p);
            let (lz, g) = link_z(Fjc, p, eta, 1.0, s, 8 + (eta * (s - 1.0) / 8.0) as usize);
            (-lz, g)
        }
        Efjc => {
            let sd = 1.0 / p.nls.sqrt();
            let c = 1.0 + eta / p.nls;
            let lo = (c - 12.0 * sd).max(0.0);
            let hi = c + 12.0 * sd;
            let (lz, g) = link_z(m, p, eta, lo, hi, 24);
            (-lz - p.ll.ln(), g)
        }
        _ => {
            // locate the weight: it decays away from the equilibrium stretch
            let hi = lam_max(m, p);
            let (lz, g) = link_z(m, p, eta, 0.0, hi, 400);
            (-lz - 2f64.ln(), g)
        }
    }
}
/// documented closed forms of the asymptotic approximations: (gibbs per link without momentum term, extension)
pub fn asym_link(m: M, k: K, p: &P, eta: f64) -> (f64, f64) {
    let kap = p.nls;
    let c0 = -0.5 * (2.0 * PI * p.ll * p.ll / kap).ln();
    let l = stretch(m, p, eta);
    let c = c_asym(m, p);
    let mut g = -lnshc(eta) + c0;
    let mut x = langevin(eta);
    if m == Efjc {
        g += -eta * eta / 2.0 / kap;
        x += eta / kap;
    } else {
        g += u(m, p, l) - eta * (l - 1.0);
        x += l - 1.0;
    }
    let xc = xcoth(eta);
    let dxc = langevin(eta) + eta * dlangevin(eta);
    match k {
        Reduced => {}
        Asym => {
            let c = if m == Efjc { 1.0 } else { c };
            g -= (1.0 + xc / (c * kap)).ln();
            x += dxc / (c * kap) / (1.0 + xc / (c * kap));
        }
        Alt => {
            g -= xc / kap;
            x += dxc / kap;
        }
        Exact => unreachable!(),
    }
    (g, x)
}
pub fn ref_link(m: M, k: K, p: &P, eta: f64) -> (f64, f64) {
    if k == Exact {
        exact_link(m, p, eta)
    } else {
        asym_link(m, k, p, eta)
    }
}
