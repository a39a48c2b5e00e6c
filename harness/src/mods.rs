//! Descriptors of every thermodynamics module: which inputs it takes, how to generate an admissible load, units.
use crate::fw::{dim, Dim, Dist::*};
use crate::models::*;
use crate::num::*;
use crate::params::P;
use crate::reg::{self, Entry};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cl {
    /// isotensional (load: force)
    T,
    /// Legendre transform of an isotensional module (load: force)
    TL,
    /// isometric Legendre (load: length, generated from a force)
    IsoLeg,
    /// isometric with length as the natural load (exact FJC, ideal, worm-like)
    Iso,
    /// modified canonical and its asymptotics (load: potential)
    Mc,
    McStrong,
    McWeak,
}
pub use Cl::*;

#[derive(Clone, Debug)]
pub struct Md {
    pub path: &'static str,
    pub m: M,
    pub k: K,
    pub cl: Cl,
}
pub fn mods() -> Vec<Md> {
    reg::modules()
        .into_iter()
        .map(|path| {
            let m = M::of(path);
            let cl = if path.contains("strong_potential") {
                McStrong
            } else if path.contains("weak_potential") {
                McWeak
            } else if path.contains("modified_canonical") {
                Mc
            } else if path.contains("isotensional") {
                if path.ends_with("legendre") { TL } else { T }
            } else if path.ends_with("legendre") && m != Wlc {
                IsoLeg
            } else {
                Iso
            };
            let k = if path.contains("modified") {
                Exact
            } else if path.contains("reduced") {
                Reduced
            } else if path.contains("alternative") {
                Alt
            } else if path.contains("asymptotic") {
                Asym
            } else {
                Exact
            };
            Md { path, m, k, cl }
        })
        .collect()
}
pub fn md(path: &str) -> Md {
    mods().into_iter().find(|d| d.path == path).unwrap_or_else(|| panic!("no module {path}"))
}
pub fn funcs(path: &str) -> Vec<&'static Entry> {
    crate::registry::ENTRIES.iter().filter(|e| e.module == path).collect()
}
impl Md {
    /// does the module (or the function) evaluate the exact freely jointed sums?
    pub fn exact_sums(&self) -> bool {
        self.path == "fjc/thermodynamics/isometric" || self.path == "fjc/thermodynamics/isometric/legendre" || matches!(self.cl, Mc | McStrong)
    }
    pub fn nl(&self) -> crate::fw::Dist {
        if self.exact_sums() {
            nl_exact()
        } else if self.m == Wlc {
            Mix(vec![Int(3, 30), Int(2, 60), Int(2, 255), Pick(vec![8.0])])
        } else {
            nl_any()
        }
    }
    pub fn load_dims(&self) -> Vec<Dim> {
        match self.cl {
            T | TL | IsoLeg if self.m == Wlc => vec![dim("nondimensional_force", Mix(vec![Log(0.05, 30.0), Lin(0.5, 20.0)]))],
            T | TL | IsoLeg => vec![dim("force_coordinate", force_coord())],
            Iso if self.m == Wlc => vec![dim("nondimensional_length", Mix(vec![Lin(0.02, 0.97), Log(0.01, 0.9)]))],
            Iso if self.m == Ideal => vec![dim("nondimensional_length", Mix(vec![Lin(0.005, 1.5), Log(1e-3, 0.9)]))],
            Iso => vec![dim("nondimensional_length", Mix(vec![Lin(0.005, 0.995), Log(1e-4, 0.9)]))],
            Mc => vec![
                dim("potential_distance", Mix(vec![Lin(0.01, 1.2), Log(0.01, 10.0)])),
                dim("potential_stiffness_coordinate", Log(0.05, 1500.0)), // N^2 kappa
            ],
            McStrong => vec![
                dim("potential_distance", Lin(0.02, 0.95)),
                dim("potential_stiffness_coordinate", Log(1.0, 1e6)),
            ],
            McWeak => vec![
                dim("nondimensional_force", Mix(vec![Log(1e-2, 300.0), Lin(0.1, 30.0)])),
                dim("potential_stiffness_coordinate", Log(1e-4, 10.0)),
            ],
        }
    }
    pub fn dims(&self) -> Vec<Dim> {
        let mut d = chain_dims(self.m, self.nl());
        if self.k != Exact && matches!(self.m, Morse | LogSq | Lj) {
            // closed forms: no quadrature to resolve a stiff link
            d[4].dist = Mix(vec![Log(20.0, 2e3), Log(20.0, 1e5)]);
            if self.m == Morse {
                d[5].dist = Mix(vec![Log(2.0, 200.0), Log(2.0, 2e3)]);
            }
        }
        d.extend(self.load_dims());
        d
    }
    /// the same, with forces up to where the hyperbolic sine overflows
    pub fn dims_far(&self) -> Vec<Dim> {
        let mut d = self.dims();
        if let Some(x) = d.iter_mut().find(|x| x.name == "force_coordinate") {
            x.dist = Mix(vec![force_coord(), force_coord(), Log(100.0, 690.0)]);
        }
        d
    }
    /// the same for one function: those of a module of exact sums that do not use them allow any number of links
    pub fn dims_fn(&self, func: &str) -> Vec<Dim> {
        let mut d = self.dims_far();
        if self.path == "fjc/thermodynamics/isometric/legendre" && !func.contains("gibbs") {
            d[0].dist = nl_any();
        }
        d
    }
    /// the same, with a last dimension telling whether the load is reversed
    pub fn dims_fn_signed(&self, func: &str) -> Vec<Dim> {
        let mut d = self.dims_fn(func);
        // the exact sums are written for lengths from zero to full extension, the searches for positive forces
        d.push(dim("reversed", Pick(if self.exact_sums() || (self.m == Wlc && self.cl != Iso) || (self.cl == IsoLeg && self.m != Fjc) { vec![0.0] } else { vec![0.0, 0.0, 0.0, 1.0] })));
        d
    }
    pub fn set_signed(&self, v: &[f64]) -> P {
        let mut p = self.set(&v[..v.len() - 1]);
        if v[v.len() - 1] != 0.0 {
            p.negate();
        }
        p
    }
    pub fn set_load(&self, p: &mut P, w: &[f64]) {
        match self.cl {
            T | TL | IsoLeg => {
                let e = if self.m == Wlc { w[0] } else { force_of(self.m, p, w[0]) };
                p.set_eta(e);
                if self.cl == IsoLeg {
                    let g = if self.k == Exact { exact_link_fast(self.m, p, e).1 } else { asym_link(self.m, self.k, p, e).1 };
                    p.set_gamma(g);
                }
            }
            Iso => p.set_gamma(w[0]),
            Mc | McStrong => {
                let n = p.n();
                p.set_pot(w[0], w[1] / (n * n));
            }
            McWeak => {
                // eta = N kappa d
                let n = p.n();
                let kap = w[1] / (n * n);
                p.set_pot(w[0] / (n * kap), kap);
            }
        }
    }
    pub fn set(&self, v: &[f64]) -> P {
        let mut p = chain(self.m, v);
        self.set_load(&mut p, &v[NCH..]);
        p
    }
}
/// the coordinate a force is generated from
pub fn force_coord() -> crate::fw::Dist {
    Mix(vec![Log(1e-3, 300.0), Lin(0.1, 30.0), Lin(0.1, 300.0)])
}
/// maps a force coordinate to an admissible force of the model: below link rupture, and below overflow of sinh
pub fn force_of(m: M, p: &P, x: f64) -> f64 {
    match m {
        Sw => {
            let cap = 600.0 / varsigma(p);
            x / (1.0 + (x / cap).powi(4)).powf(0.25)
        }
        Morse | LogSq | Lj => {
            let cap = 0.985 * eta_max(m, p);
            x / (1.0 + (x / cap).powi(4)).powf(0.25)
        }
        _ => x,
    }
}
/// exact_link, in closed form where the quadrature is not needed
pub fn exact_link_fast(m: M, p: &P, eta: f64) -> (f64, f64) {
    exact_link(m, p, eta)
}

// ---------------------------------------------------------------------------------------------------------------
// names and units

pub struct Name {
    pub nondim: bool,
    pub relative: bool,
    pub per_link: bool,
    pub q: Q,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Q {
    Length,
    Force,
    Energy,
    Density,
    Radial,
}
pub fn parse(f: &str) -> Name {
    let nondim = f.starts_with("nondimensional_");
    let r = f.strip_prefix("nondimensional_").unwrap_or(f);
    let relative = r.starts_with("relative_");
    let r = r.strip_prefix("relative_").unwrap_or(r);
    let per_link = r.ends_with("_per_link");
    let r = r.strip_suffix("_per_link").unwrap_or(r);
    let q = match r {
        "end_to_end_length" => Q::Length,
        "force" => Q::Force,
        "gibbs_free_energy" | "helmholtz_free_energy" => Q::Energy,
        "equilibrium_distribution" => Q::Density,
        "equilibrium_radial_distribution" => Q::Radial,
        _ => panic!("unknown function {f}"),
    };
    Name { nondim, relative, per_link, q }
}
pub fn unit(f: &str, p: &P) -> f64 {
    match parse(f).q {
        Q::Length => p.ll,
        Q::Force => p.kt() / p.ll,
        Q::Energy => p.kt(),
        Q::Density => p.contour().powi(-3),
        Q::Radial => 1.0 / p.contour(),
    }
}
/// scale of a nondimensional quantity for absolute tolerances: whole-chain quantities are N times per-link ones
pub fn scale(f: &str, p: &P) -> f64 {
    let n = parse(f);
    match n.q {
        Q::Length | Q::Energy if !n.per_link => p.n(),
        _ => 1.0,
    }
}
/// Rounding noise of a function of one module at one state, in its own units: spread of the value over relative
/// perturbations of the inputs by a few units in the last place, which is what different but equivalent orders of
/// evaluation can amount to.
pub fn jitter(f: fn(&P) -> f64, p: &P) -> f64 {
    let v0 = f(p);
    let mut s: f64 = 0.0;
    for e in [3e-16, -3e-16, 1e-15, -1e-15, 7e-16, -2.1e-15, 1.1e-14, -1.7e-14, 4.3e-14, -3.1e-14, 9e-14, -1.3e-13] {
        let mut q = p.clone();
        for x in [&mut q.nf, &mut q.f, &mut q.ww, &mut q.nls, &mut q.ls, &mut q.nle, &mut q.le, &mut q.nlp, &mut q.lp, &mut q.npk, &mut q.pk] {
            *x *= 1.0 - 0.37 * e;
        }
        // lengths enter as differences from full extension: absolute errors count as well
        let cl = p.contour();
        for (x, u) in [(&mut q.g, 1.0), (&mut q.xi, cl), (&mut q.npd, 1.0), (&mut q.pd, cl)] {
            *x = *x * (1.0 + e) + 0.3 * e.clamp(-1e-15, 1e-15) * u;
        }
        let d = (f(&q) - v0).abs();
        if !(d <= s) {
            s = d;
        }
    }
    s
}
pub fn nd(p: &P) -> f64 {
    langevin(p.nf)
}
impl Md {
    /// the same chain at the library's zero load
    pub fn zero(&self, p: &P) -> P {
        let mut q = p.clone();
        match self.cl {
            T | TL => q.set_eta(1e-6),
            IsoLeg | Iso => q.set_gamma(1e-6),
            Mc | McStrong | McWeak => q.set_pot(1e-6, p.npk),
        }
        q
    }
    /// rounding noise of a function: its own, and that of the absolute energy at zero load for relative energies
    pub fn noise(&self, func: &str, p: &P) -> f64 {
        let e = reg::entry(self.path, func).unwrap();
        let mut s = jitter(e.meth.unwrap(), p);
        if func.contains("relative_") {
            if let Some(a) = reg::entry(self.path, &func.replace("relative_", "")) {
                let x = jitter(a.meth.unwrap(), &self.zero(p));
                s += if x.is_finite() { x } else { 0.0 };
            }
        }
        if self.m == Sw && parse(func).q == Q::Energy {
            let u = scale(func, p) * if func.starts_with("nondim") { 1.0 } else { p.kt() };
            let leg = if self.cl == TL { 4.0 } else { 1.0 };
            let u = u * leg;
            s += u * if self.cl == IsoLeg { sw_noise(p, p.g.max(1e-6) / sw_slope(p)) } else { sw_noise(p, p.nf.max(1e-6)) };
            if func.contains("relative_") {
                s += u * sw_ref(p);
            }
        }
        s
    }
}

/// The square-well partition function is evaluated by subtracting terms of order eta to get one of order eta^3: this
/// is the resulting rounding error of the energy per link.
/// the same at the library's zero load of either ensemble
pub fn sw_ref(p: &P) -> f64 {
    sw_noise(p, 1e-6 / sw_slope(p).max(1.0))
}
/// length per force of the square-well chain at small load
pub fn sw_slope(p: &P) -> f64 {
    let s = varsigma(p);
    (s.powi(4) + s.powi(3) + s * s + s + 1.0) / (s * s + s + 1.0) / 5.0
}
pub fn sw_noise(p: &P, eta: f64) -> f64 {
    let s = varsigma(p);
    3e-16 * s / ((s.powi(3) - 1.0) * eta * eta)
}
