//! One consistent state of a chain: every dimensional input together with its nondimensional counterpart.
pub const KB: f64 = 8.314462618; // J/(mol K)
pub const H: f64 = 0.06350779923502961; // J/mol/K-consistent Planck constant used by the library units

#[derive(Clone, Debug, Default)]
pub struct P {
    pub nl: u8,
    pub ll: f64,
    pub hm: f64,
    pub ls: f64,
    pub le: f64,
    pub ww: f64,
    pub lp: f64,
    pub t: f64,
    pub f: f64,
    pub xi: f64,
    pub pd: f64,
    pub pk: f64,
    pub nf: f64,
    pub g: f64,
    pub nls: f64,
    pub nle: f64,
    pub nlp: f64,
    pub npd: f64,
    pub npk: f64,
    pub norm: f64,
}
impl P {
    pub fn new(nl: u8, ll: f64, hm: f64, t: f64) -> P {
        let mut p = P { nl, ll, hm, t, norm: 1.0, ..P::default() };
        p.set_kappa(200.0);
        p.set_eps(25.0);
        p.set_w(0.5);
        p.set_nlp(0.1);
        p.set_eta(1.0);
        p.set_gamma(0.5);
        p.set_pot(0.5, 0.1);
        p
    }
    pub fn n(&self) -> f64 {
        self.nl as f64
    }
    pub fn kt(&self) -> f64 {
        KB * self.t
    }
    pub fn contour(&self) -> f64 {
        self.n() * self.ll
    }
    /// nondimensional link stiffness kappa = k l^2 / kT
    pub fn set_kappa(&mut self, k: f64) {
        self.nls = k;
        self.ls = k * self.kt() / (self.ll * self.ll);
    }
    /// nondimensional link energy
    pub fn set_eps(&mut self, e: f64) {
        self.nle = e;
        self.le = e * self.kt();
    }
    /// well width relative to the link length
    pub fn set_w(&mut self, w: f64) {
        self.ww = w * self.ll;
    }
    pub fn set_nlp(&mut self, l: f64) {
        self.nlp = l;
        self.lp = l * self.contour();
    }
    pub fn set_eta(&mut self, e: f64) {
        self.nf = e;
        self.f = e * self.kt() / self.ll;
    }
    pub fn set_gamma(&mut self, g: f64) {
        self.g = g;
        self.xi = g * self.contour();
    }
    /// the same chain under the opposite load
    pub fn negate(&mut self) {
        for x in [&mut self.nf, &mut self.f, &mut self.g, &mut self.xi, &mut self.npd, &mut self.pd] {
            *x = -*x;
        }
    }
    pub fn set_pot(&mut self, d: f64, k: f64) {
        self.npd = d;
        self.npk = k;
        self.pd = d * self.contour();
        self.pk = k * self.kt() / (self.ll * self.ll);
    }
    /// ln of the per-link momentum factor 8 pi^2 m l^2 kT / h^2
    pub fn lam(&self) -> f64 {
        (8.0 * std::f64::consts::PI.powi(2) * self.hm * self.ll * self.ll * self.kt() / (H * H)).ln()
    }
}
