//! Answers, line by line, what the core library returns: the oracle of the check of the Python package.
use crate::fw::guarded;
use crate::mods::mods;
use crate::params::P;
use crate::reg;
use polymers::constitutive::hyperelastic as hy;
use polymers::constitutive::hyperelastic_damage as da;
use std::io::{BufRead, Write};

fn set(p: &mut P, k: &str, v: f64) {
    match k {
        "number_of_links" => p.nl = v as u8,
        "link_length" => p.ll = v,
        "hinge_mass" => p.hm = v,
        "link_stiffness" => p.ls = v,
        "link_energy" => p.le = v,
        "well_width" => p.ww = v,
        "persistance_length" => p.lp = v,
        "temperature" => p.t = v,
        "force" => p.f = v,
        "nondimensional_force" => p.nf = v,
        "end_to_end_length" => p.xi = v,
        "nondimensional_end_to_end_length_per_link" => p.g = v,
        "potential_distance" => p.pd = v,
        "potential_stiffness" => p.pk = v,
        "nondimensional_potential_distance" => p.npd = v,
        "nondimensional_potential_stiffness" => p.npk = v,
        _ => panic!("no parameter {k}"),
    }
}
fn derived(p: &mut P) {
    let kt = p.kt();
    p.nls = p.ls * p.ll * p.ll / kt;
    p.nle = p.le / kt;
    p.nlp = p.lp / p.contour();
}
fn answer(t: &[&str]) -> Option<Vec<f64>> {
    let num = |i: usize| t[i].parse::<f64>().unwrap();
    match t[0] {
        "chain" => {
            let e = reg::entry(t[1], t[2])?;
            let md = mods().into_iter().find(|d| d.path == t[1])?;
            let mut p = P::new(8, 1.0, 1.0, 300.0);
            for kv in &t[3..] {
                let (k, v) = kv.split_once('=').unwrap();
                set(&mut p, k, v.parse().unwrap());
            }
            derived(&mut p);
            let v = (e.meth.unwrap())(&p);
            Some(vec![v, md.noise(t[2], &p)])
        }
        "uniaxial_tension" | "equibiaxial_tension" => {
            let o = hy::BucheSilberstein::init(num(1) as u8, num(2), num(3) as u8);
            Some((4..t.len()).map(|i| if t[0] == "uniaxial_tension" { o.uniaxial_tension(&num(i)) } else { o.equibiaxial_tension(&num(i)) }).collect())
        }
        "damage" => {
            let o = da::BucheSilberstein::init(num(1) as u8, num(2), num(3), num(4) as u8, num(5));
            let mut top = 1.0f64;
            let mut r = vec![];
            for i in 6..t.len() {
                top = top.max(num(i));
                r.extend(o.uniaxial_tension::<2>(&[top, num(i)])[1]);
            }
            Some(r)
        }
        _ => None,
    }
}
pub fn serve() {
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split_whitespace().collect();
        if t.is_empty() {
            out.lock().flush().unwrap();
            continue;
        }
        let r = guarded(|| answer(&t));
        let mut o = out.lock();
        match r {
            Ok(Some(v)) => writeln!(o, "{}", v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(" ")),
            Ok(None) => writeln!(o, "unknown"),
            Err(m) => writeln!(o, "panic {}", m.replace(char::is_whitespace, "_")),
        }
        .unwrap();
    }
}

/// public special functions, for histories
pub const MATH: [fn(f64) -> f64; 8] = [
    |x| polymers::math::inverse_langevin(&x),
    |x| polymers::math::lambert_w(&x),
    |x| polymers::math::bessel_i(&0, &x),
    |x| polymers::math::bessel_i(&1, &x),
    |x| polymers::math::erf(&x),
    |x| polymers::math::erfc(&x),
    |x| polymers::math::erfcx(&x),
    |x| polymers::math::integrate_1d(&|y: &f64| (x * y).sin(), &0.0, &x, &64),
];
/// Makes the calls of its input in their order, on objects that it keeps, and prints every value.
pub fn history() {
    let mut kept: Vec<(String, reg::Obj)> = vec![];
    let mut out = vec![];
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let t: Vec<&str> = line.split_whitespace().collect();
        let num = |i: usize| t[i].parse::<f64>().unwrap();
        let r = guarded(|| match t[0] {
            "math" => MATH[num(1) as usize](num(2)),
            "hyperelastic" => hy::BucheSilberstein::init(num(1) as u8, num(2), num(3) as u8).uniaxial_tension(&num(5)),
            "damage" => {
                let o = da::BucheSilberstein::init(num(1) as u8, 1.2, num(2), num(3) as u8, num(4));
                let r = o.uniaxial_tension::<2>(&[num(5) * 1.1, num(5)]);
                r[0][0] + 3.0 * r[0][1] + 7.0 * r[1][0] + 11.0 * r[1][1]
            }
            _ => {
                let e = reg::entry(t[1], t[2]).unwrap();
                let n = |i: usize| num(4 + i);
                let p = P { nl: n(0) as u8, ll: n(1), hm: n(2), ls: n(3), le: n(4), ww: n(5), lp: n(6), t: n(7), f: n(8), xi: n(9), pd: n(10), pk: n(11), nf: n(12), g: n(13), nls: n(14), nle: n(15), nlp: n(16), npd: n(17), npk: n(18), norm: n(19) };
                if t[0] == "free" {
                    (e.free.unwrap())(&p)
                } else {
                    let key = t[3..11].join(" ");
                    let i = kept.iter().position(|k| k.0 == key).unwrap_or_else(|| {
                        kept.push((key, crate::registry::make(t[3], &p)));
                        kept.len() - 1
                    });
                    (e.on.unwrap())(&kept[i].1, &p)
                }
            }
        });
        out.push(match r {
            Ok(x) => format!("{x:?}"),
            Err(_) => "panic".to_string(),
        });
    }
    println!("{}", out.join("\n"));
}
