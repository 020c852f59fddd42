//! D10: histories of convolutions.
use crate::case::{base, Case, Ref, R};
use crate::cases::{chi_sq_ref, cont, disc, gamma_ref, kln};
use crate::uv::Table;
use kit::num::{ln_choose, ln_gamma, panels};
use kit::{guarded, near, Mc};
use rstat::{univariate as uv, Convolution, Probability};
use std::collections::BTreeMap;
use std::f64::consts::PI;
use std::rc::Rc;

/// A summand or a sum, in the model.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Law {
    Ber(f64),
    Bin(usize, f64),
    Gam(f64, f64),
    Exp(f64),
    Nor(f64, f64),
    Cau(f64, f64),
    Chi(usize),
    Poi(f64),
}
use Law::*;

impl Law {
    fn reference(self) -> Ref {
        match self {
            Ber(p) => Bin(1, p).reference(),
            Bin(n, p) => {
                let v = n as f64;
                disc(0.0, v, (v * p).floor(), (v * p * (1.0 - p)).sqrt(), move |x| {
                    ln_choose(v, x) + kln(x, p) + kln(v - x, 1.0 - p)
                })
            },
            Gam(a, b) => gamma_ref(a, b),
            Exp(l) => gamma_ref(1.0, l),
            Nor(m, v) => cont(-f64::INFINITY, f64::INFINITY, m, v.sqrt(), move |x| {
                -(x - m) * (x - m) / (2.0 * v) - 0.5 * (2.0 * PI * v).ln()
            }),
            Cau(m, g) => cont(-f64::INFINITY, f64::INFINITY, m, g, move |x| {
                let z = (x - m) / g;
                -(PI * g).ln() - (z * z).ln_1p()
            }),
            Chi(k) => chi_sq_ref(k),
            Poi(l) => disc(0.0, f64::INFINITY, l.floor(), l.sqrt(), move |x| kln(x, l) - l - ln_gamma(x + 1.0)),
        }
    }

    /// The law of the independent sum where one of the crate's families contains it:
    /// Some(Some(_)) valid, Some(None) must be refused, None: not offered.
    fn sum(self, o: Law) -> Option<Option<Law>> {
        let iff = |c: bool, l: Law| Some(if c { Some(l) } else { None });
        match (self, o) {
            (Ber(p), Ber(q)) => iff(p == q, Bin(2, p)),
            (Bin(n, p), Ber(q)) => iff(p == q, Bin(n + 1, p)),
            (Bin(n, p), Bin(k, q)) => iff(p == q, Bin(n + k, p)),
            (Gam(a, b), Gam(c, d)) => iff(b == d, Gam(a + c, b)),
            (Gam(a, b), Exp(l)) => iff(b == l, Gam(a + 1.0, b)),
            (Nor(m, v), Nor(n, w)) => iff(true, Nor(m + n, v + w)),
            (Cau(m, v), Cau(n, w)) => iff(true, Cau(m + n, v + w)),
            (Chi(k), Chi(l)) => iff(true, Chi(k + l)),
            (Poi(k), Poi(l)) => iff(true, Poi(k + l)),
            _ => None,
        }
    }
}

type Be = uv::bernoulli::Bernoulli;
type Bi = uv::binomial::Binomial;
type Ga = uv::gamma::Gamma;
type Ex = uv::exponential::Exponential;
type No = uv::normal::Normal;
type Ca = uv::cauchy::Cauchy;
type Ch = uv::chi_sq::ChiSq;
type Po = uv::poisson::Poisson;

enum Real {
    Ber(Be),
    Bin(Bi),
    Gam(Ga),
    Exp(Ex),
    Nor(No),
    Cau(Ca),
    Chi(Ch),
    Poi(Po),
}

fn make(l: Law) -> Real {
    match l {
        Ber(p) => Real::Ber(Be::new_unchecked(p)),
        Bin(n, p) => Real::Bin(Bi::new_unchecked(n, Probability::new_unchecked(p))),
        Gam(a, b) => Real::Gam(Ga::new_unchecked(a, b)),
        Exp(a) => Real::Exp(Ex::new_unchecked(a)),
        Nor(a, b) => Real::Nor(No::new_unchecked(a, b)),
        Cau(a, b) => Real::Cau(Ca::new_unchecked(a, b)),
        Chi(k) => Real::Chi(Ch::new_unchecked(k)),
        Poi(a) => Real::Poi(Po::new_unchecked(a)),
    }
}

type Out = R<Result<Real, String>>;

fn one(a: Real, b: Real) -> Option<Out> {
    macro_rules! go {
        ($($l:ident $r:ident $o:ident),*) => {
            match (a, b) {
                $( (Real::$l(x), Real::$r(y)) => Some(guarded(|| x.convolve(y).map(Real::$o).map_err(|e| e.to_string()))), )*
                _ => None,
            }
        };
    }
    go!(Ber Ber Bin, Bin Ber Bin, Bin Bin Bin, Gam Gam Gam, Gam Exp Gam, Nor Nor Nor, Cau Cau Cau, Chi Chi Chi, Poi Poi Poi)
}

/// convolve_many with operands of one type
fn many(a: Real, bs: Vec<Real>, kind: &Law) -> Option<Out> {
    macro_rules! go {
        ($($l:ident $r:ident $o:ident),*) => {
            match (a, kind) {
                $( (Real::$l(x), Law::$r(..)) => {
                    let v = bs.into_iter().map(|b| match b { Real::$r(y) => y, _ => unreachable!() }).collect();
                    Some(guarded(|| x.convolve_many(v).map(Real::$o).map_err(|e| e.to_string())))
                } )*
                _ => None,
            }
        };
    }
    go!(Ber Ber Bin, Bin Ber Bin, Bin Bin Bin, Gam Gam Gam, Gam Exp Gam, Nor Nor Nor, Cau Cau Cau, Chi Chi Chi, Poi Poi Poi)
}

fn case(real: Real, l: Law) -> Case {
    let (n, p, r) = ("sum", format!("{:?}", l), l.reference());
    match real {
        Real::Ber(d) => base(n, p, d, r).pmf().mom().c,
        Real::Bin(d) => base(n, p, d, r).pmf().mom().c,
        Real::Gam(d) => base(n, p, d, r).pdf().mom().c,
        Real::Exp(d) => base(n, p, d, r).pdf().mom().c,
        Real::Nor(d) => base(n, p, d, r).pdf().mom().c,
        Real::Cau(d) => base(n, p, d, r).pdf().c,
        Real::Chi(d) => base(n, p, d, r).pdf().mom().c,
        Real::Poi(d) => base(n, p, d, r).pmf().mom().c,
    }
}

fn kinds() -> Vec<Vec<Law>> {
    vec![
        vec![Ber(0.25), Ber(0.5)],
        vec![Bin(1, 0.25), Bin(3, 0.25), Bin(2, 0.5)],
        vec![Gam(0.5, 2.0), Gam(2.0, 2.0), Gam(1.5, 1.0)],
        vec![Exp(2.0), Exp(1.0)],
        vec![Nor(0.0, 1.0), Nor(-3.5, 0.25), Nor(2.0, 9.0)],
        vec![Cau(0.0, 1.0), Cau(-3.5, 0.25), Cau(2.0, 3.0)],
        vec![Chi(1), Chi(2), Chi(5)],
        vec![Poi(0.5), Poi(1.0), Poi(3.5)],
    ]
}

/// The model's own step is checked first: the density of the sum is the
/// convolution of the two densities, by summation or quadrature.
fn model_step(m: &mut Mc, a: Law, b: Law, c: Law) {
    let (ra, rb, rc) = (a.reference(), b.reference(), c.reference());
    for i in -6..=10 {
        let z = if rc.discrete { i as f64 } else { rc.x0 + i as f64 * rc.s * 0.37 };
        m.step();
        let want = if z < rc.lo || z > rc.hi { 0.0 } else { (rc.f)(z) };
        let got = if rc.discrete {
            let mut s = 0.0;
            let mut x = 0.0;
            while x <= z {
                if x <= ra.hi && z - x <= rb.hi {
                    s += (ra.f)(x) * (rb.f)(z - x);
                }
                x += 1.0;
            }
            s
        } else if z <= rc.lo {
            0.0
        } else {
            let g = |x: f64| (ra.f)(x) * (rb.f)(z - x);
            let (lo, hi) = (ra.lo.max(z - rb.hi), ra.hi.min(z - rb.lo));
            let mut pts: Vec<f64> = vec![ra.x0, z - rb.x0, (lo + hi) / 2.0]
                .into_iter()
                .filter(|x| x.is_finite() && *x > lo && *x < hi)
                .collect();
            pts.sort_by(|p, q| p.partial_cmp(q).unwrap());
            pts.dedup();
            pts.insert(0, lo);
            pts.push(hi);
            panels(&g, &pts)
        };
        let ok = near(got, want, 1e-6, 1e-9);
        assert!(ok, "model: {:?} + {:?} = {:?} at {}: {} against {}", a, b, c, z, got, want);
    }
}

struct World {
    tables: BTreeMap<String, Rc<Table>>,
}

impl World {
    fn judge(&mut self, m: &mut Mc, site: &str, hist: &str, real: Real, l: Law) {
        let c = case(real, l);
        let t = self.tables.entry(c.id()).or_insert_with(|| Rc::new(Table::new(&c, false))).clone();
        let step = (t.xs.len() / 12).max(1);
        for (i, x) in t.xs.iter().enumerate().step_by(step) {
            let x = *x;
            m.step();
            let d = c.density.as_ref().unwrap();
            m.close(site, || format!("{} density at {:e}", hist, x), &d(x), t.f[i], 1e-7, 1e-12);
            match (c.cdf)(x) {
                Err(e) if crate::case::refusal(&e) && matches!(l, Poi(_)) => (),
                g => {
                    m.close(site, || format!("{} cdf at {:e}", hist, x), &g, t.below[i], 1e-6, 1e-7);
                },
            }
        }
        if let Some(mo) = &c.moments {
            let mean = t.expect(&c, &|x| x);
            let var = t.expect(&c, &|x| (x - mean) * (x - mean));
            m.close(site, || format!("{} mean", hist), &(mo.mean)(), mean, 1e-6, 1e-6);
            m.close(site, || format!("{} variance", hist), &(mo.variance)(), var, 1e-6, 1e-6);
        }
    }

    /// Compares one answer of the crate with the model's.
    fn answer(&mut self, m: &mut Mc, site: &str, hist: &str, got: Out, want: Option<Law>) -> Option<Real> {
        match (got, want) {
            (Err(e), _) => {
                m.expect(site, || hist.into(), false, || e);
                None
            },
            (Ok(Err(e)), Some(l)) => {
                m.expect(site, || hist.into(), false, || format!("refused ({}); the sum is {:?}", e, l));
                None
            },
            (Ok(Ok(_)), None) => {
                m.expect(site, || hist.into(), false, || "accepted although the sum is not in the family".into());
                None
            },
            (Ok(Err(_)), None) => {
                m.outcome("refused");
                m.expect(site, || hist.into(), true, String::new);
                None
            },
            (Ok(Ok(r)), Some(_)) => Some(r),
        }
    }
}

/// Replays a history on fresh objects; every prefix is known to be valid.
fn replay(h: &[Law]) -> Option<Real> {
    let mut r = make(h[0]);
    for l in &h[1..] {
        r = one(r, make(*l))?.ok()?.ok()?;
    }
    Some(r)
}

fn walk(m: &mut Mc, w: &mut World, alphabet: &[Law], hist: &mut Vec<Law>, cur: Law, depth: usize) {
    for l in alphabet {
        let want = match cur.sum(*l) {
            None => continue,
            Some(x) => x,
        };
        m.state();
        m.step();
        m.trace();
        let before = match replay(hist) {
            Some(r) => r,
            None => return,
        };
        hist.push(*l);
        let name = format!("{:?}", hist);
        let got = one(before, make(*l)).expect("offered");
        if let Some(r) = w.answer(m, "convolve", &name, got, want) {
            w.judge(m, "convolve", &name, r, want.unwrap());
            if depth > 1 {
                walk(m, w, alphabet, hist, want.unwrap(), depth - 1);
            }
        }
        hist.pop();
    }
}

/// D10
pub fn convolution(m: &mut Mc) {
    let (depth, len) = m.pick((4usize, 4usize), (5, 5));
    m.bound(&format!("every history of up to {} successive sums over an alphabet of 22 laws from 8 families (equal and unequal probabilities / rates), and every list of 0..={} operands given at once, with 16-20 longer ones (6, 9, 17, 33 operands)", depth, len));
    let alphabet: Vec<Law> = kinds().concat();
    // the model's transition relation, against numerical convolution
    m.at("model");
    for a in &alphabet {
        for b in &alphabet {
            if let Some(Some(c)) = a.sum(*b) {
                model_step(m, *a, *b, c);
            }
        }
    }
    let mut w = World { tables: BTreeMap::new() };
    for a in &alphabet {
        m.at(&format!("{:?}", a));
        walk(m, &mut w, &alphabet, &mut vec![*a], *a, depth);
        for kind in kinds() {
            if a.sum(kind[0]).is_none() {
                continue;
            }
            // every list over this type's alphabet
            let mut lists: Vec<Vec<Law>> = vec![vec![]];
            let mut i = 0;
            while i < lists.len() {
                if lists[i].len() < len {
                    for l in &kind {
                        let mut v = lists[i].clone();
                        v.push(*l);
                        lists.push(v);
                    }
                }
                i += 1;
            }
            // longer ones: one operand repeated, and the alphabet in turn
            for n in [6usize, 9, 17, 33] {
                for l in &kind {
                    lists.push(vec![*l; n]);
                }
                lists.push((0..n).map(|i| kind[i % kind.len()]).collect());
                lists.push((0..n).map(|i| kind[(n - i) % kind.len()]).collect());
            }
            for list in lists {
                m.state();
                m.step();
                m.trace();
                let mut want = Some(*a);
                for l in &list {
                    want = want.and_then(|s| s.sum(*l).expect("offered"));
                }
                let name = format!("{:?} with all of {:?}", a, list);
                let got = many(make(*a), list.iter().map(|l| make(*l)).collect(), &kind[0]).expect("offered");
                match (&got, list.len()) {
                    // nothing to add: refused, or left as it is by a type that can say so
                    (Ok(Err(_)), 0) | (Ok(Err(_)), 1) => {
                        m.expect("convolve_many", || name.clone(), true, String::new);
                    },
                    (Ok(Ok(_)), 0) => {
                        m.expect("convolve_many", || name.clone(), matches!(a, Bin(..) | Gam(..) | Nor(..) | Cau(..) | Chi(..) | Poi(..)), || "a single trial is not a sum".into());
                    },
                    _ => {
                        if let Some(r) = w.answer(m, "convolve_many", &name, got, want) {
                            w.judge(m, "convolve_many", &name, r, want.unwrap());
                        }
                    },
                }
            }
        }
    }
}
