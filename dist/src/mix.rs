//! D13: mixtures. The reference law is the weighted sum of the reference component laws.
use crate::case::{base, Case, Ref, R};
use crate::cases::{cont, disc, kln};
use crate::uv;
use kit::num::{ln_choose, ln_gamma};
use kit::{guarded, Mc};
use rstat::univariate as fam;
use rstat::statistics::UvMoments;
use rstat::{ContinuousDistribution, Distribution, Mixture, Probability};
use std::f64::consts::PI;
use std::rc::Rc;

/// One reference component.
#[derive(Clone)]
struct Part {
    lo: f64,
    hi: f64,
    x0: f64,
    s: f64,
    f: Rc<dyn Fn(f64) -> f64>,
}

fn part(lo: f64, hi: f64, x0: f64, s: f64, lf: impl Fn(f64) -> f64 + 'static) -> Part {
    Part { lo, hi, x0, s, f: Rc::new(move |x| if x >= lo && x <= hi { lf(x).exp() } else { 0.0 }) }
}

const INF: f64 = f64::INFINITY;

fn p_normal(p: &[f64]) -> Part {
    let (mu, v) = (p[0], p[1]);
    part(-INF, INF, mu, v.sqrt(), move |x| -(x - mu) * (x - mu) / 2.0 / v - 0.5 * (2.0 * PI * v).ln())
}
fn p_uniform(p: &[f64]) -> Part {
    let (a, w) = (p[0], p[1]);
    part(a, a + w, a + w / 2.0, w / 4.0, move |_| -w.ln())
}
fn p_exponential(p: &[f64]) -> Part {
    let l = p[0];
    part(0.0, INF, 1.0 / l, 1.0 / l, move |x| l.ln() - l * x)
}
fn p_gamma(p: &[f64]) -> Part {
    let (a, b) = (p[0], p[1]);
    part(0.0, INF, a / b, a.sqrt() / b, move |x| a * b.ln() + kln(a - 1.0, x) - b * x - ln_gamma(a))
}
fn p_triangular(p: &[f64]) -> Part {
    let (a, u, v) = (p[0], p[1], p[2]);
    part(a, a + u + v, a + u, (u + v) / 4.0, move |x| {
        (2.0 / (u + v) * if x <= a + u { (x - a) / u } else { (a + u + v - x) / v }).ln()
    })
}
fn p_geometric(p: &[f64]) -> Part {
    let p = p[0];
    part(0.0, INF, 0.0, 1.0 / p, move |x| x * (1.0 - p).ln() + p.ln())
}
fn p_binomial(p: &[f64]) -> Part {
    let (n, q) = (p[0], p[1]);
    part(0.0, n, (n * q).floor(), (n * q * (1.0 - q)).sqrt(), move |x| ln_choose(n, x) + kln(x, q) + kln(n - x, 1.0 - q))
}

fn reference(w: &[f64], ps: &[Part], discrete: bool) -> Ref {
    let lo = ps.iter().map(|p| p.lo).fold(INF, f64::min);
    let hi = ps.iter().map(|p| p.hi).fold(-INF, f64::max);
    let mean: f64 = w.iter().zip(ps).map(|(w, p)| w * p.x0).sum();
    let s = w.iter().zip(ps).map(|(w, p)| if *w > 0.0 { p.s + (p.x0 - mean).abs() } else { 0.0 }).fold(0.0, f64::max);
    let (v, q) = (w.to_vec(), ps.to_vec());
    let lf = move |x: f64| v.iter().zip(&q).map(|(w, p)| if *w > 0.0 { w * (p.f)(x) } else { 0.0 }).sum::<f64>().ln();
    let mut brk = vec![];
    for p in ps {
        brk.extend([p.lo, p.hi].iter().filter(|x| x.is_finite()));
        brk.extend([-8.0, -3.0, -1.0, 0.0, 1.0, 3.0, 8.0].iter().map(|d| p.x0 + d * p.s));
    }
    let mut r = if discrete { disc(lo, hi, ps.iter().map(|p| p.x0).fold(0.0, f64::max), s, lf) } else { cont(lo, hi, mean, s, lf) };
    r.brk = brk;
    r
}

macro_rules! mixture_case {
    ($o:ident, $name:expr, $make:expr, $part:ident, $ws:expr, $ps:expr, [$($view:ident)*], $tree:expr, $disc:expr) => {{
        let (ws, ps) = ($ws, $ps);
        let comp = ps.map(|p| $make(&p[..]));
        let parts: Vec<Part> = ps.iter().map(|p| $part(&p[..])).collect();
        let r = reference(&ws, &parts, $disc);
        let mix = Mixture::new(ws, comp).expect("valid weights");
        let soft: &[&'static str] = if ws.iter().any(|w| *w == 0.0) { &["skewness", "kurtosis", "excess_kurtosis", "support_hull", "gaps"] } else { &["skewness", "kurtosis", "excess_kurtosis", "gaps"] };
        let t: (&[u32], usize) = $tree;
        base(concat!("mixture of ", $name), format!("{:?} of {:?}", ws, ps), mix, r)$(.$view())*.soft(soft).tree(t.0, t.1).done(&mut $o);
    }};
}

/// Cases with any number of components of one family.
macro_rules! mixture {
    ($o:ident, $name:expr, $make:expr, $part:ident, [$(($ws:expr, $ps:expr)),* $(,)?], $views:tt, $tree:expr, $disc:expr) => {
        $( mixture_case!($o, $name, $make, $part, $ws, $ps, $views, $tree, $disc); )*
    };
}

fn instances() -> Vec<Case> {
    let mut o = vec![];
    let normal = |p: &[f64]| fam::normal::Normal::new_unchecked(p[0], p[1]);
    mixture!(o, "normals", normal, p_normal, [
        ([1.0], [[2.0, 4.0]]),
        ([0.5, 0.5], [[-3.0, 1.0], [3.0, 1.0]]),
        ([0.25, 0.75], [[0.0, 1.0], [0.0, 9.0]]),
        ([0.9, 0.1], [[2.0, 0.25], [-4.0, 4.0]]),
        ([0.125, 0.875], [[40.0, 1.0], [-40.0, 0.25]]),
        ([1.0, 0.0], [[1.0, 1.0], [5.0, 2.0]]),
        ([0.0, 1.0], [[1.0, 1.0], [5.0, 2.0]]),
        ([0.2, 0.5, 0.3], [[-2.0, 1.44], [0.0, 1.0], [3.0, 6.25]]),
        ([0.625, 0.125, 0.25], [[7.0, 0.5], [-1.0, 3.0], [1.0, 1.0]]),
        ([0.0, 0.5, 0.5], [[9.0, 1.0], [-1.0, 3.0], [1.0, 1.0]]),
        ([0.5, 0.0, 0.5], [[9.0, 1.0], [-1.0, 3.0], [1.0, 1.0]]),
        ([0.5, 0.5, 0.0], [[9.0, 1.0], [-1.0, 3.0], [1.0, 1.0]]),
        ([0.1, 0.2, 0.3, 0.4], [[0.0, 1.0], [1.0, 2.0], [2.0, 3.0], [3.0, 4.0]]),
    ], [pdf mom], (&[256, 256, 8, 8], 3), false);
    let uniform = |p: &[f64]| fam::uniform::Uniform::<f64>::new_unchecked(p[0], p[1]);
    mixture!(o, "uniforms", uniform, p_uniform, [
        ([1.0], [[-2.0, 3.0]]),
        ([0.5, 0.5], [[0.0, 1.0], [1.0, 1.0]]),
        ([0.25, 0.75], [[2.0, 1.0], [-2.0, 3.0]]),
        ([0.25, 0.75], [[0.0, 8.0], [2.0, 1.0]]),
        ([0.7, 0.3], [[5.0, 1.0], [-5.0, 0.5]]),
        ([0.2, 0.5, 0.3], [[3.0, 2.0], [0.0, 1.0], [-4.0, 9.0]]),
        ([0.2, 0.5, 0.3], [[0.0, 1.0], [3.0, 2.0], [-4.0, 1.0]]),
        ([0.0, 0.25, 0.75], [[-10.0, 30.0], [3.0, 2.0], [-4.0, 1.0]]),
    ], [pdf mom], (&[256, 256], 3), false);
    let exponential = |p: &[f64]| fam::exponential::Exponential::new_unchecked(p[0]);
    mixture!(o, "exponentials", exponential, p_exponential, [
        ([0.5, 0.5], [[1.0], [4.0]]),
        ([0.25, 0.25, 0.5], [[0.25], [1.0], [4.0]]),
    ], [pdf mom], (&[256, 256], 3), false);
    let gamma = |p: &[f64]| fam::gamma::Gamma::new_unchecked(p[0], p[1]);
    mixture!(o, "gammas", gamma, p_gamma, [
        ([0.5, 0.5], [[1.0, 1.0], [5.0, 1.0]]),
        ([0.75, 0.25], [[2.0, 3.0], [9.0, 0.5]]),
    ], [pdf mom], (&[64, 256, 32, 8], 4), false);
    let triangular = |p: &[f64]| fam::triangular::Triangular::new_unchecked(p[0], p[1], p[2]);
    mixture!(o, "triangulars", triangular, p_triangular, [
        ([0.5, 0.5], [[0.0, 1.0, 1.0], [-3.0, 0.5, 2.0]]),
        ([0.125, 0.875], [[0.0, 3.0, 1.0], [8.0, 0.5, 2.0]]),
    ], [pdf mom], (&[256, 256], 3), false);
    let geometric = |p: &[f64]| fam::geometric::Geometric::new_unchecked(p[0]);
    mixture!(o, "geometrics", geometric, p_geometric, [
        ([0.5, 0.5], [[0.5], [0.875]]),
        ([0.25, 0.25, 0.5], [[0.9], [0.5], [0.75]]),
    ], [mom], (&[32, 16, 16, 8, 8], 6), true);
    let binomial = |p: &[f64]| fam::binomial::Binomial::new_unchecked(p[0] as usize, Probability::new_unchecked(p[1]));
    mixture!(o, "binomials", binomial, p_binomial, [
        ([0.5, 0.5], [[3.0, 0.5], [7.0, 0.25]]),
        ([0.25, 0.75], [[10.0, 0.9], [2.0, 0.5]]),
        ([0.25, 0.25, 0.5], [[1.0, 0.5], [4.0, 0.25], [9.0, 0.5]]),
    ], [mom], (&[64, 256, 4, 4], 4), true);
    // mixtures of mixtures
    let inner = |p: &[f64]| Mixture::new([0.25, 0.75], [normal(&[p[0], p[1]]), normal(&[p[2], p[3]])]).expect("valid weights");
    fn p_inner(p: &[f64]) -> Part {
        let (a, b) = (p_normal(&p[..2]), p_normal(&p[2..]));
        part(-INF, INF, 0.25 * a.x0 + 0.75 * b.x0, a.s + b.s + (a.x0 - b.x0).abs(), move |x| (0.25 * (a.f)(x) + 0.75 * (b.f)(x)).ln())
    }
    mixture!(o, "mixtures", inner, p_inner, [
        ([0.5, 0.5], [[-2.0, 1.0, 2.0, 1.0], [0.0, 0.25, 5.0, 4.0]]),
        ([0.125, 0.875], [[-2.0, 1.0, 2.0, 1.0], [0.0, 0.25, 5.0, 4.0]]),
    ], [pdf mom], (&[32, 32, 128, 4], 4), false);
    o
}

/// Two cases answer alike on a lattice.
fn alike(m: &mut Mc, what: &str, a: &Case, b: &Case) {
    for x in [-7.0, -3.5, -1.0, 0.0, 0.3, 1.0, 2.0, 5.0, 11.0] {
        m.step();
        let (u, v) = ((a.cdf)(x), (b.cdf)(x));
        m.expect(what, || format!("{} cdf({})", a.par, x), u == v, || format!("{:?} against {:?}", u, v));
        if let (Some(f), Some(g)) = (&a.density, &b.density) {
            let (u, v) = (f(x), g(x));
            m.expect(what, || format!("{} density({})", a.par, x), u == v, || format!("{:?} against {:?}", u, v));
        }
        let (u, v) = ((a.contains)(x), (b.contains)(x));
        m.expect(what, || format!("{} support contains {}", a.par, x), u == v, || format!("{:?} against {:?}", u, v));
    }
}

/// Weights, construction, parameters.
fn construction(m: &mut Mc) {
    let comp = |i: usize| fam::normal::Normal::new_unchecked([-2.0, 0.0, 3.0][i], [1.0, 4.0, 0.25][i]);
    let al = [0.0, 0.25, 0.5, 0.75, 1.0, -0.25, 1.25, f64::NAN];
    let dummy = || cont(0.0, 1.0, 0.5, 0.5, |_| 0.0);
    macro_rules! word {
        ($w:expr, $n:literal) => {{
            let w: [f64; $n] = $w;
            m.state();
            m.step();
            m.trace();
            let ok = w.iter().all(|x| *x >= 0.0 && *x <= 1.0) && (w.iter().sum::<f64>() - 1.0).abs() < 1e-12;
            let comps = || { let v: Vec<_> = (0..$n).map(comp).collect(); <[fam::normal::Normal; $n]>::try_from(v).ok().unwrap() };
            let mix = guarded(|| Mixture::new(w, comps()).ok());
            m.expect("mixture accepts exactly the valid weights", || format!("{:?}", w), matches!(&mix, Ok(x) if x.is_some() == ok), || format!("{:?}", mix.as_ref().map(|x| x.is_some())));
            if let (true, Ok(Some(mix))) = (ok, mix) {
                let case = |x: Mixture<$n, fam::normal::Normal>| base("mixture", format!("{:?}", w), x, dummy()).pdf().mom().c;
                m.expect("number of components", || format!("{:?}", w), Mixture::<$n, fam::normal::Normal>::n_components() == $n, || String::new());
                let p = mix.params();
                m.expect("mixture reports its parameters", || format!("{:?}", w), *p.ps == w && p.component_params.len() == $n
                    && (0..$n).all(|i| p.component_params[i].mu.0 == comp(i).params().mu.0 && p.component_params[i].Sigma.0 == comp(i).params().Sigma.0), || format!("{:?}", p));
                let a = case(mix.clone());
                alike(m, "every way of constructing a mixture agrees", &a, &case(Mixture::new_unchecked(w, comps())));
                alike(m, "every way of constructing a mixture agrees", &a, &case(Mixture::from(p.clone())));
                alike(m, "every way of constructing a mixture agrees", &a, &case(Mixture::from(mix.clone().into_params())));
                for n in [0usize, 1, 2, 3, 4] {
                    if n == $n {
                        continue;
                    }
                    let mut q = p.clone();
                    q.component_params = (0..n).map(|i| comp(i % 3).params()).collect();
                    m.step();
                    let r: R<String> = guarded(|| { let x: Mixture<$n, fam::normal::Normal> = Mixture::from(q); format!("{:?}", x.components.len()) });
                    m.expect("parameters with the wrong number of components are refused", || format!("{} components for {} weights", n, $n), r.is_err(), || "accepted".into());
                }
            }
        }};
    }
    for a in al {
        word!([a], 1);
        for b in al {
            word!([a, b], 2);
            for c in al {
                word!([a, b, c], 3);
            }
        }
    }
}

/// Every weight vector over a lattice of fractions: the combination stays a probability law
/// (rounding included) and its first two moments are those of the components wherever they sit.
fn combination(m: &mut Mc) {
    let denominators: &[usize] = if m.thorough() { &[2, 3, 5, 7, 10, 12, 15] } else { &[3, 5, 7, 10, 12] };
    let sites = [0.0, 1.0, -1e3, 1e6, -1e9];
    macro_rules! over {
        ($n:literal) => {
            for &den in denominators {
                for k in crate::multis::compositions($n, den) {
                    let mut w = [0.0; $n];
                    for i in 0..$n {
                        w[i] = k[i] as f64 / den as f64;
                    }
                    m.state();
                    m.trace();
                    let at = |i: usize| ([-2.0, 0.5, 0.0, 4.0, 1.0, -7.0][i], [1.0, 0.25, 4.0, 2.25, 0.01, 9.0][i]);
                    let comps = |c: f64| { let v: Vec<_> = (0..$n).map(|i| fam::normal::Normal::new_unchecked(c + at(i).0, at(i).1)).collect(); <[fam::normal::Normal; $n]>::try_from(v).ok().unwrap() };
                    let mut last = 0.0;
                    let made = guarded(|| Mixture::new(w, comps(0.0)).map_err(|e| e.to_string()));
                    let mix = match made {
                        Ok(Ok(x)) => x,
                        e => { m.expect("fractions adding up to one are accepted", || format!("{:?}", w), false, || format!("{:?}", e.map(|_| ()))); continue },
                    };
                    for x in [-INF, -1e9, -60.0, -9.0, -3.0, -1.0, 0.0, 0.7, 2.0, 6.0, 20.0, 47.0, 300.0, 1e9, INF] {
                        m.steps_add(5);
                        let cs = comps(0.0);
                        let want: f64 = (0..$n).map(|i| w[i] * cs[i].cdf(&x).unwrap()).sum();
                        let inp = || format!("{:?} at {}", w, x);
                        let g = guarded(|| mix.cdf(&x).unwrap());
                        m.expect("a mixture's distribution function is the weighted sum", inp, matches!(g, Ok(v) if (v - want).abs() <= 1e-12), || format!("{:?} for {}", g, want));
                        m.expect("a mixture's distribution function stays within [0, 1] and never falls", inp, matches!(g, Ok(v) if v >= last - 1e-14 && (0.0..=1.0).contains(&v)), || format!("{:?} after {}", g, last));
                        last = g.unwrap_or(last);
                        let g = guarded(|| mix.ccdf(&x).unwrap());
                        m.expect("a mixture's upper tail is a probability", inp, matches!(g, Ok(v) if (0.0..=1.0).contains(&v) && (v - (1.0 - want)).abs() <= 1e-12), || format!("{:?}", g));
                        for (n, g, v) in [("lower", guarded(|| mix.log_cdf(&x)), want), ("upper", guarded(|| mix.log_ccdf(&x)), 1.0 - want)] {
                            m.expect("logarithms of a mixture's tails are numbers not above zero", || format!("{} of {:?} at {}", n, w, x), matches!(g, Ok(l) if l <= 0.0 && (l.exp() - v).abs() <= 1e-12), || format!("{:?} for ln {}", g, v));
                        }
                        if x.is_finite() {
                            let want: f64 = (0..$n).map(|i| w[i] * cs[i].pdf(&x)).sum();
                            let g = guarded(|| mix.pdf(&x));
                            m.expect("a mixture's density is the weighted sum", inp, matches!(g, Ok(v) if (v - want).abs() <= 1e-13 + 1e-12 * want), || format!("{:?} for {}", g, want));
                        }
                    }
                    // moments, wherever the components sit
                    let mean: f64 = (0..$n).map(|i| w[i] * at(i).0).sum();
                    let var: f64 = (0..$n).map(|i| w[i] * (at(i).1 + (at(i).0 - mean) * (at(i).0 - mean))).sum();
                    for c in sites {
                        m.steps_add(3);
                        let mix = Mixture::new_unchecked(w, comps(c));
                        let inp = || format!("{:?} shifted by {}", w, c);
                        let g = guarded(|| mix.mean());
                        m.expect("a mixture's mean moves with its components", inp, matches!(g, Ok(v) if (v - mean - c).abs() <= 1e-12 * (1.0 + c.abs()) ), || format!("{:?} for {}", g, mean + c));
                        let g = guarded(|| mix.variance());
                        m.expect("a mixture's variance does not depend on where it sits", inp, matches!(g, Ok(v) if (v - var).abs() <= 1e-5 * var), || format!("{:?} for {}", g, var));
                        let g = guarded(|| mix.standard_deviation());
                        m.expect("a mixture's deviation does not depend on where it sits", inp, matches!(g, Ok(v) if (v - var.sqrt()).abs() <= 1e-5 * var.sqrt()), || format!("{:?} for {}", g, var.sqrt()));
                    }
                }
            }
        };
    }
    over!(1);
    over!(2);
    over!(3);
    over!(4);
    if m.thorough() {
        over!(5);
    }
    over!(6);
    // a component of no weight counts for nothing, even where it has a pole or no moments
    for w in [0.0, 0.25, 0.5] {
        let gammas = || [fam::gamma::Gamma::new_unchecked(0.5, 1.0), fam::gamma::Gamma::new_unchecked(2.0, 1.0), fam::gamma::Gamma::new_unchecked(1.0, 3.0)];
        let mix = Mixture::new_unchecked([0.0, w, 1.0 - w], gammas());
        let g = guarded(|| mix.pdf(&0.0));
        m.step();
        m.expect("a component of no weight does not matter", || format!("density at 0 of [0, {}, {}] of gammas", w, 1.0 - w), matches!(g, Ok(v) if (v - (1.0 - w) * 3.0).abs() <= 1e-12), || format!("{:?}", g));
        let par = || [fam::pareto::Pareto::new_unchecked(1.0, 0.5), fam::pareto::Pareto::new_unchecked(1.0, 3.0), fam::pareto::Pareto::new_unchecked(2.0, 3.0)];
        let mix = Mixture::new_unchecked([0.0, w, 1.0 - w], par());
        let mean = w * 1.5 + (1.0 - w) * 3.0;
        let var = w * (0.75 + (1.5 - mean) * (1.5 - mean)) + (1.0 - w) * (3.0 + (3.0 - mean) * (3.0 - mean));
        m.steps_add(2);
        for (n, g, v) in [("mean", guarded(|| mix.mean()), mean), ("variance", guarded(|| mix.variance()), var)] {
            m.expect("a component of no weight does not matter", || format!("{} of [0, {}, {}] of Paretos", n, w, 1.0 - w), matches!(g, Ok(g) if (g - v).abs() <= 1e-12), || format!("{:?} for {}", g, v));
        }
    }
}

/// Many components: every one of them counts, wherever it stands.
fn many<const N: usize>(m: &mut Mc) {
    let k = N as f64;
    let total: f64 = (1..=N).map(|i| i as f64).sum();
    let mut ws: Vec<Vec<f64>> = vec![vec![1.0 / k; N], (1..=N).map(|i| i as f64 / total).collect()];
    for i in 0..N {
        let mut w = vec![0.0; N];
        w[i] = 1.0;
        ws.push(w);
        let mut w = vec![0.5 / (k - 1.0); N];
        w[i] = 0.5;
        ws.push(w);
    }
    // disjoint boxes in an order of their own
    let at = |i: usize| ((i * 7 + 3) % N) as f64 * 4.0 + if N % 7 == 0 { i as f64 * 4.0 * k } else { 0.0 };
    let boxes = || { let v: Vec<_> = (0..N).map(|i| fam::uniform::Uniform::<f64>::new_unchecked(at(i), 1.0)).collect(); <[fam::uniform::Uniform<f64>; N]>::try_from(v).ok().unwrap() };
    let bells = || { let v: Vec<_> = (0..N).map(|i| fam::normal::Normal::new_unchecked(at(i), 1.0 + i as f64 / k)).collect(); <[fam::normal::Normal; N]>::try_from(v).ok().unwrap() };
    let (lo, hi) = ((0..N).map(at).fold(INF, f64::min), (0..N).map(at).fold(-INF, f64::max) + 1.0);
    for w in &ws {
        m.state();
        m.trace();
        let mut a = [0.0; N];
        a.copy_from_slice(w);
        let inp = |x: f64| format!("{:?} at {}", w, x);
        let made = [
            guarded(|| Mixture::new(a, boxes()).ok().unwrap()),
            guarded(|| Mixture::new_unchecked(a, boxes())),
            guarded(|| Mixture::from(Mixture::new_unchecked(a, boxes()).params())),
        ];
        for mix in made {
            let mix = match mix {
                Ok(x) => x,
                Err(e) => { m.expect("mixtures of many components are accepted", || format!("{:?}", w), false, || e.clone()); continue },
            };
            let s = guarded(|| { use spaces::Space; let s = mix.support(); [lo - 0.5, lo, hi, hi + 0.5].iter().map(|x| s.contains(x)).collect::<Vec<_>>() });
            m.expect("the support reaches from the first box to the last", || format!("{:?}", w), s == Ok(vec![false, true, true, false]), || format!("{:?}", s));
            for i in 0..N {
                let x = at(i) + 0.5;
                m.steps_add(2);
                let g = guarded(|| mix.pdf(&x));
                m.expect("a mixture's density is the weighted sum", || inp(x), matches!(g, Ok(v) if (v - w[i]).abs() <= 1e-12), || format!("{:?} for {}", g, w[i]));
                let want: f64 = (0..N).map(|j| w[j] * (x - at(j)).max(0.0).min(1.0)).sum();
                let g = guarded(|| mix.cdf(&x).unwrap());
                m.expect("a mixture's distribution function is the weighted sum", || inp(x), matches!(g, Ok(v) if (v - want).abs() <= 1e-12), || format!("{:?} for {}", g, want));
            }
            let mean: f64 = (0..N).map(|i| w[i] * (at(i) + 0.5)).sum();
            let var: f64 = (0..N).map(|i| w[i] * (1.0 / 12.0 + (at(i) + 0.5 - mean).powi(2))).sum();
            m.steps_add(2);
            let g = guarded(|| mix.mean());
            m.expect("mean of many components", || format!("{:?}", w), matches!(g, Ok(v) if (v - mean).abs() <= 1e-9 * (1.0 + mean.abs())), || format!("{:?} for {}", g, mean));
            let g = guarded(|| mix.variance());
            m.expect("variance of many components", || format!("{:?}", w), matches!(g, Ok(v) if (v - var).abs() <= 1e-9 * (1.0 + var)), || format!("{:?} for {}", g, var));
            // which component a draw comes from
            let l = crate::vecs::law(m, "mixture sampler", &format!("{} boxes", N), &[512, 4, 2], 3, &|t| guarded(|| vec![mix.sample(&mut crate::case::Words(t))]), &|v| v[0] >= lo && v[0] <= hi);
            for i in 0..N {
                crate::vecs::judge_event(m, "mixture sampler law", || format!("{:?} component {}", w, i), l.of(|v| v[0] >= at(i) && v[0] <= at(i) + 1.0), w[i], 3.0 / 512.0);
            }
        }
        let mix = Mixture::new_unchecked(a, bells());
        let p = guarded(|| mix.params().component_params.iter().map(|p| (p.mu.0, p.Sigma.0)).collect::<Vec<_>>());
        let want: Vec<(f64, f64)> = (0..N).map(|i| (at(i), 1.0 + i as f64 / k)).collect();
        m.expect("mixture reports its parameters", || format!("{:?}", w), p.as_ref() == Ok(&want), || format!("{:?}", p));
        for x in (0..N).map(|i| at(i) + 0.25) {
            m.steps_add(2);
            let want: f64 = (0..N).map(|i| w[i] * (-(x - at(i)).powi(2) / 2.0 / (1.0 + i as f64 / k)).exp() / (2.0 * PI * (1.0 + i as f64 / k)).sqrt()).sum();
            let g = guarded(|| mix.pdf(&x));
            m.expect("a mixture's density is the weighted sum", || inp(x), matches!(g, Ok(v) if (v - want).abs() <= 1e-12 + 1e-9 * want), || format!("{:?} for {}", g, want));
            let want: f64 = (0..N).map(|i| w[i] * crate::vecs::phi((x - at(i)) / (1.0 + i as f64 / k).sqrt())).sum();
            let g = guarded(|| mix.cdf(&x).unwrap());
            m.expect("a mixture's distribution function is the weighted sum", || inp(x), matches!(g, Ok(v) if (v - want).abs() <= 1e-9), || format!("{:?} for {}", g, want));
        }
    }
}

/// D13
pub fn mixture(m: &mut Mc) {
    m.bound("instances: every listed weight vector (zero weights included) over normal, uniform, exponential, gamma, triangular, geometric, binomial and nested components; the lattices and tolerances of D01-D04 and D08; weight words over an 8-letter alphabet up to length 3; 5, 8, 9, 12, 17 and 33 components with even, growing, single and half-loaded weights; parameter sets with 0-4 components");
    for c in instances() {
        m.at(&c.id());
        let t = uv::Table::new(&c, true);
        uv::cdf_of(m, &c, &t);
        uv::density_of(m, &c, &t);
        uv::variants_of(m, &c, &t);
        uv::moments_of(m, &c, &t);
        let e = uv::explore(&c);
        uv::judge_sampler(m, &c, e);
    }
    m.at("construction");
    construction(m);
    m.at("many components");
    many::<5>(m);
    many::<8>(m);
    many::<9>(m);
    many::<12>(m);
    many::<17>(m);
    many::<33>(m);
    m.at("weights over fractions");
    combination(m);
}
