//! Every univariate family of the crate next to its textbook density.
use crate::case::{base, Case, Ref};
use kit::num::{ln_beta, ln_choose, ln_gamma};
use rstat::{univariate as uv, Probability};
use std::f64::consts::PI;

const INF: f64 = f64::INFINITY;

pub fn cont(lo: f64, hi: f64, x0: f64, s: f64, lf: impl Fn(f64) -> f64 + 'static) -> Ref {
    let lf = std::rc::Rc::new(lf);
    let g = lf.clone();
    Ref {
        f: Box::new(move |x| g(x).exp()),
        lf: Box::new(move |x| lf(x)),
        lo,
        hi,
        x0,
        s,
        brk: vec![],
        max_moment: INF,
        discrete: false,
    }
}

pub fn disc(lo: f64, hi: f64, x0: f64, s: f64, lf: impl Fn(f64) -> f64 + 'static) -> Ref {
    Ref { discrete: true, ..cont(lo, hi, x0, s, lf) }
}

impl Ref {
    fn brk(mut self, b: &[f64]) -> Ref {
        self.brk = b.to_vec();
        self
    }
    fn maxm(mut self, m: f64) -> Ref {
        self.max_moment = m;
        self
    }
}

/// (k) ln(x) with 0 ln 0 = 0
pub fn kln(k: f64, x: f64) -> f64 {
    if k == 0.0 { 0.0 } else { k * x.ln() }
}

macro_rules! grid {
    ($q:expr, $t:expr, $tier:expr) => {{
        let v: Vec<_> = $q.iter().chain($t.iter()).cloned().collect();
        Axis::densify(v, $tier)
    }};
}

/// How fine the parameter lattices are: every level halves every step.
pub type Level = u32;
pub const SPARSE: Level = 0;

/// The axes of the parameter lattices.
trait Axis: Sized {
    fn densify(v: Vec<Self>, t: Level) -> Vec<Self>;
}

impl Axis for f64 {
    fn densify(mut v: Vec<f64>, t: Level) -> Vec<f64> {
        for _ in 0..t {
            let mut w = v.clone();
            w.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.extend(w.windows(2).map(|p| (p[0] + p[1]) / 2.0));
        }
        v
    }
}

impl Axis for i64 {
    fn densify(v: Vec<i64>, _: Level) -> Vec<i64> { v }
}

impl Axis for usize {
    fn densify(mut v: Vec<usize>, t: Level) -> Vec<usize> {
        if t > SPARSE {
            let top = *v.iter().max().unwrap();
            v = (1..=top + 10 * 4usize.pow(t - 1)).collect();
        }
        v
    }
}

/// Every word over the two alphabets.
fn cross(a: &[f64], b: &[f64]) -> Vec<(f64, f64)> {
    a.iter().flat_map(|x| b.iter().map(move |y| (*x, *y))).collect()
}

fn pair(tier: Level, q: &[(f64, f64)], a: &[f64], b: &[f64]) -> Vec<(f64, f64)> {
    let mut v = q.to_vec();
    for p in cross(&Axis::densify(a.to_vec(), tier), &Axis::densify(b.to_vec(), tier)) {
        if !v.contains(&p) {
            v.push(p);
        }
    }
    v
}

/// Settings far from the lattice: tiny and huge scales, far locations, extreme shapes.
fn far(mut v: Vec<(f64, f64)>, x: &[(f64, f64)]) -> Vec<(f64, f64)> {
    v.extend_from_slice(x);
    v
}

/// (location, scale)
const FAR: &[(f64, f64)] = &[(0.0, 1e-9), (0.0, 1e9), (1e3, 1e-3), (-1e3, 1e3), (1e6, 1.0)];

pub fn all(tier: Level, only: &dyn Fn(&str) -> bool) -> Vec<Case> {
    let mut o = vec![];
    macro_rules! fam {
        ($($f:ident),*) => { $( if only(stringify!($f)) { $f(tier, &mut o); } )* };
    }
    fam!(
        arcsine, beta, beta_prime, cauchy, chi, chi_sq, cosine, degenerate, erlang, exponential, f_dist,
        folded_normal, frechet, gamma, gev, gpd, gumbel, inverse_gamma, inverse_normal, kumaraswamy,
        laplace, levy, logistic, lognormal, normal, pareto, rayleigh, student_t, triangular, uniform,
        uniform_int, weibull, bernoulli, beta_binomial, binomial, categorical, geometric, poisson
    );
    o
}

pub const FAMILIES: &[&str] = &[
    "arcsine", "beta", "beta_prime", "cauchy", "chi", "chi_sq", "cosine", "degenerate", "erlang",
    "exponential", "f_dist", "folded_normal", "frechet", "gamma", "gev", "gpd", "gumbel",
    "inverse_gamma", "inverse_normal", "kumaraswamy", "laplace", "levy", "logistic", "lognormal",
    "normal", "pareto", "rayleigh", "student_t", "triangular", "uniform", "uniform_int", "weibull",
    "bernoulli", "beta_binomial", "binomial", "categorical", "geometric", "poisson",
];

const LOCS: &[f64] = &[-3.5, 0.0, 2.0];
const SCALES: &[f64] = &[0.25, 1.0, 3.0];

// ---- continuous ---------------------------------------------------------------------------

fn arcsine(t: Level, o: &mut Vec<Case>) {
    for (a, w) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.5), (2.0, 3.0)], LOCS, &[0.25, 1.0, 3.0, 10.0]), &FAR[..2]) {
        let b = a + w;
        let r = cont(a, b, a + w / 2.0, w / 4.0, move |x| -PI.ln() - 0.5 * (x - a).ln() - 0.5 * (b - x).ln());
        base("arcsine", format!("a={},w={}", a, w), uv::arcsine::Arcsine::new_unchecked(a, w), r)
            .pdf().mom().quant().mode().ent().modes_complete().soft(&["quantile", "sample"]).done(o);
    }
}

fn beta(t: Level, o: &mut Vec<Case>) {
    let q = [(1.0, 1.0), (2.0, 3.0), (3.0, 2.0), (0.5, 0.5), (0.5, 2.0), (1.0, 3.0), (4.0, 1.0), (2.5, 0.75), (5.0, 5.0), (2.0, 1.5)];
    let l = [0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 5.0, 8.0, 20.0];
    for (a, b) in far(pair(t, &q, &l, &l), &[(0.05, 1.0), (0.05, 2.0), (50.0, 80.0), (300.0, 200.0), (1.0, 1000.0), (200.0, 0.5)]) {
        let c = ln_beta(a, b);
        let m = a / (a + b);
        let s = (a * b / (a + b + 1.0)).sqrt() / (a + b);
        let r = cont(0.0, 1.0, m, s, move |x| kln(a - 1.0, x) + if b == 1.0 { 0.0 } else { (b - 1.0) * (-x).ln_1p() } - c);
        let mut k = base("beta", format!("a={},b={}", a, b), uv::beta::Beta::new_unchecked(a, b), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile"]).median_tol(0.02)
            .tree(&[64, 64, 8, 8, 4, 4], 6);
        // the median has closed or approximate forms everywhere but here
        if (a < 1.0 || b < 1.0) && a != b && a != 1.0 && b != 1.0 {
            k = k.soft(&["median"]);
        }
        if a <= 1.0 || b <= 1.0 {
            k = k.modes_may_be_empty();
        }
        if a < 1.0 && b < 1.0 {
            k = k.modes_complete();
        }
        k.done(o);
    }
}

fn beta_prime(t: Level, o: &mut Vec<Case>) {
    let q = [(1.0, 1.0), (2.0, 3.5), (0.5, 4.5), (3.0, 5.5), (2.0, 2.5), (2.0, 0.5), (1.0, 6.0)];
    for (a, b) in far(pair(t, &q, &[0.5, 1.0, 1.5, 2.0, 4.0], &[0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 7.0]), &[(50.0, 80.0), (300.0, 200.0), (0.05, 7.0), (200.0, 5.5)]) {
        let c = ln_beta(a, b);
        let r = cont(0.0, INF, (a / b).max(0.2), 0.4, move |x| kln(a - 1.0, x) - (a + b) * x.ln_1p() - c).maxm(b);
        base("beta_prime", format!("a={},b={}", a, b), uv::beta_prime::BetaPrime::new_unchecked(a, b), r)
            .pdf().mom().mode().ent().soft(&["sample"]).done(o);
    }
}

fn cauchy(t: Level, o: &mut Vec<Case>) {
    for (m, g) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.25), (2.0, 3.0)], LOCS, SCALES), FAR) {
        let r = cont(-INF, INF, m, g, move |x| {
            let z = (x - m) / g;
            -(PI * g).ln() - (z * z).ln_1p()
        }).maxm(1.0);
        base("cauchy", format!("x0={},gamma={}", m, g), uv::cauchy::Cauchy::new_unchecked(m, g), r)
            .pdf().quant().mode().ent().done(o);
    }
}

fn chi(t: Level, o: &mut Vec<Case>) {
    for k in grid!([1usize, 2, 3, 5, 8], [4usize, 6, 7, 10, 15, 30, 100, 340, 400], t) {
        let v = k as f64;
        let r = cont(0.0, INF, v.sqrt(), 0.7, move |x| {
            kln(v - 1.0, x) - x * x / 2.0 - (v / 2.0 - 1.0) * 2f64.ln() - ln_gamma(v / 2.0)
        });
        base("chi", format!("k={}", k), uv::chi::Chi::new_unchecked(k), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile", "sample"]).median_tol(0.02).done(o);
    }
}

pub fn chi_sq_ref(k: usize) -> Ref {
    let v = k as f64;
    cont(0.0, INF, v, (2.0 * v).sqrt(), move |x| {
        kln(v / 2.0 - 1.0, x) - x / 2.0 - v / 2.0 * 2f64.ln() - ln_gamma(v / 2.0)
    })
}

fn chi_sq(t: Level, o: &mut Vec<Case>) {
    for k in grid!([1usize, 2, 3, 5, 8], [4usize, 6, 7, 10, 15, 30, 100, 340, 400], t) {
        base("chi_sq", format!("k={}", k), uv::chi_sq::ChiSq::new_unchecked(k), chi_sq_ref(k))
            .pdf().mom().quant().mode().ent().soft(&["quantile"]).median_tol(0.02)
            .tree(if k == 1 { &[16384] } else { &[256, 64, 8, 8] }, if k == 1 { 1 } else { 3 }).done(o);
    }
}

fn cosine(t: Level, o: &mut Vec<Case>) {
    for (m, s) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.5), (2.0, 3.0)], LOCS, SCALES), FAR) {
        let r = cont(m - s, m + s, m, s / 2.0, move |x| ((1.0 + (PI * (x - m) / s).cos()) / (2.0 * s)).ln());
        base("cosine", format!("mu={},s={}", m, s), uv::cosine::Cosine::new_unchecked(m, s), r)
            .pdf().mom().quant().mode().soft(&["quantile", "sample"]).done(o);
    }
}

/// A point mass: its law is judged through the discrete instance and, for the
/// continuous one, through everything except the (non-existent) density.
fn degenerate(t: Level, o: &mut Vec<Case>) {
    for k in grid!([0i64, 3, -7], [1i64, 100, -1, 12], t) {
        let v = k as f64;
        let r = disc(v, v, v, 1.0, move |x| if x == v { 0.0 } else { -INF });
        base("degenerate", format!("k={}i64", k), uv::degenerate::Degenerate::<i64>::new(k), r)
            .pmf().mom().quant().mode().ent().modes_complete()
            .soft(&["quantile", "skewness", "kurtosis", "excess_kurtosis", "support_hull"]).tree(&[2], 1).done(o);
        let r = disc(v, v, v, 1.0, move |x| if x == v { 0.0 } else { -INF });
        base("degenerate", format!("k={}f64", k), uv::degenerate::Degenerate::<f64>::new(v), r)
            .mom().quant().mode().ent().modes_complete()
            .soft(&["quantile", "skewness", "kurtosis", "excess_kurtosis", "entropy", "support_hull"]).tree(&[2], 1).done(o);
    }
}

pub fn gamma_ref(a: f64, b: f64) -> Ref {
    cont(0.0, INF, a / b, a.sqrt() / b, move |x| kln(a - 1.0, x) - b * x + a * b.ln() - ln_gamma(a))
}

fn erlang(t: Level, o: &mut Vec<Case>) {
    for k in grid!([1usize, 2, 3, 5], [4usize, 8, 12, 50, 200], t) {
        for l in SCALES {
            base("erlang", format!("k={},lambda={}", k, l), uv::erlang::Erlang::new_unchecked(k, *l), gamma_ref(k as f64, *l))
                .pdf().mom().mode().soft(&["sample"]).done(o);
        }
    }
}

fn exponential(t: Level, o: &mut Vec<Case>) {
    for l in grid!([0.25, 1.0, 3.0], [0.1, 0.5, 2.0, 10.0, 1e-6, 1e6], t) {
        base("exponential", format!("lambda={}", l), uv::exponential::Exponential::new_unchecked(l), gamma_ref(1.0, l))
            .pdf().mom().quant().mode().ent().tree(&[16384], 1).done(o);
    }
}

fn f_dist(t: Level, o: &mut Vec<Case>) {
    let q: Vec<(f64, f64)> =
        vec![(1.0, 1.0), (2.0, 3.0), (3.0, 5.0), (4.0, 7.0), (5.0, 9.0), (3.0, 8.0), (6.0, 6.0), (5.0, 2.0), (4.0, 4.0), (10.0, 11.0)];
    let l = [1.0, 2.0, 3.0, 5.0, 8.0];
    for (a, b) in far(pair(t, &q, &l, &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 12.0, 20.0]), &[(50.0, 60.0), (200.0, 300.0), (400.0, 500.0), (1.0, 400.0), (400.0, 5.0)]) {
        if a.fract() != 0.0 || b.fract() != 0.0 {
            continue; // degrees of freedom are counts
        }
        let c = ln_beta(a / 2.0, b / 2.0);
        let r = cont(0.0, INF, 1.0, 0.6, move |x| {
            a / 2.0 * (a / b).ln() + kln(a / 2.0 - 1.0, x) - (a + b) / 2.0 * (a * x / b).ln_1p() - c
        }).maxm(b / 2.0);
        let w: &[u32] = if a <= 2.0 && b <= 2.0 { &[512, 512, 4, 4] } else if a == 1.0 { &[128, 32, 16, 8] } else if a == 2.0 { &[256, 48, 16, 4] } else if b == 2.0 { &[48, 16, 256, 4] } else if b == 1.0 { &[32, 16, 128, 8] } else { &[48, 16, 48, 16] };
        base("f_dist", format!("d1={},d2={}", a, b), uv::f_dist::FDist::new_unchecked(a as usize, b as usize), r)
            .pdf().mom().mode().ent().soft(if a <= 2.0 { &["modes"] } else { &[] }).tree(w, 4).done(o);
    }
}

fn folded_normal(t: Level, o: &mut Vec<Case>) {
    let q = [(0.0, 1.0), (1.5, 0.5), (0.5, 1.0), (-2.0, 1.0), (1.2, 1.0), (3.0, 2.0)];
    for (m, s) in far(pair(t, &q, &[-2.0, 0.0, 0.5, 1.0, 4.0], &[0.5, 1.0, 2.0]), &[(0.0, 1e-6), (1e6, 1e6), (30.0, 1.0), (-1e3, 1e-3)]) {
        let c = (s * (2.0 * PI).sqrt()).ln();
        let r = cont(0.0, INF, (m as f64).abs().max(s / 2.0), s, move |x| {
            let (u, v) = ((x - m) / s, (x + m) / s);
            let (p, q) = (-u * u / 2.0, -v * v / 2.0);
            p.max(q) + (-(p - q).abs()).exp().ln_1p() - c
        });
        base("folded_normal", format!("mu={},sigma={}", m, s), uv::folded_normal::FoldedNormal::new_unchecked(m, s), r)
            .pdf().mom().mode().soft(&["skewness", "kurtosis", "excess_kurtosis"]).tree(&[16384], 1).done(o);
    }
}

fn frechet(t: Level, o: &mut Vec<Case>) {
    for a in grid!([0.5, 1.0, 1.5, 2.5, 3.5, 4.5, 6.0], [0.75, 2.0, 3.0, 4.0, 5.0, 10.0, 50.0, 200.0], t) {
        let r = cont(0.0, INF, 1.0, 0.5 / a, move |x| a.ln() - (1.0 + a) * x.ln() - x.powf(-a)).maxm(a);
        base("frechet", format!("alpha={}", a), uv::frechet::Frechet::new_unchecked(a), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile"]).done(o);
    }
}

fn gamma(t: Level, o: &mut Vec<Case>) {
    let q = [(1.0, 1.0), (0.5, 2.0), (2.0, 3.0), (3.5, 0.25), (9.0, 2.0), (1.0, 3.0)];
    for (a, b) in far(pair(t, &q, &[0.5, 1.0, 1.5, 2.0, 5.0, 20.0], SCALES), &[(50.0, 1.0), (200.0, 3.0), (0.05, 1.0), (2.0, 1e-6), (2.0, 1e6), (100.0, 1e6)]) {
        let (w, l): (&[u32], usize) = if a == 1.0 { (&[16384], 1) } else if a < 1.0 { (&[64, 64, 32, 32], 4) } else { (&[512, 64, 8, 8], 4) };
        base("gamma", format!("alpha={},beta={}", a, b), uv::gamma::Gamma::new_unchecked(a, b), gamma_ref(a, b))
            .pdf().mom().mode().ent().soft(if a < 1.0 { &["modes"] } else { &[] }).tree(w, l).done(o);
    }
}

/// Shapes of the two extreme-value families (zero and negative included).
fn shapes(t: Level) -> Vec<(f64, f64, f64)> {
    let mut q = vec![(0.0, 1.0, 0.2), (2.0, 3.0, 0.15), (-3.5, 0.5, 0.4), (0.0, 1.0, 1.5), (2.0, 1.0, 0.6), (0.0, 1.0, 0.3)];
    let zs = [-0.8, -0.6, -0.4, -0.2, 0.1, 0.22, 0.3, 0.45, 0.9, 1.0, 2.0];
    for m in LOCS {
        for s in SCALES {
            q.push((*m, *s, 0.0));
            for z in zs {
                q.push((*m, *s, z));
            }
            if t > SPARSE {
                for z in [-0.9, -0.7, -0.5, -0.3, -0.1, 0.05, 0.35, 0.55, 0.7, 1.2, 3.0] {
                    q.push((*m, *s, z));
                }
            }
        }
    }
    for (m, s) in FAR {
        for z in [-0.3, 0.0, 0.15] {
            q.push((*m, *s, z));
        }
    }
    for z in [1e-2, -1e-2, 5.0, 1e-6, -1e-6, 3e-8, 1e-9, 1e-12, 1e-17] {
        q.push((0.0, 1.0, z));
    }
    q
}

fn gev(t: Level, o: &mut Vec<Case>) {
    for (m, s, z) in shapes(t) {
        let (lo, hi) = if z > 0.0 { (m - s / z, INF) } else if z < 0.0 { (-INF, m - s / z) } else { (-INF, INF) };
        let r = cont(lo, hi, m, s, move |x| {
            let u = (x - m) / s;
            // ln t(x)
            let l = if z == 0.0 { -u } else { -(z * u).ln_1p() / z };
            -s.ln() + (z + 1.0) * l - l.exp()
        }).maxm(if z > 0.0 { 1.0 / z } else { INF });
        base("gev", format!("mu={},sigma={},zeta={}", m, s, z), uv::gev::GeneralisedExtremeValue::new_unchecked(m, s, z), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile", "sample", "support_hull"]).done(o);
    }
}

fn gpd(t: Level, o: &mut Vec<Case>) {
    // non-positive shapes are not valid parameters here
    for (m, s, z) in shapes(t).into_iter().filter(|p| p.2 > 0.0) {
        let r = cont(m, INF, m + s, s, move |x| {
            let u = (x - m) / s;
            let l = -(z * u).ln_1p() / z;
            -s.ln() + (z + 1.0) * l
        }).maxm(1.0 / z);
        base("gpd", format!("mu={},sigma={},zeta={}", m, s, z), uv::gpd::GeneralisedPareto::new_unchecked(m, s, z), r)
            .pdf().mom().quant().ent().soft(&["quantile", "sample", "support_hull"]).done(o);
    }
}

fn gumbel(t: Level, o: &mut Vec<Case>) {
    for (m, b) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.25), (2.0, 3.0)], LOCS, SCALES), FAR) {
        let r = cont(-INF, INF, m, b, move |x| {
            let z = (x - m) / b;
            -b.ln() - z - (-z).exp()
        });
        base("gumbel", format!("mu={},beta={}", m, b), uv::gumbel::Gumbel::new_unchecked(m, b), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile", "sample"]).done(o);
    }
}

fn inverse_gamma(t: Level, o: &mut Vec<Case>) {
    let q = [(1.0, 1.0), (2.5, 2.0), (3.5, 0.5), (4.5, 3.0), (0.5, 1.0), (6.0, 1.0), (1.5, 1.0)];
    for (a, b) in far(pair(t, &q, &[0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 8.0], SCALES), &[(50.0, 1.0), (200.0, 3.0), (0.2, 1.0), (4.5, 1e-6), (4.5, 1e6)]) {
        let r = cont(0.0, INF, b / (a + 1.0), b / (a + 1.0) / 2.0, move |x| {
            a * b.ln() - ln_gamma(a) - (a + 1.0) * x.ln() - b / x
        }).maxm(a);
        base("inverse_gamma", format!("alpha={},beta={}", a, b), uv::inverse_gamma::InvGamma::new_unchecked(a, b), r)
            .pdf().mom().mode().ent().soft(&["sample"]).done(o);
    }
}

fn inverse_normal(t: Level, o: &mut Vec<Case>) {
    let q = [(1.0, 1.0), (1.0, 3.0), (3.0, 1.0), (0.5, 2.0), (2.0, 8.0)];
    for (m, l) in far(pair(t, &q, &[0.5, 1.0, 2.0, 3.0], &[0.5, 1.0, 2.0, 5.0]), &[(1e-6, 1e-6), (1e6, 1e6), (1.0, 100.0), (5.0, 0.5), (1.0, 1e3)]) {
        let r = cont(0.0, INF, m / 2.0, m / 4.0, move |x| {
            0.5 * (l / (2.0 * PI)).ln() - 1.5 * x.ln() - l * (x - m) * (x - m) / (2.0 * m * m * x)
        });
        base("inverse_normal", format!("mu={},lambda={}", m, l), uv::inverse_normal::InvNormal::new_unchecked(m, l), r)
            .pdf().mom().mode().ent().tree(&[512, 256], 2).done(o);
    }
}

fn kumaraswamy(t: Level, o: &mut Vec<Case>) {
    let q = [(1.0, 1.0), (2.0, 3.0), (3.0, 2.0), (0.5, 0.5), (0.5, 2.0), (1.0, 3.0), (4.0, 1.0), (2.0, 2.5)];
    let l = [0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 5.0];
    for (a, b) in far(pair(t, &q, &l, &l), &[(20.0, 30.0), (0.1, 0.5), (1.0, 100.0), (100.0, 1.0)]) {
        let med = (1.0 - 0.5f64.powf(1.0 / b)).powf(1.0 / a);
        let r = cont(0.0, 1.0, med, 0.15f64.min(med).min(1.0 - med), move |x| {
            // 1 - x^a without cancellation near 1
            let u = -(a * x.ln()).exp_m1();
            a.ln() + b.ln() + kln(a - 1.0, x) + kln(b - 1.0, u)
        });
        let p = uv::kumaraswamy::Params::new_unchecked(a, b);
        let k = base("kumaraswamy", format!("a={},b={}", a, b), uv::kumaraswamy::Kumaraswamy::from(p), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile", "excess_kurtosis", "kurtosis"]);
        // elsewhere the density is flat or grows without bound
        let peaked = (a > 1.0 && b >= 1.0) || (a >= 1.0 && b > 1.0);
        if peaked { k } else { k.modes_may_be_empty() }.done(o);
    }
}

fn laplace(t: Level, o: &mut Vec<Case>) {
    for (m, b) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.25), (2.0, 3.0)], LOCS, SCALES), FAR) {
        let r = cont(-INF, INF, m, b, move |x| -(x - m).abs() / b - (2.0 * b).ln()).brk(&[m]);
        base("laplace", format!("mu={},b={}", m, b), uv::laplace::Laplace::new_unchecked(m, b), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile"]).tree(&[16384], 1).done(o);
    }
}

fn levy(t: Level, o: &mut Vec<Case>) {
    for (m, c) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.25), (2.0, 3.0)], LOCS, SCALES), FAR) {
        let r = cont(m, INF, m + c / 2.0, c / 4.0, move |x| {
            0.5 * (c / (2.0 * PI)).ln() - c / (2.0 * (x - m)) - 1.5 * (x - m).ln()
        }).maxm(0.5);
        base("levy", format!("mu={},c={}", m, c), uv::levy::Levy::new_unchecked(m, c), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile", "sample", "median"]).done(o);
    }
}

fn logistic(t: Level, o: &mut Vec<Case>) {
    for (m, s) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.25), (2.0, 3.0)], LOCS, SCALES), FAR) {
        let r = cont(-INF, INF, m, s, move |x| {
            let z = ((x - m) / s).abs();
            -z - s.ln() - 2.0 * (-z).exp().ln_1p()
        });
        base("logistic", format!("mu={},s={}", m, s), uv::logistic::Logistic::new_unchecked(m, s), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile", "sample"]).done(o);
    }
}

/// The second parameter is the variance of ln X (the parameters are those of the
/// underlying normal distribution).
fn lognormal(t: Level, o: &mut Vec<Case>) {
    for (m, v) in far(pair(t, &[(0.0, 1.0), (1.0, 0.25), (-0.5, 0.5)], &[-0.5, 0.0, 1.0], &[0.0625, 0.25, 0.5, 1.0]), &[(10.0, 1.0), (-10.0, 0.01), (0.0, 4.0)]) {
        let sd = (v as f64).sqrt();
        let med = (m as f64).exp();
        let r = cont(0.0, INF, med, med * sd / 2.0, move |x| {
            let z = (x.ln() - m) / sd;
            -z * z / 2.0 - x.ln() - (sd * (2.0 * PI).sqrt()).ln()
        });
        base("lognormal", format!("mu={},var={}", m, v), uv::lognormal::LogNormal::new_unchecked(m, v), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile"]).tree(&[16384], 1).done(o);
    }
}

fn normal(t: Level, o: &mut Vec<Case>) {
    for (m, v) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.25), (2.0, 9.0)], LOCS, &[0.04, 0.25, 1.0, 4.0, 9.0]), &[(0.0, 1e-18), (0.0, 1e18), (1e3, 1e-6), (-1e3, 1e6), (1e6, 1.0)]) {
        let sd = (v as f64).sqrt();
        let r = cont(-INF, INF, m, sd, move |x| {
            let z = (x - m) / sd;
            -z * z / 2.0 - (sd * (2.0 * PI).sqrt()).ln()
        });
        base("normal", format!("mu={},var={}", m, v), uv::normal::Normal::new_unchecked(m, v), r)
            .pdf().mom().quant().mode().ent().tree(&[16384], 1).done(o);
    }
}

fn pareto(t: Level, o: &mut Vec<Case>) {
    let q = [(1.0, 1.0), (0.5, 2.5), (2.0, 3.5), (1.0, 4.5), (3.0, 0.5), (2.0, 6.0), (1.0, 1.5)];
    for (m, a) in far(pair(t, &q, &[0.25, 1.0, 3.0], &[0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 8.0]), &[(1e-6, 3.5), (1e6, 5.0), (1.0, 50.0), (1.0, 300.0), (1e3, 150.0), (1e-3, 150.0)]) {
        let r = cont(m, INF, m * 2f64.powf(1.0 / a), m / a, move |x| a.ln() + a * m.ln() - (a + 1.0) * x.ln()).maxm(a);
        base("pareto", format!("x_m={},alpha={}", m, a), uv::pareto::Pareto::new_unchecked(m, a), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile"]).tree(&[16384], 1).done(o);
    }
}

fn rayleigh(t: Level, o: &mut Vec<Case>) {
    for s in grid!([0.25, 1.0, 3.0], [0.5, 2.0, 10.0, 1e-6, 1e6], t) {
        let r = cont(0.0, INF, s, s / 2.0, move |x| x.ln() - 2.0 * s.ln() - x * x / (2.0 * s * s));
        base("rayleigh", format!("sigma={}", s), uv::rayleigh::Rayleigh::new_unchecked(s), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile", "sample"]).done(o);
    }
}

fn student_t(t: Level, o: &mut Vec<Case>) {
    for n in grid!([1.0, 2.0, 2.5, 3.5, 5.0, 9.0], [0.5, 1.5, 3.0, 4.0, 4.5, 7.0, 30.0, 100.0, 400.0, 10000.0], t) {
        let c = ln_gamma((n + 1.0) / 2.0) - ln_gamma(n / 2.0) - 0.5 * (n * PI).ln();
        let r = cont(-INF, INF, 0.0, 1.0, move |x| c - (n + 1.0) / 2.0 * (x * x / n).ln_1p()).maxm(n);
        let (w, l): (&[u32], usize) = if n == 1.0 { (&[512, 512], 2) } else { (&[128, 32, 16, 8], 4) };
        base("student_t", format!("nu={}", n), uv::student_t::StudentT::new_unchecked(n), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile"]).tree(w, l).done(o);
    }
}

fn triangular(t: Level, o: &mut Vec<Case>) {
    let mut q = vec![(0.0, 0.5, 0.5), (-3.5, 1.0, 0.25), (2.0, 0.5, 3.0)];
    for a in LOCS {
        for (l, r) in pair(t, &[], &[0.25, 1.0, 4.0], &[0.25, 1.0, 4.0]) {
            q.push((*a, l, r));
        }
    }
    for (a, s) in FAR {
        q.push((*a, *s, *s));
        q.push((*a, 2.0 * s, 0.5 * s));
    }
    for (a, l, rr) in q {
        let (c, b) = (a + l, a + l + rr);
        let r = cont(a, b, c, l.min(rr) / 2.0, move |x| {
            if x <= c { (2.0 * (x - a) / ((b - a) * (c - a))).ln() } else { (2.0 * (b - x) / ((b - a) * (b - c))).ln() }
        }).brk(&[c]);
        base("triangular", format!("a={},a2c={},c2b={}", a, l, rr), uv::triangular::Triangular::new_unchecked(a, l, rr), r)
            .pdf().mom().quant().mode().ent().modes_complete().soft(&["quantile"]).tree(&[16384], 1).done(o);
    }
}

fn uniform(t: Level, o: &mut Vec<Case>) {
    for (a, w) in far(pair(t, &[(0.0, 1.0), (-3.5, 0.25), (2.0, 3.0)], LOCS, &[0.25, 1.0, 3.0, 10.0]), FAR) {
        let r = cont(a, a + w, a + w / 2.0, w / 4.0, move |_| -w.ln());
        base("uniform", format!("lb={},width={}", a, w), uv::uniform::Uniform::<f64>::new_unchecked(a, w), r)
            .pdf().mom().quant().ent().tree(&[16384], 1).done(o);
    }
}

fn uniform_int(t: Level, o: &mut Vec<Case>) {
    let ws: &[u64] = if t > SPARSE {
        &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 25, 100, 1000]
    } else {
        &[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 16, 100]
    };
    let wide: &[(i64, u64)] = &[(-40_000, 70_000), (-1, 300)];
    for (lb, w) in [-4i64, 0, 3].iter().flat_map(|l| ws.iter().map(move |w| (*l, *w))).chain(wide.iter().cloned()) {
        let (lo, hi) = (lb as f64, (lb + w as i64) as f64);
        let n = w as f64 + 1.0;
        let r = disc(lo, hi, lo, (hi - lo).max(1.0), move |_| -n.ln());
        base("uniform_int", format!("lb={},width={}", lb, w), uv::uniform::Uniform::<i64>::new_unchecked(lb, w), r)
            .pmf().mom().quant().ent().tree(&[16384], 1).done(o);
    }
}

fn weibull(t: Level, o: &mut Vec<Case>) {
    for (l, k) in far(pair(t, &[(1.0, 1.0), (2.0, 0.75), (0.5, 2.0), (3.0, 3.5), (1.0, 5.0)], SCALES, &[0.75, 1.0, 1.5, 2.0, 3.5, 6.0]), &[(1e-6, 2.0), (1e6, 1.5), (1.0, 0.4), (1.0, 30.0), (1.0, 100.0)]) {
        let r = cont(0.0, INF, l, l / (2.0 * k), move |x| {
            let z = x / l;
            k.ln() - l.ln() + kln(k - 1.0, z) - z.powf(k)
        });
        let p = uv::weibull::Params::new_unchecked(l, k);
        base("weibull", format!("lambda={},k={}", l, k), uv::weibull::Weibull::from(p), r)
            .pdf().mom().quant().mode().ent().soft(&["quantile"]).tree(&[16384], 1).done(o);
    }
}

// ---- discrete -----------------------------------------------------------------------------

fn bernoulli(t: Level, o: &mut Vec<Case>) {
    for p in grid!([0.5, 0.25, 0.9], [0.0625, 0.125, 0.75, 0.99, 1e-6, 0.999999, 0.0, 1.0], t) {
        let r = disc(0.0, 1.0, 0.0, 1.0, move |x| if x == 1.0 { (p as f64).ln() } else { (1.0 - p as f64).ln() });
        base("bernoulli", format!("p={}", p), uv::bernoulli::Bernoulli::new_unchecked(p), r)
            .pmf().mom().quant().mode().ent().modes_complete().soft(&["quantile"]).tree(&[16384], 1).done(o);
    }
}

fn beta_binomial(t: Level, o: &mut Vec<Case>) {
    let mut q = vec![(1usize, 1.0, 1.0), (5, 2.0, 3.0), (10, 0.5, 0.75), (20, 4.0, 1.0)];
    for n in grid!([1usize, 2, 3, 7, 30], [0usize; 0], t) {
        for (a, b) in cross(&[0.5, 1.0, 2.0, 5.0], &[0.5, 1.0, 2.0, 5.0]) {
            q.push((n, a, b));
        }
    }
    for n in [60usize, 100, 500] {
        q.push((n, 2.0, 3.0));
        q.push((n, 0.5, 1.0));
    }
    q.push((1000, 2.0, 3.0));
    q.push((30, 200.0, 100.0));
    q.push((30, 1e4, 1e4));
    q.push((3, 0.01, 0.02));
    for (n, a, b) in q {
        let v = n as f64;
        let r = disc(0.0, v, v / 2.0, v / 2.0, move |x| ln_choose(v, x) + ln_beta(x + a, v - x + b) - ln_beta(a, b));
        base("beta_binomial", format!("n={},alpha={},beta={}", n, a, b), uv::beta_binomial::BetaBinomial::new_unchecked(n, a, b), r)
            .pmf().mom().soft(&["cdf", "sample"]).done(o);
    }
}

fn binomial(t: Level, o: &mut Vec<Case>) {
    let mut q = vec![(1usize, 0.5), (5, 0.75), (10, 0.3), (30, 0.1), (4, 0.5), (3, 0.25), (9, 0.9)];
    for n in grid!([1usize, 2, 3, 6, 7, 12, 20, 25], [0usize; 0], t) {
        for p in grid!([0.0625, 0.125, 0.25, 0.4, 0.5, 0.6, 0.75, 0.95], [0.0; 0], t) {
            q.push((n, p));
        }
    }
    for n in [60usize, 100, 500] {
        q.push((n, 0.5));
        q.push((n, 0.03125));
        q.push((n, 0.9));
    }
    for p in [1e-6, 0.01, 0.5, 0.999, 0.0, 1.0] {
        q.push((1, p));
        q.push((3000, p));
    }
    for (n, p) in q {
        let v = n as f64;
        let r = disc(0.0, v, (v * p).floor(), (v * p * (1.0 - p)).sqrt(), move |x| {
            ln_choose(v, x) + kln(x, p) + kln(v - x, 1.0 - p)
        });
        // the rejection sampler of the wide settings needs fine lattices for the answers of every attempt
        let (w, d): (&[u32], usize) = if v * p.min(1.0 - p) < 10.0 { (&[8192, 4], 2) } else if v < 50.0 { (&[64, 32, 48, 24], 4) } else { (&[48, 24, 48, 24, 6, 4], 6) };
        base("binomial", format!("n={},p={}", n, p),
            uv::binomial::Binomial::new_unchecked(n, Probability::new_unchecked(p)), r)
            .pmf().mom().quant().mode().ent().soft(&["quantile"])
            .tree(w, d).done(o);
    }
}

fn categorical(t: Level, o: &mut Vec<Case>) {
    fn one<const N: usize>(ps: [f64; N], o: &mut Vec<Case>) {
        let q: Vec<f64> = ps.to_vec();
        let r = disc(0.0, N as f64 - 1.0, 0.0, 1.0, move |x| q[x as usize].ln());
        base("categorical", format!("{:?}", ps), uv::categorical::Categorical::<N>::new_unchecked(ps), r)
            .pmf().mode().modes_complete().soft(&["pmf_outside"]).tree(&[8192], 2).done(o);
    }
    one([1.0], o);
    one([0.25, 0.75], o);
    one([0.5, 0.5], o);
    one([0.2, 0.3, 0.5], o);
    one([0.4, 0.2, 0.4], o);
    one([0.125, 0.5, 0.25, 0.125], o);
    one([0.0, 0.5, 0.0, 0.5], o);
    // many categories: uneven, with the largest last, twice, and everywhere
    fn many<const N: usize>(o: &mut Vec<Case>) {
        let raw = |f: &dyn Fn(usize) -> f64| {
            let mut w = [0.0; N];
            for i in 0..N { w[i] = f(i); }
            let t: f64 = w.iter().sum();
            w.iter_mut().for_each(|x| *x /= t);
            w
        };
        one(raw(&|i| [3.0, 1.0, 4.0, 1.0, 5.0][i % 5] + if i + 1 == N { 4.0 } else { 0.0 }), o);
        one(raw(&|i| if i == N / 2 || i + 1 == N { 4.0 } else { (i % 3) as f64 }), o);
        one(raw(&|_| 1.0), o);
    }
    many::<5>(o);
    many::<9>(o);
    many::<17>(o);
    many::<40>(o);
    many::<300>(o);
    let n = 8 << t;
    for i in 0..=n {
        for j in 0..=(n - i) {
            let k = n - i - j;
            one([i as f64 / n as f64, j as f64 / n as f64, k as f64 / n as f64], o);
        }
    }
}

fn geometric(t: Level, o: &mut Vec<Case>) {
    for p in grid!([0.5, 0.25, 0.9], [0.125, 0.3, 0.75, 0.05, 0.001, 0.999, 1.0], t) {
        let r = disc(0.0, INF, 0.0, (1.0 - p) / p, move |x| kln(x, 1.0 - p) + (p as f64).ln());
        base("geometric", format!("p={}", p), uv::geometric::Geometric::new_unchecked(p), r)
            .pmf().mom().quant().mode().ent().soft(&["quantile"]).tree(if p > 0.66 { &[1024, 32, 16, 8, 4] } else { &[32, 32, 32, 8, 8] }, 6).done(o);
    }
}

fn poisson(t: Level, o: &mut Vec<Case>) {
    for l in grid!([0.5, 1.0, 3.5], [0.25, 2.0, 5.0, 9.5, 1e-3, 0.01, 0.05, 20.0, 50.0, 99.5, 100.0, 120.0, 300.0, 1000.0], t) {
        let r = disc(0.0, INF, f64::floor(l), f64::sqrt(l), move |x| kln(x, l) - l - ln_gamma(x + 1.0));
        let (w, d): (&[u32], usize) = if l <= 1.0 { (&[256, 32, 16, 8, 4, 4], 8) } else if l < 4.0 { (&[64, 12, 8, 6, 6, 4, 4, 3, 3, 2], 12) } else if l < 6.0 { (&[96, 16, 8, 4, 4, 3, 3, 3, 2, 2, 2], 13) } else if l < 12.0 { (&[1], 0) } else { (&[128, 32, 8, 6, 4, 4], 6) };
        base("poisson", format!("lambda={}", l), uv::poisson::Poisson::new_unchecked(l), r)
            .pmf().mom().quant().mode().ent().soft(&["quantile", "cdf"]).median_tol(0.02).tree(w, d).done(o);
    }
}
