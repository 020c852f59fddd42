//! D18: what a user-written distribution inherits.  Each trait offers pairs of methods defined in
//! terms of each other; a law that provides either member of a pair gets the other, and everything
//! derived from them.
use crate::case::{Words, R};
use crate::multis::compositions;
use kit::rng::{Script, Tree};
use kit::{guarded, near, Mc};
use rand::Rng;
use rstat::distance::Mahalanobis;
use rstat::fitting::Likelihood;
use rstat::statistics::{MvMoments, Quantiles, UvMoments};
use rstat::{ContinuousDistribution, DiscreteDistribution, Distribution, Multivariate, Probability, Univariate};
use spaces::intervals::{LeftClosed, Unbounded};

fn p(x: f64) -> Probability { Probability::new_unchecked(x) }

/// A law on 0..w.len() with the given masses.
#[derive(Clone, Debug)]
struct Law {
    w: Vec<f64>,
}

impl Law {
    fn mass(&self, k: usize) -> f64 { self.w.get(k).cloned().unwrap_or(0.0) }
    fn below(&self, k: usize) -> f64 { self.w.iter().take(k + 1).sum::<f64>().min(1.0) }
    fn central(&self, n: i32) -> f64 {
        let m = self.raw();
        self.w.iter().enumerate().map(|(k, w)| w * (k as f64 - m).powi(n)).sum()
    }
    fn raw(&self) -> f64 { self.w.iter().enumerate().map(|(k, w)| w * k as f64).sum() }
    fn sd(&self) -> f64 { self.central(2).sqrt() }
    fn kurt(&self) -> f64 { self.central(4) / self.central(2).powi(2) }
    fn q(&self, p: f64) -> f64 { (0..self.w.len()).find(|k| self.below(*k) >= p).unwrap_or(self.w.len() - 1) as f64 }
    fn like(&self, s: &[usize]) -> f64 { s.iter().map(|k| self.mass(*k)).product() }
    fn d(&self, k: usize) -> f64 { (k as f64 - self.raw()).abs() / self.sd() }
    fn draw<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { (rng.next_u64() >> 61) as usize % self.w.len() }
}

/// A user's distribution that provides the listed methods and inherits the rest.
macro_rules! user {
    ($name:ident, dist { $($dist:item)* }, mass { $($mass:item)* }, moments { $($mo:item)* }, quantiles { $($qu:item)* }, likelihood { $($li:item)* }, distance { $($di:item)* }) => {
        #[derive(Clone, Debug)]
        struct $name(Law);
        impl From<Law> for $name {
            fn from(l: Law) -> $name { $name(l) }
        }
        impl Distribution for $name {
            type Support = LeftClosed<usize>;
            type Params = Law;
            fn support(&self) -> LeftClosed<usize> { LeftClosed::left_closed(0) }
            fn params(&self) -> Law { self.0.clone() }
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> usize { self.0.draw(rng) }
            $($dist)*
        }
        impl Univariate for $name {}
        impl DiscreteDistribution for $name { $($mass)* }
        impl UvMoments for $name {
            fn mean(&self) -> f64 { self.0.raw() }
            fn skewness(&self) -> f64 { self.0.central(3) / self.0.sd().powi(3) }
            $($mo)*
        }
        impl Quantiles for $name { $($qu)* }
        impl Likelihood for $name { $($li)* }
        impl Mahalanobis for $name { $($di)* }
    };
}

user!(Plain,
    dist { fn cdf(&self, x: &usize) -> Probability { p(self.0.below(*x)) } },
    mass { fn pmf(&self, x: &usize) -> Probability { p(self.0.mass(*x)) } },
    moments {
        fn variance(&self) -> f64 { self.0.central(2) }
        fn kurtosis(&self) -> f64 { self.0.kurt() }
    },
    quantiles { fn quantile(&self, q: Probability) -> f64 { self.0.q(q.unwrap()) } },
    likelihood { fn likelihood(&self, s: &[usize]) -> f64 { self.0.like(s) } },
    distance { fn d_mahalanobis(&self, x: &usize) -> f64 { self.0.d(*x) } }
);
user!(Logs,
    dist { fn log_cdf(&self, x: &usize) -> f64 { self.0.below(*x).ln() } },
    mass { fn log_pmf(&self, x: &usize) -> f64 { self.0.mass(*x).ln() } },
    moments {
        fn standard_deviation(&self) -> f64 { self.0.sd() }
        fn excess_kurtosis(&self) -> f64 { self.0.kurt() - 3.0 }
    },
    quantiles { fn cquantile(&self, q: Probability) -> f64 { self.0.q(1.0 - q.unwrap()) } },
    likelihood { fn log_likelihood(&self, s: &[usize]) -> f64 { self.0.like(s).ln() } },
    distance { fn d_mahalanobis_squared(&self, x: &usize) -> f64 { self.0.d(*x).powi(2) } }
);

fn is(m: &mut Mc, site: &str, input: impl Fn() -> String, got: R<f64>, want: f64) {
    m.step();
    let ok = matches!(&got, Ok(g) if near(*g, want, 1e-12, 1e-14) || (g.is_nan() && want.is_nan()));
    if let Ok(g) = &got {
        m.outcome_f(*g);
    }
    m.expect(site, input, ok, || format!("{:?}, expected {:e}", got, want));
}

fn judge<D>(m: &mut Mc, kind: &str, l: &Law)
where
    D: Distribution<Params = Law, Support = LeftClosed<usize>> + DiscreteDistribution + UvMoments + Quantiles + Likelihood + Mahalanobis + Clone,
{
    let d = D::from(l.clone());
    let id = format!("{} {:?}", kind, l.w);
    m.state();
    m.trace();
    for k in 0..l.w.len() + 2 {
        let at = || format!("{} at {}", id, k);
        is(m, "inherited distribution function", at, guarded(|| d.cdf(&k).unwrap()), l.below(k));
        is(m, "inherited complement", at, guarded(|| d.ccdf(&k).unwrap()), 1.0 - l.below(k));
        is(m, "inherited log distribution function", at, guarded(|| d.log_cdf(&k)), l.below(k).ln());
        is(m, "inherited log complement", at, guarded(|| d.log_ccdf(&k)), (1.0 - l.below(k)).ln());
        is(m, "inherited mass", at, guarded(|| d.pmf(&k).unwrap()), l.mass(k));
        is(m, "inherited log mass", at, guarded(|| d.log_pmf(&k)), l.mass(k).ln());
        if l.sd() > 0.0 {
            is(m, "inherited distance", at, guarded(|| d.d_mahalanobis(&k)), l.d(k));
            is(m, "inherited squared distance", at, guarded(|| d.d_mahalanobis_squared(&k)), l.d(k).powi(2));
        }
    }
    let at = || id.clone();
    is(m, "inherited variance", at, guarded(|| d.variance()), l.central(2));
    is(m, "inherited standard deviation", at, guarded(|| d.standard_deviation()), l.sd());
    if l.sd() > 0.0 {
        is(m, "inherited kurtosis", at, guarded(|| d.kurtosis()), l.kurt());
        is(m, "inherited excess kurtosis", at, guarded(|| d.excess_kurtosis()), l.kurt() - 3.0);
    }
    let (q1, q2, q3) = (l.q(0.25), l.q(0.5), l.q(0.75));
    for i in 0..=32 {
        // sixteenths are exact, so are their complements
        let u = i as f64 / 32.0;
        is(m, "inherited quantile", || format!("{} at {}", id, u), guarded(|| d.quantile(p(u))), l.q(u));
        is(m, "inherited complementary quantile", || format!("{} at {}", id, u), guarded(|| d.cquantile(p(u))), l.q(1.0 - u));
    }
    for (site, got, want) in [
        ("inherited lower quartile", guarded(|| d.lower_quartile()), q1),
        ("inherited median", guarded(|| d.median()), q2),
        ("inherited upper quartile", guarded(|| d.upper_quartile()), q3),
        ("inherited interquartile range", guarded(|| d.iqr()), q3 - q1),
        ("inherited lower fence", guarded(|| d.lower_fence()), q1 - 1.5 * (q3 - q1)),
        ("inherited upper fence", guarded(|| d.upper_fence()), q3 + 1.5 * (q3 - q1)),
    ] {
        is(m, site, at, got, want);
    }
    // every data set of up to three observations
    let n = l.w.len() + 1;
    for len in 0..=3u32 {
        for mut code in 0..n.pow(len) {
            let s: Vec<usize> = (0..len).map(|_| { let k = code % n; code /= n; k }).collect();
            is(m, "inherited likelihood", || format!("{} of {:?}", id, s), guarded(|| d.likelihood(&s)), l.like(&s));
            is(m, "inherited log-likelihood", || format!("{} of {:?}", id, s), guarded(|| d.log_likelihood(&s)), l.like(&s).ln());
        }
    }
    m.step();
    let g = guarded(|| (d.clone().into_params().w, d.params().w, d.clone().into_support().left, d.support().left));
    m.expect("inherited conversions", at, matches!(&g, Ok((a, b, c, e)) if a == &l.w && b == &l.w && c.0 == e.0), || format!("{:?}", g.as_ref().map(|g| &g.0)));
}

/// Every sequence of generator answers: the batch and the iterator equal the single draws.
fn draws(m: &mut Mc) {
    for n in 1..=4usize {
        let d = Plain(Law { w: vec![1.0 / n as f64; n] });
        for batch in 0..=4usize {
            let mut leaves = 0u64;
            let mut bad: Option<String> = None;
            let mut steps = 0;
            let mut failed: Option<String> = None;
            Tree::new(&[8], 5).explore(
                |s: &mut Script| {
                    guarded(|| {
                        fn copy<'a>(s: &Script<'a>) -> Script<'a> { Script { choices: s.choices, widths: s.widths, alphabet: s.alphabet, pos: 0, limit: s.limit } }
                        let (mut one, mut it) = (copy(s), copy(s));
                        let b = d.sample_n(&mut Words(s), batch);
                        let singles: Vec<usize> = (0..batch).map(|_| d.sample(&mut Words(&mut one))).collect();
                        let taken: Vec<usize> = d.sample_iter(&mut Words(&mut it)).take(batch).collect();
                        let hint = d.sample_iter(&mut Words(&mut it)).size_hint();
                        (b == singles && taken == singles && s.pos == one.pos && it.pos == one.pos && hint.1.is_none(), b)
                    })
                },
                |g, _, _| {
                    leaves += 1;
                    steps += batch as u64;
                    if !g.0 && bad.is_none() {
                        bad = Some(format!("{:?}", g));
                    }
                },
                |e, _| failed = Some(e),
            );
            let bad = bad.or(failed);
            m.states_add(leaves);
            m.steps_add(steps);
            m.expect("inherited batch and iterator draws", || format!("{} outcomes, {} draws", n, batch), bad.is_none(), || bad.clone().unwrap_or_default());
        }
    }
}

/// A continuous law (logistic) providing the density or its logarithm.
macro_rules! cont {
    ($name:ident, { $($dist:item)* }, { $($den:item)* }) => {
        #[derive(Clone, Copy, Debug)]
        struct $name(f64);
        impl From<f64> for $name {
            fn from(s: f64) -> $name { $name(s) }
        }
        impl Distribution for $name {
            type Support = Unbounded<f64>;
            type Params = f64;
            fn support(&self) -> Unbounded<f64> { Unbounded::unbounded() }
            fn params(&self) -> f64 { self.0 }
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 { rng.next_u64() as f64 }
            $($dist)*
        }
        impl ContinuousDistribution for $name { $($den)* }
    };
}
fn lcdf(s: f64, x: f64) -> f64 { 1.0 / (1.0 + (-x / s).exp()) }
fn lpdf(s: f64, x: f64) -> f64 { lcdf(s, x) * lcdf(s, -x) / s }
cont!(PlainDensity, { fn cdf(&self, x: &f64) -> Probability { p(lcdf(self.0, *x)) } }, { fn pdf(&self, x: &f64) -> f64 { lpdf(self.0, *x) } });
cont!(LogDensity, { fn log_cdf(&self, x: &f64) -> f64 { lcdf(self.0, *x).ln() } }, { fn log_pdf(&self, x: &f64) -> f64 { lpdf(self.0, *x).ln() } });

fn density<D: ContinuousDistribution<Params = f64, Support = Unbounded<f64>>>(m: &mut Mc, kind: &str) {
    for s in [0.25, 1.0, 3.0] {
        let d = D::from(s);
        m.state();
        m.trace();
        for i in -16..=16 {
            let x = i as f64 / 2.0 * s;
            let at = || format!("{} scale {} at {}", kind, s, x);
            is(m, "inherited density", at, guarded(|| d.pdf(&x)), lpdf(s, x));
            is(m, "inherited log density", at, guarded(|| d.log_pdf(&x)), lpdf(s, x).ln());
            is(m, "inherited distribution function", at, guarded(|| d.cdf(&x).unwrap()), lcdf(s, x));
            is(m, "inherited complement", at, guarded(|| d.ccdf(&x).unwrap()), 1.0 - lcdf(s, x));
            is(m, "inherited log distribution function", at, guarded(|| d.log_cdf(&x)), lcdf(s, x).ln());
            is(m, "inherited log complement", at, guarded(|| d.log_ccdf(&x)), (1.0 - lcdf(s, x)).ln());
        }
    }
}

/// A vector law known by its covariance only.
#[derive(Clone, Debug)]
struct Cov<const N: usize>([[f64; N]; N]);
impl<const N: usize> From<[[f64; N]; N]> for Cov<N> {
    fn from(c: [[f64; N]; N]) -> Self { Cov(c) }
}
impl<const N: usize> Distribution for Cov<N> {
    type Support = [Unbounded<f64>; N];
    type Params = [[f64; N]; N];
    fn support(&self) -> Self::Support { [0; N].map(|_| Unbounded::unbounded()) }
    fn params(&self) -> Self::Params { self.0 }
    fn cdf(&self, _: &[f64; N]) -> Probability { Probability::half() }
    fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> [f64; N] { [0.0; N] }
}
impl<const N: usize> Multivariate<N> for Cov<N> {}
impl<const N: usize> MvMoments<N> for Cov<N> {
    fn mean(&self) -> [f64; N] { [0.0; N] }
    fn covariance(&self) -> [[f64; N]; N] { self.0 }
}

fn vectors<const N: usize>(m: &mut Mc) {
    // L L' for every lower-triangular word over {1, 2} (diagonal) and {-1, 0, 1} (below)
    let below = N * (N - 1) / 2;
    for code in 0..2usize.pow(N as u32) * 3usize.pow(below as u32) {
        let mut c = code;
        let mut l = [[0.0; N]; N];
        for i in 0..N {
            l[i][i] = 1.0 + (c % 2) as f64;
            c /= 2;
            for j in 0..i {
                l[i][j] = (c % 3) as f64 - 1.0;
                c /= 3;
            }
        }
        let mut s = [[0.0; N]; N];
        for i in 0..N {
            for j in 0..N {
                s[i][j] = (0..N).map(|k| l[i][k] * l[j][k]).sum();
            }
        }
        let d = Cov::<N>(s);
        m.state();
        m.steps_add(3);
        let g = guarded(|| d.variance());
        m.expect("inherited variances", || format!("{:?}", s), matches!(&g, Ok(v) if (0..N).all(|i| v[i] == s[i][i])), || format!("{:?}", g));
        let g = guarded(|| d.correlation());
        m.expect("inherited correlations", || format!("{:?}", s), matches!(&g, Ok(v) if (0..N).all(|i| (0..N).all(|j| near(v[i][j], s[i][j] / (s[i][i].sqrt() * s[j][j].sqrt()), 1e-13, 1e-14)))), || format!("{:?}", g));
        let g = guarded(|| d.dimensionality());
        m.expect("inherited dimensionality", || format!("{:?}", s), g == Ok(N), || format!("{:?}", g));
    }
}

/// D18
pub fn inherited(m: &mut Mc) {
    m.bound("discrete user-written laws: every weight vector with denominator 16 (24) on 1-4 outcomes, in two forms (plain functions / logarithms and complements provided); every outcome and two beyond, every probability i/32, every data set of up to three observations; continuous: 3 scales x 33 points; vectors: every covariance L L' over small words, dimension 1-4; draws: every sequence of up to 5 answers over 8 words");
    let den = m.pick(16, 24);
    for n in 1..=4 {
        for c in compositions(n, den) {
            let l = Law { w: c.iter().map(|k| *k as f64 / den as f64).collect() };
            judge::<Plain>(m, "plain functions", &l);
            judge::<Logs>(m, "logarithms", &l);
        }
    }
    density::<PlainDensity>(m, "density provided");
    density::<LogDensity>(m, "log density provided");
    vectors::<1>(m);
    vectors::<2>(m);
    vectors::<3>(m);
    vectors::<4>(m);
    draws(m);
}
