//! One distribution instance: the textbook reference next to the real code, type-erased.
use kit::{guarded, rng::Script};
use rstat::{
    statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
    ContinuousDistribution, DiscreteDistribution, Distribution, Probability, Sample,
};
use spaces::Space;
use std::rc::Rc;

pub type R<T> = Result<T, String>;
pub type F0<T> = Box<dyn Fn() -> R<T>>;
pub type F1<T> = Box<dyn Fn(f64) -> R<T>>;

/// Scalar sample values seen as reals.
pub trait Num: Copy + 'static {
    fn to(self) -> f64;
    fn of(x: f64) -> Option<Self>;
}

impl Num for f64 {
    fn to(self) -> f64 { self }
    fn of(x: f64) -> Option<f64> { Some(x) }
}
macro_rules! int_num {
    ($($t:ty),*) => {$(impl Num for $t {
        fn to(self) -> f64 { self as f64 }
        fn of(x: f64) -> Option<$t> {
            if x.fract() == 0.0 && x >= <$t>::MIN as f64 && x <= <$t>::MAX as f64 { Some(x as $t) } else { None }
        }
    })*};
}
int_num!(usize, u64, i64);
impl Num for bool {
    fn to(self) -> f64 { self as u8 as f64 }
    fn of(x: f64) -> Option<bool> {
        if x == 0.0 { Some(false) } else if x == 1.0 { Some(true) } else { None }
    }
}

/// The iterator never ends, and must not claim that it does.
pub fn endless<I: Iterator>(i: I) -> I {
    let h = i.size_hint();
    assert!(h.1.is_none(), "the iterator claims to end: {:?}", h);
    i
}

/// The scripted environment as a `rand` generator.
pub struct Words<'a, 'b>(pub &'a mut Script<'b>);

impl<'a, 'b> rand::RngCore for Words<'a, 'b> {
    fn next_u32(&mut self) -> u32 { (self.0.next_word() >> 32) as u32 }
    fn next_u64(&mut self) -> u64 { self.0.next_word() }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.0.next_word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// The textbook side of a case.
pub struct Ref {
    /// density or mass at a point of the support
    pub f: Box<dyn Fn(f64) -> f64>,
    /// its logarithm
    pub lf: Box<dyn Fn(f64) -> f64>,
    /// closed hull of the support
    pub lo: f64,
    pub hi: f64,
    /// a typical point and a scale
    pub x0: f64,
    pub s: f64,
    /// kinks of the density inside the support
    pub brk: Vec<f64>,
    /// the k-th moment exists iff k < max_moment
    pub max_moment: f64,
    pub discrete: bool,
}

pub struct Case {
    pub name: String,
    pub par: String,
    pub r: Ref,
    pub density: Option<F1<f64>>,
    pub log_density: Option<F1<f64>>,
    pub cdf: F1<f64>,
    pub log_cdf: F1<f64>,
    pub ccdf: F1<f64>,
    pub log_ccdf: F1<f64>,
    pub contains: F1<bool>,
    pub sample: Box<dyn Fn(&mut Script) -> R<f64>>,
    pub sample_n: Box<dyn Fn(&mut Script, usize) -> R<Vec<f64>>>,
    pub sample_iter: Box<dyn Fn(&mut Script, usize) -> R<Vec<f64>>>,
    pub moments: Option<MomentsOf>,
    pub quantiles: Option<QuantilesOf>,
    pub modes: Option<F0<Vec<f64>>>,
    pub entropy: Option<F0<f64>>,
    /// functions allowed to refuse ("not implemented") instead of answering
    pub soft: Vec<&'static str>,
    /// widths of the sampler's answer lattice and depth bound; None: no sampler law check
    pub tree: (Vec<u32>, usize),
    /// documented approximations of the median: allowed error in probability
    pub median_tol: f64,
    /// every maximiser must be reported
    pub modes_complete: bool,
    /// an empty list of modes is an allowed answer
    pub modes_may_be_empty: bool,
}

pub struct MomentsOf {
    pub mean: F0<f64>,
    pub variance: F0<f64>,
    pub sd: F0<f64>,
    pub skewness: F0<f64>,
    pub kurtosis: F0<f64>,
    pub excess: F0<f64>,
}

pub struct QuantilesOf {
    pub quantile: F1<f64>,
    pub cquantile: F1<f64>,
    pub median: F0<f64>,
    pub derived: Vec<(&'static str, F0<f64>)>,
}

pub struct Build<D: Distribution> {
    pub d: Rc<D>,
    pub c: Case,
}

type V<D> = Sample<D>;

pub fn base<D>(name: &str, par: String, d: D, r: Ref) -> Build<D>
where
    D: Distribution + 'static,
    D::Support: Space,
    V<D>: Num,
{
    let d = Rc::new(d);
    macro_rules! at {
        (|$k:ident, $x:ident| $e:expr) => {{
            let $k = d.clone();
            Box::new(move |x: f64| match <V<D> as Num>::of(x) {
                None => Err("no such value".to_string()),
                Some($x) => guarded(|| $e),
            })
        }};
    }
    let (k1, k2, k3) = (d.clone(), d.clone(), d.clone());
    let c = Case {
        name: name.into(),
        par,
        density: None,
        log_density: None,
        cdf: at!(|k, x| k.cdf(&x).unwrap()),
        log_cdf: at!(|k, x| k.log_cdf(&x)),
        ccdf: at!(|k, x| k.ccdf(&x).unwrap()),
        log_ccdf: at!(|k, x| k.log_ccdf(&x)),
        contains: at!(|k, x| k.support().contains(&x)),
        sample: Box::new(move |s| guarded(|| k1.sample(&mut Words(s)).to())),
        sample_n: Box::new(move |s, n| {
            guarded(|| k2.sample_n(&mut Words(s), n).into_iter().map(|v| v.to()).collect())
        }),
        sample_iter: Box::new(move |s, n| {
            guarded(|| endless(k3.sample_iter(&mut Words(s))).take(n).map(|v| v.to()).collect())
        }),
        moments: None,
        quantiles: None,
        modes: None,
        entropy: None,
        soft: vec![],
        tree: (vec![4096], 1),
        median_tol: 1e-7,
        modes_complete: false,
        modes_may_be_empty: false,
        r,
    };
    Build { d, c }
}

impl<D: Distribution + 'static> Build<D>
where
    V<D>: Num,
{
    pub fn pdf(mut self) -> Self
    where D: ContinuousDistribution {
        let (a, b) = (self.d.clone(), self.d.clone());
        self.c.density = Some(Box::new(move |x| match <V<D> as Num>::of(x) {
            None => Err("no such value".into()),
            Some(x) => guarded(|| a.pdf(&x)),
        }));
        self.c.log_density = Some(Box::new(move |x| match <V<D> as Num>::of(x) {
            None => Err("no such value".into()),
            Some(x) => guarded(|| b.log_pdf(&x)),
        }));
        self
    }

    pub fn pmf(mut self) -> Self
    where D: DiscreteDistribution {
        let (a, b) = (self.d.clone(), self.d.clone());
        self.c.density = Some(Box::new(move |x| match <V<D> as Num>::of(x) {
            None => Err("no such value".into()),
            Some(x) => guarded(|| a.pmf(&x).unwrap()),
        }));
        self.c.log_density = Some(Box::new(move |x| match <V<D> as Num>::of(x) {
            None => Err("no such value".into()),
            Some(x) => guarded(|| b.log_pmf(&x)),
        }));
        self
    }

    pub fn mom(mut self) -> Self
    where D: UvMoments {
        macro_rules! g {
            ($m:ident) => {{
                let d = self.d.clone();
                Box::new(move || guarded(|| d.$m()))
            }};
        }
        self.c.moments = Some(MomentsOf {
            mean: g!(mean),
            variance: g!(variance),
            sd: g!(standard_deviation),
            skewness: g!(skewness),
            kurtosis: g!(kurtosis),
            excess: g!(excess_kurtosis),
        });
        self
    }

    pub fn quant(mut self) -> Self
    where D: Quantiles {
        macro_rules! g {
            ($m:ident) => {{
                let d = self.d.clone();
                Box::new(move || guarded(|| d.$m()))
            }};
        }
        let (a, b) = (self.d.clone(), self.d.clone());
        self.c.quantiles = Some(QuantilesOf {
            quantile: Box::new(move |p| guarded(|| a.quantile(Probability::new_unchecked(p)))),
            cquantile: Box::new(move |p| guarded(|| b.cquantile(Probability::new_unchecked(p)))),
            median: g!(median),
            derived: vec![
                ("lower_quartile", g!(lower_quartile)),
                ("upper_quartile", g!(upper_quartile)),
                ("iqr", g!(iqr)),
                ("lower_fence", g!(lower_fence)),
                ("upper_fence", g!(upper_fence)),
            ],
        });
        self
    }

    pub fn mode(mut self) -> Self
    where D: Modes {
        let d = self.d.clone();
        self.c.modes =
            Some(Box::new(move || guarded(|| d.modes().into_iter().map(|v| v.to()).collect())));
        self
    }

    pub fn ent(mut self) -> Self
    where D: ShannonEntropy {
        let d = self.d.clone();
        self.c.entropy = Some(Box::new(move || guarded(|| d.shannon_entropy())));
        self
    }

    pub fn soft(mut self, s: &[&'static str]) -> Self {
        self.c.soft.extend_from_slice(s);
        self
    }

    pub fn tree(mut self, w: &[u32], limit: usize) -> Self {
        self.c.tree = (w.to_vec(), limit);
        self
    }

    pub fn median_tol(mut self, t: f64) -> Self {
        self.c.median_tol = t;
        self
    }

    pub fn modes_complete(mut self) -> Self {
        self.c.modes_complete = true;
        self
    }

    pub fn modes_may_be_empty(mut self) -> Self {
        self.c.modes_may_be_empty = true;
        self
    }

    pub fn done(self, out: &mut Vec<Case>) { out.push(self.c) }
}

/// An explicit refusal, as opposed to a wrong answer or an unrelated crash.
pub fn refusal(e: &str) -> bool {
    e.contains("not implemented") || e.contains("not yet implemented") || e.contains("quantity undefined")
}

impl Case {
    pub fn id(&self) -> String { format!("{}({})", self.name, self.par) }

    pub fn soft_for(&self, f: &str) -> bool { self.soft.iter().any(|s| *s == f) }
}
