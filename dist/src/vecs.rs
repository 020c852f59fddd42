//! Vector-valued distributions, type-erased, and the law of their samplers.
use crate::case::{Words, R};
use kit::rng::{Script, Tree};
use kit::{guarded, Mc};
use rstat::statistics::MvMoments;
use rstat::{ContinuousDistribution, Distribution, Multivariate};
use spaces::Space;
use std::rc::Rc;

pub type V = Vec<f64>;
pub type Fv<T> = Box<dyn Fn(&[f64]) -> R<T>>;
pub type F0<T> = Box<dyn Fn() -> R<T>>;

pub struct MvCase {
    pub id: String,
    pub dim: usize,
    pub pdf: Fv<f64>,
    pub log_pdf: Fv<f64>,
    pub contains: Fv<bool>,
    pub mean: F0<V>,
    pub variance: F0<V>,
    pub covariance: F0<Vec<V>>,
    pub correlation: F0<Vec<V>>,
    pub dimensionality: F0<usize>,
    pub modes: Option<F0<Vec<V>>>,
    pub entropy: Option<F0<f64>>,
    pub maha: Option<(Fv<f64>, Fv<f64>)>,
    pub sample: Box<dyn Fn(&mut Script) -> R<V>>,
}

pub fn mv<const N: usize, D>(id: String, d: D) -> (Rc<D>, MvCase)
where
    D: Distribution + ContinuousDistribution + Multivariate<N> + MvMoments<N> + 'static,
    D::Support: Space<Value = [f64; N]>,
{
    let d = Rc::new(d);
    fn arr<const N: usize>(x: &[f64]) -> [f64; N] {
        let mut a = [0.0; N];
        a.copy_from_slice(x);
        a
    }
    fn rows<const N: usize>(x: [[f64; N]; N]) -> Vec<V> { x.iter().map(|r| r.to_vec()).collect() }
    macro_rules! k {
        (|$k:ident| $e:expr) => {{ let $k = d.clone(); Box::new(move || guarded(|| $e)) }};
        (|$k:ident, $x:ident| $e:expr) => {{ let $k = d.clone(); Box::new(move |x: &[f64]| { let $x: [f64; N] = arr(x); guarded(|| $e) }) }};
    }
    let s = d.clone();
    let c = MvCase {
        id,
        dim: N,
        pdf: k!(|k, x| k.pdf(&x)),
        log_pdf: k!(|k, x| k.log_pdf(&x)),
        contains: k!(|k, x| k.support().contains(&x)),
        mean: k!(|k| k.mean().to_vec()),
        variance: k!(|k| MvMoments::variance(&*k).to_vec()),
        covariance: k!(|k| rows(k.covariance())),
        correlation: k!(|k| rows(k.correlation())),
        dimensionality: k!(|k| k.dimensionality()),
        modes: None,
        entropy: None,
        maha: None,
        sample: Box::new(move |w| guarded(|| s.sample(&mut Words(w)).to_vec())),
    };
    (d, c)
}

pub struct Law {
    pub out: Vec<(V, f64)>,
    pub cut: f64,
}

impl Law {
    /// Bounds of the probability of an event.
    pub fn of(&self, ev: impl Fn(&[f64]) -> bool) -> (f64, f64) {
        let p: f64 = self.out.iter().filter(|(v, _)| ev(v)).map(|(_, w)| *w).sum();
        (p, p + self.cut)
    }
}

/// Explores every answer sequence of a sampler; reports failures and invalid values.
pub fn law(m: &mut Mc, site: &str, id: &str, widths: &[u32], limit: usize, run: &dyn Fn(&mut Script) -> R<V>, valid: &dyn Fn(&[f64]) -> bool) -> Law {
    let tree = Tree::new(widths, limit);
    let mut l = Law { out: vec![], cut: 0.0 };
    let mut fails = vec![];
    let st = tree.explore(|s| run(s), |v, w, _| l.out.push((v, w)), |e, ch| if fails.len() < 3 { fails.push((e, ch.to_vec())) });
    l.cut = st.cut_mass;
    m.states_add(st.leaves);
    m.steps_add(st.choice_points);
    m.traces_add(st.leaves);
    for (e, ch) in &fails {
        m.expect(&format!("{}: no generator answers make it fail", site), || format!("{} answers {:?}", id, ch), false, || e.clone());
    }
    let bad: Vec<V> = l.out.iter().filter(|(v, _)| !valid(v)).map(|(v, _)| v.clone()).take(3).collect();
    for v in bad {
        m.expect(&format!("{}: every draw lies in the support", site), || format!("{} draws {:?}", id, v), false, || String::new());
    }
    let total: f64 = l.out.iter().map(|x| x.1).sum::<f64>() + l.cut;
    m.expect(&format!("{}: answers every sequence", site), || id.into(), (total - 1.0).abs() < 1e-6 || !fails.is_empty(), || format!("mass {}", total));
    m.outcome(&format!("{} {}", id, l.out.len()));
    if std::env::var("VERIF_TRACE").is_ok() {
        eprintln!("{} {} leaves {} cut {:.4} depth {}", site, id, st.leaves, st.cut_mass, st.max_depth);
    }
    l
}

/// Every sequence of up to `depth` answers over the ends of the word range.
pub fn edges(m: &mut Mc, site: &str, id: &str, depth: usize, run: &dyn Fn(&mut Script) -> R<V>, valid: &dyn Fn(&[f64]) -> bool) {
    let all = [0u64, (1 << 63) + (1 << 40), u64::MAX, 1 << 12, u64::MAX - (1 << 12)];
    let al = if depth <= 6 { &all[..] } else { &all[..3] };
    let (mut bad, mut fails): (Vec<(V, Vec<u64>)>, Vec<(String, Vec<u64>)>) = (vec![], vec![]);
    let words = |ch: &[u32]| ch.iter().map(|i| al[*i as usize]).collect::<Vec<u64>>();
    let st = Tree::of_words(al, depth).explore(
        |s| run(s),
        |v, _, ch| if !valid(&v) && bad.len() < 3 { bad.push((v, words(ch))) },
        |e, ch| if fails.len() < 3 { fails.push((e, words(ch))) },
    );
    m.states_add(st.leaves);
    m.steps_add(st.choice_points);
    m.traces_add(st.leaves);
    let ok = bad.is_empty() && fails.is_empty();
    m.expect(&format!("{}: extreme generator answers", site), || id.into(), ok, || {
        match (bad.first(), fails.first()) {
            (Some((v, w)), _) => format!("draws {:?} on {:x?}", v, w),
            (_, Some((e, w))) => format!("{} on {:x?}", e, w),
            _ => String::new(),
        }
    });
}

pub fn judge_event(m: &mut Mc, site: &str, input: impl FnOnce() -> String, got: (f64, f64), want: f64, tol: f64) {
    m.step();
    let input = input();
    if std::env::var("VERIF_TRACE").is_ok() { eprintln!("{} [{:.4}, {:.4}] law {:.4} tol {}", input, got.0, got.1, want, tol); }
    let input = || input;
    m.expect(site, input, want >= got.0 - tol && want <= got.1 + tol, || format!("sampled mass is in [{:.4}, {:.4}], the law gives {:.4}", got.0, got.1, want));
}

/// Every word of length `n` over `a`.
pub fn words(a: &[f64], n: usize) -> Vec<V> {
    let mut v: Vec<V> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|w| a.iter().map(move |x| { let mut u = w.clone(); u.push(*x); u })).collect();
    }
    v
}

/// Standard normal distribution function.
pub fn phi(z: f64) -> f64 {
    let f = |t: f64| (-t * t / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt();
    0.5 + z.signum() * kit::num::de(&f, 0.0, z.abs().min(38.0))
}

/// Determinant and inverse by elimination with pivoting.
pub fn invert(a: &[V]) -> (f64, Vec<V>) {
    let n = a.len();
    let mut m: Vec<V> = a.iter().enumerate().map(|(i, r)| {
        let mut r = r.clone();
        r.extend((0..n).map(|j| if i == j { 1.0 } else { 0.0 }));
        r
    }).collect();
    let mut det = 1.0;
    for c in 0..n {
        let p = (c..n).max_by(|i, j| m[*i][c].abs().partial_cmp(&m[*j][c].abs()).unwrap()).unwrap();
        if p != c {
            m.swap(p, c);
            det = -det;
        }
        let d = m[c][c];
        det *= d;
        for k in 0..2 * n {
            m[c][k] /= d;
        }
        for r in 0..n {
            if r != c {
                let f = m[r][c];
                for k in 0..2 * n {
                    let v = m[c][k];
                    m[r][k] -= f * v;
                }
            }
        }
    }
    (det, m.into_iter().map(|r| r[n..].to_vec()).collect())
}

pub fn quad(p: &[V], d: &[f64]) -> f64 {
    (0..d.len()).map(|i| (0..d.len()).map(|j| d[i] * p[i][j] * d[j]).sum::<f64>()).sum()
}

/// Compares every entry of a vector answer.
pub fn entries(m: &mut Mc, site: &str, id: &str, got: R<V>, want: &[f64], rel: f64, abs: f64) {
    m.step();
    for (i, w) in want.iter().enumerate() {
        let g = match &got {
            Ok(v) => v.get(i).cloned().ok_or("missing entry".to_string()),
            Err(e) => Err(e.clone()),
        };
        m.close(site, || format!("{} [{}]", id, i), &g, *w, rel, abs);
    }
}

pub fn matrix(m: &mut Mc, site: &str, id: &str, got: R<Vec<V>>, want: &[V], rel: f64, abs: f64) {
    m.step();
    for (i, r) in want.iter().enumerate() {
        for (j, w) in r.iter().enumerate() {
            let g = match &got {
                Ok(v) => v.get(i).and_then(|r| r.get(j)).cloned().ok_or("missing entry".to_string()),
                Err(e) => Err(e.clone()),
            };
            m.close(site, || format!("{} [{}][{}]", id, i, j), &g, *w, rel, abs);
        }
    }
}

/// Mean, variance, covariance, correlation.
pub fn moments(m: &mut Mc, c: &MvCase, mean: &[f64], cov: &[V], rel: f64) {
    let n = c.dim;
    let top = cov.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let var: V = (0..n).map(|i| cov[i][i]).collect();
    entries(m, "mean", &c.id, (c.mean)(), mean, rel, 1e-12);
    entries(m, "variances", &c.id, (c.variance)(), &var, rel, 1e-12);
    matrix(m, "covariance", &c.id, (c.covariance)(), cov, rel, rel * top);
    let cor: Vec<V> = (0..n).map(|i| (0..n).map(|j| cov[i][j] / (var[i] * var[j]).sqrt()).collect()).collect();
    if var.iter().all(|v| *v > 0.0) {
        matrix(m, "correlation", &c.id, (c.correlation)(), &cor, rel, 1e-9);
    }
    m.step();
    let d = (c.dimensionality)();
    m.expect("dimensionality", || c.id.clone(), d == Ok(n), || format!("{:?}", d));
}
