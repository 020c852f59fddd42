//! D14: the family of vector normals, in every covariance form.
use crate::case::R;
use crate::vecs::*;
use kit::{guarded, Mc};
use rstat::distance::Mahalanobis;
use rstat::normal::*;
use rstat::params::Param;
use rstat::{ContinuousDistribution, Distribution, Multivariate};
use rstat::statistics::{Modes, MvMoments, ShannonEntropy};
use spaces::Space;
use std::f64::consts::PI;
use std::rc::Rc;

type Form<const N: usize> = (MvCase, Option<Box<dyn Fn([f64; N]) -> R<f64>>>);

fn full<const N: usize, D>(id: String, d: D) -> Form<N>
where
    D: Distribution + ContinuousDistribution + Multivariate<N> + MvMoments<N> + Modes + ShannonEntropy + 'static,
    D::Support: Space<Value = [f64; N]>,
{
    let (d, mut c) = mv::<N, D>(id, d);
    let (a, b) = (d.clone(), d);
    c.modes = Some(Box::new(move || guarded(|| a.modes().iter().map(|v| v.to_vec()).collect())));
    c.entropy = Some(Box::new(move || guarded(|| b.shannon_entropy())));
    (c, None)
}

fn maha<const N: usize, D>(mut f: Form<N>, d: D) -> Form<N>
where
    D: Mahalanobis + 'static,
    D::Support: Space<Value = [f64; N]>,
{
    fn arr<const N: usize>(x: &[f64]) -> [f64; N] {
        let mut a = [0.0; N];
        a.copy_from_slice(x);
        a
    }
    let d = Rc::new(d);
    let e = d.clone();
    f.0.maha = Some((Box::new(move |x| { let x = arr::<N>(x); guarded(|| d.d_mahalanobis_squared(&x)) }), Box::new(move |x| { let x = arr::<N>(x); guarded(|| e.d_mahalanobis(&x)) })));
    f
}

/// Judges one instance against the law with the given mean and covariance.
fn judge<const N: usize>(m: &mut Mc, f: &Form<N>, mu: &[f64], s: &[V], pts: &[V]) {
    let c = &f.0;
    m.at(&c.id);
    m.state();
    m.trace();
    let (det, prec) = invert(s);
    moments(m, c, mu, s, 1e-9);
    let kappa = 1e-9;
    let h = 0.5 * (N as f64 * (1.0 + (2.0 * PI).ln()) + det.ln());
    m.step();
    let g = (c.entropy.as_ref().unwrap())();
    m.close("entropy", || c.id.clone(), &g, h, 1e-9, 1e-9);
    let g = (c.modes.as_ref().unwrap())();
    m.expect("the only mode is the mean", || c.id.clone(), matches!(&g, Ok(v) if v.len() == 1 && v[0] == mu), || format!("{:?}", g));
    for p in pts {
        m.state();
        m.steps_add(4);
        let x: V = (0..N).map(|i| mu[i] + p[i]).collect();
        let q = quad(&prec, &(0..N).map(|i| x[i] - mu[i]).collect::<V>());
        let want = (-q / 2.0).exp() / ((2.0 * PI).powi(N as i32) * det).sqrt();
        let input = || format!("{} at {:?}", c.id, x);
        m.close("density", input, &(c.pdf)(&x), want, 1e-8, 1e-300);
        m.close("log density", input, &(c.log_pdf)(&x), want.ln(), 1e-8, 1e-8);
        if let Some((d2, d1)) = &c.maha {
            m.close("squared Mahalanobis distance", input, &d2(&x), q, 1e-8, kappa);
            let g = d1(&x);
            m.close("Mahalanobis distance", input, &g, q.max(0.0).sqrt(), 1e-8, 1e-6);
        }
        if let Some(z) = &f.1 {
            let mut a = [0.0; N];
            a.copy_from_slice(&x);
            m.close("standardised squared distance", input, &z(a), q, 1e-9, kappa);
        }
        let g = (c.contains)(&x);
        m.expect("support is the whole space", input, g == Ok(true), || format!("{:?}", g));
    }
}

fn sampler<const N: usize>(m: &mut Mc, f: &Form<N>, mu: &[f64], s: &[V], widths: &[u32], limit: usize, tol: f64) {
    let c = &f.0;
    m.at(&c.id);
    let l = law(m, "sampler", &c.id, widths, limit, &*c.sample, &|v| v.iter().all(|x| x.is_finite()));
    for a in words(&[-1.0, 0.0, 1.0], N) {
        // one of each pair of opposite directions
        match a.iter().find(|x| **x != 0.0) {
            Some(x) if *x > 0.0 => (),
            _ => continue,
        }
        // scale coordinates so that every coordinate matters
        let a: V = (0..N).map(|i| a[i] / s[i][i].sqrt()).collect();
        let mean: f64 = (0..N).map(|i| a[i] * mu[i]).sum();
        let var = quad(s, &a);
        for z in [-1.5, -0.75, 0.0, 0.5, 1.25] {
            let t = mean + z * var.sqrt();
            let got = l.of(|v| (0..N).map(|i| a[i] * v[i]).sum::<f64>() <= t);
            judge_event(m, "sampler law", || format!("{} half-space {:?} <= {:.4}", c.id, a, t), got, phi(z), tol);
        }
    }
}

/// In many dimensions: mean, variances and correlations of the draws over a
/// coarse product of answers, which shows every coordinate and every pair.
pub fn draw_moments<const N: usize>(m: &mut Mc, c: &MvCase, mu: &[f64], s: &[V], widths: &[u32], limit: usize, map: fn(f64) -> f64) {
    m.at(&c.id);
    let mut l = law(m, "sampler", &c.id, widths, limit, &*c.sample, &|v| v.iter().all(|x| map(*x).is_finite()));
    for (v, _) in &mut l.out {
        v.iter_mut().for_each(|x| *x = map(*x));
    }
    let total: f64 = l.out.iter().map(|x| x.1).sum();
    let mean: V = (0..N).map(|i| l.out.iter().map(|(v, w)| w * v[i]).sum::<f64>() / total).collect();
    let cov = |i: usize, j: usize| l.out.iter().map(|(v, w)| w * (v[i] - mean[i]) * (v[j] - mean[j])).sum::<f64>() / total;
    let var: V = (0..N).map(|i| cov(i, i)).collect();
    for i in 0..N {
        m.steps_add(2);
        let z = (mean[i] - mu[i]) / s[i][i].sqrt();
        m.expect("sampler centre", || format!("{} coordinate {}", c.id, i), z.abs() < if widths[0] > 2 { 0.3 } else { 0.7 }, || format!("draws average {}, the law {}", mean[i], mu[i]));
        let q = (var[i] / s[i][i]).sqrt();
        m.expect("sampler spread", || format!("{} coordinate {}", c.id, i), q > 0.5 && q < 1.6, || format!("draws have variance {}, the law {}", var[i], s[i][i]));
        for j in 0..i {
            m.step();
            let (r, want) = (cov(i, j) / (var[i] * var[j]).sqrt(), s[i][j] / (s[i][i] * s[j][j]).sqrt());
            m.expect("sampler correlation", || format!("{} coordinates {} and {}", c.id, i, j), (r - want).abs() < 0.25, || format!("draws have correlation {}, the law {}", r, want));
        }
    }
    if std::env::var("VERIF_TRACE").is_ok() {
        let z = (0..N).map(|i| ((mean[i] - mu[i]) / s[i][i].sqrt()).abs()).fold(0.0, f64::max);
        let q: V = (0..N).map(|i| (var[i] / s[i][i]).sqrt()).collect();
        let r = (0..N).map(|i| (0..i).map(|j| (cov(i, j) / (var[i] * var[j]).sqrt() - s[i][j] / (s[i][i] * s[j][j]).sqrt()).abs()).fold(0.0, f64::max)).fold(0.0, f64::max);
        eprintln!("moments of draws in {} dimensions: centre {:.3} spread {:.3} to {:.3} correlation {:.3}", N, z, q.iter().cloned().fold(9.0, f64::min), q.iter().cloned().fold(0.0, f64::max), r);
    }
}

/// Triangular factors of larger dimension: one off-diagonal entry in every
/// position, and a dense pattern.
pub fn large_factors(n: usize) -> Vec<Vec<V>> {
    let base = || {
        let mut l = vec![vec![0.0; n]; n];
        for i in 0..n {
            l[i][i] = [1.0, 0.5, 1.5][i % 3];
        }
        l
    };
    let mut out = vec![base()];
    for i in 0..n {
        for j in 0..i {
            let mut l = base();
            l[i][j] = if (i + j) % 2 == 0 { 0.75 } else { -1.0 };
            out.push(l);
        }
    }
    let mut l = base();
    for i in 0..n {
        for j in 0..i {
            l[i][j] = [0.25, -0.5, 0.0, 0.375][(i * i + j) % 4];
        }
    }
    out.push(l);
    out
}

/// The centre, every unit step from it, and a step in all coordinates at once.
pub fn large_points(n: usize) -> Vec<V> {
    let mut out = vec![vec![0.0; n]];
    for i in 0..n {
        let mut v = vec![0.0; n];
        v[i] = if i % 2 == 0 { 1.0 } else { -0.75 };
        out.push(v);
    }
    out.push((0..n).map(|i| [0.5, -0.25, 0.125][i % 3]).collect());
    out
}

/// Words of one accepted letter but for one entry, in every position, of every letter.
pub fn one_odd(n: usize, fill: f64, odd: &[f64]) -> Vec<V> {
    odd.iter().flat_map(|o| (0..n).map(move |i| { let mut v = vec![fill; n]; v[i] = *o; v })).collect()
}

/// Variances with one odd entry in every position, and all uneven (no two
/// coordinates next to each other, nor N/2 apart, alike).
fn uneven(n: usize) -> Vec<V> {
    let mut out = one_odd(n, 1.0, &[0.25, 9.0]);
    out.push((0..n).map(|i| [0.25, 9.0, 1.0, 36.0, 4.0][i % 5]).collect());
    out
}

pub fn spd_from(l: &[V]) -> Vec<V> {
    let n = l.len();
    (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| l[i][k] * l[j][k]).sum()).collect()).collect()
}

pub fn mat<const N: usize>(s: &[V]) -> [[f64; N]; N] {
    let mut a = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            a[i][j] = s[i][j];
        }
    }
    a
}

fn vec_n<const N: usize>(s: &[f64]) -> [f64; N] {
    let mut a = [0.0; N];
    a.copy_from_slice(s);
    a
}

fn diag(v: &[f64]) -> Vec<V> {
    (0..v.len()).map(|i| (0..v.len()).map(|j| if i == j { v[i] } else { 0.0 }).collect()).collect()
}

/// Every lower-triangular word over the alphabets.
pub fn factors(n: usize, d: &[f64], o: &[f64]) -> Vec<Vec<V>> {
    let mut out = vec![];
    for dd in words(d, n) {
        for oo in words(o, n * (n - 1) / 2) {
            let mut l = vec![vec![0.0; n]; n];
            let mut k = 0;
            for i in 0..n {
                l[i][i] = dd[i];
                for j in 0..i {
                    l[i][j] = oo[k];
                    k += 1;
                }
            }
            out.push(l);
        }
    }
    out
}

const MU: [f64; 17] = [1.0, -2.0, 0.5, 3.0, -1.0, 0.25, -0.75, 1.5, -3.0, 2.0, 0.125, -0.25, 4.0, -1.25, 0.75, -0.5, 2.5];

fn general<const N: usize>(m: &mut Mc, d: &[f64], o: &[f64], pts: &[V], draw: (&[u32], usize, f64, usize)) {
    general_on::<N>(m, &factors(N, d, o), pts, draw);
}

fn general_on<const N: usize>(m: &mut Mc, fs: &[Vec<V>], pts: &[V], draw: (&[u32], usize, f64, usize)) {
    let every = (fs.len() / draw.3.max(1)).max(1);
    for (k, l) in fs.iter().enumerate() {
        if !m.mine() {
            continue;
        }
        let s = spd_from(l);
        let id = format!("multivariate normal {:?}", s);
        let mu = &MU[..N];
        let make = || MvNormal::<N>::new_unchecked(vec_n::<N>(mu), mat::<N>(&s));
        let f = maha(full(id.clone(), make()), make());
        judge(m, &f, mu, &s, pts);
        if N > 6 {
            if k % every == every / 2 || k + 1 == fs.len() {
                draw_moments::<N>(m, &f.0, mu, &s, draw.0, draw.1, |x| x);
            }
        } else if draw.3 > 0 && k % every == every / 2 {
            sampler(m, &f, mu, &s, draw.0, draw.1, draw.2);
        }
        // construction
        m.steps_add(3);
        let d = guarded(|| MvNormal::<N>::new(vec_n::<N>(mu), mat::<N>(&s)).ok());
        let ok = matches!(&d, Ok(Some(d)) if d.params().mu.0 == vec_n::<N>(mu) && d.params().Sigma.0 == mat::<N>(&s));
        m.expect("a positive definite covariance is accepted and reported as given", || id.clone(), ok, || format!("{:?}", d.as_ref().map(|x| x.is_some())));
        let c = guarded(|| MatrixCovariance::<N>::matrix(mat::<N>(&s)).is_ok());
        m.expect("a positive definite covariance is accepted as a parameter", || id.clone(), c == Ok(true), || format!("{:?}", c));
        let c = guarded(|| <MatrixCovariance<N> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&mat::<N>(&s))));
        m.expect("a positive definite covariance satisfies the declared constraints", || id.clone(), c == Ok(true), || format!("{:?}", c));
        let p = guarded(|| {
            let d = make();
            let e = MvNormal::<N>::from(d.params());
            let x = [0.25; N];
            (e.params().mu.0 == d.params().mu.0 && e.params().Sigma.0 == d.params().Sigma.0 && e.pdf(&x) == d.pdf(&x) && e.clone().into_params().Sigma.0 == d.params().Sigma.0, ())
        });
        m.expect("parameters rebuild the distribution", || id.clone(), matches!(&p, Ok((true, _))), || format!("{:?}", p));
    }
}

fn diagonal<const N: usize>(m: &mut Mc, vs: &[f64], pts: &[V], draw: (&[u32], usize, f64)) {
    diagonal_on::<N>(m, &words(vs, N), vs, pts, draw, &words(&[0.25, 3.0, 0.0, -0.0, -1.0, f64::NAN, f64::NEG_INFINITY], N));
}

fn diagonal_on<const N: usize>(m: &mut Mc, ws: &[V], vs: &[f64], pts: &[V], draw: (&[u32], usize, f64), accept: &[V]) {
    let mu = &MU[..N];
    for (k, v) in ws.iter().enumerate() {
        if !m.mine() {
            continue;
        }
        let id = format!("diagonal normal {:?}", v);
        let make = || DiagonalNormal::<N>::diagonal_unchecked(vec_n::<N>(mu), vec_n::<N>(v));
        let f = maha(full(id.clone(), make()), make());
        judge(m, &f, mu, &diag(v), pts);
        if N > 6 {
            if k == 0 || k + 1 == ws.len() {
                draw_moments::<N>(m, &f.0, mu, &diag(v), draw.0, draw.1, |x| x);
            }
        } else if k % (ws.len() / 3).max(1) == 1 {
            sampler(m, &f, mu, &diag(v), draw.0, draw.1, draw.2);
        }
        let p = guarded(|| { let d = make(); let e = DiagonalNormal::<N>::from(d.params()); d.params().mu.0 == vec_n::<N>(mu) && e.params().Sigma.0 == vec_n::<N>(v) && e.pdf(&[0.25; N]) == d.pdf(&[0.25; N]) });
        m.expect("parameters rebuild the distribution", || id.clone(), p == Ok(true), || format!("{:?}", p));
    }
    for v in vs {
        if !m.mine() {
            continue;
        }
        let s = vec![*v; N];
        let id = format!("isotropic normal {} in {} dimensions", v, N);
        let make = || IsotropicNormal::<N>::isotropic_unchecked(vec_n::<N>(mu), *v);
        let f = maha(full(id.clone(), make()), make());
        judge(m, &f, mu, &diag(&s), pts);
        if N > 6 {
            draw_moments::<N>(m, &f.0, mu, &diag(&s), draw.0, draw.1, |x| x);
        } else {
            sampler(m, &f, mu, &diag(&s), draw.0, draw.1, draw.2);
        }
        let p = guarded(|| { let d = make(); let e = IsotropicNormal::<N>::from(d.params()); d.params().mu.0 == vec_n::<N>(mu) && e.params().Sigma.0 == *v && e.pdf(&[0.25; N]) == d.pdf(&[0.25; N]) });
        m.expect("parameters rebuild the distribution", || id.clone(), p == Ok(true), || format!("{:?}", p));
        for c in [0.5, -2.0, 0.0, 1e9] {
            for (n, d) in [
                ("isotropic", guarded(|| IsotropicNormal::<N>::isotropic(vec_n::<N>(&vec![c; N]), *v).unwrap().params())),
                ("homogeneous", guarded(|| IsotropicNormal::<N>::homogeneous(c, *v).unwrap().params())),
                ("homogeneous parameter set", guarded(|| IsotropicNormalParams::<N>::homogeneous(c, *v).unwrap())),
                ("homogeneous_unchecked", guarded(|| IsotropicNormal::<N>::homogeneous_unchecked(c, *v).params())),
            ] {
                m.step();
                m.expect("named constructors", || format!("{} by {} at {}", id, n, c), matches!(&d, Ok(p) if p.mu.0 == [c; N] && p.Sigma.0 == *v), || format!("{:?}", d));
            }
        }
    }
    if !m.mine() {
        return;
    }
    for (n, d) in [("standard", guarded(|| IsotropicNormal::<N>::standard().unwrap().params())), ("standard_unchecked", guarded(|| IsotropicNormal::<N>::standard_unchecked().params()))] {
        m.step();
        m.expect("named constructors", || format!("{} in {} dimensions", n, N), matches!(&d, Ok(p) if p.mu.0 == [0.0; N] && p.Sigma.0 == 1.0), || format!("{:?}", d));
    }
    // acceptance
    for v in accept {
        m.state();
        m.steps_add(4);
        let ok = v.iter().all(|x| *x > 0.0);
        let a = vec_n::<N>(v);
        let got = [
            guarded(|| DiagonalNormal::<N>::diagonal([0.5; N], a).is_ok()),
            guarded(|| DiagonalNormalParams::<N>::diagonal([0.5; N], a).is_ok()),
            guarded(|| DiagonalCovariance::<N>::diagonal(a).is_ok()),
            guarded(|| <DiagonalCovariance<N> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&a))),
        ];
        for g in got {
            m.expect("diagonal covariances are accepted exactly when positive", || format!("{:?}", v), g == Ok(ok), || format!("{:?}", g));
        }
    }
    for v in [0.25, 3.0, 0.0, -0.0, -1.0, f64::NAN, f64::NEG_INFINITY] {
        m.state();
        m.steps_add(5);
        let got = [
            guarded(|| IsotropicNormal::<N>::isotropic([0.5; N], v).is_ok()),
            guarded(|| IsotropicNormal::<N>::homogeneous(0.5, v).is_ok()),
            guarded(|| IsotropicNormalParams::<N>::isotropic([0.5; N], v).is_ok()),
            guarded(|| IsotropicCovariance::isotropic(v).is_ok()),
            guarded(|| <IsotropicCovariance as Param>::constraints().iter().all(|c| c.is_satisfied_by(&v))),
        ];
        for g in got {
            m.expect("isotropic covariances are accepted exactly when positive", || format!("{}", v), g == Ok(v > 0.0), || format!("{:?}", g));
        }
    }
}

/// Symmetric 2x2 words: positive definite ones must be accepted, indefinite ones refused.
fn acceptance(m: &mut Mc) {
    if !m.mine() {
        return;
    }
    let al = [-2.0, -0.5, 0.0, 0.25, 1.0, 4.0];
    for a in al {
        for d in al {
            for o in al {
                let s = [[a, o], [o, d]];
                m.state();
                m.step();
                let definite = a > 0.0 && d > 0.0 && a * d > o * o;
                let indefinite = a < 0.0 || d < 0.0 || a * d < o * o;
                let g = guarded(|| MvNormal::<2>::new([0.0, 1.0], s).is_ok());
                if definite {
                    m.expect("a positive definite covariance is accepted and reported as given", || format!("{:?}", s), g == Ok(true), || format!("{:?}", g));
                } else if a < 0.0 || d < 0.0 || (indefinite && a == 1.0 && d == 1.0 && o == -2.0) {
                    m.expect("a covariance that is not positive semi-definite is refused", || format!("{:?}", s), g == Ok(false), || format!("{:?}", g));
                }
            }
        }
    }
    for s in [[[0.5, 2.0], [1.0, 1.0]]] {
        m.step();
        let g = guarded(|| MvNormal::<2>::new([0.0, 1.0], s).is_ok());
        m.expect("a covariance that is not positive semi-definite is refused", || format!("{:?}", s), g == Ok(false), || format!("{:?}", g));
    }
    // the boundary: singular but positive semi-definite, as a parameter (a singular matrix has no density)
    for s in [[[0.0, 0.0], [0.0, 1.0]], [[1.0, 0.0], [0.0, 0.0]], [[0.0, 0.0], [0.0, 0.0]], [[1.0, 1.0], [1.0, 1.0]], [[4.0, -2.0], [-2.0, 1.0]]] {
        m.state();
        m.steps_add(2);
        let g = guarded(|| MatrixCovariance::<2>::matrix(s).map(|v| v.0 == s).ok());
        m.expect("a positive semi-definite covariance parameter is accepted as given", || format!("{:?}", s), g == Ok(Some(true)), || format!("{:?}", g));
        let g = guarded(|| <MatrixCovariance<2> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&s)));
        m.expect("a positive semi-definite covariance parameter satisfies the declared constraints", || format!("{:?}", s), g == Ok(true), || format!("{:?}", g));
    }
    // a covariance parameter, in every form, exposes the value it was given
    for a in [0.25, 1.0, 9.0] {
        for b in [0.25, 1.0, 9.0] {
            for r in [-1.0, -0.5, 0.0, 0.25, 1.0, -1.5, 2.0, f64::NAN] {
                m.state();
                m.steps_add(5);
                let site = "a covariance parameter exposes the value it was given";
                let g = guarded(|| BivariateCovariance::bivariate([a, b], r).ok().map(|c| *c.value() == ([a, b], r) && c.clone().into_value() == ([a, b], r)));
                let want = if r.abs() <= 1.0 { Some(true) } else { None };
                m.expect(site, || format!("bivariate {:?} {}", [a, b], r), g == Ok(want), || format!("{:?}", g));
                let g = guarded(|| BivariateCovariance::bivariate([a, -b], r).is_err() && BivariateCovariance::bivariate([0.0, b], r).is_err());
                m.expect(site, || format!("bivariate {:?} {} with a variance that is not positive", [a, b], r), g == Ok(true), || format!("{:?}", g));
            }
            m.steps_add(3);
            let site = "a covariance parameter exposes the value it was given";
            let g = guarded(|| PairedCovariance::paired([a, b]).map(|c| *c.value() == [a, b] && c.clone().into_value() == [a, b]).unwrap_or(false));
            m.expect(site, || format!("paired {:?}", [a, b]), g == Ok(true), || format!("{:?}", g));
            let s = [[a, 0.125], [0.125, b]];
            let g = guarded(|| MatrixCovariance::<2>::matrix(s).map(|c| *c.value() == s && c.clone().into_value() == s).unwrap_or(false));
            m.expect(site, || format!("matrix {:?}", s), g == Ok(true), || format!("{:?}", g));
        }
        let site = "a covariance parameter exposes the value it was given";
        let g = guarded(|| IsotropicCovariance::isotropic(a).map(|c| *c.value() == a && c.clone().into_value() == a).unwrap_or(false));
        m.expect(site, || format!("isotropic {}", a), g == Ok(true), || format!("{:?}", g));
    }
    for x in [f64::NAN] {
        for s in [[[x, 0.0], [0.0, 1.0]], [[1.0, x], [x, 1.0]], [[1.0, 0.0], [0.0, x]]] {
            m.state();
            m.step();
            let g = guarded(|| MvNormal::<2>::new([0.0, 1.0], s).is_ok());
            m.expect("a covariance that is not positive semi-definite is refused", || format!("{:?}", s), g == Ok(false), || format!("{:?}", g));
        }
    }
}

fn pairs(m: &mut Mc) {
    let pts = words(&[-3.0, -0.5, 0.0, 1.0, 2.5], 2);
    let vs = [0.25, 1.0, 9.0];
    let mu = [1.0, -2.0];
    for v0 in vs {
        for v1 in vs {
            for rho in [-0.95f64, -0.5, 0.0, 0.25, 0.8] {
                if !m.mine() {
                    continue;
                }
                let c = rho * f64::sqrt(v0 * v1);
                let s = vec![vec![v0, c], vec![c, v1]];
                let id = format!("bivariate normal {:?} rho {}", [v0, v1], rho);
                let d = BvNormal::new_unchecked(mu, [v0, v1], rho);
                let mut f = full::<2, _>(id.clone(), d);
                f.1 = Some(Box::new(move |x| guarded(|| d.z(&x))));
                judge(m, &f, &mu, &s, &pts);
                if v0 != 1.0 {
                    sampler(m, &f, &mu, &s, &[144, 144, 4, 4], 4, 0.03);
                }
                for (n, e) in [("new", guarded(|| BvNormal::new(mu, [v0, v1], rho).unwrap())), ("from(params)", guarded(|| BvNormal::from(d.params()))), ("parameter set", guarded(|| BvNormal::from(BvNormalParams::bivariate(mu, [v0, v1], rho).unwrap())))] {
                    m.step();
                    m.expect("parameters rebuild the distribution", || format!("{} by {}", id, n), matches!(&e, Ok(e) if e.params().mu.0 == mu && e.params().Sigma.0 == ([v0, v1], rho) && e.pdf(&[0.0, 0.0]) == d.pdf(&[0.0, 0.0])), || format!("{:?}", e));
                }
            }
            if !m.mine() {
                continue;
            }
            let s = diag(&[v0, v1]);
            let id = format!("paired normal {:?}", [v0, v1]);
            let d = PairedNormal::new_unchecked(mu, [v0, v1]);
            let mut f = full::<2, _>(id.clone(), d);
            f.1 = Some(Box::new(move |x| guarded(|| d.z(&x))));
            judge(m, &f, &mu, &s, &pts);
            sampler(m, &f, &mu, &s, &[144, 144, 4, 4], 4, 0.03);
            for (n, e) in [("new", guarded(|| PairedNormal::new(mu, [v0, v1]).unwrap())), ("from(params)", guarded(|| PairedNormal::from(d.params()))), ("parameter set", guarded(|| PairedNormal::from(PairedNormalParams::paired(mu, [v0, v1]).unwrap())))] {
                m.step();
                m.expect("parameters rebuild the distribution", || format!("{} by {}", id, n), matches!(&e, Ok(e) if e.params().mu.0 == mu && e.params().Sigma.0 == [v0, v1] && e.pdf(&[0.0, 0.0]) == d.pdf(&[0.0, 0.0])), || format!("{:?}", e));
            }
            for (n, e) in [("independent", guarded(|| BvNormal::independent(mu, [v0, v1]).unwrap())), ("independent_unchecked", guarded(|| BvNormal::independent_unchecked(mu, [v0, v1])))] {
                m.step();
                m.expect("named constructors", || format!("{:?} by {}", [v0, v1], n), matches!(&e, Ok(e) if e.params().mu.0 == mu && e.params().Sigma.0 == ([v0, v1], 0.0)), || format!("{:?}", e));
            }
        }
        if !m.mine() {
            continue;
        }
        for (n, e) in [("bivariate isotropic", guarded(|| BvNormal::isotropic(mu, v0).unwrap().params())), ("bivariate isotropic_unchecked", guarded(|| BvNormal::isotropic_unchecked(mu, v0).params()))] {
            m.step();
            m.expect("named constructors", || format!("{:?} by {}", v0, n), matches!(&e, Ok(e) if e.mu.0 == mu && e.Sigma.0 == ([v0, v0], 0.0)), || format!("{:?}", e));
        }
        for (n, e) in [("paired isotropic", guarded(|| PairedNormal::isotropic(mu, v0).unwrap().params())), ("paired isotropic_unchecked", guarded(|| PairedNormal::isotropic_unchecked(mu, v0).params()))] {
            m.step();
            m.expect("named constructors", || format!("{:?} by {}", v0, n), matches!(&e, Ok(e) if e.mu.0 == mu && e.Sigma.0 == [v0, v0]), || format!("{:?}", e));
        }
    }
    if !m.mine() {
        return;
    }
    for (n, e) in [("standard", BvNormal::standard().params()), ("default", BvNormal::default().params())] {
        m.expect("named constructors", || format!("bivariate {}", n), e.mu.0 == [0.0; 2] && e.Sigma.0 == ([1.0; 2], 0.0), || format!("{:?}", e));
    }
    for (n, e) in [("standard", PairedNormal::standard().params()), ("default", PairedNormal::default().params())] {
        m.expect("named constructors", || format!("paired {}", n), e.mu.0 == [0.0; 2] && e.Sigma.0 == [1.0; 2], || format!("{:?}", e));
    }
    // acceptance
    let vs = [0.25, 3.0, 0.0, -0.0, -1.0, f64::NAN, f64::NEG_INFINITY];
    for a in vs {
        for b in vs {
            let vok = a > 0.0 && b > 0.0;
            m.state();
            m.steps_add(3);
            for g in [guarded(|| PairedNormal::new(mu, [a, b]).is_ok()), guarded(|| PairedNormalParams::paired(mu, [a, b]).is_ok()), guarded(|| PairedCovariance::paired([a, b]).is_ok())] {
                m.expect("paired variances are accepted exactly when positive", || format!("{:?}", [a, b]), g == Ok(vok), || format!("{:?}", g));
            }
            for rho in [-1.0, -0.5, 0.0, 0.5, 1.0, -1.0000001, 1.0000001, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                m.state();
                m.steps_add(3);
                let ok = vok && rho >= -1.0 && rho <= 1.0;
                for g in [guarded(|| BvNormal::new(mu, [a, b], rho).is_ok()), guarded(|| BvNormalParams::bivariate(mu, [a, b], rho).is_ok()), guarded(|| BivariateCovariance::bivariate([a, b], rho).is_ok())] {
                    m.expect("bivariate covariances are accepted exactly when valid", || format!("{:?} rho {}", [a, b], rho), g == Ok(ok), || format!("{:?}", g));
                }
            }
        }
    }
}

fn arange<const N: usize>() -> [f64; N] {
    let mut a = [0.0; N];
    for i in 0..N {
        a[i] = i as f64 - 2.5;
    }
    a
}

/// Gradients scale entry by entry.
fn gradients(m: &mut Mc) {
    if !m.mine() {
        return;
    }
    let k = [1.5, -2.0, 0.25, 3.0, -7.0, 11.0];
    for s in [-2.0, 0.0, 0.5, 1.0, 3.0] {
        m.state();
        m.steps_add(5);
        let site = "a gradient scales in every entry";
        let g = UvNormalGrad { mu: k[0], Sigma: k[1] } * s;
        m.expect(site, || format!("univariate by {}", s), g.mu == k[0] * s && g.Sigma == k[1] * s, || format!("{:?}", g));
        let g = BvNormalGrad { mu: [k[0], k[1]], Sigma: ([k[2], k[3]], k[4]) } * s;
        m.expect(site, || format!("bivariate by {}", s), g.mu == [k[0] * s, k[1] * s] && g.Sigma == ([k[2] * s, k[3] * s], k[4] * s), || format!("{:?}", g));
        let g = MvNormalGrad::<2> { mu: [k[0], k[1]], Sigma: [[k[2], k[3]], [k[4], k[5]]] } * s;
        m.expect(site, || format!("multivariate by {}", s), g.mu == [k[0] * s, k[1] * s] && g.Sigma == [[k[2] * s, k[3] * s], [k[4] * s, k[5] * s]], || format!("{:?}", g));
        let g = DiagonalNormalGrad::<3> { mu: [k[0], k[1], k[2]], Sigma: [k[3], k[4], k[5]] } * s;
        m.expect(site, || format!("diagonal by {}", s), g.mu == [k[0] * s, k[1] * s, k[2] * s] && g.Sigma == [k[3] * s, k[4] * s, k[5] * s], || format!("{:?}", g));
        let (v, w) = (arange::<9>(), [arange::<9>(); 9]);
        let g = MvNormalGrad::<9> { mu: v, Sigma: w } * s;
        m.expect(site, || format!("multivariate by {}", s), g.mu == v.map(|x| x * s) && g.Sigma == [v.map(|x| x * s); 9], || format!("{:?}", g));
        let g = DiagonalNormalGrad::<9> { mu: v, Sigma: v } * s;
        m.expect(site, || format!("diagonal by {}", s), g.mu == v.map(|x| x * s) && g.Sigma == v.map(|x| x * s), || format!("{:?}", g));
        let g = IsotropicNormalGrad::<9> { mu: v, Sigma: 3.0 } * s;
        m.expect(site, || format!("isotropic by {}", s), g.mu == v.map(|x| x * s) && g.Sigma == 3.0 * s, || format!("{:?}", g));
        let g = IsotropicNormalGrad::<3> { mu: [k[0], k[1], k[2]], Sigma: k[3] } * s;
        m.expect(site, || format!("isotropic by {}", s), g.mu == [k[0] * s, k[1] * s, k[2] * s] && g.Sigma == k[3] * s, || format!("{:?}", g));
    }
}

/// D14
pub fn normals(m: &mut Mc) {
    m.bound("covariances L L' for every lower-triangular word L over the alphabets (dimension 1-4; up to 6 when thorough), every diagonal / isotropic / bivariate word; 9-27 points each; dimensions 7-10, 12 and 16 with one off-diagonal (or odd diagonal) entry in every position, moments of draws over coarse answer products; samplers over products of answer lattices, judged on every half-space with normal in {-1,0,1}^N at five levels");
    let (t, deep) = (true, m.thorough());
    general::<1>(m, &[0.5, 1.0, 3.0], &[], &words(&[-2.0, 0.0, 0.3, 5.0], 1), (&[16384], 2, 0.02, 3));
    general::<2>(m, &[0.5, 1.0, 2.0], &[-2.0, -0.5, 0.0, 1.0], &words(&[-2.0, 0.0, 0.3, 4.0], 2), (&[144, 144, 4, 4], 4, 0.03, if t { 36 } else { 9 }));
    general::<3>(m, &[0.5, 1.0, 2.0], &[-1.0, 0.0, 0.5], &words(&[-2.0, 0.0, 0.5], 3), (&[55, 55, 55, 2], 5, 0.04, if t { 24 } else { 4 }));
    general::<4>(m, &[0.5, 2.0], if t { &[-1.0, 0.0, 0.5] } else { &[-1.0, 0.5] }, &words(&[-1.0, 0.5], 4), (&[21, 21, 21, 21, 2], 6, 0.06, if t { 12 } else { 2 }));
    if t {
        general::<5>(m, &[0.5, 2.0], &[-1.0, 0.5], &words(&[-1.0, 0.5], 5)[..8], (&[1], 1, 1.0, 0));
    }
    if deep {
        general::<2>(m, &[0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 4.0, 8.0], &[-3.0, -2.0, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.0, 2.0], &words(&[-2.0, 0.0, 0.3, 4.0], 2), (&[144, 144, 4, 4], 4, 0.03, 60));
        general::<3>(m, &[0.5, 1.0, 2.0, 4.0], &[-2.0, -1.0, -0.25, 0.0, 0.5, 1.0], &words(&[-2.0, 0.0, 0.5], 3), (&[55, 55, 55, 2], 5, 0.04, 40));
        general::<4>(m, &[0.5, 1.0, 2.0], &[-1.0, 0.0, 0.5], &words(&[-1.0, 0.5], 4), (&[21, 21, 21, 21, 2], 6, 0.06, 20));
        general::<5>(m, &[0.5, 2.0], &[-1.0, 0.5], &words(&[-1.0, 0.5], 5), (&[1], 1, 1.0, 0));
        general::<6>(m, &[1.5], &[-1.0, 0.5], &words(&[-1.0, 0.5], 6)[..8], (&[1], 1, 1.0, 0));
        diagonal::<3>(m, &[1e-6, 0.25, 1.0, 9.0, 1e6], &words(&[-2.0, 0.0, 0.3], 3), (&[55, 55, 55, 2], 5, 0.04));
        diagonal::<6>(m, &[0.25, 1.0, 9.0], &words(&[-1.0, 0.5], 6)[..16], (&[1], 1, 1.0));
    }
    diagonal::<1>(m, &[0.25, 1.0, 9.0], &words(&[-2.0, 0.0, 0.3, 5.0], 1), (&[16384], 2, 0.02));
    diagonal::<2>(m, &[0.25, 1.0, 9.0], &words(&[-2.0, 0.0, 0.3], 2), (&[144, 144, 4, 4], 4, 0.03));
    diagonal::<3>(m, &[0.25, 1.0, 9.0], &words(&[-2.0, 0.0, 0.3], 3), (&[55, 55, 55, 2], 5, 0.04));
    diagonal::<4>(m, &[0.25, 1.0, 9.0], &words(&[-1.0, 0.5], 4), (&[21, 21, 21, 21, 2], 6, 0.06));
    macro_rules! large { ($($n:literal $w:literal)*) => { $(
        general_on::<$n>(m, &large_factors($n), &large_points($n), (&[$w], $n + 1, 0.0, 4));
        diagonal_on::<$n>(m, &uneven($n), &[0.25, 4.0], &large_points($n), (&[$w], $n + 1, 0.0),
            &one_odd($n, 1.0, &[0.25, 3.0, 0.0, -0.0, -1.0, f64::NAN, f64::NEG_INFINITY]));
    )* } }
    large!(7 4 8 4 9 4 10 3 12 3 16 2);
    pairs(m);
    gradients(m);
    acceptance(m);
    if !m.mine() {
        return;
    }
    m.step();
    let g = guarded(|| IsotropicNormal::<0>::homogeneous(0.0, 1.0).is_ok() || IsotropicNormal::<0>::standard().is_ok());
    m.expect("a space without dimensions is refused", || "isotropic".into(), g == Ok(false), || format!("{:?}", g));
}
