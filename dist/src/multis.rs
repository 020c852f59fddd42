//! D15: distributions over simplexes, count vectors and positive vectors.
use crate::case::{refusal, R};
use crate::cases::kln;
use crate::vecs::*;
use kit::num::{de, ln_beta, ln_choose, ln_gamma};
use kit::{guarded, Mc};
use rstat::multivariate::{dirichlet::Dirichlet, lognormal::LogNormal, multinomial};
use rstat::normal::{DiagonalNormal, IsotropicNormal, MvNormal};
use rstat::params::{Concentrations, Param};
use rstat::statistics::{Modes, MvMoments};
use rstat::{ContinuousDistribution, DiscreteDistribution, Distribution, Multivariate};
use spaces::Space;
use std::f64::consts::PI;

fn arr<const N: usize>(x: &[f64]) -> [f64; N] {
    let mut a = [0.0; N];
    a.copy_from_slice(x);
    a
}

/// Every word of `n` non-negative integers with the given sum.
pub fn compositions(n: usize, sum: usize) -> Vec<Vec<usize>> {
    if n == 1 {
        return vec![vec![sum]];
    }
    (0..=sum).flat_map(|k| compositions(n - 1, sum - k).into_iter().map(move |mut w| { w.insert(0, k); w })).collect()
}

// --------------------------------------------------------------------------- Dirichlet

fn dirichlet_ln_density(al: &[f64], x: &[f64]) -> f64 {
    let b: f64 = al.iter().map(|a| ln_gamma(*a)).sum::<f64>() - ln_gamma(al.iter().sum());
    al.iter().zip(x).map(|(a, x)| kln(a - 1.0, *x)).sum::<f64>() - b
}

fn dirichlet_density(al: &[f64], x: &[f64]) -> f64 { dirichlet_ln_density(al, x).exp() }

/// Distribution function of a beta variable by quadrature of its density.
fn beta_cdf(a: f64, b: f64, t: f64) -> f64 {
    // substitution x = s^(1/a) removes the singularity at 0
    let up = |a: f64, b: f64, t: f64| de(&|s: f64| (1.0 - s.powf(1.0 / a)).powf(b - 1.0), 0.0, t.powf(a)) / a * (-ln_beta(a, b)).exp();
    if t <= 0.5 { up(a, b, t) } else { 1.0 - up(b, a, 1.0 - t) }
}

fn dirichlet<const N: usize>(m: &mut Mc, al: &[f64], grid: usize, law_widths: Option<(&[u32], usize, f64)>) {
    if !m.mine() {
        return;
    }
    let id = format!("dirichlet {:?}", al);
    let d = Dirichlet::<N>::new_unchecked(arr(al));
    let (d, c) = mv::<N, _>(id.clone(), d);
    m.at(&id);
    m.state();
    m.trace();
    let a0: f64 = al.iter().sum();
    let mean: V = al.iter().map(|a| a / a0).collect();
    let cov: Vec<V> = (0..N).map(|i| (0..N).map(|j| {
        let e = if i == j { mean[i] } else { 0.0 };
        (e - mean[i] * mean[j]) / (a0 + 1.0)
    }).collect()).collect();
    moments(m, &c, &mean, &cov, 1e-10);
    // densities on the simplex lattice
    let mut best = 0.0f64;
    let mut pts: Vec<V> = compositions(N, grid).into_iter().map(|w| w.into_iter().map(|k| k as f64 / grid as f64).collect()).collect();
    // inside: the centre, the mean, and weights that grow or alternate
    for w in [vec![1.0; N], al.to_vec(), (1..=N).map(|i| i as f64).collect::<V>(), (1..=N).map(|i| if i % 2 == 0 { 3.0 } else { 1.0 / i as f64 }).collect()] {
        let t: f64 = w.iter().sum();
        pts.push(w.iter().map(|x| x / t).collect());
    }
    for x in &pts {
        m.state();
        m.steps_add(3);
        let want = dirichlet_density(al, x);
        let input = || format!("{} at {:?}", id, x);
        if want.is_nan() {
            continue; // a corner where factors 0 and infinity meet
        }
        best = best.max(want);
        m.close("density on the simplex", input, &(c.pdf)(x), want, 1e-8, 1e-300);
        m.close("log density on the simplex", input, &(c.log_pdf)(x), dirichlet_ln_density(al, x), 1e-9, 1e-9);
        let g = (c.contains)(x);
        m.expect("the support contains the simplex", input, g == Ok(true), || format!("{:?}", g));
        // off the simplex: scaled, shifted, negated
        for (k, y) in [
            x.iter().map(|v| v * 0.9).collect::<V>(),
            x.iter().map(|v| v * 1.1).collect(),
            x.iter().map(|v| v + 0.05).collect(),
            x.iter().enumerate().map(|(i, v)| if i == 0 { v + 0.01 } else { *v }).collect(),
            x.iter().enumerate().map(|(i, v)| if i == 0 { -0.25 } else if i == 1 { v + x[0] + 0.25 } else { *v }).collect(),
            x.iter().enumerate().map(|(i, v)| if i == N - 1 { 1.5 } else if i == 0 { v + x[N - 1] - 1.5 } else { *v }).collect(),
        ].into_iter().enumerate() {
            m.step();
            let g = (c.pdf)(&y);
            let input = || format!("{} at {:?} (variant {})", id, y, k);
            m.expect("density vanishes off the simplex", input, g == Ok(0.0), || format!("{:?}", g));
            let g = (c.log_pdf)(&y);
            m.expect("log density vanishes off the simplex", input, g == Ok(f64::NEG_INFINITY), || format!("{:?}", g));
        }
        let mut y = x.clone();
        y[0] = -0.25;
        let g = (c.contains)(&y);
        m.expect("the support excludes negative weights", || format!("{} at {:?}", id, y), g == Ok(false), || format!("{:?}", g));
    }
    // modes
    let e = d.clone();
    let g = guarded(|| e.modes());
    m.step();
    let above = al.iter().all(|a| *a >= 1.0) && a0 > N as f64;
    match &g {
        Err(e) if !above && refusal(e) => (),
        Ok(v) if !above && v.is_empty() => (),
        Err(e) => { m.expect("mode", || id.clone(), false, || e.clone()); },
        Ok(v) => {
            for x in v {
                let want = dirichlet_density(al, x);
                let on = x.iter().all(|p| *p >= 0.0) && (x.iter().sum::<f64>() - 1.0).abs() < 1e-9;
                m.expect("every mode is a maximiser on the simplex", || format!("{} mode {:?}", id, x), on && (want >= best * (1.0 - 1e-9)), || format!("density {} against {}", want, best));
            }
            if above {
                m.expect("the mode is reported once", || id.clone(), v.len() == 1, || format!("{:?}", v));
            }
        },
    }
    // construction
    for (n, e) in [("new", guarded(|| Dirichlet::<N>::new(arr(al)).unwrap())), ("from(params)", guarded(|| Dirichlet::<N>::from(d.params())))] {
        m.step();
        let x = &pts[pts.len() / 2];
        m.expect("parameters rebuild the distribution", || format!("{} by {}", id, n), matches!(&e, Ok(e) if e.params().0 == arr::<N>(al) && e.mean() == d.mean() && e.pdf(&arr(x)).to_bits() == d.pdf(&arr(x)).to_bits()), || format!("{:?}", e));
    }
    // draws
    let simplex = |v: &[f64]| v.iter().all(|x| *x >= 0.0 && *x <= 1.0) && (v.iter().sum::<f64>() - 1.0).abs() < 1e-9;
    if N <= 3 {
        edges(m, "dirichlet sampler", &id, 3 * N, &*c.sample, &simplex);
    }
    if let Some((w, limit, tol)) = law_widths {
        let valid = |v: &[f64]| v.iter().all(|x| *x >= 0.0 && *x <= 1.0) && (v.iter().sum::<f64>() - 1.0).abs() < 1e-9;
        let mut l = law(m, "dirichlet sampler", &id, w, limit, &*c.sample, &valid);
        let mut events: Vec<(String, Box<dyn Fn(&[f64]) -> bool>, f64)> = vec![];
        for i in 0..N {
            for t in [0.1, 0.3, 0.5, 0.7, 0.9] {
                events.push((format!("{} P(x{} <= {})", id, i, t), Box::new(move |v| v[i] <= t), beta_cdf(al[i], a0 - al[i], t)));
                for j in i + 1..N {
                    events.push((format!("{} P(x{} <= {} (x{} + x{}))", id, i, t, i, j), Box::new(move |v| v[i] <= t * (v[i] + v[j])), beta_cdf(al[i], al[j], t)));
                }
            }
        }
        let off = |l: &Law| events.iter().any(|e| { let g = l.of(&e.1); e.2 < g.0 - tol || e.2 > g.1 + tol });
        if tol < 0.02 && off(&l) {
            // the widths fit the order in which the answers are consumed; a sampler may use another
            let even = vec![36; w.len()];
            let again = law(m, "dirichlet sampler", &id, &even[..4], limit, &*c.sample, &valid);
            if !off(&again) {
                l = again;
            }
        }
        for (n, e, want) in &events {
            judge_event(m, "dirichlet sampler law", || n.clone(), l.of(e), *want, tol);
        }
    }
}

fn dirichlets(m: &mut Mc) {
    let (t, deep) = (true, m.thorough());
    let al: &[f64] = if deep { &[0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.5, 6.0] } else { &[0.5, 1.0, 2.0, 3.5] };
    for a in words(al, 2) {
        dirichlet::<2>(m, &a, 20, None);
    }
    for a in words(al, 3) {
        dirichlet::<3>(m, &a, 10, None);
    }
    for a in words(if t { al } else { &[0.5, 1.0, 2.5] }, 4) {
        dirichlet::<4>(m, &a, if t { 8 } else { 5 }, None);
    }
    for a in words(&[0.75, 2.0], 5) {
        dirichlet::<5>(m, &a, 5, None);
    }
    let w2 = [144u32, 144, 4, 4];
    let w3 = [55u32, 55, 55, 2];
    let w4 = [21u32, 21, 21, 21, 2];
    // far from uniform: nearly all mass at the corners, or in one place
    for a in words(&[0.01, 1.0, 40.0, 300.0], 2) {
        dirichlet::<2>(m, &a, 20, None);
    }
    for a in words(&[1e-3, 1.0, 120.0], 3) {
        dirichlet::<3>(m, &a, 10, None);
    }
    // many categories
    macro_rules! large { ($($n:literal)*) => { $( {
        dirichlet::<$n>(m, &[1.0; $n], 2, None);
        dirichlet::<$n>(m, &[2.5; $n], 2, None);
        let v: V = (0..$n).map(|i| [0.5, 3.0, 1.0, 1.5, 7.0][(i * i + i / 3) % 5]).collect();
        dirichlet::<$n>(m, &v, 2, None);
        let v: V = (0..$n).map(|i| 1.0 + i as f64 * 0.25).collect();
        dirichlet::<$n>(m, &v, 2, None);
        for i in 0..$n {
            let mut v = vec![1.5; $n];
            v[i] = 4.0;
            dirichlet::<$n>(m, &v, 1, None);
            v[i] = 0.25;
            dirichlet::<$n>(m, &v, 1, None);
        }
    } )* } }
    large!(6 7 8 9 16 17 33);
    // which share a draw gives to each category: ones but for one larger concentration, in every position
    macro_rules! shares { ($($n:literal)*) => { $( for i in 0..=$n {
        if m.mine() {
            let mut v = [1.0; $n];
            if i < $n {
                v[i] = 3.0;
            }
            let total: f64 = v.iter().sum();
            let d = Dirichlet::<$n>::new_unchecked(v);
            let id = format!("dirichlet {:?}", v);
            let on = |v: &[f64]| v.iter().all(|x| *x >= 0.0 && *x <= 1.0) && (v.iter().sum::<f64>() - 1.0).abs() < 1e-9;
            let l = law(m, "dirichlet sampler", &id, &[if $n > 7 { 3 } else { 4 }], $n + 2, &|t| guarded(|| d.sample(&mut crate::case::Words(t)).to_vec()), &on);
            let mass: f64 = l.out.iter().map(|x| x.1).sum();
            for j in 0..$n {
                let g = l.out.iter().map(|(x, w)| w * x[j]).sum::<f64>() / mass;
                let want = v[j] / total;
                m.step();
                if std::env::var("VERIF_TRACE").is_ok() { eprintln!("shares of draws {} {:.3}", $n, g / want); }
                m.expect("dirichlet sampler shares", || format!("{} category {}", id, j), g > 0.6 * want && g < 1.5 * want, || format!("draws average {}, the law {}", g, want));
            }
        }
    } )* } }
    shares!(5 6 7 9);
    dirichlet::<2>(m, &[1.0, 1.0], 20, Some((&w2, 4, 0.03)));
    dirichlet::<2>(m, &[2.0, 1.0], 20, Some((&w3, 5, 0.04)));
    dirichlet::<2>(m, &[1.0, 0.5], 20, Some((&w4, 6, 0.06)));
    dirichlet::<2>(m, &[2.0, 3.5], 20, Some((&w4, 6, 0.06)));
    // small concentrations: u, then the boosted gamma variate, per component
    dirichlet::<2>(m, &[0.5, 1.0], 20, Some((&[128, 48, 4, 48, 2], 6, 0.012)));
    dirichlet::<2>(m, &[0.5, 0.5], 20, Some((&[16, 16, 2, 16, 16, 2], 7, 0.03)));
    dirichlet::<3>(m, &[1.0, 1.0, 1.0], 10, Some((&w3, 5, 0.04)));
    dirichlet::<3>(m, &[1.0, 2.0, 1.0], 10, Some((&w4, 6, 0.06)));
    if t {
        dirichlet::<4>(m, &[1.0, 1.0, 1.0, 1.0], 5, Some((&[34, 34, 34, 34, 2], 6, 0.05)));
        dirichlet::<2>(m, &[8.0, 2.0], 20, Some((&[34, 34, 34, 34, 2], 6, 0.05)));
    }
    if !m.mine() {
        return;
    }
    // acceptance
    macro_rules! long { ($($n:literal)*) => { $(
        for w in crate::norms::one_odd($n, 2.0, &[0.5, 0.0, -0.0, -1.0, f64::NAN, f64::NEG_INFINITY]) {
            m.state();
            m.step();
            let g = guarded(|| Dirichlet::<$n>::new(arr(&w)).is_ok());
            m.expect("concentrations are accepted exactly when positive", || format!("{:?}", w), g == Ok(w.iter().all(|a| *a > 0.0)), || format!("{:?}", g));
        }
    )* } }
    long!(6 9 17 33);
    for w in words(&[0.5, 2.0, 0.0, -0.0, -1.0, f64::NAN, f64::NEG_INFINITY], 3) {
        m.state();
        m.steps_add(2);
        let ok = w.iter().all(|a| *a > 0.0);
        for g in [guarded(|| Dirichlet::<3>::new(arr(&w)).is_ok()), guarded(|| Concentrations::<3>::constraints().iter().all(|c| c.is_satisfied_by(&arr(&w))))] {
            m.expect("concentrations are accepted exactly when positive", || format!("{:?}", w), g == Ok(ok), || format!("{:?}", g));
        }
    }
}

// --------------------------------------------------------------------------- multinomial

fn sum_of(x: &[usize]) -> Option<usize> { x.iter().try_fold(0usize, |a, k| a.checked_add(*k)) }

fn multi_mass(n: usize, p: &[f64], x: &[usize]) -> f64 {
    if sum_of(x) != Some(n) {
        return 0.0;
    }
    let mut c = ln_gamma(n as f64 + 1.0);
    for k in x {
        c -= ln_gamma(*k as f64 + 1.0);
    }
    for (p, k) in p.iter().zip(x) {
        c += kln(*k as f64, *p);
    }
    c.exp()
}

fn counts<const N: usize>(x: &[usize]) -> [usize; N] {
    let mut a = [0; N];
    a.copy_from_slice(x);
    a
}

fn multinomial<const N: usize>(m: &mut Mc, n: usize, p: &[f64]) {
    if !m.mine() {
        return;
    }
    let id = format!("multinomial {} of {:?}", n, p);
    m.at(&id);
    m.state();
    m.trace();
    let d = multinomial::Multinomial::<N>::new_unchecked(n, arr(p));
    let mean: V = p.iter().map(|p| p * n as f64).collect();
    let cov: Vec<V> = (0..N).map(|i| (0..N).map(|j| n as f64 * ((if i == j { p[i] } else { 0.0 }) - p[i] * p[j])).collect()).collect();
    entries(m, "mean", &id, guarded(|| d.mean().to_vec()), &mean, 1e-12, 1e-12);
    entries(m, "variances", &id, guarded(|| MvMoments::variance(&d).to_vec()), &(0..N).map(|i| cov[i][i]).collect::<V>(), 1e-12, 1e-12);
    matrix(m, "covariance", &id, guarded(|| d.covariance().iter().map(|r| r.to_vec()).collect()), &cov, 1e-12, 1e-12);
    if (0..N).all(|i| cov[i][i] > 0.0) {
        let cor: Vec<V> = (0..N).map(|i| (0..N).map(|j| cov[i][j] / (cov[i][i] * cov[j][j]).sqrt()).collect()).collect();
        matrix(m, "correlation", &id, guarded(|| d.correlation().iter().map(|r| r.to_vec()).collect()), &cor, 1e-9, 1e-9);
    }
    let g = guarded(|| (d.dimensionality(), multinomial::Multinomial::<N>::n_categories()));
    m.expect("dimensionality", || id.clone(), g == Ok((N, N)), || format!("{:?}", g));
    let mut total = 0.0;
    // every count vector with total up to n + 1, and some beyond the trials in one place
    let few = n > 200;
    let mut xs: Vec<Vec<usize>> = if few { compositions(N, n) } else { (0..=n + 1).flat_map(|s| compositions(N, s)).collect() };
    // totals that wrap around to n, or cannot be counted at all
    xs.push(vec![usize::MAX; N]);
    if N > 1 {
        let mut x = vec![0; N];
        x[0] = usize::MAX;
        x[N - 1] = n + 1;
        xs.push(x);
    }
    xs.push(vec![n; N]);
    xs.push(vec![n + 2; N]);
    xs.sort();
    xs.dedup();
    for x in &xs {
        m.state();
        m.steps_add(3);
        let want = multi_mass(n, p, x);
        let ln_want = ln_gamma(n as f64 + 1.0) + x.iter().zip(p).map(|(k, p)| kln(*k as f64, *p) - ln_gamma(*k as f64 + 1.0)).sum::<f64>();
        let a = counts::<N>(x);
        let input = || format!("{} at {:?}", id, x);
        let g = guarded(|| d.pmf(&a).unwrap());
        m.close("mass", input, &g, want, 1e-9, 1e-15);
        total += g.unwrap_or(f64::NAN);
        let g = guarded(|| d.log_pmf(&a));
        if sum_of(x) == Some(n) {
            if ln_want > f64::NEG_INFINITY {
                m.close("log mass", input, &g, ln_want, 1e-9, 1e-9);
            } else {
                m.expect("log mass", input, g == Ok(f64::NEG_INFINITY), || format!("{:?}", g));
            }
        } else {
            // documented: a count vector with the wrong total is refused
            m.expect("log mass of a wrong total is not a number of the law", input, g.is_err() || g == Ok(f64::NEG_INFINITY), || format!("{:?}", g));
        }
        let g = guarded(|| d.support().contains(&a));
        if sum_of(x) == Some(n) {
            m.expect("the support contains every outcome", input, g == Ok(true), || format!("{:?}", g));
        } else if x.iter().any(|k| *k > n) {
            m.expect("the support excludes more successes than trials", input, g == Ok(false), || format!("{:?}", g));
        }
    }
    m.expect("masses add up to one", || id.clone(), (total - 1.0).abs() < 1e-9, || format!("{}", total));
    for (k, e) in [
        ("new", guarded(|| multinomial::Multinomial::<N>::new(n, arr(p)).unwrap())),
        ("from(params)", guarded(|| multinomial::Multinomial::<N>::from(d.params()))),
        ("parameter set", guarded(|| multinomial::Params::<N>::new(n, arr(p)).unwrap().into())),
        ("unchecked parameter set", guarded(|| multinomial::Params::<N>::new_unchecked(n, arr(p)).into())),
    ] {
        m.step();
        let ok = matches!(&e, Ok(e) if e.params().n.0 == n && e.params().ps.clone().unwrap() == arr::<N>(p) && e.params().n().0 == n && e.params().ps().clone().unwrap() == arr::<N>(p) && e.mean() == d.mean());
        m.expect("parameters rebuild the distribution", || format!("{} by {}", id, k), ok, || format!("{:?}", e));
    }
    // draws, if they are offered
    let run = {
        let d = d.clone();
        move |s: &mut kit::rng::Script| -> R<V> { guarded(|| d.sample(&mut crate::case::Words(s)).iter().map(|x| *x as f64).collect()) }
    };
    let mut offered = true;
    kit::rng::Tree::new(&[1], 64).explore(|s| run(s), |_, _, _| (), |e, _| offered &= !refusal(&e));
    if offered && n <= 2 {
        let l = law(m, "multinomial sampler", &id, &[55, 55, 8, 2], 8, &run, &|v| v.iter().sum::<f64>() == n as f64);
        for x in compositions(N, n) {
            let got = l.of(|v| v.iter().zip(&x).all(|(a, b)| *a == *b as f64));
            judge_event(m, "multinomial sampler law", || format!("{} at {:?}", id, x), got, multi_mass(n, p, &x), 0.05);
        }
    }
}

fn simplex_lattice(n: usize, k: usize) -> Vec<V> { compositions(n, k).into_iter().map(|w| w.into_iter().map(|x| x as f64 / k as f64).collect()).collect() }

fn multinomials(m: &mut Mc) {
    let deep = m.thorough();
    for n in 0..=(if deep { 20 } else { 12 }) {
        for p in simplex_lattice(1, 1) {
            multinomial::<1>(m, n, &p);
        }
        for p in simplex_lattice(2, if deep { 16 } else { 8 }) {
            multinomial::<2>(m, n, &p);
        }
        for p in simplex_lattice(3, if deep { 8 } else { 4 }) {
            multinomial::<3>(m, n, &p);
        }
        for p in simplex_lattice(4, 4) {
            if n <= if deep { 10 } else { 6 } {
                multinomial::<4>(m, n, &p);
            }
        }
    }
    multinomial::<3>(m, 30, &[0.2, 0.3, 0.5]);
    multinomial::<2>(m, 100, &[0.125, 0.875]);
    multinomial::<1>(m, 100_000, &[1.0]);
    multinomial::<2>(m, 5000, &[0.25, 0.75]);
    multinomial::<2>(m, 5000, &[1e-9, 1.0 - 1e-9]);
    multinomial::<3>(m, 300, &[0.01, 0.0, 0.99]);
    macro_rules! large { ($($n:literal)*) => { $( {
        let t = ($n * ($n + 1) / 2) as f64;
        let grow: V = (1..=$n).map(|i| i as f64 / t).collect();
        let mut odd = vec![0.5 / ($n as f64 - 1.0); $n];
        odd[$n - 1] = 0.5;
        let mut corner = vec![0.0; $n];
        corner[$n - 2] = 1.0;
        for k in 0..=3 {
            multinomial::<$n>(m, k, &[1.0 / $n as f64; $n]);
            multinomial::<$n>(m, k, &grow);
            multinomial::<$n>(m, k, &odd);
            multinomial::<$n>(m, k, &corner);
        }
    } )* } }
    large!(5 6 7 8 9 12 17);
    if !m.mine() {
        return;
    }
    let _ = ln_choose;
    for w in words(&[0.0, 0.25, 0.5, 1.0, -0.25, 1.25, f64::NAN], 3) {
        m.state();
        m.steps_add(2);
        let ok = w.iter().all(|p| *p >= 0.0 && *p <= 1.0) && w.iter().sum::<f64>() == 1.0;
        for n in [0usize, 3] {
            for g in [guarded(|| multinomial::Multinomial::<3>::new(n, arr(&w)).is_ok()), guarded(|| multinomial::Params::<3>::new(n, arr(&w)).is_ok())] {
                m.expect("weights are accepted exactly when they form a probability vector", || format!("{} of {:?}", n, w), g == Ok(ok), || format!("{:?}", g));
            }
        }
    }
}

// --------------------------------------------------------------------------- log-normal vectors

fn judge_log<const N: usize>(m: &mut Mc, c: &MvCase, mu: &[f64], s: &[V], pts: &[V], draw: Option<(&[u32], usize, f64)>) {
    m.at(&c.id);
    m.state();
    m.trace();
    let (det, prec) = invert(s);
    let mean: V = (0..N).map(|i| (mu[i] + s[i][i] / 2.0).exp()).collect();
    let cov: Vec<V> = (0..N).map(|i| (0..N).map(|j| mean[i] * mean[j] * s[i][j].exp_m1()).collect()).collect();
    moments(m, c, &mean, &cov, 1e-9);
    for p in pts {
        m.state();
        m.steps_add(2);
        let x: V = (0..N).map(|i| (mu[i] + p[i]).exp()).collect();
        let q = quad(&prec, &x.iter().zip(mu).map(|(x, m)| x.ln() - m).collect::<V>());
        let want = (-q / 2.0).exp() / ((2.0 * PI).powi(N as i32) * det).sqrt() / x.iter().product::<f64>();
        let input = || format!("{} at {:?}", c.id, x);
        m.close("density", input, &(c.pdf)(&x), want, 1e-7, 1e-300);
        m.close("log density", input, &(c.log_pdf)(&x), want.ln(), 1e-7, 1e-7);
        let g = (c.contains)(&x);
        m.expect("the support contains positive vectors", input, g == Ok(true), || format!("{:?}", g));
        for i in 0..N {
            for v in [0.0, -0.0, -1.0, f64::NEG_INFINITY] {
                m.step();
                let mut y = x.clone();
                y[i] = v;
                let g = (c.pdf)(&y);
                let input = || format!("{} at {:?}", c.id, y);
                m.expect("density vanishes off the positive orthant", input, g == Ok(0.0), || format!("{:?}", g));
                if v < 0.0 {
                    let g = (c.contains)(&y);
                    m.expect("the support excludes negative entries", input, g == Ok(false), || format!("{:?}", g));
                }
            }
        }
    }
    if N > 3 {
        if let Some((w, limit, _)) = draw {
            crate::norms::draw_moments::<N>(m, c, mu, s, w, limit, f64::ln);
        }
    } else if let Some((w, limit, tol)) = draw {
        let l = law(m, "log-normal sampler", &c.id, w, limit, &*c.sample, &|v| v.iter().all(|x| *x > 0.0 && x.is_finite()));
        for a in words(&[-1.0, 0.0, 1.0], N) {
            match a.iter().find(|x| **x != 0.0) {
                Some(x) if *x > 0.0 => (),
                _ => continue,
            }
            let a: V = (0..N).map(|i| a[i] / s[i][i].sqrt()).collect();
            let mean: f64 = (0..N).map(|i| a[i] * mu[i]).sum();
            let var = quad(s, &a);
            for z in [-1.5, -0.75, 0.0, 0.5, 1.25] {
                let t = mean + z * var.sqrt();
                let got = l.of(|v| (0..N).map(|i| a[i] * v[i].ln()).sum::<f64>() <= t);
                judge_event(m, "log-normal sampler law", || format!("{} half-space {:?} <= {:.4}", c.id, a, t), got, phi(z), tol);
            }
        }
    }
}

const MU: [f64; 12] = [0.5, -1.0, 0.0, 1.0, 0.25, -0.5, 0.75, -0.25, 1.25, -0.75, 0.125, -1.5];

fn lognormals<const N: usize>(m: &mut Mc, d: &[f64], o: &[f64], pts: &[V], draw: (&[u32], usize, f64)) {
    lognormals_on::<N>(m, &crate::norms::factors(N, d, o), &words(&[0.25, 1.5], N), &words(&[0.25, 3.0, 0.0, -1.0, f64::NAN], N), pts, draw);
}

fn lognormals_on<const N: usize>(m: &mut Mc, fs: &[Vec<V>], diags: &[V], accept: &[V], pts: &[V], draw: (&[u32], usize, f64)) {
    let mu = arr::<N>(&MU[..N]);
    for (k, l) in fs.iter().enumerate() {
        if !m.mine() {
            continue;
        }
        let s = crate::norms::spd_from(l);
        let sm = crate::norms::mat::<N>(&s);
        let id = format!("log-normal {:?}", s);
        let (d, c) = mv::<N, _>(id.clone(), LogNormal::<N, [[f64; N]; N]>::new_unchecked(mu, sm));
        judge_log::<N>(m, &c, &mu, &s, pts, if k % 9 == 4 { Some(draw) } else { None });
        for (n, e) in [
            ("new", guarded(|| LogNormal::<N, [[f64; N]; N]>::new(mu, sm).unwrap())),
            ("from(params)", guarded(|| LogNormal::from(d.params()))),
            ("from(normal)", guarded(|| LogNormal::from(MvNormal::<N>::new_unchecked(mu, sm)))),
        ] {
            m.step();
            m.expect("parameters rebuild the distribution", || format!("{} by {}", id, n), matches!(&e, Ok(e) if e.params().mu.0 == mu && e.params().Sigma.0 == sm && e.mean() == d.mean() && e.pdf(&[1.5; N]) == d.pdf(&[1.5; N])), || format!("{:?}", e.as_ref().map(|_| ())));
        }
    }
    for v in diags {
        if !m.mine() {
            continue;
        }
        let a = arr::<N>(v);
        let id = format!("diagonal log-normal {:?}", v);
        let s: Vec<V> = (0..N).map(|i| (0..N).map(|j| if i == j { v[i] } else { 0.0 }).collect()).collect();
        let (d, c) = mv::<N, _>(id.clone(), LogNormal::<N, [f64; N]>::diagonal_unchecked(mu, a));
        judge_log::<N>(m, &c, &mu, &s, pts, if v[0] != v[N - 1] || N == 1 { Some(draw) } else { None });
        for (n, e) in [
            ("diagonal", guarded(|| LogNormal::<N, [f64; N]>::diagonal(mu, a).unwrap())),
            ("from(params)", guarded(|| LogNormal::from(d.params()))),
            ("from(normal)", guarded(|| LogNormal::from(DiagonalNormal::<N>::diagonal_unchecked(mu, a)))),
        ] {
            m.step();
            m.expect("parameters rebuild the distribution", || format!("{} by {}", id, n), matches!(&e, Ok(e) if e.params().mu.0 == mu && e.params().Sigma.0 == a && e.mean() == d.mean() && e.pdf(&[1.5; N]) == d.pdf(&[1.5; N])), || format!("{:?}", e.as_ref().map(|_| ())));
        }
    }
    for v in [0.25, 1.0, 2.0] {
        if !m.mine() {
            continue;
        }
        let id = format!("isotropic log-normal {} in {} dimensions", v, N);
        let s: Vec<V> = (0..N).map(|i| (0..N).map(|j| if i == j { v } else { 0.0 }).collect()).collect();
        let (d, c) = mv::<N, _>(id.clone(), LogNormal::<N, f64>::isotropic_unchecked(mu, v));
        judge_log::<N>(m, &c, &mu, &s, pts, if v == 1.0 { Some(draw) } else { None });
        for (n, e) in [
            ("isotropic", guarded(|| LogNormal::<N, f64>::isotropic(mu, v).unwrap())),
            ("from(params)", guarded(|| LogNormal::from(d.params()))),
            ("from(normal)", guarded(|| LogNormal::from(IsotropicNormal::<N>::isotropic_unchecked(mu, v)))),
        ] {
            m.step();
            m.expect("parameters rebuild the distribution", || format!("{} by {}", id, n), matches!(&e, Ok(e) if e.params().mu.0 == mu && e.params().Sigma.0 == v && e.mean() == d.mean() && e.pdf(&[1.5; N]) == d.pdf(&[1.5; N])), || format!("{:?}", e.as_ref().map(|_| ())));
        }
        for k in [0.5, -2.0, 0.0] {
            for (n, e) in [("homogeneous", guarded(|| LogNormal::<N, f64>::homogeneous(k, v).unwrap().params())), ("homogeneous_unchecked", guarded(|| LogNormal::<N, f64>::homogeneous_unchecked(k, v).params()))] {
                m.step();
                m.expect("named constructors", || format!("{} by {} at {}", id, n, k), matches!(&e, Ok(p) if p.mu.0 == [k; N] && p.Sigma.0 == v), || format!("{:?}", e));
            }
        }
    }
    if !m.mine() {
        return;
    }
    for (n, e) in [("standard", guarded(|| LogNormal::<N, f64>::standard().unwrap().params())), ("standard_unchecked", guarded(|| LogNormal::<N, f64>::standard_unchecked().params()))] {
        m.step();
        m.expect("named constructors", || format!("log-normal {}", n), matches!(&e, Ok(p) if p.mu.0 == [0.0; N] && p.Sigma.0 == 1.0), || format!("{:?}", e));
    }
    for v in accept {
        m.state();
        m.step();
        let g = guarded(|| LogNormal::<N, [f64; N]>::diagonal(mu, arr(v)).is_ok());
        m.expect("variances are accepted exactly when positive", || format!("{:?}", v), g == Ok(v.iter().all(|x| *x > 0.0)), || format!("{:?}", g));
        let g = guarded(|| LogNormal::<N, f64>::isotropic(mu, v[0]).is_ok());
        m.expect("variances are accepted exactly when positive", || format!("{:?}", v[0]), g == Ok(v[0] > 0.0), || format!("{:?}", g));
    }
}

/// D15
pub fn multis(m: &mut Mc) {
    m.bound("dirichlet: every concentration word over a 4-8 letter alphabet (dimension 2-4; dimension 5 over 2 letters), every point of a simplex lattice and six off-simplex variants of each; draws over products of answer lattices, judged on marginals and pairwise shares. multinomial: every weight vector of a simplex lattice (dimension 1-4), 0-12 trials (20 thorough), every count vector with total up to one more than the trials. log-normal: every covariance from triangular words (dimension 1-3). Many categories or coordinates (up to 33, 17 and 12): one odd entry in every position, growing and alternating patterns");
    dirichlets(m);
    multinomials(m);
    lognormals::<1>(m, &[0.5, 1.0], &[], &words(&[-2.0, 0.0, 0.3, 3.0], 1), (&[16384], 2, 0.02));
    lognormals::<2>(m, &[0.5, 1.0, 1.5], &[-1.0, 0.0, 0.75], &words(&[-2.0, 0.0, 0.3, 2.0], 2), (&[144, 144, 4, 4], 4, 0.03));
    lognormals::<3>(m, &[0.5, 1.0], if m.thorough() { &[-1.0, -0.25, 0.0, 0.5] } else { &[-1.0, 0.0, 0.5] }, &words(&[-1.0, 0.0, 1.5], 3), (&[34, 34, 34, 2], 5, 0.06));
    macro_rules! large { ($($n:literal $w:literal)*) => { $(
        lognormals_on::<$n>(m, &crate::norms::large_factors($n), &crate::norms::one_odd($n, 0.5, &[0.25, 1.5]),
            &crate::norms::one_odd($n, 1.0, &[0.25, 3.0, 0.0, -1.0, f64::NAN]), &crate::norms::large_points($n), (&[$w], $n + 1, 0.0));
    )* } }
    large!(4 12 5 8 6 6 7 4 9 4 12 3);
    tiny_covariances(m);
}

/// Log-normals so narrow that `exp(s) - 1` would cancel: entries of the covariance against the
/// closed form `exp(mu_i + mu_j + (s_ii + s_jj) / 2) * expm1(s_ij)`.
fn tiny_covariances(m: &mut Mc) {
    if !m.mine() {
        return;
    }
    m.bound("log-normals with logarithmic covariances from 1e-3 down to 1e-18");
    for v in [1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1e-18] {
        for c in [-0.75, 0.0, 0.5] {
            m.state();
            let mu = [0.5, -1.0];
            let s = [[v, c * v], [c * v, 2.0 * v]];
            let d = LogNormal::<2, [[f64; 2]; 2]>::new_unchecked(mu, s);
            let want = |i: usize, j: usize| f64::exp(mu[i] + mu[j] + (s[i][i] + s[j][j]) / 2.0) * f64::exp_m1(s[i][j]);
            let (cov, var) = (guarded(|| d.covariance()), guarded(|| d.variance()));
            for i in 0..2 {
                m.step();
                m.close("narrow log-normal variance", || format!("{:?} at {}", s, i), &var.clone().map(|w| w[i]), want(i, i), 1e-6, 0.0);
                for j in 0..2 {
                    m.step();
                    m.close("narrow log-normal covariance", || format!("{:?} at {},{}", s, i, j), &cov.clone().map(|w| w[i][j]), want(i, j), 1e-6, 0.0);
                }
            }
        }
    }
}
