//! D12: likelihood, score, maximum-likelihood fits and Fisher information against the
//! reference log density, over every sample word of bounded length.
use crate::cases::kln;
use kit::num::{ln_beta, ln_choose, ln_gamma, panels};
use kit::{guarded, Mc};
use rstat::fitting::{Likelihood, Score, MLE};
use rstat::statistics::FisherInformation;
use rstat::{normal, univariate as uv, Probability};
use std::f64::consts::PI;

type F<'a, T> = &'a dyn Fn(&[f64]) -> T;

/// Derivative of `f` in coordinate `i`, by Richardson extrapolation.
fn slope(f: F<f64>, p: &[f64], i: usize) -> f64 {
    // within the positive numbers when the parameter is small and positive
    let h0 = if p[i] > 0.0 && p[i] < 0.05 { 0.02 * p[i] } else { 0.02 * p[i].abs().max(0.05) };
    let d = |h: f64| {
        let (mut a, mut b) = (p.to_vec(), p.to_vec());
        a[i] += h;
        b[i] -= h;
        (f(&a) - f(&b)) / (2.0 * h)
    };
    let mut t = vec![d(h0), d(h0 / 2.0), d(h0 / 4.0), d(h0 / 8.0)];
    let mut k = 4.0;
    while t.len() > 1 {
        t = t.windows(2).map(|w| w[1] + (w[1] - w[0]) / (k - 1.0)).collect();
        k *= 4.0;
    }
    t[0]
}

/// All words over `0..n` up to length `len`.
fn words(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        cur = cur.iter().flat_map(|w| (0..n).map(move |x| { let mut u = w.clone(); u.push(x); u })).collect();
        all.extend(cur.iter().cloned());
    }
    // data sets of everyday size: cycles through the alphabet, and one letter throughout
    for l in [17, 64, 100, 255, 256, 257, 1030] {
        all.push((0..l).map(|i| i % n).collect());
        all.push((0..l).map(|i| (i * i + i / n) % n).collect());
        all.push(vec![l % n; l]);
    }
    all
}

/// ln f of one observation under the parameters.
type LnF<'a, X> = &'a dyn Fn(&[f64], &X) -> f64;

fn likelihood<D: Likelihood, X: std::fmt::Debug + Clone>(
    m: &mut Mc, fam: &str, pars: &[Vec<f64>], xs: &[X], len: usize, make: F<D>, conv: &dyn Fn(&[X]) -> Vec<rstat::Sample<D>>, lnf: LnF<X>,
) {
    m.at(fam);
    let ws = words(xs.len(), len);
    for p in pars {
        if !m.mine() {
            continue;
        }
        let d = make(p);
        for w in &ws {
            let x: Vec<X> = w.iter().map(|i| xs[*i].clone()).collect();
            let s = conv(&x);
            m.state();
            m.trace();
            m.steps_add(2);
            let want: f64 = x.iter().map(|x| lnf(p, x)).sum();
            let scale: f64 = x.iter().map(|x| lnf(p, x).abs()).filter(|v| v.is_finite()).sum();
            let input = || format!("{}{:?} on {:?}", fam, p, x);
            let got = guarded(|| d.log_likelihood(&s));
            m.close("the log-likelihood is the sum of log densities", input, &got, want, 1e-9, 1e-9 * scale.max(1.0));
            let got = guarded(|| d.likelihood(&s));
            m.close("the likelihood is the product of densities", input, &got, want.exp(), 1e-7 * scale.max(1.0), 1e-300);
        }
    }
}

fn score<D: Score, X: std::fmt::Debug + Clone>(
    m: &mut Mc, fam: &str, pars: &[Vec<f64>], xs: &[X], len: usize, make: F<D>, conv: &dyn Fn(&[X]) -> Vec<rstat::Sample<D>>, lnf: LnF<X>, flat: &dyn Fn(D::Grad) -> Vec<f64>,
) {
    m.at(fam);
    for p in pars {
        if !m.mine() {
            continue;
        }
        let d = make(p);
        for w in words(xs.len(), len) {
            let x: Vec<X> = w.iter().map(|i| xs[*i].clone()).collect();
            let s = conv(&x);
            m.state();
            m.trace();
            m.step();
            let got = guarded(|| flat(d.score(&s)));
            for i in 0..p.len() {
                let want = if x.is_empty() { 0.0 } else { slope(&|q| x.iter().map(|x| lnf(q, x)).sum(), p, i) };
                let size: f64 = x.iter().map(|x| slope(&|q| lnf(q, x), p, i).abs()).sum();
                // rounding of the differenced reference
                let noise: f64 = 1e-13 * x.iter().map(|x| lnf(p, x).abs()).sum::<f64>() / (0.02 * p[i].abs()).max(1e-4);
                let g = got.clone().map(|g| g[i]);
                m.close("the score is the gradient of the log-likelihood", || format!("{}{:?} component {} on {:?}", fam, p, i, x), &g, want, 1e-6, 1e-6 * size.max(1e-3) + noise);
            }
        }
    }
}

fn mle<D: MLE, X: std::fmt::Debug + Clone>(
    m: &mut Mc, fam: &str, rivals: &[Vec<f64>], xs: &[X], len: usize, read: &dyn Fn(&D) -> Vec<f64>, conv: &dyn Fn(&[X]) -> Vec<rstat::Sample<D>>, lnf: LnF<X>,
    lower: &[f64], upper: &[f64], interior: &dyn Fn(&[X]) -> bool,
) {
    m.at(fam);
    for w in words(xs.len(), len) {
        if !m.mine() {
            continue;
        }
        let x: Vec<X> = w.iter().map(|i| xs[*i].clone()).collect();
        let s = conv(&x);
        m.state();
        m.trace();
        m.step();
        let input = || format!("{} fitted to {:?}", fam, x);
        let got = guarded(|| D::fit_mle(&s).ok().map(|d| read(&d)));
        if x.is_empty() {
            m.expect("an empty sample is refused", input, matches!(&got, Ok(None)), || format!("{:?}", got));
            continue;
        }
        let q = match got {
            Ok(Some(q)) => q,
            Ok(None) if !interior(&x) => continue,
            g => {
                m.expect("a fit is found where the maximum exists", input, false, || format!("{:?}", g));
                continue;
            },
        };
        for v in &q { m.outcome_f(*v) }
        let ll = |q: &[f64]| x.iter().map(|x| lnf(q, x)).sum::<f64>();
        let best = ll(&q);
        let mut rivals = rivals.to_vec();
        for i in 0..q.len() {
            for d in [0.3, 0.1, 1e-2, 1e-3, 1e-4] {
                for sign in [-1.0, 1.0] {
                    let mut r = q.clone();
                    r[i] += sign * d * if r[i] == 0.0 { 1.0 } else { r[i].abs() };
                    if r[i] > lower[i] && r[i] < upper[i] {
                        rivals.push(r);
                    }
                }
            }
        }
        let worst = rivals.iter().map(|r| (ll(r), r)).fold((f64::NEG_INFINITY, None), |a, b| if b.0 > a.0 { (b.0, Some(b.1)) } else { a });
        m.steps_add(rivals.len() as u64);
        m.expect("no parameters are more likely than the fitted ones", input, best.is_finite() && worst.0 <= best + 1e-10 * best.abs().max(1.0), || {
            format!("fitted {:?} has log-likelihood {}, {:?} has {}", q, best, worst.1, worst.0)
        });
    }
}

/// Expectation of products of reference scores. `xs` is a fine partition, or the support.
fn fisher<const N: usize>(
    m: &mut Mc, fam: &str, pars: &[Vec<f64>], lnf: &dyn Fn(&[f64], f64) -> f64, pts: F<(Vec<f64>, bool)>, which: &[usize], got: F<[[f64; N]; N]>,
) {
    m.at(fam);
    for p in pars {
        if !m.mine() {
            continue;
        }
        m.state();
        m.trace();
        m.step();
        let g = guarded(|| got(p));
        let (xs, discrete) = pts(p);
        for &i in which {
            for &j in which {
                let f = |x: f64| {
                    let w = lnf(p, x).exp();
                    if !(w > 1e-300) { return 0.0 }
                    w * slope(&|q| lnf(q, x), p, i) * slope(&|q| lnf(q, x), p, j)
                };
                let want = if discrete { xs.iter().map(|x| f(*x)).sum() } else { panels(&f, &xs) };
                let e = g.clone().map(|g| g[i][j]);
                m.close("the Fisher information is the covariance of the score", || format!("{}{:?} entry [{}][{}]", fam, p, i, j), &e, want, 1e-5, 1e-6);
            }
        }
    }
}

/// Expectation of the negative second derivatives: the information where the support moves with
/// a parameter, so that the score has no zero mean.
fn curvature<const N: usize>(
    m: &mut Mc, fam: &str, pars: &[Vec<f64>], lnf: &dyn Fn(&[f64], f64) -> f64, pts: F<Vec<f64>>, got: F<[[f64; N]; N]>,
) {
    m.at(fam);
    for p in pars {
        if !m.mine() {
            continue;
        }
        m.state();
        m.trace();
        m.step();
        let g = guarded(|| got(p));
        let xs = pts(p);
        for i in 0..N {
            for j in 0..N {
                let f = |x: f64| {
                    let w = lnf(p, x).exp();
                    if !(w > 1e-300) { return 0.0 }
                    -w * slope(&|q| slope(&|r| lnf(r, x), q, i), p, j)
                };
                let want = panels(&f, &xs);
                let e = g.clone().map(|g| g[i][j]);
                m.close("the Fisher information is the expected curvature", || format!("{}{:?} entry [{}][{}]", fam, p, i, j), &e, want, 1e-5, 1e-6);
            }
        }
    }
}

fn cross(a: &[f64], b: &[f64]) -> Vec<Vec<f64>> { a.iter().flat_map(|x| b.iter().map(move |y| vec![*x, *y])).collect() }
fn one(a: &[f64]) -> Vec<Vec<f64>> { a.iter().map(|x| vec![*x]).collect() }

fn ln_normal(mu: f64, s: f64, x: f64) -> f64 { -0.5 * (2.0 * PI * s).ln() - (x - mu) * (x - mu) / 2.0 / s }

/// D12
pub fn fitting(m: &mut Mc) {
    let len = m.pick(5, 6);
    m.bound(&format!("every sample word of length 0 to {} over 5-8 letter alphabets of observations, and 21 longer ones of up to 1030 observations; parameter lattices of 5-25 settings; scores by Richardson differences of the reference log density; fits compared with every lattice setting and 20 neighbours; Fisher information by summation or quadrature", len));
    m.assume("the Pareto scale moves the support: there the information is the expected negative second derivative of the log density, the documented matrix, not the covariance of the score");
    m.skip("observations outside the support of Beta and Gamma: clamped on purpose");
    let id_f = |x: &[f64]| x.to_vec();
    let id_u = |x: &[u64]| x.to_vec();
    let id_b = |x: &[bool]| x.to_vec();
    let rates = [0.05, 0.25, 1.0, 3.0, 17.5];
    let probs = [0.01, 0.125, 0.25, 0.5, 0.9];

    // Bernoulli
    let ln_ber = |p: &[f64], x: &bool| if *x { p[0].ln() } else { (1.0 - p[0]).ln() };
    let make = |p: &[f64]| uv::bernoulli::Bernoulli::new_unchecked(p[0]);
    let mut edge = one(&probs);
    edge.extend(one(&[0.0, 1.0]));
    let bl = m.pick(10, 14);
    likelihood(m, "bernoulli", &edge, &[false, true], bl, &make, &id_b, &ln_ber);
    score(m, "bernoulli", &one(&probs), &[false, true], bl, &make, &id_b, &ln_ber, &|g| vec![g.p]);
    let fine: Vec<f64> = (1..64).map(|i| i as f64 / 64.0).collect();
    mle(m, "bernoulli", &one(&fine), &[false, true], bl + 2, &|d: &uv::bernoulli::Bernoulli| vec![rstat::Distribution::params(d).p.unwrap()], &id_b, &ln_ber, &[0.0], &[1.0], &|_| true);
    fisher(m, "bernoulli", &one(&probs), &|p, x| if x == 1.0 { p[0].ln() } else { (1.0 - p[0]).ln() }, &|_| (vec![0.0, 1.0], true), &[0], &|p| make(p).fisher_information());

    // Poisson
    let ln_poi = |p: &[f64], k: &u64| kln(*k as f64, p[0]) - p[0] - ln_gamma(*k as f64 + 1.0);
    let make = |p: &[f64]| uv::poisson::Poisson::new_unchecked(p[0]);
    let ks = [0u64, 1, 2, 5, 12, 19, 40, 300];
    likelihood(m, "poisson", &one(&rates), &ks, len, &make, &id_u, &ln_poi);
    score(m, "poisson", &one(&rates), &ks, len, &make, &id_u, &ln_poi, &|g| vec![g.lambda]);
    let fine: Vec<f64> = (1..60).map(|i| 0.05 * 1.15f64.powi(i)).collect();
    mle(m, "poisson", &one(&fine), &ks, len, &|d: &uv::poisson::Poisson| vec![rstat::Distribution::params(d).lambda.0], &id_u, &ln_poi, &[0.0], &[f64::INFINITY], &|x| x.iter().any(|k| *k > 0));
    fisher(m, "poisson", &one(&rates), &|p, x| kln(x, p[0]) - p[0] - ln_gamma(x + 1.0), &|p| ((0..(60.0 + 12.0 * p[0]) as u64).map(|k| k as f64).collect(), true), &[0], &|p| make(p).fisher_information());

    // Binomial, in the success probability
    for n in [0usize, 1, 2, 5, 20] {
        let name = "binomial";
        let nf = n as f64;
        fisher(m, name, &one(&probs), &|p, x| ln_choose(nf, x) + kln(x, p[0]) + kln(nf - x, 1.0 - p[0]), &|_| ((0..=n).map(|k| k as f64).collect(), true), &[0],
            &|p| uv::binomial::Binomial::new_unchecked(n, Probability::new_unchecked(p[0])).fisher_information());
    }

    // Beta
    let ln_bet = |p: &[f64], x: &f64| kln(p[0] - 1.0, *x) + kln(p[1] - 1.0, 1.0 - *x) - ln_beta(p[0], p[1]);
    let make = |p: &[f64]| uv::beta::Beta::new_unchecked(p[0], p[1]);
    let ab = cross(&[0.5, 1.0, 2.0, 3.5, 8.0], &[0.5, 1.0, 2.0, 3.5, 8.0]);
    let xs = [1e-6, 0.03, 0.25, 0.5, 0.9, 0.9999];
    likelihood(m, "beta", &ab, &xs, len, &make, &id_f, &ln_bet);
    score(m, "beta", &ab, &xs, len, &make, &id_f, &ln_bet, &|g| vec![g.alpha, g.beta]);

    // Gamma
    let ln_gam = |p: &[f64], x: &f64| p[0] * p[1].ln() + kln(p[0] - 1.0, *x) - p[1] * x - ln_gamma(p[0]);
    let make = |p: &[f64]| uv::gamma::Gamma::new_unchecked(p[0], p[1]);
    let ab = cross(&[0.5, 1.0, 2.0, 3.5, 8.0], &[0.25, 1.0, 3.0, 9.0]);
    let xs = [1e-6, 0.03, 0.5, 1.0, 4.0, 30.0];
    likelihood(m, "gamma", &ab, &xs, len, &make, &id_f, &ln_gam);
    score(m, "gamma", &ab, &xs, len, &make, &id_f, &ln_gam, &|g| vec![g.alpha, g.beta]);

    // Normal
    let ln_nor = |p: &[f64], x: &f64| ln_normal(p[0], p[1], *x);
    let make = |p: &[f64]| uv::normal::Normal::new_unchecked(p[0], p[1]);
    let ms = cross(&[-3.5, 0.0, 2.0], &[0.25, 1.0, 2.0, 9.0]);
    let xs = [-7.0, -3.5, -0.1, 0.0, 1.0, 2.5, 40.0];
    likelihood(m, "normal", &ms, &xs, len, &make, &id_f, &ln_nor);
    score(m, "normal", &ms, &xs, len, &make, &id_f, &ln_nor, &|g| vec![g.mu, g.Sigma]);
    mle(m, "normal", &ms, &xs, len, &|d: &uv::normal::Normal| { let p = rstat::Distribution::params(d); vec![p.mu.0, p.Sigma.0] }, &id_f, &ln_nor, &[f64::NEG_INFINITY, 0.0], &[f64::INFINITY; 2],
        &|x| x.iter().any(|v| *v != x[0]));
    fisher(m, "normal", &ms, &|p, x| ln_normal(p[0], p[1], x), &|p| ([-12.0, -6.0, -3.0, -1.0, 0.0, 1.0, 3.0, 6.0, 12.0].iter().map(|z| p[0] + z * p[1].sqrt()).collect(), false), &[0, 1], &|p| make(p).fisher_information());

    // Log-normal, exponential, Pareto: information only
    fisher(m, "lognormal", &cross(&[-1.5, 0.5, 2.0], &[0.25, 1.0, 2.0]), &|p, x| ln_normal(p[0], p[1], x.ln()) - x.ln(),
        &|p| ([-12.0, -6.0, -3.0, -1.0, 0.0, 1.0, 3.0, 6.0, 12.0].iter().map(|z| (p[0] + z * p[1].sqrt()).exp()).collect(), false), &[0, 1],
        &|p| uv::lognormal::LogNormal::new_unchecked(p[0], p[1]).fisher_information());
    fisher(m, "exponential", &one(&rates), &|p, x| p[0].ln() - p[0] * x, &|p| ([0.0, 0.1, 1.0, 3.0, 10.0, 30.0, 60.0].iter().map(|z| z / p[0]).collect(), false), &[0],
        &|p| uv::exponential::Exponential::new_unchecked(p[0]).fisher_information());
    fisher(m, "pareto", &cross(&[0.25, 1.0, 3.0], &[0.5, 1.0, 2.5, 6.0]), &|p, x| p[1].ln() + p[1] * p[0].ln() - (p[1] + 1.0) * x.ln(),
        &|p| (vec![p[0], p[0] * 1.5, p[0] * 10.0, f64::INFINITY], false), &[1],
        &|p| uv::pareto::Pareto::new_unchecked(p[0], p[1]).fisher_information());
    curvature(m, "pareto", &cross(&[0.25, 1.0, 3.0, 40.0], &[0.5, 1.0, 2.5, 6.0]), &|p, x| p[1].ln() + p[1] * p[0].ln() - (p[1] + 1.0) * x.ln(),
        &|p| vec![p[0], p[0] * 1.5, p[0] * 10.0, f64::INFINITY],
        &|p| uv::pareto::Pareto::new_unchecked(p[0], p[1]).fisher_information());

    // Far from one: the same laws where factorials, gamma functions and squares overflow or cancel
    let len = m.pick(3, 4);
    let make = |p: &[f64]| uv::poisson::Poisson::new_unchecked(p[0]);
    let rates = [1e-3, 20.0, 120.0, 300.0, 1000.0, 1e5];
    let ks = [0u64, 1, 20, 21, 100, 169, 170, 171, 172, 253, 254, 255, 256, 1000, 100_000];
    likelihood(m, "poisson", &one(&rates), &ks, len, &make, &id_u, &ln_poi);
    score(m, "poisson", &one(&rates), &ks, len, &make, &id_u, &ln_poi, &|g| vec![g.lambda]);
    mle(m, "poisson", &one(&rates), &ks, len, &|d: &uv::poisson::Poisson| vec![rstat::Distribution::params(d).lambda.0], &id_u, &ln_poi, &[0.0], &[f64::INFINITY], &|x| x.iter().any(|k| *k > 0));
    let make = |p: &[f64]| uv::gamma::Gamma::new_unchecked(p[0], p[1]);
    let ab = cross(&[0.01, 20.0, 100.0, 170.5, 171.7, 200.0, 1000.0], &[1e-3, 1.0, 1e3]);
    let xs = [1e-8, 0.1, 1.0, 20.0, 170.0, 1e3, 1e5];
    likelihood(m, "gamma", &ab, &xs, len, &make, &id_f, &ln_gam);
    score(m, "gamma", &ab, &xs, len, &make, &id_f, &ln_gam, &|g| vec![g.alpha, g.beta]);
    let make = |p: &[f64]| uv::beta::Beta::new_unchecked(p[0], p[1]);
    let ab = cross(&[0.01, 20.0, 100.0, 172.0, 400.0], &[0.01, 1.0, 90.0, 172.0, 400.0]);
    let xs = [1e-6, 0.03, 0.25, 0.5, 0.9, 0.9999];
    likelihood(m, "beta", &ab, &xs, len, &make, &id_f, &ln_bet);
    score(m, "beta", &ab, &xs, len, &make, &id_f, &ln_bet, &|g| vec![g.alpha, g.beta]);
    let make = |p: &[f64]| uv::normal::Normal::new_unchecked(p[0], p[1]);
    for c in [1e3, -1e6, 1e8] {
        let ms = cross(&[c, c + 3.0], &[1e-4, 1.0, 1e6]);
        let xs = [c, c + 1.0, c - 2.0, c + 0.5, c + 64.0];
        likelihood(m, "normal", &ms, &xs, len + 1, &make, &id_f, &ln_nor);
        mle(m, "normal", &ms, &xs, len + 2, &|d: &uv::normal::Normal| { let p = rstat::Distribution::params(d); vec![p.mu.0, p.Sigma.0] }, &id_f, &ln_nor, &[f64::NEG_INFINITY, 0.0], &[f64::INFINITY; 2],
            &|x| x.iter().any(|v| *v != x[0]));
    }

    // Pairs of independent normals
    let ln_pair = |p: &[f64], x: &[f64; 2]| ln_normal(p[0], p[2], x[0]) + ln_normal(p[1], p[3], x[1]);
    let make = |p: &[f64]| normal::PairedNormal::new_unchecked([p[0], p[1]], [p[2], p[3]]);
    let mut quads = vec![];
    for mu in [[0.0, 0.0], [-3.5, 2.0]] {
        for s in [[1.0, 1.0], [0.25, 3.0], [9.0, 2.0]] {
            quads.push(vec![mu[0], mu[1], s[0], s[1]]);
        }
    }
    let xs = [[0.0, 0.0], [1.0, -2.0], [-3.5, 2.0], [-7.0, 0.3], [4.0, 11.0]];
    let id_p = |x: &[[f64; 2]]| x.to_vec();
    likelihood(m, "paired normal", &quads, &xs, len, &make, &id_p, &ln_pair);
    score(m, "paired normal", &quads, &xs, len, &make, &id_p, &ln_pair, &|g| vec![g.mu[0], g.mu[1], g.Sigma[0], g.Sigma[1]]);
}
