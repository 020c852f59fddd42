//! ser-mc: settings survive serialisation, judged on the real crate built with its
//! serialisation feature.
use kit::{guarded, Mc};
use rstat::normal::{
    BvNormalGrad, BvNormalParams, Covariance, DiagonalNormalGrad, DiagonalNormalParams, IsotropicNormalParams,
    MvNormalParams, PairedNormalParams, UvNormalGrad, UvNormalParams,
};
use rstat::params::{Concentrations, Corr, Count, Loc, Rate, Scale, Shape, DOF};
use rstat::univariate as uv;
use rstat::{multivariate, ContinuousDistribution, Distribution, Mixture, Probability, SimplexVector};
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;

/// Exactly representable and exactly printed reals.
const X: [f64; 11] = [0.0, 0.5, 1.0, 2.75, -3.5, 1048576.0, 0.0009765625, -1.0, -0.0625, 123456789.0, -4503599627370496.0];
const POS: [f64; 9] = [0.5, 1.0, 2.75, 1048576.0, 0.0009765625, 2.0, 3.25, 1e15, 9.5367431640625e-7];
const N: [usize; 8] = [1, 2, 30, 4294967296, 12, 3, 255, 9007199254740992];
const P: [f64; 9] = [0.0, 0.25, 0.5, 0.875, 1.0, 0.125, 0.375, 0.0009765625, 0.9990234375];

/// Every leaf of the printed form, in order: the numbers the settings hold.
fn leaves(v: &serde_json::Value, out: &mut Vec<f64>) {
    match v {
        serde_json::Value::Number(n) => out.push(n.as_f64().unwrap()),
        serde_json::Value::Array(a) => a.iter().for_each(|x| leaves(x, out)),
        serde_json::Value::Object(o) => o.values().for_each(|x| leaves(x, out)),
        _ => out.push(f64::NAN),
    }
}

/// One value: written, read back through text and through the document tree, compared.
fn trip<T: Serialize + DeserializeOwned + Debug>(m: &mut Mc, name: &str, make: impl Fn() -> T, holds: &[f64]) {
    m.state();
    m.trace();
    m.steps_add(2);
    let was = format!("{:?}", make());
    let input = || format!("{} {}", name, was);
    let text = match guarded(|| serde_json::to_string(&make()).map_err(|e| e.to_string())) {
        Ok(Ok(t)) => t,
        g => {
            m.expect("settings can be written", input, false, || format!("{:?}", g));
            return;
        },
    };
    m.outcome(&text);
    let got = guarded(|| serde_json::from_str::<T>(&text).map(|t| format!("{:?}", t)).map_err(|e| e.to_string()));
    m.expect("settings read back equal the settings written", input, got == Ok(Ok(was.clone())), || format!("{} reads back as {:?}", text, got));
    let tree = guarded(|| {
        let v = serde_json::to_value(&make()).map_err(|e| e.to_string())?;
        let mut l = vec![];
        leaves(&v, &mut l);
        let again = serde_json::from_value::<T>(v).map_err(|e| e.to_string())?;
        Ok::<_, String>((l, format!("{:?}", again)))
    });
    let ok = matches!(&tree, Ok(Ok((l, again))) if again == &was && {
        let (mut a, mut b) = (l.clone(), holds.to_vec());
        a.sort_by(|x, y| x.partial_cmp(y).unwrap());
        b.sort_by(|x, y| x.partial_cmp(y).unwrap());
        a == b
    });
    m.expect("the written form holds the settings", input, ok, || format!("{:?}, expected {:?}", tree, holds));
    // a document with its last setting missing, or with one more, is not these settings
    if let Ok(v) = serde_json::to_value(&make()) {
        for (what, w) in mutations(&v) {
            // a mixture's component list has no fixed length: it is refused when the mixture is made
            if name == "mixture" && w["component_params"].as_array().map_or(false, |c| c.len() != 3) {
                continue;
            }
            m.step();
            let g = guarded(|| serde_json::from_value::<T>(w.clone()).map(|t| format!("{:?}", t)).map_err(|e| e.to_string()));
            m.expect("a document without one of the settings is refused", || format!("{} {} with {} {}", name, was, what, w), matches!(&g, Ok(Err(_))), || format!("{:?}", g));
        }
    }
}

/// Every document with exactly one entry of one array or object missing.
fn mutations(v: &serde_json::Value) -> Vec<(String, serde_json::Value)> {
    use serde_json::Value::*;
    let mut out = vec![];
    match v {
        Array(a) => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push((format!("entry {} missing", i), Array(b)));
                for (w, x) in mutations(&a[i]) {
                    let mut b = a.clone();
                    b[i] = x;
                    out.push((w, Array(b)));
                }
            }
        },
        Object(o) => {
            for k in o.keys() {
                let mut b = o.clone();
                b.remove(k);
                out.push((format!("{} missing", k), Object(b)));
                for (w, x) in mutations(&o[k]) {
                    let mut b = o.clone();
                    b.insert(k.clone(), x);
                    out.push((w, Object(b)));
                }
            }
        },
        Number(_) => out.push(("null".into(), Null)),
        _ => (),
    }
    out
}

fn words(a: &[f64], n: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|w| a.iter().map(move |x| { let mut u = w.clone(); u.push(*x); u })).collect();
    }
    v
}

fn arr<const K: usize>(x: &[f64]) -> [f64; K] {
    let mut a = [0.0; K];
    a.copy_from_slice(x);
    a
}

/// A sequence of the wrong length is refused as a fixed-length vector.
fn lengths<const K: usize>(m: &mut Mc) {
    for len in 0..=K + 2 {
        m.state();
        m.steps_add(2);
        let doc = serde_json::to_string(&vec![0.25; len]).unwrap();
        let g = guarded(|| serde_json::from_str::<SimplexVector<K>>(&doc).map(|s| s.to_vec()).map_err(|e| e.to_string()));
        m.expect("a sequence is read exactly when it has the right length", || format!("weights of length {} from {}", K, doc), matches!(&g, Ok(r) if r.is_ok() == (len == K)), || format!("{:?}", g));
        let g = guarded(|| serde_json::from_str::<Concentrations<K>>(&doc).map(|s| s.0.to_vec()).map_err(|e| e.to_string()));
        m.expect("a sequence is read exactly when it has the right length", || format!("concentrations of length {} from {}", K, doc), matches!(&g, Ok(r) if r.is_ok() == (len == K)), || format!("{:?}", g));
    }
    // bounded alphabet, every word: order and values are kept
    for w in words(&[0.0, 0.25, 0.5, 1.0], K.min(4)) {
        let mut full = w.clone();
        full.resize(K, 0.125);
        trip(m, "weights", || SimplexVector::<K>::new_unchecked(arr(&full)), &full);
        trip(m, "concentrations", || Concentrations::<K>(arr(&full)), &full);
    }
}

/// Mixtures: the settings of every mixture of up to three normals over a small alphabet, and the
/// mixture rebuilt from the settings read back gives the same probabilities.
fn mixtures(m: &mut Mc) {
    let ws = [[1.0, 0.0, 0.0], [0.25, 0.25, 0.5], [0.0, 0.5, 0.5], [0.125, 0.75, 0.125]];
    for w in ws {
        for mus in words(&[-3.5, 0.0, 2.75], 3) {
            for v in words(&[0.5, 1.0], 3) {
                let comps = || [0, 1, 2].map(|i| uv::normal::Normal::new(mus[i], v[i]).unwrap());
                let mix = || Mixture::new(w, comps()).unwrap();
                let mut holds = w.to_vec();
                (0..3).for_each(|i| holds.extend([mus[i], v[i]]));
                trip(m, "mixture", || mix().params(), &holds);
                m.step();
                let g = guarded(|| {
                    let text = serde_json::to_string(&mix().params()).map_err(|e| e.to_string())?;
                    let back: <Mixture<3, uv::normal::Normal> as Distribution>::Params = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                    let again: Mixture<3, uv::normal::Normal> = back.into();
                    Ok::<_, String>([-4.0, 0.0, 1.0, 3.0].map(|x| (again.cdf(&x).unwrap(), again.pdf(&x))))
                });
                for k in [0, 1, 2, 4] {
                    m.step();
                    let g = guarded(|| {
                        let mut p = mix().params();
                        while p.component_params.len() > k {
                            p.component_params.pop();
                        }
                        while p.component_params.len() < k {
                            p.component_params.push(comps()[0].params());
                        }
                        let again: Mixture<3, uv::normal::Normal> = p.into();
                        again.cdf(&0.0).unwrap()
                    });
                    m.expect("a mixture is not made of the wrong number of components", || format!("{} components for weights {:?}", k, w), g.is_err(), || format!("{:?}", g));
                }
                let want = [-4.0, 0.0, 1.0, 3.0].map(|x| (mix().cdf(&x).unwrap(), mix().pdf(&x)));
                m.expect("a distribution rebuilt from the settings read back is the same", || format!("mixture {:?} {:?} {:?}", w, mus, v), g == Ok(Ok(want)), || format!("{:?} expected {:?}", g, want));
            }
        }
    }
}

fn settings(m: &mut Mc) {
    m.bound("every serialisable parameter, parameter set, gradient and probability type; every word of settings over alphabets of 4-7 (thorough: 8-11) exactly printed values; every document with one entry missing or null; fixed-length vectors of length 0-5 and 40 against sequences of every length up to two more");
    let k = if m.thorough() { usize::MAX } else { 0 };
    let (xs, pos) = (&X[..k.clamp(7, X.len())], &POS[..k.clamp(5, POS.len())]);
    let (ns, ps) = (&N[..k.clamp(4, N.len())], &P[..k.clamp(5, P.len())]);
    for &x in xs {
        trip(m, "location", || Loc(x), &[x]);
        trip(m, "scale", || Scale(x), &[x]);
        trip(m, "shape", || Shape(x), &[x]);
        trip(m, "rate", || Rate(x), &[x]);
        trip(m, "degrees of freedom", || DOF(x), &[x]);
        trip(m, "correlation", || Corr(x), &[x]);
        trip(m, "covariance", || Covariance(x), &[x]);
        for &y in xs {
            trip(m, "pair location", || Loc([x, y]), &[x, y]);
            trip(m, "univariate gradient", || UvNormalGrad { mu: x, Sigma: y }, &[x, y]);
            trip(m, "diagonal gradient", || DiagonalNormalGrad::<2> { mu: [x, y], Sigma: [y, 1.0] }, &[x, y, y, 1.0]);
            trip(m, "bivariate gradient", || BvNormalGrad { mu: [x, 2.0], Sigma: ([y, 3.0], 4.0) }, &[x, 2.0, y, 3.0, 4.0]);
        }
    }
    for &n in ns {
        let f = n as f64;
        trip(m, "count", || Count(n), &[f]);
        trip(m, "chi", || uv::chi::Params::new(n).unwrap(), &[f]);
        trip(m, "chi squared", || uv::chi_sq::Params::new(n).unwrap(), &[f]);
        for &k in ns {
            trip(m, "f", || uv::f_dist::Params::new(n, k).unwrap(), &[f, k as f64]);
        }
        for &x in pos {
            trip(m, "erlang", || uv::erlang::Params::new(n, x).unwrap(), &[f, x]);
            for &y in pos {
                trip(m, "beta-binomial", || uv::beta_binomial::Params::new(n, x, y).unwrap(), &[f, x, y]);
            }
        }
        for &p in ps {
            trip(m, "binomial", || uv::binomial::Params { n: Count(n), p: Probability::new(p).unwrap() }, &[f, p]);
        }
        for w in words(ps, 3) {
            trip(m, "multinomial", || multivariate::multinomial::Params::<3>::new_unchecked(n, arr(&w)), &[f, w[0], w[1], w[2]]);
        }
    }
    for &p in ps {
        trip(m, "probability", || Probability::new(p).unwrap(), &[p]);
        trip(m, "bernoulli", || uv::bernoulli::Params { p: Probability::new(p).unwrap() }, &[p]);
        trip(m, "geometric", || uv::geometric::Params { p: Probability::new(p).unwrap() }, &[p]);
    }
    for w in words(ps, 3) {
        trip(m, "categorical", || uv::categorical::Params::<3>::new_unchecked(arr(&w)), &w);
    }
    for &a in pos {
        trip(m, "exponential", || uv::exponential::Params::new(a).unwrap(), &[a]);
        trip(m, "frechet", || uv::frechet::Params::new(a).unwrap(), &[a]);
        trip(m, "poisson", || uv::poisson::Params::new(a).unwrap(), &[a]);
        trip(m, "rayleigh", || uv::rayleigh::Params::new(a).unwrap(), &[a]);
        trip(m, "student", || uv::student_t::Params::new(a).unwrap(), &[a]);
        for &b in pos {
            trip(m, "pareto", || uv::pareto::Params::new(a, b).unwrap(), &[a, b]);
            trip(m, "inverse normal", || uv::inverse_normal::Params::new(a, b).unwrap(), &[a, b]);
            trip(m, "weibull", || uv::weibull::Params::new(a, b).unwrap(), &[a, b]);
            trip(m, "gamma", || uv::gamma::Params::new(a, b).unwrap(), &[a, b]);
            trip(m, "beta", || uv::beta::Params::new(a, b).unwrap(), &[a, b]);
            trip(m, "inverse gamma", || uv::inverse_gamma::Params::new(a, b).unwrap(), &[a, b]);
            trip(m, "beta prime", || uv::beta_prime::Params::new(a, b).unwrap(), &[a, b]);
            trip(m, "kumaraswamy", || uv::kumaraswamy::Params::new(a, b).unwrap(), &[a, b]);
            trip(m, "isotropic normal", || IsotropicNormalParams::<2>::isotropic([a, b], a).unwrap(), &[a, b, a]);
            for &mu in xs {
                trip(m, "generalised extreme value", || uv::gev::Params::new(mu, a, b).unwrap(), &[mu, a, b]);
                trip(m, "generalised pareto", || uv::gpd::Params::new(mu, a, b).unwrap(), &[mu, a, b]);
                trip(m, "triangular", || uv::triangular::Params::new(mu, a, b).unwrap(), &[mu, a, b]);
                trip(m, "paired normal", || PairedNormalParams::paired([mu, b], [a, b]).unwrap(), &[mu, b, a, b]);
                trip(m, "diagonal normal", || DiagonalNormalParams::<3>::diagonal([mu, a, b], [a, b, 1.0]).unwrap(), &[mu, a, b, a, b, 1.0]);
                for rho in [-0.5, 0.0, 0.75] {
                    trip(m, "bivariate normal", || BvNormalParams::bivariate([mu, 1.0], [a, b], rho).unwrap(), &[mu, 1.0, a, b, rho]);
                }
                trip(m, "multivariate normal", || MvNormalParams::<2>::multivariate([mu, 1.0], [[a, 0.25], [0.125, b]]).unwrap(), &[mu, 1.0, a, 0.25, 0.125, b]);
            }
        }
        for &mu in xs {
            trip(m, "cauchy", || uv::cauchy::Params::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "cosine", || uv::cosine::Params::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "arcsine", || uv::arcsine::Params::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "folded normal", || uv::folded_normal::Params::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "levy", || uv::levy::Params::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "gumbel", || uv::gumbel::Params::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "laplace", || uv::laplace::Params::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "logistic", || uv::logistic::Params::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "uniform", || uv::uniform::Params::<f64>::new(mu, a).unwrap(), &[mu, a]);
            trip(m, "normal", || UvNormalParams::new(mu, a).unwrap(), &[mu, a]);
        }
    }
    mixtures(m);
    lengths::<0>(m);
    lengths::<1>(m);
    lengths::<2>(m);
    lengths::<3>(m);
    lengths::<5>(m);
    lengths::<40>(m);
}

fn main() {
    let (prop, tier, only) = kit::args();
    let mut m = Mc::new(&prop, tier, only);
    m.assume("the sibling crate `spaces` (absent here) behaves as the stand-in in /verif/standin/spaces");
    m.explore(|m| match prop.as_str() {
        "S01" => settings(m),
        p => panic!("unknown property {}", p),
    });
    std::process::exit(m.finish(true));
}
