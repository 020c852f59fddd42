//! D11: constructors accept exactly the valid settings, and parameters survive every
//! path into and out of a distribution.
use crate::case::{base, Case, Ref, R};
use kit::rng::Script;
use kit::{guarded, near, Mc};
use rstat::params::{Param, Scale};
use rstat::{univariate as uv, Distribution, Probability};
use std::cell::RefCell;

/// (value, valid, ordinary): extraordinary values are constructed but not evaluated.
type Letter = (f64, bool, bool);

fn alphabet(kind: &str) -> Vec<Letter> {
    const N: f64 = f64::NAN;
    const I: f64 = f64::INFINITY;
    match kind {
        "L" => vec![(-3.5, true, true), (0.0, true, true), (2.0, true, true), (1e300, true, false)],
        "S" => vec![
            (0.25, true, true), (1.0, true, true), (3.0, true, true), (f64::MIN_POSITIVE, true, false), (1e300, true, false),
            (0.0, false, false), (-0.0, false, false), (-1.0, false, false), (-I, false, false), (N, false, false), (-1e-300, false, false),
        ],
        "K" => vec![(1.0, true, true), (2.0, true, true), (5.0, true, true), (300.0, true, true), (1e9, true, false), (5e9, true, false), (9e15, true, false), (0.0, false, false)],
        "N" => vec![(1.0, true, true), (5.0, true, true), (300.0, true, true), (0.0, true, false), (1e9, true, false), (5e9, true, false), (9e15, true, false)],
        "P" => vec![
            (0.25, true, true), (0.5, true, true), (0.0, true, false), (1.0, true, false),
            (-0.25, false, false), (1.0000001, false, false), (-1e-300, false, false), (I, false, false), (-I, false, false), (N, false, false),
        ],
        "I" => vec![(-4.0, true, true), (0.0, true, true), (3.0, true, true), (-5e9, true, false), (9e15, true, false)],
        "J" => vec![(1.0, true, true), (3.0, true, true), (300.0, true, true), (70000.0, true, true), (5e9, true, false), (9e15, true, false), (0.0, false, false), (-1.0, false, false)],
        k => panic!("kind {}", k),
    }
}

fn words(a: &[Vec<Letter>]) -> Vec<Vec<Letter>> {
    let mut v = vec![vec![]];
    for l in a {
        v = v.into_iter().flat_map(|w: Vec<Letter>| l.iter().map(move |x| { let mut u = w.clone(); u.push(*x); u })).collect();
    }
    v
}

macro_rules! conv {
    (L, $x:expr) => { $x };
    (S, $x:expr) => { $x };
    (P, $x:expr) => { $x };
    (K, $x:expr) => { $x as usize };
    (N, $x:expr) => { $x as usize };
    (I, $x:expr) => { $x as i64 };
    (J, $x:expr) => { $x as i64 };
}

fn dummy() -> Ref { crate::cases::cont(0.0, 1.0, 0.5, 0.5, |_| 0.0) }

/// Everything a user can see of one instance.
pub fn probe(c: &Case) -> Vec<(String, R<f64>)> {
    let mut o = vec![];
    for x in [-7.0, -3.5, -1.0, 0.0, 0.3, 0.5, 1.0, 2.0, 2.5, 5.0, 11.0] {
        o.push((format!("cdf({})", x), (c.cdf)(x)));
        o.push((format!("support contains {}", x), (c.contains)(x).map(|b| b as u8 as f64)));
        if let Some(d) = &c.density {
            o.push((format!("density({})", x), d(x)));
        }
    }
    if let Some(m) = &c.moments {
        o.push(("mean".into(), (m.mean)()));
        o.push(("variance".into(), (m.variance)()));
        o.push(("skewness".into(), (m.skewness)()));
        o.push(("kurtosis".into(), (m.kurtosis)()));
    }
    if let Some(q) = &c.quantiles {
        for p in [0.125, 0.5, 0.9] {
            o.push((format!("quantile({})", p), (q.quantile)(p)));
        }
        o.push(("median".into(), (q.median)()));
    }
    if let Some(f) = &c.modes {
        match f() {
            Ok(v) => v.into_iter().for_each(|x| o.push(("mode".into(), Ok(x)))),
            Err(e) => o.push(("mode".into(), Err(e))),
        }
    }
    if let Some(f) = &c.entropy {
        o.push(("entropy".into(), f()));
    }
    for first in 0..4 {
        let ch = RefCell::new(vec![first, 2, 1, 3, 0, 2, 1, 3, 2, 0, 1, 1, 2, 3]);
        let mut s = Script { choices: &ch, widths: &[4], alphabet: &[], pos: 0, limit: 14 };
        o.push((format!("sample on script {}", first), (c.sample)(&mut s)));
    }
    o
}

fn agree(a: &[(String, R<f64>)], b: &[(String, R<f64>)]) -> Option<String> {
    if a.len() != b.len() {
        return Some("different shape".into());
    }
    for (x, y) in a.iter().zip(b) {
        let ok = match (&x.1, &y.1) {
            (Ok(u), Ok(v)) => near(*u, *v, 1e-12, 1e-300),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !ok {
            return Some(format!("{}: {:?} against {:?}", x.0, x.1, y.1));
        }
    }
    None
}

fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| (x + 0.0).to_bits()).collect() }

/// The normal parameters are an alias without an unchecked constructor of their own.
trait RawParams { fn new_unchecked(mu: f64, sigma: f64) -> Self; }
impl RawParams for uv::normal::Params {
    fn new_unchecked(mu: f64, sigma: f64) -> Self {
        uv::normal::Params { mu: rstat::params::Loc(mu), Sigma: rstat::normal::Covariance(sigma) }
    }
}

macro_rules! family {
    ($m:expr, $name:expr, $D:ty, $P:ty, ($($f:ident : $k:ident),*), $new:expr, $raw:expr, [$($view:ident)*]) => {{
        let m: &mut Mc = $m;
        m.at($name);
        let alpha = vec![$(alphabet(stringify!($k))),*];
        for w in words(&alpha) {
            let valid = w.iter().all(|l| l.1);
            let ordinary = w.iter().all(|l| l.2);
            let vals: Vec<f64> = w.iter().map(|l| l.0).collect();
            let input = || format!("{}{:?}", $name, vals);
            m.state();
            m.trace();
            #[allow(unused_mut, unused_assignments)]
            macro_rules! args {
                ($call:expr) => {{
                    let mut it = vals.iter();
                    $( let $f = conv!($k, *it.next().unwrap()); )*
                    ($call)($($f),*)
                }};
            }
            m.step();
            let p = guarded(|| args!(<$P>::new).ok());
            m.expect("parameter set accepts exactly the valid settings", input, matches!(&p, Ok(x) if x.is_some() == valid), || {
                match &p { Ok(Some(_)) => "accepted".into(), Ok(None) => "refused".into(), Err(e) => e.clone() }
            });
            m.step();
            let d: R<Option<$D>> = guarded(|| args!($new).ok());
            m.expect("constructor accepts exactly the valid settings", input, matches!(&d, Ok(x) if x.is_some() == valid), || {
                match &d { Ok(Some(_)) => "accepted".into(), Ok(None) => "refused".into(), Err(e) => e.clone() }
            });
            m.outcome(&format!("{} {:?}", $name, d.as_ref().map(|x| x.is_some()).ok()));
            let (p, d) = match (p, d) {
                (Ok(Some(p)), Ok(Some(d))) if valid => (p, d),
                _ => continue,
            };
            let show = |p: &$P| -> Vec<f64> { vec![$( *Param::value(&p.$f) as f64 ),*] };
            let seen: Vec<(&str, R<Vec<f64>>)> = vec![
                ("Params::new", Ok(show(&p))),
                ("Params::new_unchecked", guarded(|| show(&args!(<$P>::new_unchecked)))),
                ("params()", guarded(|| show(&d.params()))),
                ("into_params()", guarded(|| show(&d.clone().into_params()))),
                ("params() of new_unchecked", guarded(|| { let e: $D = args!($raw); show(&e.params()) })),
                ("params() of from(params)", guarded(|| show(&<$D>::from(p.clone()).params()))),
            ];
            for (path, got) in seen {
                m.step();
                m.expect("parameters are reported as given", || format!("{} by {}", input(), path), matches!(&got, Ok(v) if bits(v) == bits(&vals)), || format!("{:?}", got));
            }
            if !ordinary {
                continue;
            }
            let text = guarded(|| (format!("{}", d), format!("{:?}", d)));
            m.expect("prints", input, matches!(&text, Ok((a, b)) if !a.is_empty() && !b.is_empty()), || format!("{:?}", text));
            let views: Vec<(&str, R<$D>)> = vec![
                ("new", Ok(d.clone())),
                ("new_unchecked", guarded(|| args!($raw))),
                ("from(params)", guarded(|| <$D>::from(p.clone()))),
                ("from(params())", guarded(|| <$D>::from(d.params()))),
                ("from(into_params())", guarded(|| <$D>::from(d.clone().into_params()))),
            ];
            let mut first: Option<Vec<(String, R<f64>)>> = None;
            for (path, v) in views {
                m.step();
                let c = match v {
                    Ok(v) => base($name, String::new(), v, dummy())$(.$view())*.c,
                    Err(e) => {
                        m.expect("every way of construction gives the same distribution", || format!("{} by {}", input(), path), false, || e);
                        continue;
                    },
                };
                let o = probe(&c);
                for (_, r) in &o {
                    if let Ok(x) = r { m.outcome_f(*x) }
                }
                match &first {
                    None => first = Some(o),
                    Some(f) => {
                        let diff = agree(f, &o);
                        m.expect("every way of construction gives the same distribution", || format!("{} by {}", input(), path), diff.is_none(), || diff.unwrap_or_default());
                    },
                }
            }
        }
    }};
}

macro_rules! defaults {
    ($m:expr, $($name:expr, $D:ty, $P:ty, ($($f:ident = $v:expr),*), [$($view:ident)*];)*) => {{
        let m: &mut Mc = $m;
        $({
            m.at($name);
            m.state();
            m.step();
            m.trace();
            let d = guarded(|| <$D>::default());
            match d {
                Err(e) => { m.expect("the default is a valid setting", || $name.into(), false, || e); },
                Ok(d) => {
                    let p = d.params();
                    // location zero, scale, rate and shapes one
                    m.expect("the default is the standard member of the family", || $name.into(), true $( && *Param::value(&p.$f) as f64 == $v)*, || format!("{:?}", p));
                    let q = guarded(|| <$P>::new($( Param::value(&p.$f).clone() ),*).ok());
                    m.expect("the default is a valid setting", || $name.into(), matches!(&q, Ok(Some(_))), || "its own parameters are refused".into());
                    if let Ok(Some(q)) = q {
                        let a = probe(&base($name, String::new(), d, dummy())$(.$view())*.c);
                        let b = probe(&base($name, String::new(), <$D>::from(q), dummy())$(.$view())*.c);
                        let diff = agree(&a, &b);
                        m.expect("the default is the distribution with its own parameters", || $name.into(), diff.is_none(), || diff.unwrap_or_default());
                    }
                },
            }
        })*
    }};
}

/// D11
pub fn params(m: &mut Mc) {
    m.bound("39 families; every word over per-kind alphabets (positive scale / shape / rate: 5 valid and 6 invalid values including signed zeros, negative numbers, minus infinity and NaN; counts and degrees of freedom; probabilities: 4 valid and 6 invalid values); five ways of construction compared on 40-60 observations each");
    family!(m, "arcsine", uv::arcsine::Arcsine, uv::arcsine::Params, (a: L, w: S), uv::arcsine::Arcsine::new, uv::arcsine::Arcsine::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "beta", uv::beta::Beta, uv::beta::Params, (alpha: S, beta: S), uv::beta::Beta::new, uv::beta::Beta::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "beta_prime", uv::beta_prime::BetaPrime, uv::beta_prime::Params, (alpha: S, beta: S), uv::beta_prime::BetaPrime::new, uv::beta_prime::BetaPrime::new_unchecked, [pdf mom mode ent]);
    family!(m, "cauchy", uv::cauchy::Cauchy, uv::cauchy::Params, (x0: L, gamma: S), uv::cauchy::Cauchy::new, uv::cauchy::Cauchy::new_unchecked, [pdf quant mode ent]);
    family!(m, "chi", uv::chi::Chi, uv::chi::Params, (k: K), uv::chi::Chi::new, uv::chi::Chi::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "chi_sq", uv::chi_sq::ChiSq, uv::chi_sq::Params, (k: K), uv::chi_sq::ChiSq::new, uv::chi_sq::ChiSq::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "cosine", uv::cosine::Cosine, uv::cosine::Params, (mu: L, s: S), uv::cosine::Cosine::new, uv::cosine::Cosine::new_unchecked, [pdf mom quant mode]);
    family!(m, "erlang", uv::erlang::Erlang, uv::erlang::Params, (k: K, lambda: S), uv::erlang::Erlang::new, uv::erlang::Erlang::new_unchecked, [pdf mom mode]);
    family!(m, "exponential", uv::exponential::Exponential, uv::exponential::Params, (lambda: S), uv::exponential::Exponential::new, uv::exponential::Exponential::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "f_dist", uv::f_dist::FDist, uv::f_dist::Params, (d1: K, d2: K), uv::f_dist::FDist::new, uv::f_dist::FDist::new_unchecked, [pdf mom mode ent]);
    family!(m, "folded_normal", uv::folded_normal::FoldedNormal, uv::folded_normal::Params, (mu: L, sigma: S), uv::folded_normal::FoldedNormal::new, uv::folded_normal::FoldedNormal::new_unchecked, [pdf mom mode]);
    family!(m, "frechet", uv::frechet::Frechet, uv::frechet::Params, (alpha: S), uv::frechet::Frechet::new, uv::frechet::Frechet::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "gamma", uv::gamma::Gamma, uv::gamma::Params, (alpha: S, beta: S), uv::gamma::Gamma::new, uv::gamma::Gamma::new_unchecked, [pdf mom mode ent]);
    family!(m, "gev", uv::gev::GeneralisedExtremeValue, uv::gev::Params, (mu: L, sigma: S, zeta: S), uv::gev::GeneralisedExtremeValue::new, uv::gev::GeneralisedExtremeValue::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "gpd", uv::gpd::GeneralisedPareto, uv::gpd::Params, (mu: L, sigma: S, zeta: S), uv::gpd::GeneralisedPareto::new, uv::gpd::GeneralisedPareto::new_unchecked, [pdf mom quant ent]);
    family!(m, "gumbel", uv::gumbel::Gumbel, uv::gumbel::Params, (mu: L, beta: S), uv::gumbel::Gumbel::new, uv::gumbel::Gumbel::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "inverse_gamma", uv::inverse_gamma::InvGamma, uv::inverse_gamma::Params, (alpha: S, beta: S), uv::inverse_gamma::InvGamma::new, uv::inverse_gamma::InvGamma::new_unchecked, [pdf mom mode ent]);
    family!(m, "inverse_normal", uv::inverse_normal::InvNormal, uv::inverse_normal::Params, (mu: S, lambda: S), uv::inverse_normal::InvNormal::new, uv::inverse_normal::InvNormal::new_unchecked, [pdf mom mode ent]);
    family!(m, "kumaraswamy", uv::kumaraswamy::Kumaraswamy, uv::kumaraswamy::Params, (a: S, b: S),
        |a, b| uv::kumaraswamy::Params::new(a, b).map(uv::kumaraswamy::Kumaraswamy::from),
        |a, b| uv::kumaraswamy::Kumaraswamy::from(uv::kumaraswamy::Params::new_unchecked(a, b)), [pdf mom quant mode ent]);
    family!(m, "laplace", uv::laplace::Laplace, uv::laplace::Params, (mu: L, b: S), uv::laplace::Laplace::new, uv::laplace::Laplace::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "levy", uv::levy::Levy, uv::levy::Params, (mu: L, c: S), uv::levy::Levy::new, uv::levy::Levy::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "logistic", uv::logistic::Logistic, uv::logistic::Params, (mu: L, s: S), uv::logistic::Logistic::new, uv::logistic::Logistic::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "lognormal", uv::lognormal::LogNormal, uv::normal::Params, (mu: L, Sigma: S), uv::lognormal::LogNormal::new, uv::lognormal::LogNormal::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "normal", uv::normal::Normal, uv::normal::Params, (mu: L, Sigma: S), uv::normal::Normal::new, uv::normal::Normal::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "pareto", uv::pareto::Pareto, uv::pareto::Params, (x_m: S, alpha: S), uv::pareto::Pareto::new, uv::pareto::Pareto::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "rayleigh", uv::rayleigh::Rayleigh, uv::rayleigh::Params, (sigma: S), uv::rayleigh::Rayleigh::new, uv::rayleigh::Rayleigh::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "student_t", uv::student_t::StudentT, uv::student_t::Params, (nu: S), uv::student_t::StudentT::new, uv::student_t::StudentT::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "triangular", uv::triangular::Triangular, uv::triangular::Params, (a: L, a2c: S, c2b: S), uv::triangular::Triangular::new, uv::triangular::Triangular::new_unchecked, [pdf mom quant mode ent]);
    family!(m, "uniform", uv::uniform::Uniform<f64>, uv::uniform::Params<f64>, (lb: L, width: S), uv::uniform::Uniform::<f64>::new, uv::uniform::Uniform::<f64>::new_unchecked, [pdf mom quant ent]);
    family!(m, "uniform_int", uv::uniform::Uniform<i64>, uv::uniform::Params<i64>, (lb: I, width: J),
        |l, w: i64| uv::uniform::Uniform::<i64>::new(l, w as u64), |l, w: i64| uv::uniform::Uniform::<i64>::new_unchecked(l, w as u64), [pmf mom quant ent]);
    family!(m, "weibull", uv::weibull::Weibull, uv::weibull::Params, (lambda: S, k: S),
        |a, b| uv::weibull::Params::new(a, b).map(uv::weibull::Weibull::from),
        |a, b| uv::weibull::Weibull::from(uv::weibull::Params::new_unchecked(a, b)), [pdf mom quant mode ent]);
    family!(m, "bernoulli", uv::bernoulli::Bernoulli, uv::bernoulli::Params, (p: P), uv::bernoulli::Bernoulli::new, uv::bernoulli::Bernoulli::new_unchecked, [pmf mom quant mode ent]);
    family!(m, "geometric", uv::geometric::Geometric, uv::geometric::Params, (p: P), uv::geometric::Geometric::new, uv::geometric::Geometric::new_unchecked, [pmf mom quant mode ent]);
    family!(m, "poisson", uv::poisson::Poisson, uv::poisson::Params, (lambda: S), uv::poisson::Poisson::new, uv::poisson::Poisson::new_unchecked, [pmf mom quant mode ent]);
    family!(m, "beta_binomial", uv::beta_binomial::BetaBinomial, uv::beta_binomial::Params, (n: N, alpha: S, beta: S), uv::beta_binomial::BetaBinomial::new, uv::beta_binomial::BetaBinomial::new_unchecked, [pmf mom]);
    family!(m, "binomial", uv::binomial::Binomial, uv::binomial::Params, (n: N, p: P),
        |n, p| uv::binomial::Binomial::new(n, Probability::new_unchecked(p)), |n, p| uv::binomial::Binomial::new_unchecked(n, Probability::new_unchecked(p)), [pmf mom quant mode ent]);

    defaults!(m,
        "arcsine", uv::arcsine::Arcsine, uv::arcsine::Params, (a = 0.0, w = 1.0), [pdf mom quant mode ent];
        "beta", uv::beta::Beta, uv::beta::Params, (alpha = 1.0, beta = 1.0), [pdf mom quant mode ent];
        "beta_prime", uv::beta_prime::BetaPrime, uv::beta_prime::Params, (alpha = 1.0, beta = 1.0), [pdf mom mode ent];
        "cauchy", uv::cauchy::Cauchy, uv::cauchy::Params, (x0 = 0.0, gamma = 1.0), [pdf quant mode ent];
        "erlang", uv::erlang::Erlang, uv::erlang::Params, (k = 1.0, lambda = 1.0), [pdf mom mode];
        "exponential", uv::exponential::Exponential, uv::exponential::Params, (lambda = 1.0), [pdf mom quant mode ent];
        "folded_normal", uv::folded_normal::FoldedNormal, uv::folded_normal::Params, (mu = 0.0, sigma = 1.0), [pdf mom mode];
        "frechet", uv::frechet::Frechet, uv::frechet::Params, (alpha = 1.0), [pdf mom quant mode ent];
        "gamma", uv::gamma::Gamma, uv::gamma::Params, (alpha = 1.0, beta = 1.0), [pdf mom mode ent];
        "gumbel", uv::gumbel::Gumbel, uv::gumbel::Params, (mu = 0.0, beta = 1.0), [pdf mom quant mode ent];
        "inverse_gamma", uv::inverse_gamma::InvGamma, uv::inverse_gamma::Params, (alpha = 1.0, beta = 1.0), [pdf mom mode ent];
        "kumaraswamy", uv::kumaraswamy::Kumaraswamy, uv::kumaraswamy::Params, (a = 1.0, b = 1.0), [pdf mom quant mode ent];
        "uniform", uv::uniform::Uniform<f64>, uv::uniform::Params<f64>, (lb = 0.0, width = 1.0), [pdf mom quant ent];
    );
    named(m);
}

/// Named constructors and parameter views.
fn named(m: &mut Mc) {
    let site = "named constructors and views";
    let locs = [-3.5, 0.0, 2.0];
    let invalid = [0.0, -0.0, -1.0, f64::NAN, f64::NEG_INFINITY];
    for a in locs {
        for w in [0.25, 1.0, 3.0] {
            m.state();
            m.steps_add(6);
            let p = uv::arcsine::Params::new(a, w).map(|p| p.b().0).map_err(|e| e.to_string());
            m.close(site, || format!("arcsine b({},{})", a, w), &p, a + w, 0.0, 0.0);
            let s = uv::triangular::Params::symmetric(a, a + w).map_err(|e| e.to_string());
            m.expect(site, || format!("triangular symmetric({},{})", a, a + w), matches!(&s, Ok(p) if p.a.0 == a && near(p.a2c.0, w / 2.0, 1e-12, 0.0) && near(p.c2b.0, w / 2.0, 1e-12, 0.0)), || format!("{:?}", s));
            let s = guarded(|| uv::triangular::Params::symmetric(a, a - w).is_err());
            m.expect(site, || format!("triangular symmetric({},{})", a, a - w), s == Ok(true), || format!("{:?}", s));
            for v in [0.25, 2.0] {
                let p = uv::triangular::Params::new_unchecked(a, w, v);
                m.close(site, || format!("triangular c({},{},{})", a, w, v), &Ok(p.c()), a + w, 1e-15, 0.0);
                m.close(site, || format!("triangular b({},{},{})", a, w, v), &Ok(p.b()), a + w + v, 1e-15, 0.0);
            }
            let p = uv::uniform::Params::<f64>::new_unchecked(a, w);
            m.expect(site, || format!("uniform views({},{})", a, w), p.lb().0 == a && p.width().0 == w, || format!("{:?}", p));
            // standardisation
            let n = uv::normal::Normal::new_unchecked(a, w);
            m.close(site, || format!("normal precision({},{})", a, w), &Ok(n.precision()), 1.0 / w, 1e-14, 0.0);
            let l = guarded(|| {
                use rstat::ContinuousDistribution;
                let (l, d) = (uv::lognormal::LogNormal::from(n), uv::lognormal::LogNormal::new(a, w).unwrap());
                let p = l.params();
                p.mu.0 == a && p.Sigma.0 == w && [0.0, 0.25, 1.0, 5.0].iter().all(|x| l.pdf(x) == d.pdf(x) && l.cdf(x) == d.cdf(x))
            });
            m.expect(site, || format!("log-normal of normal({},{})", a, w), l == Ok(true), || format!("{:?}", l));
            let f = uv::folded_normal::FoldedNormal::new_unchecked(a, w);
            m.close(site, || format!("folded normal precision({},{})", a, w), &Ok(f.precision()), 1.0 / (w * w), 1e-14, 0.0);
            let g = uv::gumbel::Gumbel::new_unchecked(a, w);
            for x in [-5.0, 0.0, 0.3, 7.0] {
                m.close(site, || format!("normal z({},{}) at {}", a, w, x), &Ok(n.z(x)), (x - a) / w.sqrt(), 1e-14, 0.0);
                m.close(site, || format!("gumbel z({},{}) at {}", a, w, x), &Ok(g.z(x)), (x - a) / w, 1e-14, 0.0);
            }
        }
        for w in invalid {
            m.state();
            m.step();
            let s = guarded(|| uv::triangular::Params::symmetric(a, a + w).is_err());
            m.expect(site, || format!("triangular symmetric({},{})", a, a + w), s == Ok(true), || format!("{:?}", s));
        }
    }
    let std = uv::normal::Normal::standard().params();
    m.expect(site, || "normal standard".into(), std.mu.0 == 0.0 && std.Sigma.0 == 1.0, || format!("{:?}", std));
    let std = uv::folded_normal::FoldedNormal::standard().params();
    m.expect(site, || "folded normal standard".into(), std.mu.0 == 0.0 && std.sigma.0 == 1.0, || format!("{:?}", std));
    for s in [0.25, 1.0, 3.0] {
        m.state();
        m.step();
        let h = uv::folded_normal::FoldedNormal::half_normal(Scale(s)).params();
        m.expect(site, || format!("half normal {}", s), h.mu.0 == 0.0 && h.sigma.0 == s, || format!("{:?}", h));
    }
    // point masses: any location
    for k in [-7i64, 0, 3, i64::MAX, i64::MIN] {
        m.state();
        m.step();
        let d = uv::degenerate::Degenerate::<i64>::new(k);
        let e = uv::degenerate::Degenerate::<i64>::from(d.params());
        m.expect(site, || format!("point mass {}", k), d.params().0 == k && d.clone().into_params().0 == k && e.k.0 == k, || format!("{:?}", e));
        let (x, f) = (k as f64, uv::degenerate::Degenerate::<f64>::new(k as f64));
        let g = uv::degenerate::Degenerate::<f64>::from(f.params());
        m.expect(site, || format!("point mass {:e}", x), f.params().0 == x && f.clone().into_params().0 == x && g.k.0 == x, || format!("{:?}", g));
    }
    let z = uv::degenerate::Degenerate::<i64>::default();
    m.expect(site, || "point mass default".into(), z.k.0 == 0, || format!("{:?}", z));
    // category weights: every triple over a small alphabet
    let al = [0.0, 0.25, 0.5, 0.75, 1.0, -0.25, 1.25, f64::NAN];
    for a in al {
        for b in al {
            for c in al {
                m.state();
                m.step();
                let w = [a, b, c];
                let ok = w.iter().all(|x| *x >= 0.0 && *x <= 1.0) && (a + b + c - 1.0).abs() < 1e-12;
                let p = guarded(|| uv::categorical::Params::<3>::new(w).is_ok());
                m.expect("constructor accepts exactly the valid settings", || format!("categorical parameters {:?}", w), p == Ok(ok), || format!("{:?}", p));
                let d = guarded(|| uv::categorical::Categorical::<3>::new(w).ok());
                m.expect("constructor accepts exactly the valid settings", || format!("categorical {:?}", w), matches!(&d, Ok(x) if x.is_some() == ok), || format!("{:?}", d.as_ref().map(|x| x.is_some())));
                if let (true, Ok(Some(d))) = (ok, d) {
                    m.trace();
                    let views: Vec<(&str, [f64; 3])> = vec![
                        ("params()", *d.params().ps.value()),
                        ("into_params()", *d.clone().into_params().ps.value()),
                        ("new_unchecked", *uv::categorical::Categorical::<3>::new_unchecked(w).params().ps.value()),
                        ("from(params())", *uv::categorical::Categorical::<3>::from(d.params()).params().ps.value()),
                    ];
                    for (n, v) in views {
                        m.expect("parameters are reported as given", || format!("categorical {:?} by {}", w, n), v == w, || format!("{:?}", v));
                    }
                    let mut first = None;
                    for (n, e) in [("new", d.clone()), ("new_unchecked", uv::categorical::Categorical::<3>::new_unchecked(w)), ("from(params())", uv::categorical::Categorical::<3>::from(d.params()))] {
                        let o = probe(&base("categorical", String::new(), e, dummy()).pmf().mode().c);
                        match &first {
                            None => first = Some(o),
                            Some(f) => {
                                let diff = agree(f, &o);
                                m.expect("every way of construction gives the same distribution", || format!("categorical {:?} by {}", w, n), diff.is_none(), || diff.unwrap_or_default());
                            },
                        }
                    }
                }
            }
        }
    }
}
