//! D19: the printed form of a distribution shows exactly its settings.
use kit::{guarded, near, Mc};
use rstat::{multivariate as mv, normal, univariate as uv, Probability};
use std::collections::BTreeMap;

/// Every number of a text, in order.
pub fn numbers(s: &str) -> Vec<f64> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut o) = (0, vec![]);
    while i < c.len() {
        let start = i;
        let word = i > 0 && (c[i - 1].is_alphanumeric() || c[i - 1] == '.');
        if c[i] == '-' && i + 1 < c.len() {
            i += 1;
        }
        let rest: String = c[i..].iter().take(3).collect();
        if rest == "inf" || rest == "NaN" {
            i += 3;
        } else {
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            if i < c.len() && i > start && c[i - 1].is_ascii_digit() && (c[i] == 'e' || c[i] == 'E') {
                i += 1;
                while i < c.len() && (c[i].is_ascii_digit() || c[i] == '-') {
                    i += 1;
                }
            }
        }
        match c[start..i].iter().collect::<String>().parse::<f64>() {
            Ok(v) if !word => o.push(v),
            _ => i = i.max(start + 1),
        }
    }
    o
}

const LOC: &[f64] = &[-3.5, 0.0, 2.0, 1e6, -1.0 / 3.0, 1e-9, 1e300];
const POS: &[f64] = &[0.25, 1.0, 3.0, 1e-9, 2.0 / 3.0, 1e6, 1e300];
const SIGNED: &[f64] = &[-1.0, -0.1, 0.0, 0.25, 1.0, 1.0 / 3.0, 3.0];
const COUNT: &[f64] = &[1.0, 2.0, 5.0, 60.0, 1e9];
const PROB: &[f64] = &[0.0, 0.1, 0.25, 1.0 / 3.0, 0.5, 1.0, 1e-12];
const INT: &[f64] = &[-40.0, -1.0, 0.0, 3.0, 1e9];

fn cross(a: &[&[f64]]) -> Vec<Vec<f64>> {
    let mut v = vec![vec![]];
    for l in a {
        v = v.into_iter().flat_map(|w: Vec<f64>| l.iter().map(move |x| { let mut u = w.clone(); u.push(*x); u })).collect();
    }
    v
}

type Say<'a> = &'a dyn Fn(&[f64]) -> String;
type Want<'a> = &'a dyn Fn(&[f64]) -> Vec<f64>;

fn prints(m: &mut Mc, name: &str, settings: Vec<Vec<f64>>, say: Say, want: Want) {
    m.at(name);
    let mut seen: BTreeMap<String, Vec<f64>> = BTreeMap::new();
    for v in settings {
        m.state();
        m.trace();
        m.steps_add(2);
        let input = || format!("{}{:?}", name, v);
        let text = match guarded(|| say(&v)) {
            Ok(t) => t,
            Err(e) => {
                m.expect("a distribution can be printed", input, false, || e);
                continue;
            },
        };
        m.outcome(&text);
        let (got, want) = (numbers(&text), want(&v));
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b || near(*a, *b, 1e-14, 0.0));
        m.expect("the printed numbers are the settings in order", input, same, || format!("prints {:?}, settings {:?}", text, want));
        if let Some(u) = seen.insert(text.clone(), want.clone()) {
            // settings that differ by no more than the rounding of an end cannot be told apart
            let alike = u.len() == want.len() && u.iter().zip(&want).all(|(a, b)| a == b || near(*a, *b, 1e-14, 0.0));
            m.expect("distributions that print alike are alike", input, alike, || format!("{:?} prints the same {:?}", u, text));
        }
    }
}

/// D19
pub fn printing(m: &mut Mc) {
    m.bound("44 printable families and forms; every combination of up to seven values per setting (locations and scales from 1e-9 to 1e300, thirds, negative shapes, counts to 1e9, probabilities with both ends); vectors over a three-letter alphabet in dimensions 1 to 4");
    m.assume("ends of an interval stand for its location and width, as in the documented notation of the uniform, arcsine and triangular families");
    macro_rules! show {
        ($($name:expr, [$($l:expr),*], |$v:ident| $make:expr $(, $want:expr)?;)*) => {$({
            #[allow(unused_mut, unused_assignments)]
            let mut want: Box<dyn Fn(&[f64]) -> Vec<f64>> = Box::new(|v: &[f64]| v.to_vec());
            $( want = Box::new($want); )?
            prints(m, $name, cross(&[$($l),*]), &|$v: &[f64]| format!("{}", $make), &*want);
        })*};
    }
    let p = Probability::new_unchecked;
    show!(
        "arcsine", [LOC, POS], |v| uv::arcsine::Arcsine::new_unchecked(v[0], v[1]), |v: &[f64]| vec![v[0], v[0] + v[1]];
        "beta", [POS, POS], |v| uv::beta::Beta::new_unchecked(v[0], v[1]);
        "beta prime", [POS, POS], |v| uv::beta_prime::BetaPrime::new_unchecked(v[0], v[1]);
        "cauchy", [LOC, POS], |v| uv::cauchy::Cauchy::new_unchecked(v[0], v[1]);
        "chi", [COUNT], |v| uv::chi::Chi::new_unchecked(v[0] as usize);
        "chi squared", [COUNT], |v| uv::chi_sq::ChiSq::new_unchecked(v[0] as usize);
        "cosine", [LOC, POS], |v| uv::cosine::Cosine::new_unchecked(v[0], v[1]);
        "point mass", [LOC], |v| uv::degenerate::Degenerate::<f64>::new(v[0]);
        "integer point mass", [INT], |v| uv::degenerate::Degenerate::<i64>::new(v[0] as i64);
        "erlang", [COUNT, POS], |v| uv::erlang::Erlang::new_unchecked(v[0] as usize, v[1]);
        "exponential", [POS], |v| uv::exponential::Exponential::new_unchecked(v[0]);
        "f", [COUNT, COUNT], |v| uv::f_dist::FDist::new_unchecked(v[0] as usize, v[1] as usize);
        "folded normal", [LOC, POS], |v| uv::folded_normal::FoldedNormal::new_unchecked(v[0], v[1]);
        "frechet", [POS], |v| uv::frechet::Frechet::new_unchecked(v[0]);
        "gamma", [POS, POS], |v| uv::gamma::Gamma::new_unchecked(v[0], v[1]);
        "gev", [LOC, POS, SIGNED], |v| uv::gev::GeneralisedExtremeValue::new_unchecked(v[0], v[1], v[2]);
        "gpd", [LOC, POS, SIGNED], |v| uv::gpd::GeneralisedPareto::new_unchecked(v[0], v[1], v[2]);
        "gumbel", [LOC, POS], |v| uv::gumbel::Gumbel::new_unchecked(v[0], v[1]);
        "inverse gamma", [POS, POS], |v| uv::inverse_gamma::InvGamma::new_unchecked(v[0], v[1]);
        "inverse normal", [POS, POS], |v| uv::inverse_normal::InvNormal::new_unchecked(v[0], v[1]);
        "kumaraswamy", [POS, POS], |v| uv::kumaraswamy::Kumaraswamy::from(uv::kumaraswamy::Params::new_unchecked(v[0], v[1]));
        "laplace", [LOC, POS], |v| uv::laplace::Laplace::new_unchecked(v[0], v[1]);
        "levy", [LOC, POS], |v| uv::levy::Levy::new_unchecked(v[0], v[1]);
        "logistic", [LOC, POS], |v| uv::logistic::Logistic::new_unchecked(v[0], v[1]);
        "lognormal", [LOC, POS], |v| uv::lognormal::LogNormal::new_unchecked(v[0], v[1]);
        "normal", [LOC, POS], |v| uv::normal::Normal::new_unchecked(v[0], v[1]);
        "pareto", [POS, POS], |v| uv::pareto::Pareto::new_unchecked(v[0], v[1]);
        "rayleigh", [POS], |v| uv::rayleigh::Rayleigh::new_unchecked(v[0]);
        "student t", [POS], |v| uv::student_t::StudentT::new_unchecked(v[0]);
        "triangular", [LOC, POS, POS], |v| uv::triangular::Triangular::new_unchecked(v[0], v[1], v[2]), |v: &[f64]| vec![v[0], v[0] + v[1] + v[2], v[0] + v[1]];
        "uniform", [LOC, POS], |v| uv::uniform::Uniform::<f64>::new_unchecked(v[0], v[1]), |v: &[f64]| vec![v[0], v[0] + v[1]];
        "integer uniform", [INT, COUNT], |v| uv::uniform::Uniform::<i64>::new_unchecked(v[0] as i64, v[1] as u64), |v: &[f64]| vec![v[0], v[0] + v[1]];
        "weibull", [POS, POS], |v| uv::weibull::Weibull::from(uv::weibull::Params::new_unchecked(v[0], v[1]));
        "bernoulli", [PROB], |v| uv::bernoulli::Bernoulli::new_unchecked(v[0]);
        "geometric", [PROB], |v| uv::geometric::Geometric::new_unchecked(v[0]);
        "poisson", [POS], |v| uv::poisson::Poisson::new_unchecked(v[0]);
        "beta-binomial", [COUNT, POS, POS], |v| uv::beta_binomial::BetaBinomial::new_unchecked(v[0] as usize, v[1], v[2]);
        "binomial", [COUNT, PROB], |v| uv::binomial::Binomial::new_unchecked(v[0] as usize, p(v[1]));
        "probability", [PROB], |v| p(v[0]);
        "paired normal", [LOC, LOC, POS, POS], |v| normal::PairedNormal::new_unchecked([v[0], v[1]], [v[2], v[3]]), |v: &[f64]| vec![v[0], v[1], v[2], 0.0, 0.0, v[3]];
    );
    // the covariance of a correlated pair
    let rho = [-0.9, -0.25, 0.0, 0.5, 1.0 / 3.0];
    prints(m, "bivariate normal", cross(&[&[-3.5, 0.0, 2.0], &[-1.0, 0.25], &[0.25, 1.0, 3.0], &[0.5, 2.0], &rho]),
        &|v| format!("{}", normal::BvNormal::new_unchecked([v[0], v[1]], [v[2], v[3]], v[4])),
        &|v| { let c = v[4] * (v[2] * v[3]).sqrt(); vec![v[0], v[1], v[2], c, c, v[3]] });
    macro_rules! vectors {
        ($($n:literal)*) => {$({
            let al: Vec<&[f64]> = vec![&[0.5, 1.0 / 3.0, 40.0]; $n];
            fn arr(v: &[f64]) -> [f64; $n] { v.try_into().unwrap() }
            fn simplex(v: &[f64]) -> [f64; $n] { let s: f64 = v.iter().sum(); let mut a = arr(v); a.iter_mut().for_each(|x| *x /= s); a }
            prints(m, concat!("dirichlet ", $n), cross(&al), &|v| format!("{}", mv::dirichlet::Dirichlet::<$n>::new(arr(v)).unwrap()), &|v| v.to_vec());
            let mut sig = al.clone();
            sig.push(&[0.25, 2.0]);
            prints(m, concat!("vector lognormal ", $n), cross(&sig), &|v| format!("{}", mv::lognormal::LogNormal::<$n, f64>::isotropic_unchecked(arr(&v[..$n]), v[$n])), &|v| v.to_vec());
            prints(m, concat!("categorical ", $n), cross(&al), &|v| format!("{}", uv::categorical::Categorical::<$n>::new_unchecked(simplex(v))), &|v| simplex(v).to_vec());
            prints(m, concat!("multinomial ", $n), cross(&al), &|v| format!("{}", mv::multinomial::Multinomial::<$n>::new(7, simplex(v)).unwrap()), &|v| { let mut o = vec![7.0]; o.extend(simplex(v)); o });
        })*};
    }
    vectors!(1 2 3 4);
}
