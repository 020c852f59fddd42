use crate::{
    statistics::UvMoments,
    utils::*,
    DiscreteDistribution,
    Distribution,
    Probability,
    Univariate,
};
use rand::Rng;
use spaces::intervals::Closed;
use special_fun::FloatSpecial;
use std::fmt;

pub use crate::params::{Count, Shape};

params! {
    #[derive(Copy)]
    Params {
        n: Count<usize>,
        alpha: Shape<f64>,
        beta: Shape<f64>
    }
}

#[derive(Debug, Clone, Copy)]
pub struct BetaBinomial {
    params: Params,

    pi: f64,
    rho: f64,
}

macro_rules! get_params {
    ($self:ident) => {
        ($self.params.n.0, $self.params.alpha.0, $self.params.beta.0)
    };
}

impl BetaBinomial {
    pub fn new(n: usize, alpha: f64, beta: f64) -> Result<BetaBinomial, failure::Error> {
        Params::new(n, alpha, beta).map(|ps| ps.into())
    }

    pub fn new_unchecked(n: usize, alpha: f64, beta: f64) -> BetaBinomial {
        Params::new_unchecked(n, alpha, beta).into()
    }

    fn pmf_raw(&self, k: usize) -> f64 {
        let (n, alpha, beta) = get_params!(self);

        // Beyond this point the coefficient may not fit in 64 bits.
        if n > 60 {
            let c = log_choose(n as u64, k as u64);
            let (k, n) = (k as f64, n as f64);

            return (c + (k + alpha).logbeta(n - k + beta) - alpha.logbeta(beta)).exp();
        }

        let c = choose(n as u64, k as u64) as f64;
        let k = k as f64;

        c * ((k + alpha).logbeta(n as f64 - k + beta) - alpha.logbeta(beta)).exp()
    }
}

impl From<Params> for BetaBinomial {
    fn from(params: Params) -> BetaBinomial {
        BetaBinomial {
            pi: params.alpha.0 / (params.alpha.0 + params.beta.0),
            rho: 1.0 / (params.alpha.0 + params.beta.0 + 1.0),

            params,
        }
    }
}

impl Distribution for BetaBinomial {
    type Support = Closed<usize>;
    type Params = Params;

    fn support(&self) -> Closed<usize> { Closed::closed_unchecked(0, self.params.n.0) }

    fn params(&self) -> Params { self.params }

    fn cdf(&self, k: &usize) -> Probability {
        if *k >= self.params.n.0 {
            Probability::one()
        } else {
            unimplemented!("Need an implmentation of the 3F2 generalised hypergeometric function.")
        }
    }

    fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> usize { unimplemented!() }
}

impl DiscreteDistribution for BetaBinomial {
    fn pmf(&self, k: &usize) -> Probability {
        if *k > self.params.n.0 {
            return Probability::zero();
        }

        Probability::new_unchecked(self.pmf_raw(*k))
    }
}

impl Univariate for BetaBinomial {}

impl UvMoments for BetaBinomial {
    fn mean(&self) -> f64 { self.params.n.0 as f64 * self.pi }

    fn variance(&self) -> f64 {
        let n = self.params.n.0 as f64;

        n * self.pi * (1.0 - self.pi) * (1.0 + (n - 1.0) * self.rho)
    }

    fn skewness(&self) -> f64 {
        let (n, alpha, beta) = get_params!(self);
        let n = n as f64;

        let apb = alpha + beta;

        (apb + 2.0 * n) * (beta - alpha) / (apb + 2.0)
            * ((1.0 + apb) / (n * alpha * beta * (n + apb))).sqrt()
    }

    fn kurtosis(&self) -> f64 {
        let (n, alpha, beta) = get_params!(self);
        let n = n as f64;

        let apb = alpha + beta;

        let b1 = alpha
            / (n * self.pi * self.pi * self.rho * beta * (apb + 2.0) * (apb + 3.0) * (apb + n));
        let b2 = (apb - 1.0 + 6.0 * n) * apb;
        let b3 = 3.0 * alpha * beta * (n - 2.0);
        let b4 = 6.0 * n * n;
        let b5 = -3.0 * self.pi * beta * n * (6.0 - n);
        let b6 = -18.0 * self.pi * beta * n * n / apb;

        b1 * (b2 + b3 + b4 + b5 + b6)
    }
}

impl fmt::Display for BetaBinomial {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (n, alpha, beta) = get_params!(self);

        write!(f, "BB({}, {}, {})", n, alpha, beta)
    }
}
