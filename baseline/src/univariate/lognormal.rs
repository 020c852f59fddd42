use crate::{
    consts::PI_2,
    statistics::{FisherInformation, Modes, Quantiles, ShannonEntropy, UvMoments},
    univariate::normal::Normal,
    ContinuousDistribution,
    Distribution,
    Probability,
    Univariate,
};
use rand::Rng;
use spaces::real::{PositiveReals, positive_reals};
use std::fmt;

pub use crate::univariate::normal::Params;

#[derive(Debug, Clone, Copy)]
pub struct LogNormal(Normal);

macro_rules! get_params {
    ($self:ident) => {
        (($self.0).0.mu.0, ($self.0).0.Sigma.0)
    };
}

impl LogNormal {
    pub fn new(mu: f64, sigma2: f64) -> Result<LogNormal, failure::Error> {
        Normal::new(mu, sigma2).map(LogNormal)
    }

    pub fn new_unchecked(mu: f64, sigma2: f64) -> LogNormal {
        LogNormal(Normal::new_unchecked(mu, sigma2))
    }
}

impl From<Params> for LogNormal {
    fn from(params: Params) -> LogNormal { LogNormal(params.into()) }
}

impl From<Normal> for LogNormal {
    fn from(normal: Normal) -> LogNormal { LogNormal(normal) }
}

impl Distribution for LogNormal {
    type Support = PositiveReals<f64>;
    type Params = Params;

    fn support(&self) -> PositiveReals<f64> { positive_reals() }

    fn params(&self) -> Params { self.0.params() }

    fn into_params(self) -> Params { self.0.into_params() }

    fn cdf(&self, x: &f64) -> Probability {
        if *x <= 0.0 {
            return Probability::zero();
        }

        let ln_x = x.ln();

        self.0.cdf(&ln_x)
    }

    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
        use rand_distr::Distribution as _;

        let (mu, sigma2) = get_params!(self);

        rand_distr::LogNormal::new(mu, sigma2.sqrt())
            .unwrap()
            .sample(rng)
    }
}

impl ContinuousDistribution for LogNormal {
    fn pdf(&self, x: &f64) -> f64 {
        if *x <= 0.0 || x.is_infinite() {
            return 0.0;
        }

        let ln_x = x.ln();

        self.0.pdf(&ln_x) / x
    }
}

impl Univariate for LogNormal {}

impl UvMoments for LogNormal {
    fn mean(&self) -> f64 {
        let (mu, sigma2) = get_params!(self);

        (mu + sigma2 / 2.0).exp()
    }

    fn variance(&self) -> f64 {
        let (mu, sigma2) = get_params!(self);

        sigma2.exp_m1() * (2.0 * mu + sigma2).exp()
    }

    fn skewness(&self) -> f64 {
        let sigma2 = (self.0).0.Sigma.0;

        (sigma2.exp() + 2.0) * sigma2.exp_m1().sqrt()
    }

    fn excess_kurtosis(&self) -> f64 {
        let sigma2 = (self.0).0.Sigma.0;

        (4.0 * sigma2).exp() + 2.0 * (3.0 * sigma2).exp() + 3.0 * (2.0 * sigma2).exp() - 6.0
    }
}

impl Quantiles for LogNormal {
    fn quantile(&self, _: Probability) -> f64 { unimplemented!() }

    fn median(&self) -> f64 { (self.0).0.mu.0.exp() }
}

impl Modes for LogNormal {
    fn modes(&self) -> Vec<f64> {
        let (mu, sigma2) = get_params!(self);

        vec![(mu - sigma2).exp()]
    }
}

impl ShannonEntropy for LogNormal {
    fn shannon_entropy(&self) -> f64 {
        let (mu, sigma2) = get_params!(self);

        mu + ((PI_2 * sigma2).ln() + 1.0) / 2.0
    }
}

impl FisherInformation<2> for LogNormal {
    fn fisher_information(&self) -> [[f64; 2]; 2] {
        let one_over_sigma2 = 1.0 / (self.0).0.Sigma.0;

        [
            [one_over_sigma2, 0.0],
            [0.0, one_over_sigma2 * one_over_sigma2 / 2.0]
        ]
    }
}

impl fmt::Display for LogNormal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "LogNormal({}, {})", (self.0).0.mu.0, (self.0).0.Sigma.0)
    }
}
