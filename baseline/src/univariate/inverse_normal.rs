use crate::{
    consts::{PI_2, PI_E_2},
    statistics::{Modes, ShannonEntropy, UvMoments},
    univariate::{normal, uniform::Uniform},
    ContinuousDistribution,
    Distribution,
    Probability,
    Univariate,
};
use rand::Rng;
use spaces::real::{PositiveReals, positive_reals};
use std::fmt;

pub use crate::params::Shape;

params! {
    #[derive(Copy)]
    Params {
        mu: Shape<f64>,
        lambda: Shape<f64>
    }
}

pub type InvGaussian = InvNormal;

#[derive(Debug, Clone, Copy)]
pub struct InvNormal {
    params: Params,
    std_norm: normal::Normal,
}

macro_rules! get_params {
    ($self:ident) => {
        ($self.params.mu.0, $self.params.lambda.0)
    };
}

/// Computes the scaled exponential integral, exp(x) * E1(x), for x > 0.
fn exp_e1(x: f64) -> f64 {
    use special_fun::FloatSpecial;

    if x < 1.0 {
        // Power series.
        let mut term = 1.0;
        let mut sum = 1.0f64.digamma() - x.ln();

        for k in 1..30 {
            term *= -x / k as f64;
            sum -= term / k as f64;
        }

        x.exp() * sum
    } else {
        // Continued fraction (modified Lentz's method).
        let mut b = x + 1.0;
        let mut c = 1.0 / std::f64::MIN_POSITIVE;
        let mut d = 1.0 / b;
        let mut h = d;

        for i in 1..500 {
            let a = -(i as f64) * i as f64;

            b += 2.0;
            d = 1.0 / (a * d + b);
            c = b + a / c;
            h *= c * d;

            if (c * d - 1.0).abs() < std::f64::EPSILON {
                break;
            }
        }

        h
    }
}

impl InvNormal {
    pub fn new(mu: f64, lambda: f64) -> Result<InvNormal, failure::Error> {
        Params::new(mu, lambda).map(|p| InvNormal {
            params: p,
            std_norm: normal::Normal::standard(),
        })
    }

    pub fn new_unchecked(mu: f64, lambda: f64) -> InvNormal {
        InvNormal {
            params: Params::new_unchecked(mu, lambda),
            std_norm: normal::Normal::standard(),
        }
    }
}

impl From<Params> for InvNormal {
    fn from(params: Params) -> InvNormal {
        InvNormal {
            params,
            std_norm: normal::Normal::new_unchecked(0.0, 1.0),
        }
    }
}

impl Distribution for InvNormal {
    type Support = PositiveReals<f64>;
    type Params = Params;

    fn support(&self) -> PositiveReals<f64> { positive_reals() }

    fn params(&self) -> Params { self.params }

    fn cdf(&self, x: &f64) -> Probability {
        if *x <= 0.0 {
            return Probability::zero();
        } else if x.is_infinite() {
            return Probability::one();
        }

        let (mu, lambda) = get_params!(self);

        let xom = x / mu;
        let lox_sqrt = (lambda / x).sqrt();

        let term1 = self.std_norm.cdf(&(lox_sqrt * (xom - 1.0))).unwrap();
        let z = lox_sqrt * (xom + 1.0);
        let term2 = if z < 30.0 {
            (2.0 * lambda / mu + self.std_norm.cdf(&-z).unwrap().ln()).exp()
        } else {
            // The normal tail underflows; its asymptotic expansion absorbs the large factor.
            let d = lox_sqrt * (xom - 1.0);
            let z2 = z * z;

            (-d * d / 2.0).exp() / z / PI_2.sqrt() * (1.0 - 1.0 / z2 + 3.0 / z2 / z2)
        };

        Probability::new_unchecked((term1 + term2).min(1.0))
    }

    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
        let (mu, lambda) = get_params!(self);

        let nu = self.std_norm.sample(rng);

        let y = nu * nu;
        // The smaller root, in a form that does not cancel when mu is large next to lambda.
        let w = mu * y / 2.0 / lambda;
        let x = mu / (1.0 + w + (w * (w + 2.0)).sqrt());

        let z = Uniform::<f64>::new_unchecked(0.0, 1.0).sample(rng);

        if z < mu / (mu + x) {
            x
        } else {
            mu * mu / x
        }
    }
}

impl ContinuousDistribution for InvNormal {
    fn pdf(&self, x: &f64) -> f64 {
        if *x <= 0.0 || x.is_infinite() {
            return 0.0;
        }

        let (mu, lambda) = get_params!(self);
        let z = (lambda / PI_2 / x / x / x).sqrt();

        let diff = x - mu;
        let exponent = (-lambda * diff * diff) / 2.0 / mu / mu / x;

        z * exponent.exp()
    }
}

impl Univariate for InvNormal {}

impl UvMoments for InvNormal {
    fn mean(&self) -> f64 { self.params.mu.0 }

    fn variance(&self) -> f64 {
        let (mu, lambda) = get_params!(self);

        mu * mu * mu / lambda
    }

    fn skewness(&self) -> f64 {
        let (mu, lambda) = get_params!(self);

        3.0 * (mu / lambda).sqrt()
    }

    fn excess_kurtosis(&self) -> f64 {
        let (mu, lambda) = get_params!(self);

        15.0 * mu / lambda
    }
}

impl Modes for InvNormal {
    fn modes(&self) -> Vec<f64> {
        let (mu, lambda) = get_params!(self);

        let term1 = (1.0 + 9.0 * mu * mu / 4.0 / lambda / lambda).sqrt();
        let term2 = 3.0 * mu / 2.0 / lambda;

        vec![mu / (term1 + term2)]
    }
}

impl ShannonEntropy for InvNormal {
    fn shannon_entropy(&self) -> f64 {
        let (mu, lambda) = get_params!(self);

        ((PI_E_2 * self.variance()).ln() - 3.0 * exp_e1(2.0 * lambda / mu)) / 2.0
    }
}

impl fmt::Display for InvNormal {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (mu, lambda) = get_params!(self);

        write!(f, "IG({}, {})", mu, lambda)
    }
}
