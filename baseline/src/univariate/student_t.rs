use crate::{
    consts::PI,
    statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
    ContinuousDistribution,
    Distribution,
    Probability,
    Univariate,
};
use rand::Rng;
use spaces::real::{Reals, reals};
use std::fmt;

pub use crate::params::DOF;

params! {
    #[derive(Copy)]
    Params {
        nu: DOF<f64>
    }
}

new_dist!(StudentT<Params>);

macro_rules! get_nu {
    ($self:ident) => {
        $self.0.nu.0
    };
}

impl StudentT {
    pub fn new(nu: f64) -> Result<StudentT, failure::Error> { Ok(StudentT(Params::new(nu)?)) }

    pub fn new_unchecked(nu: f64) -> StudentT { StudentT(Params::new_unchecked(nu)) }
}

impl Distribution for StudentT {
    type Support = Reals<f64>;
    type Params = Params;

    fn support(&self) -> Reals<f64> { reals() }

    fn params(&self) -> Params { self.0 }

    fn cdf(&self, x: &f64) -> Probability {
        use special_fun::FloatSpecial;

        let nu = get_nu!(self);

        // Twice the mass lying beyond |x|, in terms of the incomplete beta function.
        // The complement avoids cancellation for small x.
        let x2 = x * x;
        let tails = if x2.is_infinite() {
            0.0
        } else if x2 < nu {
            1.0 - (x2 / (nu + x2)).betainc(0.5, nu / 2.0)
        } else {
            (nu / (nu + x2)).betainc(nu / 2.0, 0.5)
        };

        Probability::new_unchecked(if *x < 0.0 {
            tails / 2.0
        } else {
            1.0 - tails / 2.0
        })
    }

    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
        use rand_distr::Distribution as _;

        rand_distr::StudentT::new(get_nu!(self))
            .unwrap()
            .sample(rng)
    }
}

impl ContinuousDistribution for StudentT {
    fn log_pdf(&self, x: &f64) -> f64 {
        use special_fun::FloatSpecial;

        let nu = get_nu!(self);
        let np1o2 = (nu + 1.0) / 2.0;
        let ln_norm = np1o2.loggamma() - (nu / 2.0).loggamma() - (nu * PI).ln() / 2.0;

        ln_norm - np1o2 * (x * x / nu).ln_1p()
    }
}

impl Univariate for StudentT {}

impl UvMoments for StudentT {
    fn mean(&self) -> f64 {
        if get_nu!(self) <= 1.0 {
            undefined!("Mean is undefined for nu <= 1.");
        }

        0.0
    }

    fn variance(&self) -> f64 {
        let nu = get_nu!(self);

        if nu <= 1.0 {
            undefined!("Variance is undefined for nu <= 1.");
        } else if nu <= 2.0 {
            undefined!("Variance is infinite for 1 < nu <= 2.");
        }

        nu / (nu - 2.0)
    }

    fn skewness(&self) -> f64 {
        if get_nu!(self) <= 3.0 {
            undefined!("Skewness is undefined for nu <= 1.");
        }

        0.0
    }

    fn excess_kurtosis(&self) -> f64 {
        let nu = get_nu!(self);

        if nu <= 2.0 {
            undefined!("Kurtosis is undefined for nu <= 2.");
        } else if nu <= 4.0 {
            undefined!("Kurtosis is infinite for 2 < nu <= 4.");
        }

        6.0 / (nu - 4.0)
    }
}

impl Quantiles for StudentT {
    fn quantile(&self, _: Probability) -> f64 { unimplemented!() }

    fn median(&self) -> f64 { 0.0 }
}

impl Modes for StudentT {
    fn modes(&self) -> Vec<f64> { vec![0.0] }
}

impl ShannonEntropy for StudentT {
    fn shannon_entropy(&self) -> f64 {
        use special_fun::FloatSpecial;

        let nu = get_nu!(self);
        let no2 = nu / 2.0;
        let np1o2 = (nu + 1.0) / 2.0;

        np1o2 * (np1o2.digamma() - no2.digamma()) + (nu.sqrt() * (no2.beta(0.5))).ln()
    }
}

impl fmt::Display for StudentT {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "StudentT({})", get_nu!(self))
    }
}
