use crate::{
    consts::{THREE_FIFTHS, THREE_HALVES, TWELVE_FIFTHS},
    statistics::{Modes, Quantiles, ShannonEntropy, UvMoments},
    ContinuousDistribution,
    Distribution,
    Probability,
    Univariate,
};
use rand::Rng;
use spaces::intervals::Closed;
use std::fmt;

pub use crate::params::{Loc, Scale};

params! {
    #[derive(Copy)]
    Params {
        a: Loc<f64>,
        a2c: Scale<f64>,
        c2b: Scale<f64>
    }
}

impl Params {
    pub fn symmetric(a: f64, b: f64) -> Result<Params, failure::Error> {
        let d = (b - a) / 2.0;

        Params::new(a, d, d)
    }

    #[inline(always)]
    pub fn c(&self) -> f64 { self.a.0 + self.a2c.0 }

    #[inline(always)]
    pub fn b(&self) -> f64 { self.c() + self.c2b.0 }
}

new_dist!(Triangular<Params>);

macro_rules! get_params {
    ($self:ident) => {
        ($self.0.a.0, $self.0.b(), $self.0.c())
    };
}

impl Triangular {
    pub fn new(a: f64, a2c: f64, c2b: f64) -> Result<Triangular, failure::Error> {
        Params::new(a, a2c, c2b).map(Triangular)
    }

    pub fn new_unchecked(a: f64, a2c: f64, c2b: f64) -> Triangular {
        Triangular(Params::new_unchecked(a, a2c, c2b))
    }
}

impl Distribution for Triangular {
    type Support = Closed<f64>;
    type Params = Params;

    fn support(&self) -> Closed<f64> {
        Closed::closed_unchecked(self.0.a.0, self.0.b())
    }

    fn params(&self) -> Params { self.0 }

    fn cdf(&self, x: &f64) -> Probability {
        let (a, b, c) = get_params!(self);

        match *x {
            x if x <= a => Probability::zero(),

            x if x <= c => Probability::new_unchecked((x - a) * (x - a) / (b - a) / (c - a)),

            x if x <= b => Probability::new_unchecked(1.0 - (b - x) * (b - x) / (b - a) / (b - c)),

            _ => Probability::one(),
        }
    }

    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 {
        use rand_distr::Distribution as _;

        let (a, b, c) = get_params!(self);

        rand_distr::Triangular::new(a, b, c).unwrap().sample(rng)
    }
}

impl ContinuousDistribution for Triangular {
    fn pdf(&self, x: &f64) -> f64 {
        let (a, b, c) = get_params!(self);

        match *x {
            x if x <= a => 0.0,

            x if x == c => 2.0 / (b - a),

            x if x < c => 2.0 * (x - a) / (b - a) / (c - a),

            x if x <= b => 2.0 * (b - x) / (b - a) / (b - c),

            _ => 0.0,
        }
    }
}

impl Univariate for Triangular {}

impl UvMoments for Triangular {
    fn mean(&self) -> f64 {
        let (a, b, c) = get_params!(self);

        (a + b + c) / 3.0
    }

    fn variance(&self) -> f64 {
        let (l, r) = (self.0.a2c.0, self.0.c2b.0);

        (l * l + l * r + r * r) / 18.0
    }

    fn skewness(&self) -> f64 {
        let (l, r) = (self.0.a2c.0, self.0.c2b.0);

        let numerator = 2.0f64.sqrt() * (r - l) * (2.0 * l + r) * (l + 2.0 * r);
        let denominator = 5.0 * (l * l + l * r + r * r).powf(THREE_HALVES);

        numerator / denominator
    }

    fn kurtosis(&self) -> f64 { TWELVE_FIFTHS }

    fn excess_kurtosis(&self) -> f64 { -THREE_FIFTHS }
}

impl Quantiles for Triangular {
    fn quantile(&self, _: Probability) -> f64 { unimplemented!() }

    fn median(&self) -> f64 {
        let (a, b, c) = get_params!(self);

        let midpoint = (a + b) / 2.0;

        if c >= midpoint {
            a + ((b - a) * (c - a) / 2.0).sqrt()
        } else {
            b - ((b - a) * (b - c) / 2.0).sqrt()
        }
    }
}

impl Modes for Triangular {
    fn modes(&self) -> Vec<f64> { vec![self.0.c()] }
}

impl ShannonEntropy for Triangular {
    fn shannon_entropy(&self) -> f64 { 0.5 + ((self.0.b() - self.0.a.0) / 2.0).ln() }
}

impl fmt::Display for Triangular {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let (a, b, c) = get_params!(self);

        write!(f, "Triangular({}, {}, {})", a, b, c)
    }
}
