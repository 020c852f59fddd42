use super::{
    constraints::{self, All, Constraint, Interval, NonNegative, Positive},
    linalg::Vector,
    Param, Params,
};
