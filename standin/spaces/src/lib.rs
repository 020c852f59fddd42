//! Minimal stand-in for the `spaces` crate: intervals, products, unions.
//! Everything is a plain value type with an exact `contains`; nothing here is under test.

/// A set of values.
pub trait Space {
    type Value;

    fn dim(&self) -> usize { 1 }

    fn contains(&self, val: &Self::Value) -> bool;
}

/// A totally ordered space with infimum/supremum.
pub trait OrderedSpace: Space {
    fn min(&self) -> Option<Self::Value>;
    fn max(&self) -> Option<Self::Value>;
    fn inf(&self) -> Option<Self::Value>;
    fn sup(&self) -> Option<Self::Value>;
}

pub trait BoundedSpace: Space {
    fn is_bounded(&self) -> bool;
}

impl<S: Space, const N: usize> Space for [S; N] {
    type Value = [S::Value; N];

    fn dim(&self) -> usize { N }

    fn contains(&self, val: &[S::Value; N]) -> bool {
        self.iter().zip(val.iter()).all(|(s, v)| s.contains(v))
    }
}

pub mod bounds {
    use std::marker::PhantomData;

    /// One end of an interval.
    pub trait Bound: Copy {
        type Value: Copy + PartialOrd;

        fn value(&self) -> Option<Self::Value>;
        fn is_closed(&self) -> bool;
        fn satisfied_left(&self, v: &Self::Value) -> bool {
            match self.value() {
                Some(b) => if self.is_closed() { *v >= b } else { *v > b },
                None => true,
            }
        }
        fn satisfied_right(&self, v: &Self::Value) -> bool {
            match self.value() {
                Some(b) => if self.is_closed() { *v <= b } else { *v < b },
                None => true,
            }
        }
        fn lower(self, other: Self) -> Self;
        fn upper(self, other: Self) -> Self;
    }

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Open<V>(pub V);

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Closed<V>(pub V);

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct NoBound<V>(pub PhantomData<V>);

    macro_rules! finite {
        ($t:ident, $c:expr) => {
            impl<V: Copy + PartialOrd> Bound for $t<V> {
                type Value = V;
                fn value(&self) -> Option<V> { Some(self.0) }
                fn is_closed(&self) -> bool { $c }
                fn lower(self, other: Self) -> Self { if other.0 < self.0 { other } else { self } }
                fn upper(self, other: Self) -> Self { if other.0 > self.0 { other } else { self } }
            }
        };
    }
    finite!(Open, false);
    finite!(Closed, true);

    impl<V: Copy + PartialOrd> Bound for NoBound<V> {
        type Value = V;
        fn value(&self) -> Option<V> { None }
        fn is_closed(&self) -> bool { false }
        fn lower(self, _: Self) -> Self { self }
        fn upper(self, _: Self) -> Self { self }
    }
}

pub mod intervals {
    use super::{bounds::{self, Bound, NoBound}, BoundedSpace, OrderedSpace, Space};
    use num_traits::{One, Zero};
    use std::marker::PhantomData;

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Interval<L, R = L> {
        pub left: L,
        pub right: R,
    }

    pub type Unbounded<V> = Interval<NoBound<V>, NoBound<V>>;
    pub type Open<V> = Interval<bounds::Open<V>, bounds::Open<V>>;
    pub type Closed<V> = Interval<bounds::Closed<V>, bounds::Closed<V>>;
    pub type LeftOpen<V> = Interval<bounds::Open<V>, NoBound<V>>;
    pub type LeftClosed<V> = Interval<bounds::Closed<V>, NoBound<V>>;
    pub type RightOpen<V> = Interval<NoBound<V>, bounds::Open<V>>;
    pub type RightClosed<V> = Interval<NoBound<V>, bounds::Closed<V>>;

    impl<L, R> Interval<L, R> {
        pub const fn new_unchecked(left: L, right: R) -> Self { Interval { left, right } }
    }

    impl<V> Unbounded<V> {
        pub const fn unbounded() -> Self {
            Interval { left: NoBound(PhantomData), right: NoBound(PhantomData) }
        }
    }

    impl<V> Open<V> {
        pub const fn open_unchecked(l: V, r: V) -> Self {
            Interval { left: bounds::Open(l), right: bounds::Open(r) }
        }
    }

    impl<V> Closed<V> {
        pub const fn closed_unchecked(l: V, r: V) -> Self {
            Interval { left: bounds::Closed(l), right: bounds::Closed(r) }
        }

        pub fn closed(l: V, r: V) -> Self
        where V: PartialOrd {
            assert!(l <= r);
            Self::closed_unchecked(l, r)
        }

        pub fn unit() -> Self
        where V: Zero + One {
            Self::closed_unchecked(V::zero(), V::one())
        }

        pub fn degenerate(v: V) -> Self
        where V: Clone {
            Self::closed_unchecked(v.clone(), v)
        }
    }

    impl<V> LeftClosed<V> {
        pub const fn left_closed(l: V) -> Self {
            Interval { left: bounds::Closed(l), right: NoBound(PhantomData) }
        }
    }

    impl<V> LeftOpen<V> {
        pub const fn left_open(l: V) -> Self {
            Interval { left: bounds::Open(l), right: NoBound(PhantomData) }
        }
    }

    impl<V> RightClosed<V> {
        pub const fn right_closed(r: V) -> Self {
            Interval { left: NoBound(PhantomData), right: bounds::Closed(r) }
        }
    }

    impl<V> RightOpen<V> {
        pub const fn right_open(r: V) -> Self {
            Interval { left: NoBound(PhantomData), right: bounds::Open(r) }
        }
    }

    impl<L: Bound, R: Bound<Value = L::Value>> Interval<L, R> {
        pub fn inf(&self) -> Option<L::Value> { self.left.value() }
        pub fn sup(&self) -> Option<L::Value> { self.right.value() }
    }

    impl<L: Bound, R: Bound<Value = L::Value>> Space for Interval<L, R> {
        type Value = L::Value;

        fn contains(&self, v: &L::Value) -> bool {
            // a NaN is in no interval
            v.partial_cmp(v).is_some() && self.left.satisfied_left(v) && self.right.satisfied_right(v)
        }
    }

    impl<L: Bound, R: Bound<Value = L::Value>> OrderedSpace for Interval<L, R> {
        fn min(&self) -> Option<L::Value> {
            if self.left.is_closed() { self.left.value() } else { None }
        }
        fn max(&self) -> Option<L::Value> {
            if self.right.is_closed() { self.right.value() } else { None }
        }
        fn inf(&self) -> Option<L::Value> { self.left.value() }
        fn sup(&self) -> Option<L::Value> { self.right.value() }
    }

    impl<L: Bound, R: Bound<Value = L::Value>> BoundedSpace for Interval<L, R> {
        fn is_bounded(&self) -> bool { self.left.value().is_some() && self.right.value().is_some() }
    }
}

pub mod ops {
    use super::{bounds::Bound, intervals::Interval, Space};

    /// Topological closure (for unions of intervals: the interval hull).
    pub trait Closure {
        type Output: Space;

        fn closure(self) -> Self::Output;
    }

    pub trait Union<S = Self>: Space {
        type Output;

        fn union(self, other: S) -> Self::Output;

        fn union_closure(self, other: S) -> <Self::Output as Closure>::Output
        where
            Self: Sized,
            Self::Output: Closure,
        {
            self.union(other).closure()
        }
    }

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct UnionOf<S>(pub S, pub S);

    impl<L: Bound, R: Bound<Value = L::Value>> Union<Interval<L, R>> for Interval<L, R> {
        type Output = UnionOf<Interval<L, R>>;

        fn union(self, other: Interval<L, R>) -> Self::Output { UnionOf(self, other) }
    }

    impl<L: Bound, R: Bound<Value = L::Value>> Closure for UnionOf<Interval<L, R>> {
        type Output = Interval<L, R>;

        fn closure(self) -> Interval<L, R> {
            Interval {
                left: self.0.left.lower(self.1.left),
                right: self.0.right.upper(self.1.right),
            }
        }
    }
}

pub mod real {
    use super::intervals::{LeftClosed, LeftOpen, Unbounded};
    use num_traits::Zero;

    pub type Reals<V> = Unbounded<V>;
    pub type PositiveReals<V> = LeftOpen<V>;
    pub type NonNegativeReals<V> = LeftClosed<V>;

    pub const fn reals<V>() -> Reals<V> { Unbounded::unbounded() }
    pub fn positive_reals<V: Zero>() -> PositiveReals<V> { LeftOpen::left_open(V::zero()) }
    pub fn non_negative_reals<V: Zero>() -> NonNegativeReals<V> { LeftClosed::left_closed(V::zero()) }
}

pub mod discrete {
    use super::{intervals::{LeftClosed, Unbounded}, Space};
    use num_traits::{One, Zero};

    pub type Integers<V> = Unbounded<V>;
    /// The natural numbers.  Stand-in choice: includes zero, since rstat uses `Naturals` as the
    /// support of the Poisson distribution.
    pub type Naturals<V> = LeftClosed<V>;
    pub type NonNegativeIntegers<V> = LeftClosed<V>;
    pub type PositiveIntegers<V> = LeftClosed<V>;

    pub const fn integers<V>() -> Integers<V> { Unbounded::unbounded() }
    pub fn naturals<V: Zero>() -> Naturals<V> { LeftClosed::left_closed(V::zero()) }
    pub fn non_negative_integers<V: Zero>() -> NonNegativeIntegers<V> { LeftClosed::left_closed(V::zero()) }
    pub fn positive_integers<V: One>() -> PositiveIntegers<V> { LeftClosed::left_closed(V::one()) }

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Binary;

    pub const fn binary() -> Binary { Binary }

    impl Space for Binary {
        type Value = bool;

        fn contains(&self, _: &bool) -> bool { true }
    }
}
