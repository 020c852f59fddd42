//! C01: elementary constraints accept exactly the set their name denotes.
use crate::params::constraints::*;
use kit::{guarded, Mc};
use std::fmt::Debug;
use std::result::Result;

/// 23-letter alphabet of interesting floats.
pub const FLOATS: [f64; 25] = [
    f64::NEG_INFINITY, f64::MIN, -2.0, -1.5, -1.0000000000000002, -1.0, -0.9999999999999999, -0.5,
    -2.2250738585072014e-308, -5e-324, -0.0, 0.0, 5e-324, 2.2250738585072014e-308, 1e-17, 0.5,
    0.9999999999999999, 1.0, 1.0000000000000002, 1.5, 2.0, 1e17, f64::MAX, f64::INFINITY, f64::NAN,
];

pub fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

pub trait Val: Copy + Debug + Send + Sync + PartialOrd + 'static {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! val { ($($t:ty),*) => { $(impl Val for $t { fn same(&self, o: &$t) -> bool { self == o } })* } }
val!(i8, u8, i16, i64, u64, usize, i32);
impl Val for f64 {
    fn same(&self, o: &f64) -> bool { same(*self, *o) }
}

/// Judges both entry points (predicate and checked construction) of one
/// constraint on one value.
fn judge<T: Val, C: Constraint<T> + Clone + 'static>(m: &mut Mc, site: &str, arg: &str, c: &C, v: T, want: bool) {
    m.state();
    m.step();
    let input = || format!("{} value {:?}: {}", arg, v, std::any::type_name::<T>());
    let r = guarded(|| c.is_satisfied_by(&v));
    m.expect(site, input, r == Ok(want), || format!("predicate gives {:?}, the set says {}", r, want));
    m.step();
    let r = guarded(|| match c.clone().check(v) {
        Ok(x) => (true, x.same(&v)),
        Err(e) => (false, e.value.same(&v)),
    });
    m.expect(site, input, r == Ok((want, true)), || {
        format!("checked construction gives (accepted, value kept) = {:?}, the set says {}", r, want)
    });
}

fn signs<T: Val + num::Zero>(m: &mut Mc, vals: &[T], s: impl Fn(T) -> i32) {
    // s: -1, 0, +1, or 2 for unordered
    for &v in vals {
        let g = s(v);
        judge(m, "Positive", "", &Positive, v, g == 1);
        judge(m, "Negative", "", &Negative, v, g == -1);
        judge(m, "NonNegative", "", &NonNegative, v, g == 0 || g == 1);
        judge(m, "NonPositive", "", &NonPositive, v, g == 0 || g == -1);
    }
}

fn orderings<T: Val>(m: &mut Mc, vals: &[T], bounds: &[T]) {
    use std::cmp::Ordering::{Greater, Less};
    for &b in bounds {
        let arg = format!("bound {:?}", b);
        m.trace();
        for &v in vals {
            let o = v.partial_cmp(&b);
            judge(m, "Equal", &arg, &Equal(b), v, o == Some(Equal_()));
            judge(m, "LessThan", &arg, &LessThan(b), v, o == Some(Less));
            judge(m, "LessThanOrEqual", &arg, &LessThanOrEqual(b), v, o == Some(Less) || o == Some(Equal_()));
            judge(m, "GreaterThan", &arg, &GreaterThan(b), v, o == Some(Greater));
            judge(m, "GreaterThanOrEqual", &arg, &GreaterThanOrEqual(b), v, o == Some(Greater) || o == Some(Equal_()));
        }
    }
}

#[allow(non_snake_case)]
fn Equal_() -> std::cmp::Ordering { std::cmp::Ordering::Equal }

fn intervals<T: Val>(m: &mut Mc, vals: &[T], bounds: &[T]) {
    for &lb in bounds {
        for &ub in bounds {
            let arg = format!("[{:?}, {:?}]", lb, ub);
            let c = Interval { lb, ub };
            m.trace();
            for &v in vals {
                let want = !(v < lb) && !(v > ub) && v.partial_cmp(&lb).is_some() && v.partial_cmp(&ub).is_some();
                judge(m, "Interval", &arg, &c, v, want);
            }
        }
    }
}

fn naturals<T: Val + num::PrimInt>(m: &mut Mc, vals: &[T]) {
    for &v in vals {
        let want = v.to_i128().unwrap() >= 1;
        judge(m, "Natural", "", &Natural, v, want);
    }
}

/// All words of length 0..=n over an alphabet.
pub fn words<T: Clone>(alpha: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut layer: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for w in &layer {
            for a in alpha {
                let mut w = w.clone();
                w.push(a.clone());
                next.push(w);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

fn arr<T: Clone + Debug, const N: usize>(w: &[T]) -> [T; N] {
    use std::convert::TryInto;
    w.to_vec().try_into().unwrap()
}

fn same_slice<T: Val>(a: &[T], b: &[T]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)) }

fn elementwise<T: Val, C>(m: &mut Mc, name: &str, c: C, alpha: &[T], maxlen: usize, want: &dyn Fn(&T) -> bool)
where
    C: Constraint<T> + Clone + 'static,
{
    for w in words(alpha, maxlen) {
        m.state();
        let ok = w.iter().all(|v| want(v));
        let site = format!("All({})", name);
        let input = || format!("{:?} as vector of {}", w, std::any::type_name::<T>());
        m.step();
        let r = guarded(|| All(c.clone()).is_satisfied_by(&w));
        m.expect(&site, input, r == Ok(ok), || format!("predicate gives {:?}, elementwise {}", r, ok));
        let r = guarded(|| match All(c.clone()).check(w.clone()) {
            Ok(x) => (true, same_slice(&x, &w)),
            Err(e) => (false, same_slice(&e.value, &w)),
        });
        m.step();
        m.expect(&site, input, r == Ok((ok, true)), || format!("check gives {:?}, elementwise {}", r, ok));
        macro_rules! fixed { ($($n:literal)*) => { $( if w.len() == $n {
            let a: [T; $n] = arr(&w);
            let input = || format!("{:?} as array of {}", w, std::any::type_name::<T>());
            let r = guarded(|| All(c.clone()).is_satisfied_by(&a));
            m.step();
            m.expect(&site, input, r == Ok(ok), || format!("predicate gives {:?}, elementwise {}", r, ok));
            let r = guarded(|| match All(c.clone()).check(a) {
                Ok(x) => (true, same_slice(&x, &w)),
                Err(e) => (false, same_slice(&e.value, &w)),
            });
            m.step();
            m.expect(&site, input, r == Ok((ok, true)), || format!("check gives {:?}, elementwise {}", r, ok));
        } )* } }
        fixed!(0 1 2 3 4 5 6 7);
    }
}

/// Long vectors and arrays: all entries one accepted letter but for one entry,
/// in every position, of every other letter.
fn long<T: Val, C, const N: usize>(m: &mut Mc, name: &str, c: C, alpha: &[T], want: &dyn Fn(&T) -> bool)
where
    C: Constraint<T> + Clone + 'static,
{
    let site = format!("All({})", name);
    let fill = alpha.iter().cloned().filter(|a| want(a)).last().unwrap();
    for &odd in alpha {
        for at in 0..N {
            m.state();
            let mut a = [fill; N];
            a[at] = odd;
            let v = a.to_vec();
            let ok = want(&odd);
            let input = || format!("{} entries {:?} but for {:?} at {}", N, fill, odd, at);
            m.steps_add(4);
            let r = guarded(|| {
                (
                    All(c.clone()).is_satisfied_by(&v),
                    match All(c.clone()).check(v.clone()) {
                        Ok(x) => (true, same_slice(&x, &v)),
                        Err(e) => (false, same_slice(&e.value, &v)),
                    },
                )
            });
            m.expect(&site, || format!("vector of {}", input()), r == Ok((ok, (ok, true))), || format!("(predicate, check) gives {:?}, elementwise {}", r, ok));
            let r = guarded(|| {
                (
                    All(c.clone()).is_satisfied_by(&a),
                    match All(c.clone()).check(a) {
                        Ok(x) => (true, same_slice(&x, &v)),
                        Err(e) => (false, same_slice(&e.value, &v)),
                    },
                )
            });
            m.expect(&site, || format!("array of {}", input()), r == Ok((ok, (ok, true))), || format!("(predicate, check) gives {:?}, elementwise {}", r, ok));
        }
    }
    let (e, v) = ([fill; N], vec![fill; N]);
    let r = guarded(|| (Empty.is_satisfied_by(&e), Empty.is_satisfied_by(&v), Not(Empty).check(e).is_ok(), Not(Empty).check(v.clone()).is_ok()));
    m.expect("Empty", || format!("{} entries", N), r == Ok((false, false, true, true)), || format!("{:?}", r));
}

fn matrices(m: &mut Mc) {
    // All(All(_)) over every 0x0, 1x1, 2x2 and 3x2 / 2x3 matrix with entries in the alphabet
    let alpha = [-1.0, 0.0, 1.0, f64::NAN];
    macro_rules! shape { ($r:literal x $c:literal) => {
        for w in words(&alpha, $r * $c).into_iter().filter(|w| w.len() == $r * $c) {
            let mut a = [[0.0f64; $c]; $r];
            for i in 0..$r { for j in 0..$c { a[i][j] = w[i * $c + j]; } }
            m.state();
            for (name, want, got) in [
                ("Positive", w.iter().all(|v| *v > 0.0), guarded(|| {
                    (All(All(Positive)).is_satisfied_by(&a), All(All(Positive)).check(a).is_ok()) })),
                ("NonNegative", w.iter().all(|v| *v >= 0.0), guarded(|| {
                    (All(All(NonNegative)).is_satisfied_by(&a), All(All(NonNegative)).check(a).is_ok()) })),
            ].iter().cloned() {
                m.step();
                m.expect(&format!("All(All({}))", name), || format!("{:?}", a), got == Ok((want, want)),
                    || format!("(predicate, check) = {:?}, elementwise {}", got, want));
            }
        }
    } }
    shape!(1 x 1);
    shape!(2 x 2);
    shape!(2 x 3);
    shape!(3 x 2);
    shape!(1 x 4);
    shape!(4 x 1);
    let sq = |b: bool| b;
    m.expect("Square", || "1x1".into(), sq(Square.is_satisfied_by(&[[1.0]])), || "square array refused".into());
    m.expect("Square", || "2x2".into(), sq(Square.is_satisfied_by(&[[1.0, -1.0], [0.0, f64::NAN]])), || "square array refused".into());
    m.expect("Square", || "3x3".into(), sq(Square.is_satisfied_by(&[[0u8; 3]; 3])), || "square array refused".into());
}

fn emptiness(m: &mut Mc) {
    for n in 0..6usize {
        let v = vec![1.0f64; n];
        m.state();
        m.step();
        let r = guarded(|| (Empty.is_satisfied_by(&v), Empty.check(v.clone()).is_ok()));
        m.expect("Empty", || format!("vector of length {}", n), r == Ok((n == 0, n == 0)), || format!("{:?}", r));
        let r = guarded(|| (Not(Empty).is_satisfied_by(&v), Not(Empty).check(v.clone()).is_ok()));
        m.expect("Not(Empty)", || format!("vector of length {}", n), r == Ok((n != 0, n != 0)), || format!("{:?}", r));
    }
    macro_rules! a { ($($n:literal)*) => { $(
        let v = [1.0f64; $n];
        m.state();
        m.step();
        let r = guarded(|| (Empty.is_satisfied_by(&v), Empty.check(v).is_ok()));
        m.expect("Empty", || format!("array of length {}", $n), r == Ok(($n == 0, $n == 0)), || format!("(predicate, check) = {:?}", r));
        let r = guarded(|| (Not(Empty).is_satisfied_by(&v), Not(Empty).check(v).is_ok()));
        m.expect("Not(Empty)", || format!("array of length {}", $n), r == Ok(($n != 0, $n != 0)), || format!("(predicate, check) = {:?}", r));
    )* } }
    a!(0 1 2 3 4 5);
}

/// The shorthand the crate itself uses for its checks.
fn shorthand(m: &mut Mc) {
    for x in -3i64..=3 {
        for t in -3i64..=3 {
            m.state();
            let got = guarded(|| {
                [
                    assert_constraint!(x == t).is_ok(),
                    assert_constraint!(x < t).is_ok(),
                    assert_constraint!(x <= t).is_ok(),
                    assert_constraint!(x > t).is_ok(),
                    assert_constraint!(x >= t).is_ok(),
                    assert_constraint!(x+).is_ok(),
                ]
            });
            let want = [x == t, x < t, x <= t, x > t, x >= t, x > 0];
            for (k, op) in ["==", "<", "<=", ">", ">=", "positive"].iter().enumerate() {
                m.step();
                let g = got.clone().map(|g| g[k]);
                m.expect("assert shorthand", || format!("{} {} {}", x, op, t), g == Ok(want[k]), || format!("{:?}", g));
            }
        }
    }
    for &x in FLOATS.iter() {
        for &t in FLOATS.iter() {
            m.state();
            let got = guarded(|| {
                [
                    assert_constraint!(x == t).is_ok(),
                    assert_constraint!(x < t).is_ok(),
                    assert_constraint!(x <= t).is_ok(),
                    assert_constraint!(x > t).is_ok(),
                    assert_constraint!(x >= t).is_ok(),
                    assert_constraint!(x+).is_ok(),
                ]
            });
            let want = [x == t, x < t, x <= t, x > t, x >= t, x > 0.0];
            for (k, op) in ["==", "<", "<=", ">", ">=", "positive"].iter().enumerate() {
                m.step();
                let g = got.clone().map(|g| g[k]);
                m.expect("assert shorthand", || format!("{:?} {} {:?}", x, op, t), g == Ok(want[k]), || format!("{:?}", g));
            }
        }
    }
}

pub fn run(m: &mut Mc) {
    m.at("C01 signs");
    let i8s: Vec<i8> = (i8::MIN..=i8::MAX).collect();
    let u8s: Vec<u8> = (u8::MIN..=u8::MAX).collect();
    let i16s: Vec<i16> = (i16::MIN..=i16::MAX).collect();
    let i64s = [i64::MIN, i64::MIN + 1, -1 << 32, -3, -2, -1, 0, 1, 2, 3, 1 << 32, i64::MAX - 1, i64::MAX];
    let us = [0usize, 1, 2, 3, 1 << 32, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];
    let is = |v: i128| v.signum() as i32;
    signs(m, &i8s, |v| is(v as i128));
    signs(m, &u8s, |v| is(v as i128));
    signs(m, &i16s, |v| is(v as i128));
    signs(m, &i64s, |v| is(v as i128));
    signs(m, &us, |v| is(v as i128));
    // every sign, exponent and leading 4 fraction bits of a double, with extreme low bits
    let mut fs: Vec<f64> = FLOATS.to_vec();
    for hi in 0..=0xffffu64 {
        for lo in [0u64, 1, 0xffff_ffff_ffff] {
            fs.push(f64::from_bits(hi << 48 | lo));
        }
    }
    signs(m, &fs, |v| {
        let bits = v.to_bits();
        if bits & !(1 << 63) > 0x7ff0_0000_0000_0000 { 2 } else if bits << 1 == 0 { 0 } else if bits >> 63 == 1 { -1 } else { 1 }
    });

    m.at("C01 naturals");
    naturals(m, &i8s);
    naturals(m, &u8s);
    naturals(m, &i16s);
    naturals(m, &i64s);
    naturals(m, &us);

    m.at("C01 orderings");
    orderings(m, &i8s, &i8s);
    orderings(m, &u8s, &u8s);
    orderings(m, &i64s, &i64s);
    orderings(m, &us, &us);
    orderings(m, &FLOATS, &FLOATS);

    m.at("C01 intervals");
    // every pair of bounds, against every value, of a byte
    if m.thorough() {
        intervals(m, &i8s, &i8s);
        intervals(m, &u8s, &u8s);
    } else {
        let some: Vec<i8> = (-32..32).chain(vec![-128, -127, 126, 127]).collect();
        intervals(m, &i8s, &some);
        let some: Vec<u8> = (0..16).chain(vec![127, 128, 129, 253, 254, 255]).collect();
        intervals(m, &u8s, &some);
    }
    intervals(m, &FLOATS, &FLOATS);
    intervals(m, &i64s, &i64s);
    intervals(m, &us, &us);

    m.at("C01 elementwise");
    let n = m.pick(5, 7);
    let fa = [-1.0, -0.0, 0.0, 5e-324, f64::NAN, f64::INFINITY];
    elementwise(m, "Positive", Positive, &fa, n, &|v| *v > 0.0);
    elementwise(m, "NonNegative", NonNegative, &fa, n, &|v| *v >= 0.0);
    elementwise(m, "Negative", Negative, &fa, n, &|v| *v < 0.0);
    elementwise(m, "Interval", Interval { lb: 0.0, ub: 1.0 }, &[-1.0, 0.0, 1.0, 1.5], n, &|v| *v >= 0.0 && *v <= 1.0);
    elementwise(m, "Natural", Natural, &[-1i64, 0, 1, 2], n, &|v| *v > 0);
    elementwise(m, "GreaterThan", GreaterThan(1u8), &[0u8, 1, 2], n, &|v| *v > 1);
    elementwise(m, "Equal", Equal(0i8), &[-1i8, 0, 1], n, &|v| *v == 0);
    macro_rules! longs { ($($n:literal)*) => { $(
        long::<_, _, $n>(m, "Positive", Positive, &fa, &|v| *v > 0.0);
        long::<_, _, $n>(m, "NonNegative", NonNegative, &fa, &|v| *v >= 0.0);
        long::<_, _, $n>(m, "Interval", Interval { lb: 0.0, ub: 1.0 }, &[-1.0, 0.0, 1.0, 1.5], &|v| *v >= 0.0 && *v <= 1.0);
        long::<_, _, $n>(m, "Natural", Natural, &[-1i64, 0, 1, 2], &|v| *v > 0);
        long::<_, _, $n>(m, "LessThan", LessThan(2usize), &[3usize, 2, 1, 0], &|v| *v < 2);
        long::<_, _, $n>(m, "Not(Equal)", Not(Equal(0i8)), &[-1i8, 0, 1], &|v| *v != 0);
    )* } }
    longs!(8 9 15 16 17 31 32 33 64 65 100 257);
    // scalars under All are their own single element
    for &v in FLOATS.iter() {
        judge(m, "All(Positive) scalar", "", &All(Positive), v, v > 0.0);
        judge(m, "All(Interval) scalar", "", &All(Interval { lb: -1.0, ub: 1.0 }), v, v >= -1.0 && v <= 1.0);
    }
    for &v in i64s.iter() {
        judge(m, "All(Positive) scalar", "", &All(Positive), v, v > 0);
        judge(m, "All(NonNegative) scalar", "", &All(NonNegative), v, v >= 0);
    }
    for &v in us.iter() {
        judge(m, "All(Positive) scalar", "", &All(Positive), v, v > 0);
        judge(m, "All(NonNegative) scalar", "", &All(NonNegative), v, true);
    }

    m.at("C01 shapes");
    matrices(m);
    emptiness(m);
    m.at("C01 shorthand");
    shorthand(m);
    let s = m.pick(5, 7);
    m.bound(&format!("8-bit integers: the whole domain for values and for bounds (intervals: all values, bounds from a list of 68 (every pair of bytes)); 16-bit signs: whole domain; 64-bit and f64: boundary alphabets; f64 signs: all 65536 sign/exponent/leading-fraction patterns x 3 tails; vectors and arrays: every word up to length {}, and twelve lengths from 8 to 257 with one entry in every position replaced by every letter", s));
    m.outcome("accept");
    m.outcome("reject");
}
