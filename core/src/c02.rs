//! C02: combinators are the boolean algebra they name; checks and predicates
//! agree; a rejection carries the rejected value and a constraint it violates.
use crate::c01::{same, words, FLOATS};
use crate::params::constraints::*;
use kit::{guarded, Mc};
use std::fmt::Debug;
use std::result::Result;

/// The reference: a formula and its truth value.
#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Pos,
    Neg,
    NonNeg,
    NonPos,
    Eq(i8),
    Lt(i8),
    Le(i8),
    Gt(i8),
    Ge(i8),
    In(i8, i8),
    Not(Box<F>),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
}

impl F {
    fn eval(&self, v: f64) -> bool {
        let c = |b: &i8| *b as f64;
        match self {
            F::Pos => v > 0.0,
            F::Neg => v < 0.0,
            F::NonNeg => v >= 0.0,
            F::NonPos => v <= 0.0,
            F::Eq(b) => v == c(b),
            F::Lt(b) => v < c(b),
            F::Le(b) => v <= c(b),
            F::Gt(b) => v > c(b),
            F::Ge(b) => v >= c(b),
            F::In(a, b) => v >= c(a) && v <= c(b),
            F::Not(f) => !f.eval(v),
            F::And(f, g) => f.eval(v) & g.eval(v),
            F::Or(f, g) => f.eval(v) | g.eval(v),
        }
    }
}

type B<T> = Box<dyn Constraint<T>>;

trait Num: Copy + Debug + PartialOrd + num::Zero + Send + Sync + 'static {
    fn c(b: i8) -> Self;
    fn f(self) -> f64;
}
impl Num for i8 {
    fn c(b: i8) -> i8 { b }
    fn f(self) -> f64 { self as f64 }
}
impl Num for f64 {
    fn c(b: i8) -> f64 { b as f64 }
    fn f(self) -> f64 { self }
}

fn build<T: Num>(f: &F) -> B<T> {
    match f {
        F::Pos => Box::new(Positive),
        F::Neg => Box::new(Negative),
        F::NonNeg => Box::new(NonNegative),
        F::NonPos => Box::new(NonPositive),
        F::Eq(b) => Box::new(Equal(T::c(*b))),
        F::Lt(b) => Box::new(LessThan(T::c(*b))),
        F::Le(b) => Box::new(LessThanOrEqual(T::c(*b))),
        F::Gt(b) => Box::new(GreaterThan(T::c(*b))),
        F::Ge(b) => Box::new(GreaterThanOrEqual(T::c(*b))),
        F::In(a, b) => Box::new(Interval { lb: T::c(*a), ub: T::c(*b) }),
        F::Not(g) => Box::new(Not(build::<T>(g))),
        F::And(g, h) => Box::new(And((build::<T>(g), build::<T>(h)))),
        F::Or(g, h) => Box::new(Or((build::<T>(g), build::<T>(h)))),
    }
}

/// Outcome of a checked construction in terms the property speaks about.
fn outcome<T: Num>(r: Result<T, UnsatisfiedConstraintError<T>>, v: T) -> (bool, bool, bool) {
    match r {
        Ok(x) => (true, same(x.f(), v.f()), true),
        // value kept, and the reported constraint really is violated by it
        Err(e) => (false, same(e.value.f(), v.f()), !e.constraint.is_satisfied_by(&v)),
    }
}

/// Checks one formula on every value; the root is built statically so that its
/// own `check` (not the boxed default) runs.
fn judge<T: Num>(m: &mut Mc, f: &F, vals: &[T]) {
    m.state();
    m.trace();
    for &v in vals {
        let want = f.eval(v.f());
        m.step();
        let r = guarded(|| build::<T>(f).is_satisfied_by(&v));
        m.expect("predicate", || format!("{:?} on {:?}", f, v), r == Ok(want), || format!("{:?}, truth table says {}", r, want));
        let r = guarded(|| {
            outcome(
                match f {
                    F::Not(g) => Not(build::<T>(g)).check(v),
                    F::And(g, h) => And((build::<T>(g), build::<T>(h))).check(v),
                    F::Or(g, h) => Or((build::<T>(g), build::<T>(h))).check(v),
                    _ => build::<T>(f).check(v),
                },
                v,
            )
        });
        m.expect("check", || format!("{:?} on {:?}", f, v), r == Ok((want, true, true)), || {
            format!("(accepted, value kept, reported constraint violated) = {:?}, truth table says {}", r, want)
        });
    }
}

/// Statically nested combinators: every `check` override calls other overrides.
macro_rules! nested {
    ($m:ident, $vals:ident, $t:ty; $($e:expr => $w:expr;)*) => { $(
        for &v in $vals.iter() {
            $m.state();
            let want: bool = ($w)(v);
            let r = guarded(|| ($e).is_satisfied_by(&v));
            $m.step();
            $m.expect("nested predicate", || format!("{} on {:?}", stringify!($e), v), r == Ok(want), || format!("{:?}", r));
            let r = guarded(|| outcome::<$t>(($e).check(v), v));
            $m.step();
            $m.expect("nested check", || format!("{} on {:?}", stringify!($e), v), r == Ok((want, true, true)),
                || format!("(accepted, value kept, reported constraint violated) = {:?}, truth table says {}", r, want));
        }
    )* }
}

fn statics(m: &mut Mc) {
    let vals: Vec<i8> = (-6..=6).chain(vec![i8::MIN, i8::MAX]).collect();
    nested!(m, vals, i8;
        And((And((GreaterThan(-3), LessThan(3))), Not(Equal(0)))) => |v: i8| v > -3 && v < 3 && v != 0;
        And((Not(Equal(0)), And((GreaterThan(-3), LessThan(3))))) => |v: i8| v > -3 && v < 3 && v != 0;
        Or((Or((Equal(-2), Equal(2))), Equal(5))) => |v: i8| v == -2 || v == 2 || v == 5;
        Or((Equal(5), Or((Equal(-2), Equal(2))))) => |v: i8| v == -2 || v == 2 || v == 5;
        Or((And((Positive, LessThan(3))), And((Negative, GreaterThan(-3))))) => |v: i8| (v > 0 && v < 3) || (v < 0 && v > -3);
        And((Or((Positive, Equal(-4))), Or((Negative, Equal(4))))) => |v: i8| (v > 0 || v == -4) && (v < 0 || v == 4);
        Not(And((Positive, LessThan(3)))) => |v: i8| !(v > 0 && v < 3);
        Not(Or((Positive, Equal(-4)))) => |v: i8| !(v > 0 || v == -4);
        Not(Not(Positive)) => |v: i8| v > 0;
        Not(Not(Not(NonNegative))) => |v: i8| v < 0;
        And((NonNegative, Natural)) => |v: i8| v > 0;
        Or((Natural, Negative)) => |v: i8| v != 0;
        And((Interval { lb: -2, ub: 2 }, Not(Interval { lb: -1, ub: 1 }))) => |v: i8| v == 2 || v == -2;
        Or((Not(Interval { lb: -2, ub: 2 }), Equal(0))) => |v: i8| v > 2 || v < -2 || v == 0;
    );
    let vals = FLOATS.to_vec();
    nested!(m, vals, f64;
        All(Positive) => |v: f64| v > 0.0;
        All(Not(Positive)) => |v: f64| !(v > 0.0);
        All(Or((Positive, Equal(0.0)))) => |v: f64| v >= 0.0;
        All(And((NonNegative, LessThanOrEqual(1.0)))) => |v: f64| v >= 0.0 && v <= 1.0;
        And((All(NonNegative), All(LessThan(1.0)))) => |v: f64| v >= 0.0 && v < 1.0;
        Or((All(Negative), All(GreaterThan(1.0)))) => |v: f64| v < 0.0 || v > 1.0;
        Not(All(Positive)) => |v: f64| !(v > 0.0);
        Not(And((NonNegative, NonPositive))) => |v: f64| !(v == 0.0);
        Or((NonNegative, NonPositive)) => |v: f64| !v.is_nan();
        Not(Or((NonNegative, NonPositive))) => |v: f64| v.is_nan();
    );
}

/// Combinators over vectors and arrays: connectives outside and inside All.
fn collections(m: &mut Mc) {
    let alpha = [-2i8, -1, 0, 1, 2];
    let n = m.pick(5, 7);
    for w in words(&alpha, n) {
        m.state();
        let all = |p: &dyn Fn(i8) -> bool| w.iter().all(|v| p(*v));
        macro_rules! go { ($v:expr, $name:expr) => {
            let v = $v;
            let cases: Vec<(&str, bool, Result<(bool, bool, bool), String>)> = vec![
                ("And(All(>=0), All(<2))", all(&|x| x >= 0) && all(&|x| x < 2),
                    guarded(|| coll(And((All(NonNegative), All(LessThan(2)))), v.clone()))),
                ("Or(All(>0), All(<0))", all(&|x| x > 0) || all(&|x| x < 0),
                    guarded(|| coll(Or((All(Positive), All(Negative))), v.clone()))),
                ("Not(All(>0))", !all(&|x| x > 0),
                    guarded(|| coll(Not(All(Positive)), v.clone()))),
                ("All(Not(>0))", all(&|x| !(x > 0)),
                    guarded(|| coll(All(Not(Positive)), v.clone()))),
                ("All(Or(>0, ==-1))", all(&|x| x > 0 || x == -1),
                    guarded(|| coll(All(Or((Positive, Equal(-1)))), v.clone()))),
                ("All(And(>=0, <2))", all(&|x| x >= 0 && x < 2),
                    guarded(|| coll(All(And((NonNegative, LessThan(2)))), v.clone()))),
                ("And(Not(Empty), All(>0))", w.len() > 0 && all(&|x| x > 0),
                    guarded(|| coll(And((Not(Empty), All(Positive))), v.clone()))),
                ("Or(Empty, Not(All(>0)))", w.len() == 0 || !all(&|x| x > 0),
                    guarded(|| coll(Or((Empty, Not(All(Positive)))), v.clone()))),
            ];
            for (name, want, got) in cases {
                m.step();
                m.expect("collections", || format!("{} on {:?} as {}", name, w, $name), got == Ok((want, want, true)),
                    || format!("(predicate, accepted, value kept and constraint violated) = {:?}, truth table says {}", got, want));
            }
        } }
        go!(w.clone(), "vector");
        use std::convert::TryInto;
        macro_rules! fixed { ($($n:literal)*) => { $( if w.len() == $n {
            let a: [i8; $n] = w.clone().try_into().unwrap();
            go!(a, "array");
        } )* } }
        fixed!(0 1 2 3 4 5 6 7);
    }
}

fn coll<T: Clone + Debug + PartialEq + 'static, C: Constraint<T> + Clone + 'static>(c: C, v: T) -> (bool, bool, bool) {
    let p = c.is_satisfied_by(&v);
    match c.check(v.clone()) {
        Ok(x) => (p, true, x == v),
        Err(e) => (p, false, e.value == v && !e.constraint.is_satisfied_by(&v)),
    }
}

/// What a user sees of a rejection.
fn errors(m: &mut Mc) {
    for &v in FLOATS.iter() {
        for f in atoms() {
            if f.eval(v) {
                continue;
            }
            m.state();
            for target in [None, Some("n"), Some("a longer target name")].iter() {
                m.step();
                let r = guarded(|| {
                    let e = build::<f64>(&f).check(v).err().expect("rejected");
                    let none = e.target.is_none();
                    let e = match target {
                        None => e,
                        Some(t) => e.with_target(t),
                    };
                    let kept = same(e.value, v) && e.target.as_deref() == *target && !e.constraint.is_satisfied_by(&v);
                    let (d, g) = (format!("{}", e), format!("{:?}", e));
                    let name = format!("{}", e.constraint);
                    let val = format!("{:?}", v);
                    let texts = d.contains(&name) && d.contains(&val) && g.contains(&val)
                        && !name.is_empty() && target.map_or(true, |t| d.contains(t) && g.contains(t));
                    // as the boxed error users receive
                    let fe: failure::Error = e.into();
                    let back = fe.downcast_ref::<UnsatisfiedConstraintError<f64>>()
                        .map_or(false, |b| same(b.value, v) && b.target.as_deref() == *target);
                    (none, kept, texts, back)
                });
                m.expect("rejection report", || format!("{:?} on {:?} target {:?}", f, v, target),
                    r == Ok((true, true, true, true)),
                    || format!("(no target before, value/target/constraint kept, text names them, survives boxing) = {:?}", r));
            }
        }
    }
}

/// The text of a combination names its connective, and no other, around the texts of its parts.
fn printed(m: &mut Mc, fs: &[F]) {
    for f in fs {
        let (parts, own, other): (Vec<&F>, [&str; 2], [&str; 4]) = match f {
            F::Not(g) => (vec![&**g], ["not", "!"], ["and", "&", "or", "|"]),
            F::And(g, h) => (vec![&**g, &**h], ["and", "&"], ["or", "|", "not", "!"]),
            F::Or(g, h) => (vec![&**g, &**h], ["or", "|"], ["and", "&", "not", "!"]),
            _ => continue,
        };
        m.step();
        let texts = guarded(|| (build::<f64>(f).to_string(), parts.iter().map(|g| build::<f64>(g).to_string()).collect::<Vec<_>>()));
        let ok = texts.as_ref().map_or(false, |(whole, parts)| {
            let (mut rest, mut glue) = (whole.as_str(), String::new());
            for p in parts {
                match rest.find(p.as_str()) {
                    None => return false,
                    Some(i) => {
                        glue.push_str(&rest[..i]);
                        glue.push(' ');
                        rest = &rest[i + p.len()..];
                    },
                }
            }
            glue.push_str(rest);
            let glue = glue.to_lowercase();
            own.iter().any(|w| glue.contains(w)) && !other.iter().any(|w| glue.contains(w))
        });
        m.expect("the text of a combination names its connective", || format!("{:?}", f), ok, || format!("{:?}", texts));
    }
}

fn atoms() -> Vec<F> {
    let mut a = vec![F::Pos, F::Neg, F::NonNeg, F::NonPos];
    for b in &[-1i8, 0, 1] {
        a.extend(vec![F::Eq(*b), F::Lt(*b), F::Le(*b), F::Gt(*b), F::Ge(*b)]);
    }
    a.extend(vec![F::In(-1, 1), F::In(0, 1), F::In(1, -1)]);
    a
}

pub fn run(m: &mut Mc) {
    m.at("C02 formulas");
    let vi: Vec<i8> = vec![-128, -2, -1, 0, 1, 2, 127];
    let vf = vec![-1.5, -1.0, -0.0, 0.0, 0.5, 1.0, 1.5, f64::NAN, f64::INFINITY];
    // breadth-first over formula depth: every formula of depth 0, 1, 2
    let l0 = atoms();
    let mut l1: Vec<F> = vec![];
    for f in &l0 {
        l1.push(F::Not(Box::new(f.clone())));
        for g in &l0 {
            l1.push(F::And(Box::new(f.clone()), Box::new(g.clone())));
            l1.push(F::Or(Box::new(f.clone()), Box::new(g.clone())));
        }
    }
    for f in l0.iter().chain(l1.iter()) {
        judge::<i8>(m, f, &vi);
        judge::<f64>(m, f, &vf);
    }
    printed(m, &l1);
    // depth 2 over a smaller set of atoms (quick) or over every depth-1 formula (thorough)
    let small: Vec<F> = vec![F::Pos, F::Neg, F::NonNeg, F::NonPos, F::Lt(1), F::Ge(1), F::Gt(-1), F::Le(0), F::Eq(0), F::In(-1, 1), F::In(1, -1)];
    let base: Vec<F> = if m.thorough() { l0.clone() } else { small };
    let mut d1: Vec<F> = base.clone();
    for f in &base {
        d1.push(F::Not(Box::new(f.clone())));
        for g in &base {
            d1.push(F::And(Box::new(f.clone()), Box::new(g.clone())));
            d1.push(F::Or(Box::new(f.clone()), Box::new(g.clone())));
        }
    }
    m.at("C02 depth 2");
    printed(m, &d1.iter().skip(base.len()).flat_map(|f| {
        let (a, b) = (Box::new(f.clone()), Box::new(F::Lt(1)));
        vec![F::Not(a.clone()), F::And(a.clone(), b.clone()), F::Or(b.clone(), a.clone()), F::And(b.clone(), a.clone()), F::Or(a, b)]
    }).collect::<Vec<_>>());
    let vq: Vec<i8> = vec![-2, -1, 0, 1, 2];
    for f in &d1 {
        judge::<i8>(m, &F::Not(Box::new(f.clone())), &vq);
        for g in &d1 {
            judge::<i8>(m, &F::And(Box::new(f.clone()), Box::new(g.clone())), &vq);
            judge::<i8>(m, &F::Or(Box::new(f.clone()), Box::new(g.clone())), &vq);
        }
    }
    m.at("C02 static nesting");
    statics(m);
    m.at("C02 collections");
    collections(m);
    m.at("C02 errors");
    errors(m);
    m.bound(if m.thorough() {
        "formulas: every one of depth <= 2 over 22 atoms (binary connectives of depth-1 operands); values: 5-9 letters"
    } else {
        "formulas: every one of depth <= 1 over 22 atoms, of depth <= 2 over 11 atoms; values: 5-9 letters"
    });
    m.outcome("true");
    m.outcome("false");
}
