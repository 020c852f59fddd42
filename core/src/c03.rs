//! C03: validated parameter construction succeeds exactly on the values that
//! satisfy the constraints the parameter type declares, and stores the value.
use crate::c01::{same, words, FLOATS};
use crate::params::constraints::UnsatisfiedConstraintError as UCE;
use crate::params::*;
use kit::{guarded, Mc};

mod ls {
    locscale_params! { LocScale { mu<f64>, sigma<f64> } }
}
mod sh {
    shape_params! { Shapes<f64> { alpha, beta } }
}
mod gen {
    use crate::params::{Count, Loc, Rate, Scale, Shape, DOF};
    params! { Three { a: Loc<f64>, b: Rate<f64>, c: DOF<f64> } }
    params! { Counts { n: Count<usize>, s: Scale<i64> } }
}

/// Judges a parameter type on one value: accept, keep, expose, report.
macro_rules! judge {
    ($m:ident, $p:ident<$t:ty>, $v:expr, $want:expr, $same:expr) => {{
        let v: $t = $v.clone();
        let want: bool = $want;
        let name = concat!(stringify!($p), "<", stringify!($t), ">");
        $m.state();
        $m.trace();
        $m.step();
        let declared = guarded(|| <$p<$t> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&v)));
        $m.expect(&format!("{} declared constraints", name), || format!("{:?}", v), declared == Ok(want),
            || format!("{:?}, documented set says {}", declared, want));
        $m.step();
        let r = guarded(|| match $p::<$t>::new(v.clone()) {
            Ok(p) => (true, $same(p.value(), &v) && $same(&p.0, &v) && $same(&*p, &v)
                && $same(&p.clone().into_value(), &v) && $same(&p.into_value(), &v)),
            Err(e) => (false, $same(&e.value, &v) && !e.constraint.is_satisfied_by(&v)),
        });
        $m.expect(&format!("{}::new", name), || format!("{:?}", v), r == Ok((want, true)),
            || format!("(accepted, value exposed/reported) = {:?}, documented set says {}", r, want));
        $m.step();
        let r = guarded(|| { let p = $p::<$t>::new_unchecked(v.clone());
            $same(p.value(), &v) && $same(&*p, &v) && $same(&p.clone().into_value(), &v) });
        $m.expect(&format!("{}::new_unchecked", name), || format!("{:?}", v), r == Ok(true), || format!("{:?}", r));
    }};
}

fn eqf(a: &f64, b: &f64) -> bool { same(*a, *b) }
fn eq<T: PartialEq>(a: &T, b: &T) -> bool { a == b }
fn eqs(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y)) }

fn scalars(m: &mut Mc) {
    for v in FLOATS.iter() {
        judge!(m, Loc<f64>, v, true, eqf);
        judge!(m, Scale<f64>, v, *v > 0.0, eqf);
        judge!(m, Rate<f64>, v, *v > 0.0, eqf);
        judge!(m, Shape<f64>, v, *v > 0.0, eqf);
        judge!(m, DOF<f64>, v, *v > 0.0, eqf);
        judge!(m, Count<f64>, v, *v >= 0.0, eqf);
    }
    for v in [i64::MIN, -2, -1, 0, 1, 2, i64::MAX].iter() {
        judge!(m, Loc<i64>, v, true, eq);
        judge!(m, Scale<i64>, v, *v > 0, eq);
        judge!(m, Rate<i64>, v, *v > 0, eq);
        judge!(m, Shape<i64>, v, *v > 0, eq);
        judge!(m, DOF<i64>, v, *v > 0, eq);
        judge!(m, Count<i64>, v, *v >= 0, eq);
    }
    for v in [0usize, 1, 2, usize::MAX].iter() {
        judge!(m, Loc<usize>, v, true, eq);
        judge!(m, Scale<usize>, v, *v > 0, eq);
        judge!(m, Rate<usize>, v, *v > 0, eq);
        judge!(m, Shape<usize>, v, *v > 0, eq);
        judge!(m, DOF<usize>, v, *v > 0, eq);
        judge!(m, Count<usize>, v, true, eq);
    }
    // text is the value's own
    for v in [0.5f64, 1.0, 2.25, 1e10].iter() {
        m.state();
        let r = guarded(|| (Loc(*v).to_string(), Scale(*v).to_string(), DOF(*v).to_string(), format!("{:.3}", Rate(*v))));
        let w = (v.to_string(), v.to_string(), v.to_string(), format!("{:.3}", v));
        m.expect("parameter text", || format!("{:?}", v), r.as_ref() == Ok(&w), || format!("{:?}", r));
    }
}

fn vectors(m: &mut Mc) {
    use std::convert::TryInto;
    let alpha = [-1.0, -0.0, 5e-324, 1.0, f64::NAN, f64::INFINITY];
    let n = m.pick(5, 6);
    for w in words(&alpha, n) {
        let pos = w.iter().all(|v| *v > 0.0);
        let non = w.iter().all(|v| *v >= 0.0);
        let sv = |a: &Vec<f64>, b: &Vec<f64>| eqs(a, b);
        judge!(m, Loc<Vec<f64>>, w, true, sv);
        judge!(m, Scale<Vec<f64>>, w, pos, sv);
        judge!(m, Rate<Vec<f64>>, w, pos, sv);
        judge!(m, Shape<Vec<f64>>, w, pos, sv);
        judge!(m, DOF<Vec<f64>>, w, pos, sv);
        judge!(m, Count<Vec<f64>>, w, non, sv);
        macro_rules! fixed { ($($n:literal)*) => { $( if w.len() == $n {
            let a: [f64; $n] = w.clone().try_into().unwrap();
            let sa = |a: &[f64; $n], b: &[f64; $n]| eqs(a, b);
            judge!(m, Loc<[f64; $n]>, a, true, sa);
            judge!(m, Scale<[f64; $n]>, a, pos, sa);
            judge!(m, Shape<[f64; $n]>, a, pos, sa);
            judge!(m, Count<[f64; $n]>, a, non, sa);
            // concentrations: strictly positive, at least one
            let want = pos && $n > 0;
            m.state();
            m.step();
            let declared = guarded(|| <Concentrations<$n> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&a)));
            m.expect("Concentrations declared constraints", || format!("{:?}", a), declared == Ok(want),
                || format!("{:?}, documented set says {}", declared, want));
            m.step();
            let r = guarded(|| match Concentrations::<$n>::new(a) {
                Ok(p) => (true, eqs(p.value(), &a) && eqs(&p.0, &a) && eqs(&p.clone().into_value(), &a)),
                Err(e) => (false, eqs(&e.value, &a) && !e.constraint.is_satisfied_by(&a)),
            });
            m.expect("Concentrations::new", || format!("{:?}", a), r == Ok((want, true)),
                || format!("(accepted, value exposed/reported) = {:?}, documented set says {}", r, want));
        } )* } }
        fixed!(0 1 2 3 4 5 6);
    }
}

/// Longer vectors and arrays: ones but for one entry, in every position, of every letter.
fn long<const N: usize>(m: &mut Mc) {
    for odd in [-1.0, -0.0, 5e-324, 2.0, f64::NAN, f64::INFINITY].iter() {
        for at in 0..N {
            let mut a = [1.0; N];
            a[at] = *odd;
            let w = a.to_vec();
            let (pos, non) = (*odd > 0.0, *odd >= 0.0);
            let sv = |a: &Vec<f64>, b: &Vec<f64>| eqs(a, b);
            let sa = |a: &[f64; N], b: &[f64; N]| eqs(a, b);
            judge!(m, Loc<Vec<f64>>, w, true, sv);
            judge!(m, Scale<Vec<f64>>, w, pos, sv);
            judge!(m, Rate<Vec<f64>>, w, pos, sv);
            judge!(m, Count<Vec<f64>>, w, non, sv);
            judge!(m, Loc<[f64; N]>, a, true, sa);
            judge!(m, Scale<[f64; N]>, a, pos, sa);
            judge!(m, Shape<[f64; N]>, a, pos, sa);
            judge!(m, Count<[f64; N]>, a, non, sa);
            let input = || format!("{} ones but for {:?} at {}", N, odd, at);
            m.state();
            m.step();
            let declared = guarded(|| <Concentrations<N> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&a)));
            m.expect("Concentrations declared constraints", input, declared == Ok(pos), || format!("{:?}, documented set says {}", declared, pos));
            m.step();
            let r = guarded(|| match Concentrations::<N>::new(a) {
                Ok(p) => (true, eqs(p.value(), &a) && eqs(&p.0, &a) && eqs(&p.clone().into_value(), &a)),
                Err(e) => (false, eqs(&e.value, &a) && !e.constraint.is_satisfied_by(&a)),
            });
            m.expect("Concentrations::new", input, r == Ok((pos, true)),
                || format!("(accepted, value exposed/reported) = {:?}, documented set says {}", r, pos));
        }
    }
}

fn correlations(m: &mut Mc) {
    let mut vals = FLOATS.to_vec();
    vals.extend((-40..=40).map(|i| i as f64 / 20.0));
    for &v in &vals {
        m.state();
        let want = v >= -1.0 && v <= 1.0;
        m.step();
        let d = guarded(|| <Corr as Param>::constraints().iter().all(|c| c.is_satisfied_by(&v)));
        m.expect("Corr declared constraints", || format!("{:?}", v), d == Ok(want), || format!("{:?}, [-1, 1] says {}", d, want));
        m.step();
        let r = guarded(|| match Corr::new(v) {
            Ok(p) => (true, same(*p.value(), v) && same(p.0, v) && same(p.into_value(), v)),
            Err(e) => (false, same(e.value, v) && !e.constraint.is_satisfied_by(&v)),
        });
        m.expect("Corr::new", || format!("{:?}", v), r == Ok((want, true)), || format!("{:?}, [-1, 1] says {}", r, want));
    }
}

/// Which value a rejection of a parameter set names.
fn culprit(e: &failure::Error) -> Option<f64> {
    if let Some(u) = e.downcast_ref::<UCE<f64>>() {
        if !u.constraint.is_satisfied_by(&u.value) {
            return Some(u.value);
        }
    }
    None
}

/// Parameter sets: accept iff every member accepts, keep every member in its
/// own place, and on rejection report a member that is at fault.
fn sets(m: &mut Mc) {
    let al = [-1.0, 0.0, 5e-324, 0.25, 3.0, f64::NAN, f64::INFINITY];
    for &a in &al {
        for &b in &al {
            m.state();
            m.step();
            let want = b > 0.0;
            let r = guarded(|| match ls::LocScale::new(a, b) {
                Ok(p) => (true, same(p.mu.0, a) && same(p.sigma.0, b)),
                Err(e) => (false, culprit(&e).map_or(false, |v| same(v, b))),
            });
            m.expect("location-scale set", || format!("({:?}, {:?})", a, b), r == Ok((want, true)), || format!("{:?}", r));
            let r = guarded(|| { let p = ls::LocScale::new_unchecked(a, b); let q = p.clone();
                same(p.mu.0, a) && same(p.sigma.0, b) && same(q.mu.0, a) && same(q.sigma.0, b) });
            m.expect("location-scale set unchecked", || format!("({:?}, {:?})", a, b), r == Ok(true), || format!("{:?}", r));
            m.step();
            let want = a > 0.0 && b > 0.0;
            let r = guarded(|| match sh::Shapes::new(a, b) {
                Ok(p) => (true, same(p.alpha.0, a) && same(p.beta.0, b)),
                Err(e) => (false, culprit(&e).map_or(false, |v| (same(v, a) && !(a > 0.0)) || (same(v, b) && !(b > 0.0)))),
            });
            m.expect("shape set", || format!("({:?}, {:?})", a, b), r == Ok((want, true)), || format!("{:?}", r));
            for &c in &al {
                m.state();
                m.step();
                let want = b > 0.0 && c > 0.0;
                let r = guarded(|| match gen::Three::new(a, b, c) {
                    Ok(p) => (true, same(p.a.0, a) && same(p.b.0, b) && same(p.c.0, c)),
                    Err(e) => (false, culprit(&e).map_or(false, |v| (same(v, b) && !(b > 0.0)) || (same(v, c) && !(c > 0.0)))),
                });
                m.expect("three-parameter set", || format!("({:?}, {:?}, {:?})", a, b, c), r == Ok((want, true)), || format!("{:?}", r));
            }
        }
    }
    for &n in [0usize, 1, 2, usize::MAX].iter() {
        for &s in [i64::MIN, -1, 0, 1, 2, i64::MAX].iter() {
            m.state();
            m.step();
            let want = s > 0;
            let r = guarded(|| match gen::Counts::new(n, s) {
                Ok(p) => (true, p.n.0 == n && p.s.0 == s),
                Err(e) => (false, e.downcast_ref::<UCE<i64>>().map_or(false, |u| u.value == s)),
            });
            m.expect("count set", || format!("({}, {})", n, s), r == Ok((want, true)), || format!("{:?}", r));
        }
    }
}

pub fn run(m: &mut Mc) {
    m.at("C03 scalars");
    scalars(m);
    m.at("C03 vectors");
    vectors(m);
    m.at("C03 long");
    long::<7>(m);
    long::<8>(m);
    long::<9>(m);
    long::<16>(m);
    long::<17>(m);
    long::<32>(m);
    long::<33>(m);
    long::<64>(m);
    long::<65>(m);
    m.at("C03 correlations");
    correlations(m);
    m.at("C03 sets");
    sets(m);
    let n = m.pick(5, 6);
    m.bound(&format!("scalars: 25-letter float, 7-letter i64, 4-letter usize alphabets; vectors and arrays: every word of length <= {} over 6 letters, and nine lengths from 7 to 65 with one entry in every position replaced by every letter; parameter sets: every tuple over 7 letters", n));
    m.outcome("accept");
    m.outcome("reject");
}
