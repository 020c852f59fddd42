//! D16: probability values.  D17: probability vectors.
use crate::case::{refusal, Words, R};
use crate::multis::compositions;
use crate::vecs::*;
use kit::rng::{Script, Tree};
use kit::{guarded, Mc};
use rstat::params::Param;
use rstat::{InvalidProbabilityError, Probability, SimplexVector};
use std::collections::BTreeSet;
use std::convert::TryFrom;

const P: [f64; 14] = [0.0, -0.0, 5e-324, 1e-300, 1e-10, 0.1, 0.25, 1.0 / 3.0, 0.5, 0.7, 0.9, 0.999999, 1.0 - 1.1102230246251565e-16, 1.0];
const X: [f64; 16] = [0.0, -0.0, 5e-324, 0.1, 0.5, 1.0, 1.0 + 2.220446049250313e-16, 1.5, 2.0, 1e300, -5e-324, -0.25, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

fn valid(x: f64) -> bool { x >= 0.0 && x <= 1.0 }

type Checked = Result<Probability, InvalidProbabilityError>;

/// The value of a checked operation: Some(value) or None if refused.
fn value(r: Checked) -> Option<f64> { r.ok().map(|p| p.unwrap()) }

fn like(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 4e-16 * a.abs().max(b.abs()) }

fn judged(m: &mut Mc, site: &str, input: impl Fn() -> String, got: R<Option<f64>>, want: f64) {
    m.step();
    let ok = match &got {
        Ok(Some(v)) => valid(want) && like(*v, want) && valid(*v),
        Ok(None) => !valid(want),
        Err(_) => false,
    };
    m.expect(site, input, ok, || format!("{:?}, the exact result is {:e}", got, want));
}

fn plain(m: &mut Mc, site: &str, input: impl Fn() -> String, got: R<f64>, want: f64) {
    m.step();
    m.expect(site, input, matches!(&got, Ok(v) if like(*v, want)), || format!("{:?}, the exact result is {:e}", got, want));
}

/// D16
pub fn probability(m: &mut Mc) {
    m.bound("every operand pair over 14 probabilities and 16 reals (boundaries, subnormals, non-finite values) and every operator in every by-value / by-reference form; every history of up to 6 (8) operations from six probabilities");
    // membership
    for x in P.iter().chain(X.iter()).cloned().chain([f64::EPSILON, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, f64::MAX, f64::MIN, 0.5 + 1e-16]) {
        m.state();
        m.steps_add(4);
        let ok = valid(x);
        let same = |p: &Option<f64>| match p {
            Some(v) => ok && v.to_bits() == x.to_bits(),
            None => !ok,
        };
        for (n, g) in [("new", guarded(|| value(Probability::new(x)))), ("try_from", guarded(|| value(Probability::try_from(x))))] {
            m.expect("a number becomes a probability exactly when it lies in [0, 1]", || format!("{} {:e}", n, x), matches!(&g, Ok(p) if same(p)), || format!("{:?}", g));
        }
        let g = guarded(|| Probability::new_unchecked(x).is_valid());
        m.expect("validity is membership in [0, 1]", || format!("{:e}", x), g == Ok(ok), || format!("{:?}", g));
        let g = guarded(|| <Probability as Param>::constraints().iter().all(|c| c.is_satisfied_by(&x)));
        m.expect("the declared constraints are membership in [0, 1]", || format!("{:e}", x), g == Ok(ok), || format!("{:?}", g));
        if ok {
            let g = guarded(|| {
                let p = Probability::new_unchecked(x);
                (f64::from(p).to_bits(), *p.value(), p.into_value(), p.to_string(), p == x, p.unwrap())
            });
            m.expect("a probability gives back its value", || format!("{:e}", x), g == Ok((x.to_bits(), x, x, x.to_string(), true, x)), || format!("{:?}", g));
        } else if x.is_finite() {
            let g = guarded(|| Probability::new(x).unwrap_err().to_string());
            m.expect("a refusal names the value", || format!("{:e}", x), matches!(&g, Ok(s) if s.contains(&x.to_string())), || format!("{:?}", g));
        }
    }
    let g = guarded(|| (Probability::zero().unwrap(), Probability::half().unwrap(), Probability::one().unwrap(), Probability::default().unwrap()));
    m.expect("named probabilities", || "zero, half, one, default".into(), g == Ok((0.0, 0.5, 1.0, 0.0)), || format!("{:?}", g));
    // pairs of probabilities
    for a in P {
        for b in P {
            m.state();
            let (p, q) = (Probability::new_unchecked(a), Probability::new_unchecked(b));
            let input = || format!("{:e}, {:e}", a, b);
            macro_rules! forms {
                ($name:expr, $op:tt) => {
                    for g in [guarded(|| value(p $op q)), guarded(|| value(&p $op q)), guarded(|| value(p $op &q)), guarded(|| value(&p $op &q))] {
                        judged(m, concat!("checked ", $name), input, g, a $op b);
                    }
                };
            }
            forms!("sum", +);
            forms!("difference", -);
            forms!("quotient", /);
            forms!("remainder", %);
            for g in [guarded(|| (p * q).unwrap()), guarded(|| (&p * q).unwrap()), guarded(|| (p * &q).unwrap()), guarded(|| (&p * &q).unwrap())] {
                judged(m, "product", input, g.map(Some), a * b);
            }
            m.steps_add(2);
            let g = guarded(|| (p == q, p < q, p <= q, p > q, p >= q, p.partial_cmp(&q)));
            m.expect("order", input, g == Ok((a == b, a < b, a <= b, a > b, a >= b, a.partial_cmp(&b))), || format!("{:?}", g));
            for c in P {
                m.step();
                let r = Probability::new_unchecked(c);
                let g = guarded(|| (vec![p, q, r].into_iter().sum::<f64>(), [p, q, r].iter().sum::<f64>()));
                m.expect("sums of many probabilities", || format!("{:e}, {:e}, {:e}", a, b, c), matches!(&g, Ok((x, y)) if like(*x, a + b + c) && like(*y, a + b + c)), || format!("{:?}", g));
            }
        }
        for b in X.iter().chain(P.iter()).cloned() {
            m.state();
            let p = Probability::new_unchecked(a);
            let input = || format!("{:e}, {:e}", a, b);
            macro_rules! forms {
                ($name:expr, $op:tt) => {
                    for g in [guarded(|| p $op b), guarded(|| &p $op b), guarded(|| p $op &b), guarded(|| &p $op &b)] {
                        plain(m, concat!($name, " of a probability and a real"), input, g, a $op b);
                    }
                    for g in [guarded(|| b $op p), guarded(|| &b $op p), guarded(|| b $op &p), guarded(|| &b $op &p)] {
                        plain(m, concat!($name, " of a real and a probability"), input, g, b $op a);
                    }
                };
            }
            forms!("sum", +);
            forms!("difference", -);
            forms!("product", *);
            forms!("quotient", /);
            forms!("remainder", %);
            plain(m, "real power", input, guarded(|| p.powf(b)), a.powf(b));
            m.step();
            let g = guarded(|| p == b);
            m.expect("equality with a real", input, g == Ok(a == b), || format!("{:?}", g));
        }
        let p = Probability::new_unchecked(a);
        let input = || format!("{:e}", a);
        for g in [guarded(|| (!p).unwrap()), guarded(|| (!&p).unwrap())] {
            judged(m, "complement", input, g.map(Some), 1.0 - a);
        }
        plain(m, "natural logarithm", input, guarded(|| p.ln()), a.ln());
        plain(m, "binary logarithm", input, guarded(|| p.log2()), a.log2());
        for e in [-3, -1, 0, 1, 2, 3, 7, 1000] {
            let g = guarded(|| p.powi(e));
            let want = a.powf(e as f64);
            m.step();
            m.expect("integer power", || format!("{:e} to the {}", a, e), matches!(&g, Ok(v) if *v == want || (v - want).abs() <= 1e-12 * want.abs() || (v.abs() < 1e-290 && want.abs() < 1e-290)), || format!("{:?}, the exact result is {:e}", g, want));
        }
    }
    // histories: everything reachable through the operators stays a probability
    let start: Vec<f64> = vec![0.0, 1.0, 0.5, 0.1, 1.0 / 3.0, 0.7];
    let mut seen: BTreeSet<u64> = start.iter().map(|x| x.to_bits()).collect();
    let mut layer = start.clone();
    for depth in 0..m.pick(6, 8) {
        let mut next = vec![];
        for a in &layer {
            m.state();
            m.trace();
            let p = Probability::new_unchecked(*a);
            let mut got: Vec<(&str, f64, R<Option<f64>>)> = vec![("complement", 0.0, guarded(|| Some((!p).unwrap())))];
            for b in &start {
                let q = Probability::new_unchecked(*b);
                got.push(("+", *b, guarded(|| value(p + q))));
                got.push(("-", *b, guarded(|| value(p - q))));
                got.push(("- from", *b, guarded(|| value(q - p))));
                got.push(("*", *b, guarded(|| Some((p * q).unwrap()))));
                got.push(("/", *b, guarded(|| value(p / q))));
                got.push(("/ of", *b, guarded(|| value(q / p))));
                got.push(("%", *b, guarded(|| value(p % q))));
            }
            for (op, b, g) in got {
                m.step();
                let ok = matches!(&g, Ok(None)) || matches!(&g, Ok(Some(v)) if valid(*v));
                m.expect("every reachable value is a probability", || format!("{:e} {} {:e} at depth {}", a, op, b, depth), ok, || format!("{:?}", g));
                if let Ok(Some(v)) = g {
                    if ok && seen.insert(v.to_bits()) {
                        next.push(v);
                    }
                }
            }
        }
        layer = next;
    }
    for x in &seen {
        m.outcome_f(f64::from_bits(*x));
    }
}

// --------------------------------------------------------------------------- vectors

fn arr<const N: usize>(x: &[f64]) -> [f64; N] {
    let mut a = [0.0; N];
    a.copy_from_slice(x);
    a
}

/// Acceptance and access, for one word of entries.
fn vector<const K: usize>(m: &mut Mc, w: &[f64]) {
    m.state();
    m.steps_add(2);
    let a = arr::<K>(w);
    let sum: f64 = w.iter().sum();
    let inside = w.iter().all(|p| valid(*p));
    let input = || format!("{:?}", w);
    for g in [guarded(|| SimplexVector::<K>::new(a).ok().map(|s| s.unwrap())), guarded(|| SimplexVector::<K>::try_from(a).ok().map(|s| s.unwrap()))] {
        if inside && (sum - 1.0).abs() <= 1e-9 {
            m.expect("a probability vector is accepted and kept", input, matches!(&g, Ok(Some(v)) if v.iter().zip(&a).all(|(x, y)| x.to_bits() == y.to_bits())), || format!("{:?}", g));
        } else if !inside || !((sum - 1.0).abs() <= 1e-4) {
            m.expect("a vector off the simplex is refused", input, g == Ok(None), || format!("{:?}", g));
        }
    }
    let g = guarded(|| {
        let s = SimplexVector::<K>::new_unchecked(a);
        s.iter().zip(&a).all(|(x, y)| x.to_bits() == y.to_bits())
            && s.value().iter().zip(&a).all(|(x, y)| x.to_bits() == y.to_bits())
            && s.clone().into_value().iter().zip(&a).all(|(x, y)| x.to_bits() == y.to_bits())
            && s.len() == K
            && (0..K).all(|i| s[i].to_bits() == a[i].to_bits())
    });
    m.expect("a vector gives back its entries", input, g == Ok(true), || format!("{:?}", g));
}

/// The law of the sampled index.
fn index<const K: usize>(m: &mut Mc, w: &[f64], fine: u32) {
    let s = SimplexVector::<K>::new_unchecked(arr(w));
    let id = format!("{:?}", w);
    m.at(&id);
    let run = |t: &mut Script| -> R<V> { guarded(|| vec![s.sample_index(&mut Words(t)) as f64]) };
    let drawable = |v: &[f64]| (v[0] as usize) < K && w[v[0] as usize] > 0.0;
    let l = law(m, "sampled index", &id, &[fine, 4], 3, &run, &drawable);
    for i in 0..K {
        let got = l.of(|v| v[0] == i as f64);
        judge_event(m, "law of the sampled index", || format!("{} index {}", id, i), got, w[i], 3.0 / fine as f64);
    }
    // extreme generator answers and those next to the boundaries
    let mut words = vec![0u64, 1, 1 << 11, u64::MAX, u64::MAX - 1, u64::MAX - (1 << 11), 1 << 63];
    let mut c = 0.0;
    for p in w {
        c += p;
        let k = (c * 9007199254740992.0) as u64;
        for d in 0..3u64 {
            words.push((k + d).saturating_sub(1).min((1 << 53) - 1) << 11);
        }
    }
    let mut bad = vec![];
    let st = Tree::of_words(&words, 2).explore(|t| run(t), |v, _, ch| if !drawable(&v) { bad.push((v, ch.to_vec())) }, |_, _| ());
    m.states_add(st.leaves);
    m.traces_add(st.leaves);
    for (v, ch) in bad {
        let answers: Vec<String> = ch.iter().map(|i| format!("{:#x}", words[*i as usize])).collect();
        m.expect("an index of weight zero is never drawn", || format!("{} answers {:?}", id, answers), false, || format!("draws {:?}", v));
    }
}

/// Uniform points of the simplex.
fn uniform<const K: usize>(m: &mut Mc, widths: &[u32], limit: usize, tol: f64) {
    let id = format!("random point with {} entries", K);
    m.at(&id);
    let run = |t: &mut Script| -> R<V> { guarded(|| SimplexVector::<K>::sample(&mut Words(t)).unwrap().to_vec()) };
    let on = |v: &[f64]| v.iter().all(|p| valid(*p)) && (v.iter().sum::<f64>() - 1.0).abs() < 1e-9;
    let l = law(m, "random point of the simplex", &id, widths, limit, &run, &on);
    for i in 0..K {
        for t in [0.1, 0.25, 0.5, 0.8, 0.95] {
            if K > 1 {
                let got = l.of(|v| v[i] <= t);
                judge_event(m, "random points are uniform on the simplex", || format!("{} P(x{} <= {})", id, i, t), got, 1.0 - (1.0 - t as f64).powi(K as i32 - 1), tol);
            }
            for j in i + 1..K {
                let got = l.of(|v| v[i] <= t * (v[i] + v[j]));
                judge_event(m, "random points are uniform on the simplex", || format!("{} P(x{} <= {} (x{} + x{}))", id, i, t, i, j), got, t, tol);
                if K > 2 {
                    let got = l.of(|v| v[i] + v[j] <= t);
                    // the sum of two of K uniform spacings
                    let k = K as f64 - 1.0;
                    let want = 1.0 - (1.0 - t).powf(k) - k * t * (1.0 - t).powf(k - 1.0);
                    judge_event(m, "random points are uniform on the simplex", || format!("{} P(x{} + x{} <= {})", id, i, j, t), got, want, tol);
                }
            }
        }
    }
    // extreme generator answers
    let words = [0u64, 1, 1 << 11, 1 << 12, u64::MAX, u64::MAX - (1 << 12), 1 << 63, 0x5555_5555_5555_5555];
    let mut bad = vec![];
    let mut fails = vec![];
    let st = Tree::of_words(&words, K + 2).explore(|t| run(t), |v, _, ch| if !on(&v) { bad.push((v, ch.to_vec())) }, |e, ch| fails.push((e, ch.to_vec())));
    m.states_add(st.leaves);
    m.traces_add(st.leaves);
    for (v, ch) in bad.into_iter().take(5) {
        let answers: Vec<String> = ch.iter().map(|i| format!("{:#x}", words[*i as usize])).collect();
        m.expect("every random point lies on the simplex", || format!("{} answers {:?}", id, answers), false, || format!("draws {:?}", v));
    }
    for (e, ch) in fails.into_iter().take(5) {
        m.expect("every random point lies on the simplex", || format!("{} answers {:?}", id, ch), false, || e.clone());
    }
}

fn centre<const K: usize>(m: &mut Mc) {
    m.state();
    m.step();
    let g = guarded(|| SimplexVector::<K>::centre().unwrap().to_vec());
    m.expect("the centre has equal entries", || format!("{} entries", K), matches!(&g, Ok(v) if v.len() == K && v.iter().all(|p| (p * K as f64 - 1.0).abs() < 1e-12)), || format!("{:?}", g));
    let g = guarded(|| SimplexVector::<K>::new(SimplexVector::<K>::centre().unwrap()).is_ok());
    m.expect("the centre is a probability vector", || format!("{} entries", K), g == Ok(true), || format!("{:?}", g));
}

fn lattice(n: usize, k: usize) -> Vec<V> { compositions(n, k).into_iter().map(|w| w.into_iter().map(|x| x as f64 / k as f64).collect()).collect() }

/// Vectors of many entries.
fn many<const K: usize>(m: &mut Mc, fine: u32) {
    let k = K as f64;
    centre::<K>(m);
    let even = vec![1.0 / k; K];
    let total: f64 = (1..=K).map(|i| i as f64).sum();
    let grow: V = (1..=K).map(|i| i as f64 / total).collect();
    for w in [&even, &grow] {
        vector::<K>(m, w);
        for i in 0..K {
            for v in [-0.25, 1.25, 0.0, f64::NAN, w[i] + 0.01, w[i] - 1e-3, w[i] + 1e-12] {
                let mut w = w.clone();
                w[i] = v;
                vector::<K>(m, &w);
            }
            // the total is right, the entries are not
            let mut w = w.clone();
            w[(i + 1) % K] += w[i] + 0.5;
            w[i] = -0.5;
            vector::<K>(m, &w);
        }
        index::<K>(m, w, fine);
    }
    for i in 0..K {
        // all weight in one place, and half of it
        let mut w = vec![0.0; K];
        w[i] = 1.0;
        vector::<K>(m, &w);
        index::<K>(m, &w, 64);
        let mut w = vec![0.5 / (k - 1.0); K];
        w[i] = 0.5;
        vector::<K>(m, &w);
        index::<K>(m, &w, 512);
    }
    // random points: every entry in turn answers to a generator answer of its own
    let run = |t: &mut Script| -> R<V> { guarded(|| SimplexVector::<K>::sample(&mut Words(t)).unwrap().to_vec()) };
    let on = |v: &[f64]| v.iter().all(|p| valid(*p)) && (v.iter().sum::<f64>() - 1.0).abs() < 1e-9;
    let mut mean = vec![0.0; K];
    for i in 0..K {
        let mut widths = vec![1u32; 2 * K];
        widths[i] = 16;
        let id = format!("random point with {} entries", K);
        let l = law(m, "random point of the simplex", &id, &widths, 2 * K, &run, &on);
        for (v, p) in &l.out {
            for j in 0..K {
                mean[j] += p * v[j] / k;
            }
        }
    }
    for j in 0..K {
        m.step();
        m.expect("random points have equal entries on average", || format!("{} entries, entry {}", K, j), (mean[j] * k - 1.0).abs() < 0.3, || format!("averages {:?}", mean[j]));
    }
}

/// D17
pub fn simplex(m: &mut Mc) {
    let (t, deep) = (true, m.thorough());
    m.bound("acceptance: every word of length 1-4 over boundary alphabets and every simplex-lattice point with perturbations; index draws: every weight vector of simplex lattices (1-6 entries) against 4096-16384 generator answers plus the extreme answers and those next to every cumulative weight; random points: products of answer lattices (1-6 entries); ten lengths from 7 to 100 with every entry in turn perturbed, emptied, or given all or half of the weight; random points with 1-6 entries: and every sequence over 8 extreme answers");
    let al = [0.0, 0.25, 0.5, 1.0, 0.75, -0.25, 1.25, f64::NAN, f64::INFINITY, -0.0];
    for w in words(&al, 1) { vector::<1>(m, &w); }
    for w in words(&al, 2) { vector::<2>(m, &w); }
    for w in words(&al, 3) { vector::<3>(m, &w); }
    for w in words(if t { &al } else { &al[..7] }, 4) { vector::<4>(m, &w); }
    for eps in [0.0, 1e-12, -1e-12, 1e-10, -1e-10, 1e-3, -1e-3, 0.01, -0.01, 0.1] {
        for w in lattice(2, 10) { for i in 0..2 { let mut w = w.clone(); w[i] += eps; vector::<2>(m, &w); } }
        for w in lattice(3, 10) { for i in 0..3 { let mut w = w.clone(); w[i] += eps; vector::<3>(m, &w); } }
        for w in lattice(5, 6) { for i in 0..5 { let mut w = w.clone(); w[i] += eps; vector::<5>(m, &w); } }
    }
    // no entries at all: never a probability vector
    vector::<0>(m, &[]);
    centre::<1>(m);
    centre::<2>(m);
    centre::<3>(m);
    centre::<7>(m);
    centre::<64>(m);
    let fine = m.pick(4096, 16384);
    index::<1>(m, &[1.0], fine);
    for w in lattice(2, 10) { index::<2>(m, &w, fine); }
    for w in lattice(3, 10) { index::<3>(m, &w, fine); }
    for w in lattice(4, if deep { 16 } else { 10 }) { index::<4>(m, &w, fine); }
    for w in lattice(5, 4) { index::<5>(m, &w, fine); }
    for w in lattice(6, 3) { index::<6>(m, &w, fine); }
    index::<4>(m, &[0.7, 0.2, 0.1, 0.0], fine);
    index::<4>(m, &[0.7, 0.2, 0.0, 0.1], fine);
    uniform::<1>(m, &[64, 8], 3, 0.02);
    uniform::<2>(m, &[144, 144, 8], 4, 0.03);
    uniform::<3>(m, &[55, 55, 55, 2], 5, 0.04);
    uniform::<4>(m, &[21, 21, 21, 21, 2], 6, 0.06);
    macro_rules! more { ($($n:literal)*) => { $( many::<$n>(m, fine); )* } }
    more!(7 8 9 12 16 17 32 33 65 100);
    uniform::<5>(m, &[12, 12, 12, 12, 12, 2], 7, 0.08);
    uniform::<6>(m, &[8, 8, 8, 8, 8, 8, 2], 8, 0.1);
    let g = guarded(|| <SimplexVector<2> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&[0.5, 0.5])));
    m.expect("declared constraints accept a probability vector", || "[0.5, 0.5]".into(), g == Ok(true) || matches!(&g, Err(e) if refusal(e)), || format!("{:?}", g));
}
