//! D09: the three ways of drawing, as histories of calls on one scripted environment.
use crate::case::{endless, Words, R};
use crate::cases;
use kit::rng::{Script, Tree};
use kit::{guarded, Mc};
use rstat::{
    multivariate as mv, normal, univariate as uv, Distribution, Mixture, Sample, SimplexVector,
};
use spaces::Space;
use std::rc::Rc;

/// Values of any dimension, flattened.
pub trait Flat {
    fn flat(&self) -> Vec<f64>;
}
impl Flat for f64 {
    fn flat(&self) -> Vec<f64> { vec![*self] }
}
impl<const N: usize> Flat for [f64; N] {
    fn flat(&self) -> Vec<f64> { self.to_vec() }
}

pub struct Drawn {
    pub id: String,
    pub one: Box<dyn Fn(&mut Script) -> R<Vec<f64>>>,
    pub n: Box<dyn Fn(&mut Script, usize) -> R<Vec<Vec<f64>>>>,
    pub iter: Box<dyn Fn(&mut Script, usize) -> R<Vec<Vec<f64>>>>,
}

pub fn drawn<D>(id: &str, d: D) -> Drawn
where
    D: Distribution + 'static,
    D::Support: Space,
    Sample<D>: Flat,
{
    let d = Rc::new(d);
    let (a, b, c) = (d.clone(), d.clone(), d);
    Drawn {
        id: id.into(),
        one: Box::new(move |s| guarded(|| a.sample(&mut Words(s)).flat())),
        n: Box::new(move |s, n| guarded(|| b.sample_n(&mut Words(s), n).iter().map(|v| v.flat()).collect())),
        iter: Box::new(move |s, n| guarded(|| endless(c.sample_iter(&mut Words(s))).take(n).map(|v| v.flat()).collect())),
    }
}

fn everything() -> Vec<Drawn> {
    let mut o = vec![];
    for c in cases::all(cases::SPARSE, &|_| true) {
        let id = c.id();
        let (one, n, iter) = (c.sample, c.sample_n, c.sample_iter);
        let up = |v: Vec<f64>| v.into_iter().map(|x| vec![x]).collect::<Vec<_>>();
        o.push(Drawn {
            id,
            one: Box::new(move |s| one(s).map(|x| vec![x])),
            n: Box::new(move |s, k| n(s, k).map(up)),
            iter: Box::new(move |s, k| iter(s, k).map(up)),
        });
    }
    o.push(drawn("BvNormal", normal::BvNormal::new_unchecked([1.0, -2.0], [4.0, 0.25], 0.5)));
    o.push(drawn("PairedNormal", normal::PairedNormal::new_unchecked([1.0, -2.0], [4.0, 0.25])));
    o.push(drawn("MvNormal", normal::MvNormal::<2>::new_unchecked([1.0, -2.0], [[4.0, 0.5], [0.5, 0.25]])));
    o.push(drawn("DiagonalNormal", normal::DiagonalNormal::<3>::diagonal_unchecked([1.0, -2.0, 0.0], [4.0, 0.25, 1.0])));
    o.push(drawn("IsotropicNormal", normal::IsotropicNormal::<2>::isotropic_unchecked([1.0, -2.0], 4.0)));
    o.push(drawn("mv LogNormal", mv::lognormal::LogNormal::<2, f64>::isotropic_unchecked([1.0, -2.0], 0.25)));
    o.push(drawn("Dirichlet", mv::dirichlet::Dirichlet::<3>::new_unchecked([1.0, 2.5, 1.0])));
    o.push(drawn("Mixture of normals", Mixture::new_unchecked([0.25, 0.75], [uv::normal::Normal::new_unchecked(0.0, 1.0), uv::normal::Normal::new_unchecked(5.0, 4.0)])));
    o.push(drawn("Mixture of gammas", Mixture::new_unchecked([0.5, 0.25, 0.25], [uv::gamma::Gamma::new_unchecked(1.0, 1.0), uv::gamma::Gamma::new_unchecked(2.0, 4.0), uv::gamma::Gamma::new_unchecked(0.5, 1.0)])));
    o.push(Drawn {
        id: "SimplexVector".into(),
        one: Box::new(|s| guarded(|| SimplexVector::<3>::sample(&mut Words(s)).to_vec())),
        n: Box::new(|s, n| guarded(|| (0..n).map(|_| SimplexVector::<3>::sample(&mut Words(s)).to_vec()).collect())),
        iter: Box::new(|s, n| guarded(|| (0..n).map(|_| SimplexVector::<3>::sample(&mut Words(s)).to_vec()).collect())),
    });
    o
}

type Run = (R<Vec<Vec<f64>>>, usize);

fn same(a: &Run, b: &Run) -> bool {
    a.1 == b.1
        && match (&a.0, &b.0) {
            (Ok(x), Ok(y)) => {
                x.len() == y.len()
                    && x.iter().zip(y).all(|(u, v)| {
                        u.len() == v.len() && u.iter().zip(v).all(|(p, q)| p.to_bits() == q.to_bits())
                    })
            },
            (Err(x), Err(y)) => x == y,
            _ => false,
        }
}

/// Batches of everyday size on fixed answer sequences (three patterns over eight words).
fn long(m: &mut Mc, d: &Drawn) {
    let pats: [&dyn Fn(u32) -> u32; 3] = [&|i| (i * 5 + i / 8) % 8, &|i| (i * i / 3 + i) % 8, &|i| (i / 2 * 3 + 1) % 8];
    for n in [9usize, 33, 70, 129, 260, 1030] {
        for (k, pat) in pats.iter().enumerate() {
            m.state();
            m.trace();
            m.steps_add(n as u64);
            let limit = 12 * n + 60;
            let run = |f: &dyn Fn(&mut Script) -> R<Vec<Vec<f64>>>| -> Run {
                let ch = std::cell::RefCell::new((0..limit as u32).map(|i| pat(i)).collect::<Vec<_>>());
                let mut t = Script { choices: &ch, widths: &[8], alphabet: &[], pos: 0, limit };
                let r = f(&mut t);
                (r, t.pos)
            };
            let want = run(&|t| (0..n).map(|_| (d.one)(t)).collect());
            let a = run(&|t| (d.n)(t, n));
            let b = run(&|t| (d.iter)(t, n));
            let input = || format!("{} n={} pattern {}", d.id, n, k);
            let show = |a: &Run| format!("{} values from {} words against {} from {}", a.0.as_ref().map_or(0, |v| v.len()), a.1, want.0.as_ref().map_or(0, |v| v.len()), want.1);
            m.expect("sample_n equals successive draws", input, same(&a, &want), || show(&a));
            m.expect("sample_iter equals successive draws", input, same(&b, &want), || show(&b));
        }
    }
}

/// D09
pub fn draws(m: &mut Mc) {
    let (wide, deep, ns) = m.pick((4u32, 6usize, 4usize), (5, 7, 5));
    m.bound(&format!("every univariate instance of the coarsest lattice, every multivariate sampler, mixtures; 0..={} draws; every sequence of up to {} generator answers over a lattice of {} words (the script running out included); batches of 9, 33, 70, 129, 260 and 1030 on three fixed answer sequences", ns, deep, wide));
    for d in everything() {
        if !m.mine() {
            continue;
        }
        m.at(&d.id);
        for n in 0..=ns {
            let limit = deep;
            let tree = Tree::new(&[wide], limit);
            // the history of n single draws is the model
            let mut err = None;
            let st = {
                let e = &mut err;
                let sites = &mut *m;
                let cell = std::cell::RefCell::new(sites);
                tree.explore(
                    |s| {
                        let mut want: Run = (Ok(vec![]), 0);
                        for _ in 0..n {
                            match (d.one)(s) {
                                Ok(v) => want.0.as_mut().unwrap().push(v),
                                Err(e) => {
                                    want.0 = Err(e);
                                    break;
                                },
                            }
                        }
                        want.1 = s.pos;
                        let replay = |f: &dyn Fn(&mut Script) -> R<Vec<Vec<f64>>>| -> Run {
                            let mut t = Script { choices: s.choices, widths: s.widths, alphabet: s.alphabet, pos: 0, limit: s.limit };
                            let r = f(&mut t);
                            (r, t.pos)
                        };
                        let a = replay(&|t| (d.n)(t, n));
                        let b = replay(&|t| (d.iter)(t, n));
                        let script = s.choices.borrow().clone();
                        let mut m = cell.borrow_mut();
                        m.state();
                        m.trace();
                        m.steps_add(n as u64);
                        if let Ok(v) = &want.0 {
                            for x in v.iter().flatten() {
                                m.outcome_f(*x);
                            }
                        }
                        let input = || format!("{} n={} answers={:?} of {}", d.id, n, script, wide);
                        m.expect("sample_n equals successive draws", input, same(&a, &want), || format!("{:?} against {:?} (values, words used)", a, want));
                        m.expect("sample_iter equals successive draws", input, same(&b, &want), || format!("{:?} against {:?} (values, words used)", b, want));
                        // the tree must branch on every word some run consumed
                        s.pos = want.1.max(a.1).max(b.1);
                        if s.choices.borrow().len() < s.pos {
                            s.pos = s.choices.borrow().len();
                        }
                        Ok(())
                    },
                    |_, _, _| (),
                    |msg, _| *e = Some(msg),
                )
            };
            m.steps_add(st.choice_points);
            if let Some(e) = err {
                m.expect("draws", || d.id.clone(), false, || e);
            }
        }
        long(m, &d);
    }
}
