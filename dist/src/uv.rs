//! D01-D08: one univariate instance at a time, explored along its lattice of
//! observation points (and, for samplers, along every answer of the generator).
use crate::case::{refusal, Case, R};
use crate::cases;
use kit::num::de;
use kit::rng::Tree;
use kit::{guarded, near, Mc};

pub const INF: f64 = f64::INFINITY;

/// Reference distribution function tabulated on the lattice.
pub struct Table {
    pub xs: Vec<f64>,
    pub f: Vec<f64>,
    pub below: Vec<f64>,
    pub above: Vec<f64>,
    /// panel boundaries for further integrals
    pub pts: Vec<f64>,
}

const OFFS: &[f64] = &[0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.5, 8.0, 12.0, 16.0, 25.0, 40.0, 150.0, 1e3, 1e5, 1.479998e6, 1e9, 1.47999999976e10];
const FRAC: &[f64] = &[1e-4, 0.003, 0.01, 0.05, 0.2, 0.5, 0.8];

impl Table {
    pub fn new(c: &Case, fine: bool) -> Table {
        let r = &c.r;
        if r.discrete {
            return Table::discrete(c);
        }
        let mut xs = vec![];
        let mut add = |x: f64| {
            if x > r.lo && x < r.hi {
                xs.push(x);
            }
        };
        for d in OFFS {
            add(r.x0 + d * r.s);
            add(r.x0 - d * r.s);
            if fine {
                for e in [1.13, 1.29, 0.91] {
                    add(r.x0 + d * r.s * e);
                    add(r.x0 - d * r.s * e);
                }
            }
        }
        for (end, to) in [(r.lo, r.x0), (r.hi, r.x0)] {
            if end.is_finite() {
                for q in FRAC {
                    add(end + (to - end) * q);
                }
            }
        }
        for b in &r.brk {
            add(*b);
        }
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        xs.dedup_by(|a, b| (*a - *b).abs() < 1e-9 * r.s);
        let n = xs.len();
        let mut pts = vec![r.lo];
        pts.extend(&xs);
        pts.push(r.hi);
        let g: Vec<f64> = pts.windows(2).map(|w| de(&*r.f, w[0], w[1])).collect();
        let mut below = vec![];
        let mut acc = 0.0;
        for i in 0..n {
            acc += g[i];
            below.push(acc);
        }
        let total = acc + g[n];
        assert!((total - 1.0).abs() < 1e-6, "reference mass of {} is {}", c.id(), total);
        let mut above = vec![0.0; n];
        let mut acc = 0.0;
        for i in (0..n).rev() {
            acc += g[i + 1];
            above[i] = acc;
        }
        let f = xs.iter().map(|x| (r.f)(*x)).collect();
        Table { xs, f, below, above, pts }
    }

    fn discrete(c: &Case) -> Table {
        let r = &c.r;
        let (mut xs, mut f, mut below) = (vec![], vec![], vec![]);
        let mut acc = 0.0;
        let mut k = r.lo;
        while k <= r.hi {
            let p = (r.f)(k);
            acc += p;
            xs.push(k);
            f.push(p);
            below.push(acc);
            if r.hi.is_infinite() && k > r.x0 && p < 1e-17 {
                break;
            }
            k += 1.0;
        }
        assert!((acc - 1.0).abs() < 1e-9, "reference mass of {} is {}", c.id(), acc);
        let mut above = vec![0.0; xs.len()];
        let mut acc = 0.0;
        for i in (0..xs.len()).rev() {
            above[i] = acc;
            acc += f[i];
        }
        Table { pts: xs.clone(), xs, f, below, above }
    }

    /// P(X <= x)
    pub fn cdf(&self, c: &Case, x: f64) -> f64 {
        let r = &c.r;
        if x.is_nan() {
            return f64::NAN;
        }
        if x < r.lo {
            return 0.0;
        }
        if x >= r.hi {
            return 1.0;
        }
        let i = self.xs.partition_point(|y| *y <= x);
        if r.discrete {
            return if i == 0 { 0.0 } else { self.below[i - 1] };
        }
        if i == 0 {
            return de(&*r.f, r.lo, x);
        }
        if i == self.xs.len() {
            return 1.0 - de(&*r.f, x, r.hi);
        }
        self.below[i - 1] + de(&*r.f, self.xs[i - 1], x)
    }

    /// P(X < x)
    pub fn cdf_left(&self, c: &Case, x: f64) -> f64 {
        let v = self.cdf(c, x);
        if !c.r.discrete {
            return v;
        }
        match self.xs.iter().position(|y| *y == x) {
            Some(i) => self.below[i] - self.f[i],
            None => v,
        }
    }

    /// E g(X)
    pub fn expect(&self, c: &Case, g: &dyn Fn(f64) -> f64) -> f64 {
        if c.r.discrete {
            self.xs.iter().zip(&self.f).filter(|(_, p)| **p > 0.0).map(|(x, p)| p * g(*x)).sum()
        } else {
            let h = |x: f64| {
                let f = (c.r.f)(x);
                if f == 0.0 { 0.0 } else { f * g(x) }
            };
            kit::num::panels(&h, &self.pts)
        }
    }
}

/// Points outside the support hull (finite).
fn outside(c: &Case) -> (Vec<f64>, Vec<f64>) {
    let r = &c.r;
    let mut lo = vec![];
    let mut hi = vec![];
    let ds: &[f64] = if r.discrete { &[1.0, 2.0, 7.0] } else { &[0.01, 0.3, 1.0, 10.0] };
    for d in ds {
        let s = if r.discrete { 1.0 } else { r.s.max(1e-3) };
        if r.lo.is_finite() {
            lo.push(r.lo - d * s);
        }
        if r.hi.is_finite() {
            hi.push(r.hi + d * s);
        }
    }
    (lo, hi)
}

pub fn no_such(e: &str) -> bool { e.contains("no such value") }

pub fn each(m: &mut Mc, mut go: impl FnMut(&mut Mc, &Case, &Table)) {
    let level = m.pick(1, 3);
    let fine = true;
    for fam in cases::FAMILIES {
        let cs = cases::all(level, &|f| f == *fam);
        assert!(!cs.is_empty());
        for c in cs {
            if !m.mine() {
                continue;
            }
            m.at(&c.id());
            let t = Table::new(&c, fine);
            go(m, &c, &t);
        }
    }
}

fn input<'a>(c: &'a Case, x: f64) -> impl Fn() -> String + 'a {
    move || format!("{} x={:e}", c.par, x)
}

/// Judges a function of the sample value; handles documented refusals.
fn judge(m: &mut Mc, c: &Case, what: &str, softs: &[&str], x: f64, got: R<f64>, ok: impl Fn(f64) -> bool, want: &str) {
    match got {
        Err(e) if no_such(&e) => (),
        Err(e) if refusal(&e) && softs.iter().any(|s| c.soft_for(s)) => {
            m.outcome("refused");
        },
        Err(e) => {
            m.expect(&format!("{} {}", c.name, what), input(c, x), false, || format!("{} (reference {})", e, want));
        },
        Ok(v) => {
            m.outcome_f(v);
            let g = ok(v);
            m.expect(&format!("{} {}", c.name, what), input(c, x), g, || format!("got {:e}, reference {}", v, want));
        },
    }
}

const CDF_ABS: f64 = 3e-7;
/// rounding beyond the ends of [0, 1]
const SLACK: f64 = 1e-12;

/// D01
pub fn cdf(m: &mut Mc) {
    m.bound("per instance: 40-70 lattice points of the continuous support (25 scale units to either side, geometric approach to finite ends) or every atom until the tail is below 1e-17, the end points, points outside, and both infinities; tolerance 3e-7");
    each(m, cdf_of);
    wide_integers(m, "cdf");
}

pub fn cdf_of(m: &mut Mc, c: &Case, t: &Table) {
    let mut prev: Option<f64> = None;
    m.trace();
    let mut visit = |m: &mut Mc, x: f64, want: f64| {
        m.state();
        m.step();
        let got = (c.cdf)(x);
        if let Ok(v) = &got {
            if let Some(p) = prev {
                let v = *v;
                m.expect(&format!("{} cdf is monotone", c.name), input(c, x), !(v < p - 1e-12), || format!("falls from {:e} to {:e}", p, v));
            }
            prev = Some(*v);
        }
        judge(m, c, "cdf", &["cdf"], x, got, |v| near(v, want, 1e-7, CDF_ABS) && v >= -SLACK && v <= 1.0 + SLACK, &format!("{:e}", want));
    };
    let (lo, hi) = outside(c);
    visit(m, -INF, 0.0);
    for x in lo.iter().rev() {
        visit(m, *x, 0.0);
    }
    if !c.r.discrete && c.r.lo.is_finite() {
        visit(m, c.r.lo, 0.0);
    }
    for (x, w) in t.xs.iter().zip(&t.below) {
        visit(m, *x, *w);
    }
    if !c.r.discrete && c.r.hi.is_finite() {
        visit(m, c.r.hi, 1.0);
    }
    for x in &hi {
        visit(m, *x, 1.0);
    }
    visit(m, INF, 1.0);
}

/// Integer laws over spans that floating-point lattices cannot hold, against exact arithmetic.
pub fn wide_integers(m: &mut Mc, what: &str) {
    if !m.mine() {
        return;
    }
    use rstat::{statistics::*, univariate::uniform::Uniform, DiscreteDistribution, Distribution};
    m.at("integer uniform, wide spans");
    let lbs = [i64::MIN, i64::MIN + 1, -(1 << 62), -(1 << 53) - 1, -1_000_000_007, -5, 0, 3, 1 << 40, (1 << 53) + 1, 1 << 62, i64::MAX - 1];
    let ws = [0u64, 1, 2, 1000, 1 << 32, (1 << 53) + 1, (1 << 62) - 1, 1 << 62, i64::MAX as u64 - 1, i64::MAX as u64];
    for lb in lbs {
        for w in ws {
            let ub = match lb.checked_add(w as i64) {
                Some(u) => u,
                None => continue,
            };
            let (l, n) = (lb as i128, w as i128 + 1);
            let nf = w as f64 + 1.0;
            let close = |a: f64, b: f64| near(a, b, 1e-13, 0.0);
            let made = guarded(|| (Uniform::<i64>::new_unchecked(lb, w), Uniform::<i64>::new(lb, w).map_err(|e| e.to_string())));
            let inp = || format!("lb={} width={}", lb, w);
            let ds = match made {
                Ok((a, Ok(b))) => vec![a, b],
                // an empty width may be refused by the checked constructor
                Ok((a, Err(_))) if w == 0 => vec![a],
                Ok((_, Err(e))) | Err(e) => {
                    m.expect("a wide integer interval can be built", inp, false, || e);
                    continue;
                },
            };
            for d in ds {
                m.trace();
                let pts = [i64::MIN, lb.saturating_sub(1), lb, lb.saturating_add(1), lb + (w / 3) as i64, lb + (w / 2) as i64, ub.saturating_sub(1), ub, ub.saturating_add(1), i64::MAX];
                for k in pts {
                    m.state();
                    m.step();
                    let inside = k >= lb && k <= ub;
                    if what == "cdf" {
                        let want = ((k as i128 - l + 1).max(0).min(n) as f64) / nf;
                        let g = guarded(|| d.cdf(&k).unwrap());
                        m.expect("wide integer uniform cdf", || format!("{} at {}", inp(), k), matches!(g, Ok(v) if close(v, want)), || format!("{:?}, exactly {}", g, want));
                    }
                    if what == "pmf" {
                        let want = if inside { 1.0 / nf } else { 0.0 };
                        let g = guarded(|| d.pmf(&k).unwrap());
                        m.expect("wide integer uniform mass", || format!("{} at {}", inp(), k), matches!(g, Ok(v) if close(v, want)), || format!("{:?}, exactly {}", g, want));
                    }
                }
                // positions carry the rounding of the end points
                let ends = 1e-15 * (lb as f64).abs().max(ub as f64).max(w as f64);
                let say = |m: &mut Mc, name: &str, g: R<f64>, want: f64| {
                    m.step();
                    let abs = if ["mean", "median", "quantile 1", "quantile 0", "lower quartile"].contains(&name) { ends } else { 0.0 };
                    m.expect(&format!("wide integer uniform {}", name), inp, matches!(g, Ok(v) if near(v, want, 1e-13, abs)), || format!("{:?}, exactly {}", g, want));
                };
                let mid = (2 * l + n - 1) as f64 / 2.0;
                match what {
                    "moments" => {
                        say(m, "mean", guarded(|| d.mean()), mid);
                        say(m, "variance", guarded(|| d.variance()), (n - 1) as f64 * (n + 1) as f64 / 12.0);
                        if w > 0 {
                            say(m, "excess kurtosis", guarded(|| d.excess_kurtosis()), -1.2 * ((n * n) as f64 + 1.0) / ((n - 1) as f64 * (n + 1) as f64));
                        }
                    },
                    "quantiles" => {
                        say(m, "median", guarded(|| d.median()), mid);
                        say(m, "quantile 1", guarded(|| d.quantile(rstat::Probability::one())), ub as f64);
                        say(m, "quantile 0", guarded(|| d.quantile(rstat::Probability::zero())), lb as f64);
                        say(m, "lower quartile", guarded(|| d.lower_quartile()), (l + (n + 3) / 4 - 1) as f64);
                    },
                    "entropy" => say(m, "entropy", guarded(|| d.shannon_entropy()), nf.ln()),
                    _ => (),
                }
            }
        }
    }
}

/// D02
pub fn density(m: &mut Mc) {
    m.bound("same lattice as D01; tolerance 1e-6 relative");
    each(m, density_of);
    wide_integers(m, "pmf");
    if !m.mine() {
        return;
    }
    // the weight of a point mass over the reals: all at its point
    for k in [0.0, 3.0, -7.5] {
        let d = rstat::univariate::degenerate::Degenerate::<f64>::new(k);
        for x in [k - 1.0, k - 1e-3, k, k + 1e-3, k + 1.0, f64::INFINITY, f64::NEG_INFINITY] {
            m.state();
            m.step();
            let g = guarded(|| rstat::ContinuousDistribution::pdf(&d, &x));
            let want = if x == k { 1.0 } else { 0.0 };
            m.expect("degenerate weight over the reals", || format!("k={} at {}", k, x), g == Ok(want), || format!("{:?}, expected {}", g, want));
        }
    }
}

pub fn density_of(m: &mut Mc, c: &Case, t: &Table) {
    let scale = 1.0 / c.r.s;
    m.trace();
    let (lo, hi) = outside(c);
    for x in lo.iter().chain(&hi) {
        m.state();
        m.step();
        if let Some(d) = &c.density {
            judge(m, c, "density outside the support", &["pmf_outside"], *x, soften(c, d(*x)), |v| v == 0.0, "0");
        }
        if !c.soft_for("support_hull") {
            contains(m, c, *x, false);
        }
    }
    for x in [-INF, INF] {
        m.state();
        m.step();
        if let Some(d) = &c.density {
            judge(m, c, "density at infinity", &[], x, d(x), |v| v == 0.0, "0");
        }
        if let Some(d) = &c.log_density {
            judge(m, c, "log density at infinity", &[], x, d(x), |v| v == -INF, "-inf");
        }
    }
    for (x, w) in t.xs.iter().zip(&t.f) {
        m.state();
        m.step();
        if let Some(d) = &c.density {
            judge(m, c, "density", &[], *x, d(*x), |v| near(v, *w, 1e-6, 1e-13 * scale) && v >= 0.0, &format!("{:e}", w));
        }
        if *w > 0.0 || !c.soft_for("gaps") {
            contains(m, c, *x, true);
        }
    }
    for e in [c.r.lo, c.r.hi] {
        if !c.r.discrete && e.is_finite() {
            m.state();
            if let Some(d) = &c.density {
                // an end that belongs to the support has the density that the reference approaches
                let inward = if e == c.r.lo { 1.0 } else { -1.0 };
                let step = |h: f64| (c.r.f)(e + inward * (h * c.r.s).max(4.0 * e.abs() * f64::EPSILON));
                let (u, v) = (step(1e-9), step(1e-7));
                let limit = u.is_finite() && v.is_finite() && near(u, v, 1e-4, 0.0) && (c.contains)(e) == Ok(true);
                if limit {
                    judge(m, c, "density at the end of the support", &[], e, d(e), |w| near(w, u, 1e-4, 0.0), &format!("the limit {:e}", u));
                } else if (u > 1.5 * v || u == INF) && (c.contains)(e) == Ok(true) {
                    judge(m, c, "density at the end of the support", &[], e, d(e), |w| w >= u, &format!("unbounded, {:e} and growing", u));
                } else {
                    judge(m, c, "density at the end of the support", &[], e, d(e), |v| v >= 0.0, "not negative, not NaN");
                }
            }
        }
    }
    if c.r.discrete {
        if let Some(d) = &c.density {
            // the masses of the real code sum to one
            let s: f64 = t.xs.iter().filter_map(|x| d(*x).ok()).sum();
            m.expect(&format!("{} total mass", c.name), || c.par.clone(), near(s, 1.0, 1e-9, 1e-9), || format!("sums to {:e}", s));
        }
    }
}

/// Asking a table for an index it does not have may be refused by a panic.
fn soften(c: &Case, r: R<f64>) -> R<f64> {
    match r {
        Err(e) if c.soft_for("pmf_outside") && (e.contains("index out of bounds") || e.contains("Index must lie in the support")) => Err("not implemented".into()),
        r => r,
    }
}

fn contains(m: &mut Mc, c: &Case, x: f64, want: bool) {
    match (c.contains)(x) {
        Err(e) if no_such(&e) => (),
        Err(e) => {
            m.expect(&format!("{} support", c.name), input(c, x), false, || e);
        },
        Ok(b) => {
            m.expect(&format!("{} support", c.name), input(c, x), b == want, || {
                format!("support().contains gives {} where the density is {}", b, if want { "positive" } else { "zero" })
            });
        },
    }
}

/// D03
pub fn variants(m: &mut Mc) {
    m.bound("same lattice as D01; log and complement variants against the reference (cut where the reference underflows)");
    each(m, variants_of);
}

pub fn variants_of(m: &mut Mc, c: &Case, t: &Table) {
    m.trace();
    let (lo, hi) = outside(c);
    let mut pts: Vec<(f64, f64, f64, Option<f64>)> = vec![];
    pts.extend(lo.iter().map(|x| (*x, 0.0, 1.0, Some(0.0))));
    for i in 0..t.xs.len() {
        pts.push((t.xs[i], t.below[i], t.above[i], Some(t.f[i])));
    }
    pts.extend(hi.iter().map(|x| (*x, 1.0, 0.0, Some(0.0))));
    pts.push((-INF, 0.0, 1.0, None));
    pts.push((INF, 1.0, 0.0, None));
    for (x, f, s, d) in pts {
        m.state();
        m.steps_add(4);
        judge(m, c, "ccdf", &["cdf"], x, (c.ccdf)(x), |v| near(v, s, 1e-7, CDF_ABS) && v >= -SLACK && v <= 1.0 + SLACK, &format!("{:e}", s));
        // the logarithm of a probability that rounds below zero is not judged
        let rounded = |g: &R<f64>| matches!(g, Ok(v) if *v < 0.0 && *v > -SLACK);
        let (rf, rs) = (rounded(&(c.cdf)(x)), rounded(&(c.ccdf)(x)));
        let lg = |v: f64, p: f64, r: bool| r || v <= 1e-9 && near(v.exp(), p, 1e-6, CDF_ABS);
        judge(m, c, "log cdf", &["cdf"], x, (c.log_cdf)(x), |v| lg(v, f, rf), &format!("ln {:e}", f));
        judge(m, c, "log ccdf", &["cdf"], x, (c.log_ccdf)(x), |v| lg(v, s, rs), &format!("ln {:e}", s));
        // and against the plain functions themselves, to rounding
        let (pf, ps) = ((c.cdf)(x), (c.ccdf)(x));
        if let (Ok(pf), Ok(ps)) = (pf, ps) {
            m.steps_add(3);
            let off = x <= c.r.lo || x >= c.r.hi;
            m.expect(&format!("{} ccdf is one minus cdf", c.name), || format!("{} x={:e}", c.par, x), (ps - (1.0 - pf)).abs() <= 1e-9, || format!("{:e} and {:e}", pf, ps));
            for (n, g, p, r, truth) in [("log cdf is the logarithm of cdf", (c.log_cdf)(x), pf, rf, f), ("log ccdf is the logarithm of ccdf", (c.log_ccdf)(x), ps, rs, s)] {
                // exactly zero outside the support: no finite logarithm
                let ok = match &g {
                    Ok(v) => r || (v.exp() - p).abs() <= 1e-6 * p + 1e-15 && !(p == 0.0 && truth == 0.0 && off && v.is_finite()),
                    Err(e) => refusal(e) && c.soft_for("cdf"),
                };
                m.expect(&format!("{} {}", c.name, n), || format!("{} x={:e}", c.par, x), ok, || format!("{:?} for ln {:e}", g, p));
            }
        }
        if let (Some(ld), Some(d)) = (&c.log_density, d) {
            let inside = x >= c.r.lo && x <= c.r.hi;
            let want = if inside { (c.r.lf)(x) } else { -INF };
            // a density beyond double range may be reported as zero
            let lost = d < 1e-280;
            judge(m, c, "log density", &["pmf_outside"], x, soften(c, ld(x)),
                |v| if want == -INF { v == -INF } else { near(v, want, 1e-6, 1e-6) || lost && (v == -INF || near(v, want, 0.01, 0.0)) }, &format!("{:e}", want));
        }
    }
}

fn undefined_ok(g: &R<f64>) -> bool {
    match g {
        Err(e) => refusal(e),
        Ok(v) => !v.is_finite(),
    }
}

/// D04
pub fn moments(m: &mut Mc) {
    m.bound("mean, variance, standard deviation, skewness, kurtosis, excess kurtosis of every instance of the parameter lattice against quadrature / summation of the reference law; tolerance 1e-6 (mean, variance), 1e-5 (higher)");
    each(m, moments_of);
    wide_integers(m, "moments");
    extremes(m, "moments");
}

pub fn moments_of(m: &mut Mc, c: &Case, t: &Table) {
    let mo = match &c.moments {
        None => return,
        Some(x) => x,
    };
    m.state();
    m.trace();
    let r = &c.r;
    let ex = |k: f64| k < r.max_moment;
    let (mut mean, mut cm) = (f64::NAN, [f64::NAN; 5]);
    if ex(1.0) {
        // about a typical point: a far location loses nothing
        let off = t.expect(c, &|x| x - r.x0);
        mean = r.x0 + off;
        for k in 2..5 {
            if ex(k as f64) {
                cm[k] = t.expect(c, &|x| (x - r.x0 - off).powi(k as i32));
            }
        }
    }
    let var = cm[2];
    // cancellation against the squared mean
    let vt = 1e-9 * r.s * r.s + 1e-14 * mean * mean;
    let sc = r.s.max(mean.abs());
    let list: [(&str, &crate::case::F0<f64>, f64, f64, f64, f64); 6] = [
        ("mean", &mo.mean, mean, 1.0, 1e-6, 1e-9 * sc),
        ("variance", &mo.variance, var, 2.0, 1e-6, vt),
        ("standard deviation", &mo.sd, var.sqrt(), 2.0, 1e-6, vt.sqrt().min(vt / var.sqrt())),
        ("skewness", &mo.skewness, cm[3] / var.powf(1.5), 3.0, 1e-5, 1e-5),
        ("kurtosis", &mo.kurtosis, cm[4] / (var * var), 4.0, 1e-5, 1e-6),
        ("excess kurtosis", &mo.excess, cm[4] / (var * var) - 3.0, 4.0, 1e-5, 1e-5),
    ];
    for (name, f, want, k, rel, abs) in list {
        m.step();
        let g = f();
        let site = format!("{} {}", c.name, name);
        if var == 0.0 && k > 2.0 {
            continue;
        }
        if !ex(k) {
            let d = format!("{:?}", g);
            m.expect(&site, || c.par.clone(), undefined_ok(&g), || format!("moment {} does not exist, but the answer is {}", k, d));
            continue;
        }
        if k > r.max_moment - 0.1 {
            continue;
        }
        let soft = match name {
            "excess kurtosis" => "excess_kurtosis",
            n => n,
        };
        match &g {
            Err(e) if refusal(e) && c.soft_for(soft) => m.outcome("refused"),
            g => {
                m.close(&site, || c.par.clone(), g, want, rel, abs);
            },
        }
    }
}

pub fn p_lattice(thorough: bool) -> Vec<f64> {
    let mut v = vec![1e-6, 1e-3, 0.01, 0.05, 0.95, 0.99, 0.999, 1.0 - 1e-6];
    let n = if thorough { 64 } else { 16 };
    for i in 1..n {
        v.push(i as f64 / n as f64);
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}

/// D05
pub fn quantiles(m: &mut Mc) {
    m.bound("probabilities i/16 (i/64), eight in the tails, 0, 1 and, for discrete laws, every step of the distribution function and the midpoint below it; median; quartiles, range and fences");
    each(m, quantiles_of);
    wide_integers(m, "quantiles");
}

pub fn quantiles_of(m: &mut Mc, c: &Case, t: &Table) {
    let q = match &c.quantiles {
        None => return,
        Some(q) => q,
    };
    m.trace();
    let mut ps = p_lattice(true);
    if c.r.discrete {
        for i in 0..t.xs.len().min(40) {
            ps.push(t.below[i]);
            ps.push(t.below[i] - t.f[i] * 0.5);
        }
    }
    ps.retain(|p| *p > 0.0 && *p < 1.0);
    ps.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let good = |x: f64, p: f64, tol: f64| t.cdf_left(c, x) <= p + tol && t.cdf(c, x) >= p - tol;
    let mut prev = -INF;
    for p in ps {
        m.state();
        m.step();
        for (what, g) in [("quantile", (q.quantile)(p)), ("cquantile", (q.cquantile)(1.0 - p))] {
            let site = format!("{} {}", c.name, what);
            let inp = || format!("{} p={:e}", c.par, p);
            match g {
                Err(e) if refusal(&e) && c.soft_for("quantile") => m.outcome("refused"),
                Err(e) => {
                    m.expect(&site, inp, false, || e);
                },
                Ok(x) => {
                    m.outcome_f(x);
                    let ok = good(x, p, 1e-6);
                    m.expect(&site, inp, ok, || format!("got {:e} where F = {:e}, F- = {:e}", x, t.cdf(c, x), t.cdf_left(c, x)));
                    if what == "quantile" {
                        m.expect(&format!("{} quantile is monotone", c.name), inp, x >= prev - 1e-9 * c.r.s, || format!("falls from {:e} to {:e}", prev, x));
                        prev = x;
                    }
                },
            }
        }
    }
    for p in [0.0, 1.0] {
        m.state();
        match (q.quantile)(p) {
            Err(e) if refusal(&e) && c.soft_for("quantile") => m.outcome("refused"),
            Err(e) => {
                m.expect(&format!("{} quantile", c.name), || format!("{} p={}", c.par, p), false, || e);
            },
            Ok(x) => {
                let ok = if p == 0.0 { t.cdf_left(c, x) <= 1e-9 } else { t.cdf(c, x) >= 1.0 - 1e-9 };
                m.expect(&format!("{} quantile", c.name), || format!("{} p={}", c.par, p), ok, || format!("got {:e}", x));
            },
        }
    }
    m.state();
    m.step();
    let site = format!("{} median", c.name);
    match (q.median)() {
        Err(e) if refusal(&e) && (c.soft_for("median")) => m.outcome("refused"),
        Err(e) => {
            m.expect(&site, || c.par.clone(), false, || e);
        },
        Ok(x) => {
            m.outcome_f(x);
            m.expect(&site, || c.par.clone(), good(x, 0.5, c.median_tol), || {
                format!("got {:e} where F = {:e}, F- = {:e}", x, t.cdf(c, x), t.cdf_left(c, x))
            });
        },
    }
    // the derived positions
    let (q1, q3) = ((q.quantile)(0.25), (q.quantile)(0.75));
    for (what, f) in &q.derived {
        m.state();
        let g = f();
        let site = format!("{} {}", c.name, what);
        if let (Ok(a), Ok(b)) = (&q1, &q3) {
            let want = match *what {
                "lower_quartile" => *a,
                "upper_quartile" => *b,
                "iqr" => b - a,
                "lower_fence" => a - 1.5 * (b - a),
                _ => b + 1.5 * (b - a),
            };
            m.close(&site, || c.par.clone(), &g, want, 1e-7, 1e-7 * c.r.s);
        } else if let Ok(x) = g {
            // answered although the quantile function is not available
            let ok = match *what {
                "lower_quartile" => good(x, 0.25, 1e-6),
                "upper_quartile" => good(x, 0.75, 1e-6),
                _ => true,
            };
            m.expect(&site, || c.par.clone(), ok, || format!("got {:e}", x));
        }
    }
}

/// D06
pub fn modes(m: &mut Mc) {
    m.bound("every reported mode of every instance against the maximum of the reference density over the D01 lattice refined by golden-section search around its best point");
    each(m, modes_of);
    extremes(m, "modes");
}

pub fn modes_of(m: &mut Mc, c: &Case, t: &Table) {
    let f = match &c.modes {
        None => return,
        Some(f) => f,
    };
    m.trace();
    m.state();
    let r = &c.r;
    // maximum of the reference
    let mut best = t.f.iter().cloned().fold(0.0, f64::max);
    let mut argmax = vec![];
    if r.discrete {
        for (x, p) in t.xs.iter().zip(&t.f) {
            if *p >= best * (1.0 - 1e-9) {
                argmax.push(*x);
            }
        }
    } else {
        let i = (0..t.f.len()).max_by(|a, b| t.f[*a].partial_cmp(&t.f[*b]).unwrap()).unwrap();
        let (mut a, mut b) = (
            if i == 0 { if r.lo.is_finite() { r.lo } else { t.xs[0] - r.s } } else { t.xs[i - 1] },
            if i + 1 == t.xs.len() { if r.hi.is_finite() { r.hi } else { t.xs[i] + r.s } } else { t.xs[i + 1] },
        );
        for _ in 0..120 {
            let (u, v) = (a + (b - a) * 0.382, a + (b - a) * 0.618);
            if (r.f)(u) < (r.f)(v) { a = u } else { b = v }
            m.step();
        }
        best = best.max((r.f)(0.5 * (a + b)));
    }
    // ends where the density grows without bound
    let mut poles = vec![];
    for (e, d) in [(r.lo, 1.0), (r.hi, -1.0)] {
        if !r.discrete && e.is_finite() {
            let near = e + d * (r.s * 1e-12).max(e.abs() * 1e-15);
            let nearer = (r.f)(near);
            if nearer > 1e3 * best.min(1e3 / r.s) || (r.f)(e) == INF {
                poles.push(e);
            }
        }
    }
    let site = format!("{} modes", c.name);
    match f() {
        Err(e) => {
            if !(refusal(&e) && c.soft_for("modes")) {
                m.expect(&site, || c.par.clone(), false, || e);
            }
        },
        Ok(v) => {
            m.outcome(&format!("{:?}", v));
            m.expect(&site, || format!("{} (count)", c.par), !v.is_empty() || c.modes_may_be_empty, || "no mode reported".into());
            for x in &v {
                m.step();
                let ok = if !poles.is_empty() {
                    poles.iter().any(|p| (p - x).abs() <= 1e-9 * r.s)
                } else {
                    // value at the reported point, or its limit from inside at an end
                    let fx = if r.discrete {
                        if t.xs.contains(x) { (r.f)(*x) } else { 0.0 }
                    } else if *x < r.lo || *x > r.hi {
                        0.0
                    } else {
                        let d = 1e-9 * r.s;
                        let y = x.max(r.lo + if r.lo.is_finite() { d } else { 0.0 }).min(r.hi - if r.hi.is_finite() { d } else { 0.0 });
                        (r.f)(y)
                    };
                    fx >= best * (1.0 - 1e-7)
                };
                let x = *x;
                m.expect(&site, || format!("{} mode={:e}", c.par, x), ok, || format!("density is not maximal there (reported {:?}, maximum {:e}, poles {:?}, maximisers {:?})", v, best, poles, argmax));
            }
            if c.modes_complete && r.discrete {
                for a in &argmax {
                    m.expect(&site, || format!("{} maximiser={:e}", c.par, a), v.contains(a), || format!("maximiser not reported ({:?})", v));
                }
            }
            if c.modes_complete {
                for a in &poles {
                    m.expect(&site, || format!("{} pole={:e}", c.par, a), v.iter().any(|x| (x - a).abs() < 1e-9), || format!("not reported ({:?})", v));
                }
            }
        },
    }
}

/// D07
pub fn entropy(m: &mut Mc) {
    m.bound("every instance of the parameter lattice; -E ln f by quadrature / summation, in nats; tolerance 1e-6");
    each(m, entropy_of);
    wide_integers(m, "entropy");
}

pub fn entropy_of(m: &mut Mc, c: &Case, t: &Table) {
    let f = match &c.entropy {
        None => return,
        Some(f) => f,
    };
    m.trace();
    m.state();
    m.step();
    let g = f();
    let want = -t.expect(c, &|x| (c.r.f)(x).ln()) + 0.0;
    match &g {
        Err(e) if refusal(e) && c.soft_for("entropy") => m.outcome("refused"),
        Ok(v) if c.soft_for("entropy") && !v.is_finite() => m.outcome("not finite"),
        g => {
            m.close(&format!("{} entropy", c.name), || c.par.clone(), g, want, 1e-6, 2e-6);
        },
    }
}

/// What one exploration of a sampler's answer tree produced.
pub struct Explored {
    refused: bool,
    out: Vec<(f64, f64)>,
    fails: Vec<(String, Vec<u32>)>,
    leaves: u64,
    choice_points: u64,
    cut_mass: f64,
    edge: Vec<(f64, Vec<u64>)>,
    edge_fails: Vec<(String, Vec<u64>)>,
}

pub fn explore(c: &Case) -> Explored {
    let (w, limit) = c.tree.clone();
    let mut e = Explored { refused: false, out: vec![], fails: vec![], leaves: 0, choice_points: 0, cut_mass: 0.0, edge: vec![], edge_fails: vec![] };
    // one probe first: an unimplemented sampler refuses at once
    let probe = Tree::new(&[1], 64);
    let mut refused = false;
    probe.explore(|s| (c.sample)(s), |_, _, _| (), |m, _| refused |= refusal(&m));
    if refused && c.soft_for("sample") {
        e.refused = true;
        return e;
    }
    let tree = Tree::new(&w, limit);
    let (out, fails) = (&mut e.out, &mut e.fails);
    let st = tree.explore(
        |s| (c.sample)(s),
        |v, wt, _| out.push((v, wt)),
        |m, ch| {
            if fails.len() < 5 {
                fails.push((m, ch.to_vec()))
            }
        },
    );
    // equal values are merged
    e.out.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
    e.out.dedup_by(|b, a| {
        let same = a.0 == b.0;
        if same {
            a.1 += b.1;
        }
        same
    });
    e.leaves = st.leaves;
    e.choice_points = st.choice_points;
    e.cut_mass = st.cut_mass;
    if std::env::var("VERIF_TRACE").is_ok() {
        eprintln!("{} leaves {} cut {:.4} depth {}", c.id(), st.leaves, st.cut_mass, st.max_depth);
    }
    // the ends of the word range, which no lattice cell midpoint touches
    // (rand_distr 0.4's inversion for the binomial counts without end at the very last words)
    let last = if c.name.contains("binomial") { u64::MAX - (1 << 34) } else { u64::MAX };
    let edge = [0u64, 1 << 11, 1 << 12, (1 << 63) + (1 << 40), last - (1 << 12), last];
    let st = Tree::of_words(&edge, 4).explore(
        |s| (c.sample)(s),
        |v, _, ch| e.edge.push((v, ch.iter().map(|i| edge[*i as usize]).collect())),
        |m, ch| e.edge_fails.push((m, ch.iter().map(|i| edge[*i as usize]).collect())),
    );
    e.leaves += st.leaves;
    e.choice_points += st.choice_points;
    e
}

/// D08
pub fn sampler(m: &mut Mc) {
    m.bound("every sequence of generator answers over per-position lattices (4096-16384 words for one-word samplers, products of 2-512 for samplers that read several words), to the depth listed per family; the push-forward mass below every lattice point against the reference, within 0.02 (one word) or 0.04 (several words) plus the mass of the answer sequences cut by the bound");
    m.bound("and every sequence of up to four answers over six extreme words: no failure, no infinite or undefined value, nothing outside the support");
    m.bound("quick: every instance of the coarsest parameter lattice; thorough: of the lattice of half its steps");
    m.skip("thorough, geometric: settings between those of the coarsest lattice (its sampler spends too many words for the answer lattices)");
    m.assume("the lattice of generator words stands for the uniform law on 64-bit words: a sampler that distinguishes words inside one lattice cell is seen at its midpoint only");
    for f in cases::FAMILIES {
        let level = if *f == "geometric" { cases::SPARSE } else { m.pick(cases::SPARSE, 1) };
        for c in cases::all(level, &|g| g == *f) {
            if !m.mine() {
                continue;
            }
            m.at(&c.id());
            let e = explore(&c);
            judge_sampler(m, &c, e);
        }
    }
    extremes(m, "sampler");
}

/// Settings so far apart that quadrature of the law is out of reach, against closed forms that do
/// not cancel: a location far above the spread, a tiny logarithmic variance, and an inverse normal
/// with a mean far above its shape (nearly a Levy law) or far below it (nearly a point).
pub fn extremes(m: &mut Mc, what: &str) {
    use rstat::{statistics::*, univariate::{folded_normal::FoldedNormal, inverse_normal::InvNormal, lognormal::LogNormal}};
    if !m.mine() {
        return;
    }
    m.bound("and closed forms at settings 1e3 to 1e15 apart (folded normal, log-normal, inverse normal)");
    m.at("settings far apart");
    let scales = [1e-9, 1e-3, 1.0, 1e3, 1e9];
    let ratios = [1e-9, 1e-6, 1e-4, 1e-2, 1.0, 1e2, 1e4, 1e6, 1e7, 1e8, 1e9, 1e12, 1e15];
    if what == "moments" {
        for mu in [-2.0, 0.0, 1.0] {
            for v in [1e-3, 1e-6, 1e-9, 1e-12, 1e-15, 1e-18] {
                m.state();
                let d = LogNormal::new_unchecked(mu, v);
                let want = f64::exp_m1(v) * f64::exp(2.0 * mu + v);
                for (n, g, w) in [
                    ("mean", guarded(|| d.mean()), f64::exp(mu + v / 2.0)),
                    ("variance", guarded(|| d.variance()), want),
                    ("standard deviation", guarded(|| d.standard_deviation()), want.sqrt()),
                    ("skewness", guarded(|| d.skewness()), (v.exp() + 2.0) * f64::exp_m1(v).sqrt()),
                ] {
                    m.step();
                    m.close(&format!("lognormal {}, settings far apart", n), || format!("mu={},var={}", mu, v), &g, w, 1e-6, 0.0);
                }
            }
        }
        for s in scales {
            for r in [-1e15, -1e9, -1e3, 100.0, 1e6, 1e12] {
                m.state();
                let d = FoldedNormal::new_unchecked(r * s, s);
                for (n, g, w) in [
                    ("mean", guarded(|| d.mean()), f64::abs(r * s)),
                    ("variance", guarded(|| d.variance()), s * s),
                    ("standard deviation", guarded(|| d.standard_deviation()), s),
                ] {
                    m.step();
                    m.close(&format!("folded normal {}, settings far apart", n), || format!("mu={:e},sigma={:e}", r * s, s), &g, w, 1e-6, 0.0);
                }
            }
        }
    }
    for l in scales {
        for r in ratios {
            let mu = l * r;
            let par = || format!("mu={:e},lambda={:e}", mu, l);
            m.state();
            let d = InvNormal::new_unchecked(mu, l);
            if what == "modes" {
                // the positive root of 3 mu^2 x + lambda x^2 = lambda mu^2
                let h = 1.5 * r;
                let want = mu / (h.hypot(1.0) + h);
                let g = guarded(|| d.modes()[0]);
                m.step();
                m.close("inverse normal mode, settings far apart", par, &g, want, 1e-9, 0.0);
            }
            if what == "sampler" {
                let case = crate::case::base("inverse_normal", par(), d, crate::cases::cont(0.0, INF, mu, mu, |_| 0.0)).tree(&[128, 64], 2);
                let e = explore(&case.c);
                m.states_add(e.leaves);
                m.steps_add(e.choice_points);
                m.traces_add(e.leaves);
                for (msg, ch) in &e.fails {
                    m.expect("inverse_normal sample, settings far apart", || format!("{} answers={:?}", par(), ch), false, || msg.clone());
                }
                let bad = e.out.iter().filter(|(v, _)| !(*v > 0.0 && v.is_finite())).count();
                m.expect("inverse_normal sample is in the support, settings far apart", par, bad == 0, || format!("{} of {} distinct draws are not positive numbers", bad, e.out.len()));
                // the law of lambda / x is nearly chi-squared, that of (x / mu - 1)^2 lambda / mu too at the other end
                let mut below = 0.0;
                for (v, w) in &e.out {
                    let z = if r >= 1e6 { (l / v).sqrt() } else { (v / mu - 1.0) / r.sqrt() };
                    let want = if r >= 1e6 { if *v > 1e-3 * mu { break } else { 2.0 * upper_normal(z) } } else { 1.0 - upper_normal(z) };
                    below += w;
                    if r < 1e6 && r > 1e-5 {
                        continue;
                    }
                    m.step();
                    m.expect("inverse_normal sampler law, settings far apart", || format!("{} at {:e}", par(), v), (below - want).abs() < 0.04, || format!("sampled mass up to there {:.4}, reference {:.4}", below, want));
                }
            }
        }
    }
}

/// P(Z > z) for a standard normal Z by Simpson's rule.
fn upper_normal(z: f64) -> f64 {
    if z < 0.0 {
        return 1.0 - upper_normal(-z);
    }
    let (n, h) = (400, 10.0 / 400.0);
    let f = |i: usize| (-0.5 * (z + h * i as f64).powi(2)).exp();
    let s: f64 = (0..=n).map(|i| f(i) * if i == 0 || i == n { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 }).sum();
    s * h / 3.0 / (2.0 * std::f64::consts::PI).sqrt()
}

pub fn judge_sampler(m: &mut Mc, c: &Case, e: Explored) {
    if e.refused {
        m.state();
        m.outcome("refused");
        return;
    }
    let t = Table::new(c, true);
    m.states_add(e.leaves);
    m.steps_add(e.choice_points);
    m.traces_add(e.leaves);
    for (msg, ch) in &e.fails {
        m.expect(&format!("{} sample", c.name), || format!("{} answers={:?} of {:?}", c.par, ch, c.tree.0), false, || msg.clone());
    }
    let r = &c.r;
    for (v, _) in &e.out {
        let inside = *v >= r.lo && *v <= r.hi && v.is_finite();
        if !inside || r.discrete && t.xs.binary_search_by(|x| x.partial_cmp(v).unwrap()).is_err() && *v < *t.xs.last().unwrap() {
            m.expect(&format!("{} sample is in the support", c.name), || format!("{} sample={:e}", c.par, v), false, || format!("support is [{:e}, {:e}]", r.lo, r.hi));
        }
    }
    // one report per family and failure: the first sequence that shows it
    let mut seen: Vec<&str> = vec![];
    for (msg, ch) in &e.edge_fails {
        m.step();
        if !seen.contains(&msg.as_str()) {
            seen.push(msg);
            m.expect(&format!("{} sample under extreme answers", c.name), || msg.clone(), false, || format!("first at {} answers {:x?}", c.par, ch));
        }
    }
    for (v, ch) in &e.edge {
        let inside = *v >= r.lo && *v <= r.hi;
        m.expect(&format!("{} sample is in the support under extreme answers", c.name), || format!("{} answers={:x?}", c.par, ch), inside && v.is_finite(), || format!("draws {:e}, support is [{:e}, {:e}]", v, r.lo, r.hi));
    }
    m.outcome(&format!("{} {}", c.id(), e.out.len()));
    let mut cum = vec![0.0];
    for (_, wt) in &e.out {
        cum.push(cum.last().unwrap() + wt);
    }
    let total = *cum.last().unwrap() + e.cut_mass;
    m.expect(&format!("{} sampler answers every sequence", c.name), || c.par.clone(), near(total, 1.0, 1e-6, 1e-6) || !e.fails.is_empty(), || format!("mass {:e}", total));
    // a lattice product is coarser than a single fine lattice
    let tol = if c.tree.0.len() > 1 { 0.04 } else { 0.02 };
    for (i, x) in t.xs.iter().enumerate() {
        let k = e.out.partition_point(|(v, _)| v <= x);
        let (lo, hi) = (cum[k], cum[k] + e.cut_mass);
        let want = t.below[i];
        m.expect(&format!("{} sampler law", c.name), input(c, *x), want >= lo - tol && want <= hi + tol, || {
            format!("sampled mass below is in [{:.4}, {:.4}], reference {:.4}", lo, hi, want)
        });
    }
}
