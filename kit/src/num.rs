//! Reference numerics: boring, slow, independent of the code under check.

/// ln Gamma(x), x > 0: upward recurrence to x >= 16, then Stirling's series.
pub fn ln_gamma(x: f64) -> f64 {
    assert!(x > 0.0);
    let mut x = x;
    let mut shift = 0.0;
    let mut p = 1.0;
    while x < 16.0 {
        p *= x;
        x += 1.0;
        if p > 1e200 {
            shift += p.ln();
            p = 1.0;
        }
    }
    shift += p.ln();
    let y = 1.0 / (x * x);
    let s = (1.0 / 12.0
        - y * (1.0 / 360.0
            - y * (1.0 / 1260.0
                - y * (1.0 / 1680.0
                    - y * (1.0 / 1188.0 - y * (691.0 / 360360.0 - y / 156.0))))))
        / x;
    (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + s - shift
}

pub fn gamma(x: f64) -> f64 {
    if x > 0.0 {
        if x == x.floor() && x < 20.0 {
            let mut r = 1.0;
            let mut i = 2.0;
            while i < x {
                r *= i;
                i += 1.0;
            }
            return r;
        }
        ln_gamma(x).exp()
    } else {
        // reflection
        std::f64::consts::PI / ((std::f64::consts::PI * x).sin() * gamma(1.0 - x))
    }
}

pub fn ln_beta(a: f64, b: f64) -> f64 { ln_gamma(a) + ln_gamma(b) - ln_gamma(a + b) }

pub fn ln_choose(n: f64, k: f64) -> f64 {
    ln_gamma(n + 1.0) - ln_gamma(k + 1.0) - ln_gamma(n - k + 1.0)
}

/// Modified Bessel function I_v(x) by its series.
pub fn bessel_i(v: f64, x: f64) -> f64 {
    let mut s = 0.0;
    let mut k = 0.0;
    loop {
        let t = ((2.0 * k + v) * (x / 2.0).ln() - ln_gamma(k + 1.0) - ln_gamma(k + v + 1.0)).exp();
        s += t;
        if t < s * 1e-17 && k > x {
            return s;
        }
        k += 1.0;
    }
}

/// Double-exponential quadrature on one interval (either end may be infinite).
pub fn de(f: &dyn Fn(f64) -> f64, a: f64, b: f64) -> f64 {
    if !(a < b) {
        return 0.0;
    }
    if a.is_infinite() && b.is_infinite() {
        return de(f, a, 0.0) + de(f, 0.0, b);
    }
    if b.is_infinite() {
        return half_line(&|t| f(a + t));
    }
    if a.is_infinite() {
        return half_line(&|t| f(b - t));
    }
    let (mut prev, mut h) = (f64::NAN, 1.0 / 8.0);
    let hl = 0.5 * (b - a);
    let pi2 = std::f64::consts::FRAC_PI_2;
    let mut sum = hl * pi2 * ev(f, a + hl);
    let mut first = true;
    for level in 0..7 {
        // nodes new at this level
        let mut k = 1i64;
        let mut part = 0.0;
        loop {
            let t = k as f64 * h;
            if t > 6.2 {
                break;
            }
            if first || k % 2 == 1 {
                let u = pi2 * t.sinh();
                let q = (-2.0 * u).exp();
                let d = 2.0 * q / (1.0 + q); // 1 - tanh(u)
                let w = pi2 * t.cosh() * 4.0 * q / ((1.0 + q) * (1.0 + q));
                if d * hl == 0.0 {
                    break;
                }
                let (xl, xr) = (a + hl * d, b - hl * d);
                let mut v = 0.0;
                if xl > a {
                    v += ev(f, xl);
                }
                if xr < b {
                    v += ev(f, xr);
                }
                part += hl * w * v;
            }
            k += 1;
        }
        sum += part;
        let est = sum * h;
        if level > 1 && (est - prev).abs() <= 1e-13 * est.abs() + 1e-300 {
            return est;
        }
        prev = est;
        h *= 0.5;
        first = false;
    }
    prev
}

fn ev(f: &dyn Fn(f64) -> f64, x: f64) -> f64 {
    let v = f(x);
    if v.is_finite() { v } else { 0.0 }
}

/// Integral of g over (0, inf): exp-sinh.
fn half_line(g: &dyn Fn(f64) -> f64) -> f64 {
    let pi2 = std::f64::consts::FRAC_PI_2;
    let (mut prev, mut h) = (f64::NAN, 1.0 / 8.0);
    let mut sum = pi2 * ev(g, 1.0);
    let mut first = true;
    for level in 0..7 {
        let mut part = 0.0;
        let mut k = 1i64;
        loop {
            let t = k as f64 * h;
            if t > 6.0 {
                break;
            }
            if first || k % 2 == 1 {
                for s in [t, -t] {
                    let x = (pi2 * s.sinh()).exp();
                    if x > 0.0 && x.is_finite() {
                        let w = pi2 * s.cosh() * x;
                        let v = ev(g, x) * w;
                        if v.is_finite() {
                            part += v;
                        }
                    }
                }
            }
            k += 1;
        }
        sum += part;
        let est = sum * h;
        if level > 1 && (est - prev).abs() <= 1e-13 * est.abs() + 1e-300 {
            return est;
        }
        prev = est;
        h *= 0.5;
        first = false;
    }
    prev
}

/// Integral over consecutive panels.
pub fn panels(f: &dyn Fn(f64) -> f64, pts: &[f64]) -> f64 {
    pts.windows(2).map(|w| de(f, w[0], w[1])).sum()
}

/// Root of an increasing function by bisection.
pub fn bisect(f: &dyn Fn(f64) -> f64, mut lo: f64, mut hi: f64) -> f64 {
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if m <= lo || m >= hi {
            break;
        }
        if f(m) < 0.0 { lo = m } else { hi = m }
    }
    0.5 * (lo + hi)
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn gammas() {
        assert!((ln_gamma(0.5) - std::f64::consts::PI.sqrt().ln()).abs() < 1e-14);
        assert!((ln_gamma(11.0) - 3628800f64.ln()).abs() < 1e-13);
        assert!((gamma(-0.5) + 2.0 * std::f64::consts::PI.sqrt()).abs() < 1e-13);
        assert!((gamma(1.0 / 3.0) - 2.678938534707747).abs() < 1e-13);
    }

    #[test]
    fn quad() {
        let n = |x: f64| (-x * x / 2.0).exp();
        let s = (2.0 * std::f64::consts::PI).sqrt();
        assert!((de(&n, f64::NEG_INFINITY, f64::INFINITY) - s).abs() < 1e-11);
        assert!((de(&|x: f64| 1.0 / x.sqrt(), 0.0, 1.0) - 2.0).abs() < 1e-11);
        assert!((de(&|x: f64| 1.0 / (1.0 + x * x), f64::NEG_INFINITY, f64::INFINITY)
            - std::f64::consts::PI).abs() < 1e-9);
        assert!((de(&|x: f64| x.cos(), 0.0, 3.0) - 3f64.sin()).abs() < 1e-12);
        assert!((bessel_i(0.0, 1.0) - 1.2660658777520084).abs() < 1e-13);
    }
}
