//! C05: factorials and binomial coefficients are exact, log-factorials accurate.
use crate::utils;
use kit::{guarded, near, Mc};

pub fn run(m: &mut Mc) {
    m.at("C05 factorials");
    // 0! .. 20! is everything that fits 64 bits
    let mut f: u64 = 1;
    for n in 0..=20u64 {
        if n > 0 {
            f *= n;
        }
        m.state();
        m.step();
        #[cfg(has_factorial)]
        {
            let r = guarded(|| utils::factorial(n));
            m.expect("factorial", || n.to_string(), r == Ok(f), || format!("got {:?}, {}! = {}", r, n, f));
        }
        #[cfg(has_factorial_exact)]
        {
            let r = guarded(|| utils::factorial_exact(n));
            m.expect("exact factorial", || n.to_string(), r == Ok(f), || format!("got {:?}, {}! = {}", r, n, f));
        }
        m.outcome(&f.to_string());
    }
    m.trace();

    m.at("C05 log factorials");
    // ln n! by a compensated running sum of ln k: the walk n -> n+1 is the transition
    let top: u64 = m.pick(200_000, 8_000_000);
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for n in 0..=top {
        if n > 1 {
            let y = (n as f64).ln() - c;
            let t = s + y;
            c = (t - s) - y;
            s = t;
        }
        m.state();
        m.step();
        #[cfg(has_log_factorial_stirling)]
        {
            let r = guarded(|| utils::log_factorial_stirling(n));
            let ok = r.as_ref().map_or(false, |g| near(*g, s, 2e-12, 2e-12));
            m.expect("log factorial", || n.to_string(), ok, || format!("got {:?}, ln {}! = {:e}", r, n, s));
        }
    }
    for e in 15..=63u32 {
        // far out: against Stirling's series at high order
        for d in -1i64..=1 {
            let n = (1u64 << e).wrapping_add(d as u64);
            let want = kit::num::ln_gamma(n as f64 + 1.0);
            m.state();
            m.step();
            #[cfg(has_log_factorial_stirling)]
            {
                let r = guarded(|| utils::log_factorial_stirling(n));
                let ok = r.as_ref().map_or(false, |g| near(*g, want, 1e-12, 0.0));
                m.expect("log factorial", || n.to_string(), ok, || format!("got {:?}, ln {}! = {:e}", r, n, want));
            }
        }
    }
    for n in [u64::MAX - 1, u64::MAX].iter() {
        m.state();
        m.step();
        #[cfg(has_log_factorial_stirling)]
        {
            let want = kit::num::ln_gamma(*n as f64 + 1.0);
            let r = guarded(|| utils::log_factorial_stirling(*n));
            let ok = r.as_ref().map_or(false, |g| near(*g, want, 1e-12, 0.0));
            m.expect("log factorial", || n.to_string(), ok, || format!("got {:?}, ln {}! = {:e}", r, n, want));
        }
        let _ = n;
    }
    m.trace();

    m.at("C05 binomial coefficients");
    // Pascal's triangle: every (n, k) whose coefficient fits 64 bits
    let rows: usize = m.pick(400, 2000);
    let mut row: Vec<Option<u64>> = vec![Some(1)];
    for n in 0..=rows {
        for k in 0..=(n + 3) {
            let want = if k > n { Some(0) } else { row[k] };
            if let Some(w) = want {
                m.state();
                m.step();
                #[cfg(has_choose)]
                {
                    let r = guarded(|| utils::choose(n as u64, k as u64));
                    m.outcome(&w.to_string());
                    m.expect("binomial coefficient", || format!("({}, {})", n, k), r == Ok(w), || format!("got {:?}, coefficient is {}", r, w));
                }
                #[cfg(has_log_choose)]
                {
                    if k <= n {
                        m.step();
                        let r = guarded(|| utils::log_choose(n as u64, k as u64));
                        let l = (w as f64).ln();
                        // a difference of log-factorials, each good to 1e-12 of its own size
                        let tol = 1e-11f64.max(1e-12 * kit::num::ln_gamma(n as f64 + 1.0));
                        let ok = r.as_ref().map_or(false, |g| near(*g, l, 1e-12, tol));
                        m.expect("log binomial coefficient", || format!("({}, {})", n, k), ok, || format!("got {:?}, logarithm is {:e}", r, l));
                    }
                }
                let _ = w;
            }
        }
        let mut next = vec![Some(1u64); n + 2];
        for k in 1..=n {
            next[k] = match (row[k - 1], row[k]) {
                (Some(a), Some(b)) => a.checked_add(b),
                _ => None,
            };
        }
        row = next;
    }
    m.trace();
    // tall columns k = 0, 1, 2, n-1, n for large n
    for e in 8..32u32 {
        let n = (1u64 << e) + 1;
        for (k, w) in [(0, 1u128), (1, n as u128), (2, n as u128 * (n as u128 - 1) / 2)].iter() {
            for k in [*k, n - *k].iter() {
                m.state();
                m.step();
                #[cfg(has_choose)]
                {
                    let r = guarded(|| utils::choose(n, *k) as u128);
                    m.expect("binomial coefficient", || format!("({}, {})", n, k), r == Ok(*w), || format!("got {:?}, coefficient is {}", r, w));
                }
                let _ = (k, w);
            }
        }
    }
    // longer columns, up to the last n whose coefficient fits
    for k in 3..=30u64 {
        for e in 2..64u32 {
            for n in [(1u64 << e) - 1, 1 << e, (1 << e) + 1, 3 << (e - 2)].iter().copied() {
                // every prefix of the product is a coefficient, so the division is exact
                let w = if n < k { Some(0u128) } else { (0..k as u128).try_fold(1u128, |a, i| a.checked_mul(n as u128 - i).map(|v| v / (i + 1))) };
                let w = match w {
                    Some(w) if w <= u64::MAX as u128 => w,
                    _ => continue,
                };
                for k in [k, n.wrapping_sub(k)].iter().copied().filter(|k| *k <= n || n < 30) {
                    m.state();
                    m.step();
                    #[cfg(has_choose)]
                    {
                        let r = guarded(|| utils::choose(n, k) as u128);
                        m.expect("binomial coefficient", || format!("({}, {})", n, k), r == Ok(w), || format!("got {:?}, coefficient is {}", r, w));
                    }
                    let _ = (k, w);
                }
            }
        }
    }
    m.bound(&format!("factorials 0..20 (all that fit); log-factorials every n <= {} and powers of two to 2^63 and the last count; log-coefficients of the same triangle; binomial coefficients: every n <= {} and every k whose value fits 64 bits, k <= n+3, plus edge columns to n = 2^31+1 and columns 3..30 about every power of two that fits", top, rows));
    #[cfg(not(all(has_factorial, has_factorial_exact, has_log_factorial_stirling, has_choose)))]
    m.skip("a combinatorial helper was not found under its name");
}
