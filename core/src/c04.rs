//! C04: the dense linear algebra behind the multivariate normal, on every small
//! integer instance, where the exact answer is known in integers.
use crate::normal::linalg;
use kit::{guarded, near, Mc};

type M<const N: usize> = [[f64; N]; N];

/// Every lower-triangular matrix with the given diagonal and off-diagonal letters.
fn lowers<const N: usize>(diag: &[f64], off: &[f64], f: &mut dyn FnMut(&M<N>)) {
    let nd = N;
    let no = N * (N - 1) / 2;
    let total = diag.len().pow(nd as u32) * off.len().pow(no as u32);
    for mut idx in 0..total {
        let mut l = [[0.0; N]; N];
        for i in 0..N {
            l[i][i] = diag[idx % diag.len()];
            idx /= diag.len();
        }
        for i in 0..N {
            for j in 0..i {
                l[i][j] = off[idx % off.len()];
                idx /= off.len();
            }
        }
        f(&l);
    }
}

fn everything<const N: usize>(letters: &[f64], f: &mut dyn FnMut(&M<N>)) {
    let total = letters.len().pow((N * N) as u32);
    for mut idx in 0..total {
        let mut a = [[0.0; N]; N];
        for i in 0..N {
            for j in 0..N {
                a[i][j] = letters[idx % letters.len()];
                idx /= letters.len();
            }
        }
        f(&a);
    }
}

fn mul<const N: usize>(a: &M<N>, b: &M<N>) -> M<N> {
    let mut c = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            for k in 0..N {
                c[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    c
}

fn t<const N: usize>(a: &M<N>) -> M<N> {
    let mut c = [[0.0; N]; N];
    for i in 0..N {
        for j in 0..N {
            c[i][j] = a[j][i];
        }
    }
    c
}

fn eye<const N: usize>() -> M<N> {
    let mut c = [[0.0; N]; N];
    for i in 0..N {
        c[i][i] = 1.0;
    }
    c
}

fn scale<const N: usize>(a: &M<N>, s: f64) -> M<N> {
    let mut c = *a;
    for r in c.iter_mut() {
        for x in r.iter_mut() {
            *x *= s;
        }
    }
    c
}

fn close<const N: usize>(a: &M<N>, b: &M<N>, tol: f64) -> bool {
    let s: f64 = b.iter().flat_map(|r| r.iter()).fold(0.0, |m: f64, x| m.max(x.abs()));
    (0..N).all(|i| (0..N).all(|j| near(a[i][j], b[i][j], tol, tol * s)))
}

/// Inverse of a lower-triangular matrix by forward substitution.
fn inv_lower<const N: usize>(l: &M<N>) -> M<N> {
    let mut x = [[0.0; N]; N];
    for c in 0..N {
        for i in 0..N {
            let mut s = if i == c { 1.0 } else { 0.0 };
            for k in 0..i {
                s -= l[i][k] * x[k][c];
            }
            x[i][c] = s / l[i][i];
        }
    }
    x
}

fn show<const N: usize>(a: &M<N>) -> String { format!("{:?}", a.iter().map(|r| r.to_vec()).collect::<Vec<_>>()) }

fn factor<const N: usize>(m: &mut Mc, l: &M<N>, s2: f64) {
    m.state();
    let sigma = scale(&mul(l, &t(l)), s2 * s2);
    let l = scale(l, s2);
    #[cfg(has_cholesky)]
    {
        m.step();
        let r = guarded(|| unsafe { linalg::cholesky(sigma) });
        let ok = r.as_ref().map_or(false, |g| {
            close(g, &l, 1e-9)
                && (0..N).all(|i| (i + 1..N).all(|j| g[i][j] == 0.0))
                && close(&mul(g, &t(g)), &sigma, 1e-9)
        });
        if let Ok(g) = &r {
            m.outcome_f(g[N - 1][0]);
        }
        m.expect("factorisation", || show(&sigma), ok, || format!("got {:?}, the factor is {}", r, show(&l)));
    }
    let inv = inv_lower(&l);
    #[cfg(has_inverse_lt)]
    {
        m.step();
        let r = guarded(|| unsafe { linalg::inverse_lt(l) });
        let ok = r.as_ref().map_or(false, |g| close(g, &inv, 1e-9));
        m.expect("triangular inverse", || show(&l), ok, || format!("got {:?}, inverse is {}", r, show(&inv)));
    }
    #[cfg(all(has_cholesky, has_inverse_lt, has_mm_square))]
    {
        // the chain the distributions run: covariance -> factor -> inverse -> precision
        m.step();
        let r = guarded(|| unsafe { linalg::mm_square(&linalg::inverse_lt(linalg::cholesky(sigma))) });
        let want = mul(&t(&inv), &inv);
        let ok = r.as_ref().map_or(false, |g| close(g, &want, 1e-7) && close(&mul(g, &sigma), &eye(), 1e-6));
        m.expect("precision chain", || show(&sigma), ok, || format!("got {:?}, inverse of the covariance is {}", r, show(&want)));
    }
    m.trace();
}

fn products<const N: usize>(m: &mut Mc, a: &M<N>, vecs: &[[f64; N]]) {
    m.state();
    #[cfg(has_mm_square)]
    {
        m.step();
        let r = guarded(|| unsafe { linalg::mm_square(a) });
        let want = mul(&t(a), a);
        m.expect("transpose product", || show(a), r.as_ref().map_or(false, |g| close(g, &want, 1e-12)),
            || format!("got {:?}, transpose times matrix is {}", r, show(&want)));
    }
    #[cfg(has_mv_mult)]
    for v in vecs {
        m.step();
        let r = guarded(|| unsafe { linalg::mv_mult(a, *v) });
        let mut want = [0.0; N];
        for i in 0..N {
            want[i] = (0..N).map(|j| a[i][j] * v[j]).sum();
        }
        let ok = r.as_ref().map_or(false, |g| (0..N).all(|i| near(g[i], want[i], 1e-12, 1e-12)));
        m.expect("matrix-vector product", || format!("{} * {:?}", show(a), v), ok, || format!("got {:?}, product is {:?}", r, want));
    }
}

/// Larger dimensions: unit-plus factors with one off-diagonal entry in every
/// position, the letters at both ends of the diagonal, and dense patterns.
fn large<const N: usize>(m: &mut Mc, every: bool) {
    let base = |d: f64| {
        let mut l = [[0.0; N]; N];
        for i in 0..N {
            l[i][i] = if i % 3 == 1 { d } else { 1.0 };
        }
        l
    };
    let vecs = |i: usize, j: usize| {
        let mut v = [[0.0; N]; 2];
        for k in 0..N {
            v[0][k] = (k % 5) as f64 - 2.0;
        }
        v[1][i] = 1.0;
        v[1][j] = -3.0;
        v
    };
    for i in 0..N {
        for j in 0..i {
            if !every && (i + 1 < N && j > 0 && i % 8 > 1) {
                continue;
            }
            let mut l = base(2.0);
            l[i][j] = -1.5;
            l[i][i] = 3.0;
            factor(m, &l, 1.0);
            products(m, &l, &vecs(i, j));
            products(m, &t(&l), &vecs(i, j));
        }
    }
    // dense: small integers in a pattern without symmetry
    for k in 1..4usize {
        let mut l = base(2.0);
        let mut a = [[0.0; N]; N];
        for i in 0..N {
            for j in 0..N {
                a[i][j] = ((i * (k + 1) + j * j * k + 1) % 7) as f64 - 3.0;
                if j < i && (i - j) <= k {
                    l[i][j] = ((i + 2 * j + k) % 3) as f64 * 0.25 - 0.25;
                }
            }
        }
        factor(m, &l, 1.0);
        products(m, &a, &vecs(N - 1, 0));
    }
}

pub fn run(m: &mut Mc) {
    m.at("C04 factors");
    let q = !m.thorough();
    lowers::<1>(&[0.5, 1.0, 2.0, 3.0, 7.0], &[0.0], &mut |l| factor(m, l, 1.0));
    lowers::<2>(&[1.0, 2.0, 3.0, 5.0], &[-5.0, -2.0, -1.0, 0.0, 1.0, 3.0, 8.0], &mut |l| factor(m, l, 1.0));
    lowers::<3>(&[1.0, 2.0, 3.0], &[-2.0, -1.0, 0.0, 1.0, 2.0], &mut |l| factor(m, l, 1.0));
    lowers::<4>(&[1.0, 2.0], &[-1.0, 0.0, 2.0], &mut |l| factor(m, l, 1.0));
    lowers::<5>(&[1.0], &[0.0, 2.0], &mut |l| factor(m, l, 1.0));
    lowers::<5>(&[2.0], &[-1.0, 1.0], &mut |l| factor(m, l, 1.0));
    lowers::<6>(&[1.0], &[0.0, -1.0], &mut |l| factor(m, l, 1.0));
    if !q {
        lowers::<4>(&[1.0, 3.0], &[-2.0, -1.0, 0.0, 1.0, 2.0], &mut |l| factor(m, l, 1.0));
        lowers::<5>(&[1.0, 2.0], &[-1.0, 0.0, 1.0], &mut |l| factor(m, l, 1.0));
        lowers::<6>(&[1.0, 3.0], &[1.0, 0.0], &mut |l| factor(m, l, 1.0));
    }
    m.at("C04 large");
    large::<5>(m, true);
    large::<6>(m, true);
    large::<7>(m, true);
    large::<8>(m, true);
    large::<9>(m, true);
    large::<10>(m, true);
    large::<12>(m, true);
    large::<16>(m, true);
    large::<17>(m, !q);
    large::<33>(m, false);
    m.at("C04 powers");
    // powers of two only shift exponents
    for e in [-60i32, -20, -1, 1, 20, 60].iter() {
        lowers::<3>(&[1.0, 3.0], &[-1.0, 0.0, 2.0], &mut |l| factor(m, l, 2f64.powi(*e)));
    }
    m.at("C04 products");
    let v1: Vec<[f64; 1]> = vec![[1.0], [-2.0]];
    everything::<1>(&[-2.0, 0.0, 1.0, 3.0], &mut |a| products(m, a, &v1));
    let mut v2 = vec![];
    for a in -2..=2 {
        for b in -2..=2 {
            v2.push([a as f64, b as f64]);
        }
    }
    everything::<2>(&[-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0], &mut |a| products(m, a, &v2));
    let v3 = vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, -2.0, 4.0]];
    everything::<3>(&[-1.0, 0.0, 2.0], &mut |a| products(m, a, &v3));
    let v4 = vec![[1.0, -2.0, 4.0, -8.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
    if q {
        lowers::<4>(&[1.0, 2.0], &[0.0, -1.0], &mut |a| {
            products(m, a, &v4);
            products(m, &t(a), &v4);
        });
        everything::<4>(&[1.0, -1.0], &mut |a| products(m, a, &v4[..1]));
    } else {
        everything::<4>(&[0.0, 1.0], &mut |a| products(m, a, &v4));
        everything::<4>(&[2.0, -1.0], &mut |a| products(m, a, &v4));
        lowers::<4>(&[1.0, 2.0], &[-1.0, 0.0, 3.0], &mut |a| {
            products(m, a, &v4);
            products(m, &t(a), &v4);
        });
    }
    m.bound("dimensions 1-6 (and 7, 8, 9, 10, 12, 16, 17 with one off-diagonal entry in every position, 33 in part, plus dense patterns); covariances L*L' for every integer lower-triangular L over the listed letters; products over every small integer matrix (dimension <= 4) and vector list; comparison tolerance 1e-9 (factor), 1e-12 (products)");
    #[cfg(not(has_cholesky))]
    m.skip("factorisation helper not found under its name");
    #[cfg(not(has_inverse_lt))]
    m.skip("triangular inverse helper not found under its name");
    #[cfg(not(has_mm_square))]
    m.skip("transpose product helper not found under its name");
    #[cfg(not(has_mv_mult))]
    m.skip("matrix-vector helper not found under its name");
    m.assume("OpenBLAS as installed implements BLAS/LAPACK");
}
