//! Reference exact arithmetic, written independently of the crate under test.
//! Rows are plain vectors; nothing in here calls into rust_systre.

use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};

pub type Q = BigRational;
pub type QM = Vec<Vec<Q>>;
pub type ZM = Vec<Vec<BigInt>>;

pub fn q(n: i64) -> Q {
    Q::from(BigInt::from(n))
}
pub fn qf(n: i64, d: i64) -> Q {
    Q::new(BigInt::from(n), BigInt::from(d))
}
pub fn z(n: i64) -> BigInt {
    BigInt::from(n)
}
pub fn to_q(m: &[Vec<i64>]) -> QM {
    m.iter().map(|r| r.iter().map(|x| q(*x)).collect()).collect()
}
pub fn to_z(m: &[Vec<i64>]) -> ZM {
    m.iter().map(|r| r.iter().map(|x| z(*x)).collect()).collect()
}
pub fn zq(m: &ZM) -> QM {
    m.iter().map(|r| r.iter().map(|x| Q::from(x.clone())).collect()).collect()
}

pub fn identity(n: usize) -> QM {
    (0..n).map(|i| (0..n).map(|j| q((i == j) as i64)).collect()).collect()
}

pub fn transpose<T: Clone>(m: &[Vec<T>]) -> Vec<Vec<T>> {
    if m.is_empty() {
        return vec![];
    }
    (0..m[0].len()).map(|j| m.iter().map(|r| r[j].clone()).collect()).collect()
}

pub fn mul(a: &QM, b: &QM) -> QM {
    a.iter().map(|r| {
        (0..b[0].len()).map(|j| {
            let mut s = Q::zero();
            for k in 0..b.len() {
                s += &r[k] * &b[k][j];
            }
            s
        }).collect()
    }).collect()
}

pub fn apply(a: &QM, v: &[Q]) -> Vec<Q> {
    a.iter().map(|r| {
        let mut s = Q::zero();
        for k in 0..v.len() {
            s += &r[k] * &v[k];
        }
        s
    }).collect()
}

/// Reduced row echelon form without zero rows, and its pivot columns.
pub fn rref(m: &QM) -> (QM, Vec<usize>) {
    let mut a = m.clone();
    let nr = a.len();
    let nc = if nr == 0 { 0 } else { a[0].len() };
    let mut piv = vec![];
    let mut r = 0;
    for c in 0..nc {
        let Some(k) = (r..nr).find(|k| !a[*k][c].is_zero()) else { continue };
        a.swap(r, k);
        let f = a[r][c].clone();
        for j in 0..nc {
            let t = &a[r][j] / &f;
            a[r][j] = t;
        }
        for i in 0..nr {
            if i != r && !a[i][c].is_zero() {
                let f = a[i][c].clone();
                for j in 0..nc {
                    let t = &a[i][j] - &f * &a[r][j];
                    a[i][j] = t;
                }
            }
        }
        piv.push(c);
        r += 1;
        if r == nr {
            break;
        }
    }
    a.truncate(r);
    (a, piv)
}

pub fn rank(m: &QM) -> usize {
    rref(m).1.len()
}

pub fn det(m: &QM) -> Q {
    let n = m.len();
    let mut a = m.clone();
    let mut d = Q::one();
    for c in 0..n {
        let Some(k) = (c..n).find(|k| !a[*k][c].is_zero()) else { return Q::zero() };
        if k != c {
            a.swap(k, c);
            d = -d;
        }
        d *= a[c][c].clone();
        for i in c + 1..n {
            let f = &a[i][c] / &a[c][c];
            if !f.is_zero() {
                for j in c..n {
                    let t = &a[i][j] - &f * &a[c][j];
                    a[i][j] = t;
                }
            }
        }
    }
    d
}

pub fn inverse(m: &QM) -> Option<QM> {
    let n = m.len();
    let aug: QM = (0..n).map(|i| {
        let mut r = m[i].clone();
        r.extend(identity(n)[i].iter().cloned());
        r
    }).collect();
    let (e, piv) = rref(&aug);
    if piv.len() < n || (n > 0 && piv[n - 1] != n - 1) {
        return None;
    }
    Some(e.iter().map(|r| r[n..].to_vec()).collect())
}

/// Some solution of a x = b (columns), if there is one.
pub fn solve(a: &QM, b: &QM) -> Option<QM> {
    let n = a[0].len();
    let k = b[0].len();
    let aug: QM = a.iter().zip(b).map(|(r, s)| {
        let mut t = r.clone();
        t.extend(s.iter().cloned());
        t
    }).collect();
    let (e, piv) = rref(&aug);
    if piv.iter().any(|c| *c >= n) {
        return None;
    }
    let mut x = vec![vec![Q::zero(); k]; n];
    for (i, c) in piv.iter().enumerate() {
        for j in 0..k {
            x[*c][j] = e[i][n + j].clone();
        }
    }
    Some(x)
}

/// Hermite normal form (row style, positive pivots, entries above a pivot in
/// [0, pivot)), zero rows dropped, with pivot columns.
pub fn hnf(m: &ZM) -> (ZM, Vec<usize>) {
    let mut a = m.clone();
    let nr = a.len();
    let nc = if nr == 0 { 0 } else { a[0].len() };
    let mut r = 0;
    let mut piv = vec![];
    for c in 0..nc {
        if r == nr {
            break;
        }
        loop {
            let best = (r..nr).filter(|i| !a[*i][c].is_zero())
                .min_by_key(|i| a[*i][c].abs());
            let Some(k) = best else { break };
            a.swap(r, k);
            let mut clean = true;
            for i in r + 1..nr {
                let f = a[i][c].div_floor(&a[r][c]);
                if !f.is_zero() {
                    for j in 0..nc {
                        let t = &a[i][j] - &f * &a[r][j];
                        a[i][j] = t;
                    }
                }
                if !a[i][c].is_zero() {
                    clean = false;
                }
            }
            if clean {
                break;
            }
        }
        if a[r][c].is_zero() {
            continue;
        }
        if a[r][c].is_negative() {
            for j in 0..nc {
                let t = -&a[r][j];
                a[r][j] = t;
            }
        }
        for i in 0..r {
            let f = a[i][c].div_floor(&a[r][c]);
            if !f.is_zero() {
                for j in 0..nc {
                    let t = &a[i][j] - &f * &a[r][j];
                    a[i][j] = t;
                }
            }
        }
        piv.push(c);
        r += 1;
    }
    a.truncate(r);
    (a, piv)
}

/// Index of the lattice spanned by the rows in Z^d; None if not of full rank.
pub fn index(rows: &ZM, d: usize) -> Option<BigInt> {
    let (h, piv) = hnf(rows);
    if piv.len() < d {
        return None;
    }
    let mut p = BigInt::one();
    for i in 0..d {
        p *= &h[i][i];
    }
    Some(p)
}

pub fn qs(m: &[Vec<Q>]) -> String {
    let rows: Vec<String> = m.iter()
        .map(|r| format!("[{}]", r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
        .collect();
    format!("[{}]", rows.join(","))
}

pub fn vs(v: &[Q]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

pub fn frac(x: &Q) -> Q {
    x - x.floor()
}

pub fn frac_vec(v: &[Q]) -> Vec<Q> {
    v.iter().map(frac).collect()
}

pub fn is_int(x: &Q) -> bool {
    x.is_integer()
}
