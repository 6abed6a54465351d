//! Monitors A01..A06: matrices, exact linear algebra, modular arithmetic,
//! the p-adic solver, affine geometry and partitions.

use harness::core::*;
use harness::exact::*;
use harness::{ensure, fail};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, ModZ, Point, ScalarProduct, Vector};
use rust_systre::arithmetic::linear_algebra::{extend_basis, gcdx, LinearAlgebra, Scalar};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::arithmetic::modular_solver as ms;
use rust_systre::partitions::Partition;

type M64 = Vec<Vec<i64>>;

fn show(m: &[Vec<i64>]) -> String {
    format!("{:?}", m).replace(' ', "")
}

fn random_int(cx: &mut Ctx, r: usize, c: usize, mag: i64) -> M64 {
    let sparse = cx.rng.chance(1, 3);
    let mut m: M64 = (0..r).map(|_| (0..c).map(|_| {
        if sparse && cx.rng.chance(2, 3) { 0 } else { cx.rng.range(-mag, mag) }
    }).collect()).collect();
    // rows that depend on several others: a product of two thin matrices
    let k = 1 + cx.rng.usize(r.min(c));
    if k < r.max(c) && mag >= k as i64 && cx.rng.chance(1, 6) {
        let b = ((mag / k as i64) as f64).sqrt().floor().max(1.0) as i64;
        let a = mag / (k as i64 * b);
        let u: M64 = (0..r).map(|_| (0..k).map(|_| cx.rng.range(-a, a)).collect()).collect();
        let v: M64 = (0..k).map(|_| (0..c).map(|_| cx.rng.range(-b, b)).collect()).collect();
        return u.iter().map(|x| (0..c).map(|j| (0..k).map(|i| x[i] * v[i][j]).sum()).collect()).collect();
    }
    // dependent rows and columns, zero rows
    if r > 1 && cx.rng.chance(1, 3) {
        let (i, j) = (cx.rng.usize(r), cx.rng.usize(r));
        let f = cx.rng.range(-1, 1);
        for k in 0..c {
            m[i][k] = f * m[j][k];
        }
    }
    if c > 1 && cx.rng.chance(1, 4) {
        let (i, j) = (cx.rng.usize(c), cx.rng.usize(c));
        let f = cx.rng.range(-1, 1);
        for row in m.iter_mut() {
            row[i] = f * row[j];
        }
    }
    m
}

fn lib<T: Clone>(m: &[Vec<T>], ncols: usize) -> Matrix<T> {
    let flat: Vec<T> = m.iter().flatten().cloned().collect();
    if m.is_empty() || ncols == 0 {
        return Matrix::new(ncols.max(1), &[]);
    }
    Matrix::new(ncols, &flat)
}

fn back<T: Clone>(m: &Matrix<T>) -> Vec<Vec<T>> {
    let (r, c) = m.shape();
    let flat: Vec<T> = m.iter().cloned().collect();
    assert_eq!(flat.len(), r * c);
    (0..r).map(|i| flat[i * c..(i + 1) * c].to_vec()).collect()
}

// ------------------------------------------------------------------- A01

fn a01(cx: &mut Ctx) -> Res {
    let most = if cx.rng.chance(1, 60) && !cfg!(miri) { 40 } else { 5 };
    let (r, c) = (1 + cx.rng.usize(most), 1 + cx.rng.usize(most));
    let m = random_int(cx, r, c, 50);
    let n = random_int(cx, r, c, 50);
    cx.describe(format!("{} and {}", show(&m), show(&n)));
    let a = lib(&m, c);
    let b = lib(&n, c);
    ensure!(a.shape() == (r, c), "shape {:?}", a.shape());
    for i in 0..r {
        ensure!(a.get_row(i) == m[i], "row {} reads {:?}", i, a.get_row(i));
        for j in 0..c {
            ensure!(a[(i, j)] == m[i][j], "entry ({}, {}) reads {}", i, j, a[(i, j)]);
        }
    }
    for j in 0..c {
        let col: Vec<i64> = m.iter().map(|r| r[j]).collect();
        ensure!(a.get_col(j) == col, "column {} reads {:?}", j, a.get_col(j));
    }
    ensure!(a.get_rows() == m, "rows {:?}", a.get_rows());
    ensure!(a.iter().cloned().collect::<Vec<_>>() == m.concat(), "iteration order");
    ensure!(a.clone().into_iter().collect::<Vec<_>>() == m.concat(), "consuming iteration order");
    ensure!(back(&a.transpose()) == transpose(&m), "transpose {:?}", a.transpose());
    ensure!(a.transpose().transpose() == a, "double transpose");
    ensure!((a == b) == (m == n), "equality");
    let text: String = m.iter().map(|r| r.iter().map(|x| format!(" {}", x)).collect::<String>() + "\n").collect();
    ensure!(a.to_string() == text, "printed as {:?}", a.to_string());

    // writing one entry
    let (i, j) = (cx.rng.usize(r), cx.rng.usize(c));
    let mut w = a.clone();
    w[(i, j)] = 1000;
    let mut mw = m.clone();
    mw[i][j] = 1000;
    ensure!(back(&w) == mw, "after writing entry ({}, {}): {:?}", i, j, w);

    // arithmetic
    let k = cx.rng.range(-9, 9);
    let kd = { let x = cx.rng.range(-9, 9); if x == 0 { 1 } else { x } };
    let zip = |f: &dyn Fn(i64, i64) -> i64| -> M64 {
        m.iter().zip(&n).map(|(x, y)| x.iter().zip(y).map(|(p, q)| f(*p, *q)).collect()).collect()
    };
    let map = |f: &dyn Fn(i64) -> i64| -> M64 { m.iter().map(|x| x.iter().map(|p| f(*p)).collect()).collect() };
    let ck = |what: &str, x: Matrix<i64>, y: M64| -> Res {
        ensure!(back(&x) == y && x.shape() == (r, c), "{}: {:?}, expected {}", what, x, show(&y));
        Ok(())
    };
    // every operand form: left owned or borrowed, right owned or borrowed, and assigning
    macro_rules! forms {
        ($what:expr, $op:tt, $asg:tt, $l:expr, $r:expr, $want:expr) => {{
            let (l, r, want) = (&$l, $r, $want);
            ck(concat!($what, " of two references"), l $op &r, want.clone())?;
            ck(concat!($what, " of reference and value"), l $op r.clone(), want.clone())?;
            ck(concat!($what, " of value and reference"), l.clone() $op &r, want.clone())?;
            ck(concat!($what, " of two values"), l.clone() $op r.clone(), want.clone())?;
            let mut t = l.clone();
            t $asg &r;
            ck(concat!($what, " in place with a reference"), t, want.clone())?;
            let mut t = l.clone();
            t $asg r.clone();
            ck(concat!($what, " in place with a value"), t, want)?;
            cx.add("operand forms", 6);
        }};
    }
    forms!("sum", +, +=, a, b.clone(), zip(&|p, q| p + q));
    forms!("difference", -, -=, a, b.clone(), zip(&|p, q| p - q));
    forms!("sum with a number", +, +=, a, k, map(&|p| p + k));
    forms!("difference with a number", -, -=, a, k, map(&|p| p - k));
    forms!("multiple", *, *=, a, k, map(&|p| p * k));
    forms!("quotient", /, /=, a, kd, map(&|p| p / kd));
    ck("negation", -&a, map(&|p| -p))?;
    ck("negation by value", -a.clone(), map(&|p| -p))?;
    let mut t = a.clone();
    t += &b;
    t -= b.clone();
    t -= k;
    t += &k;
    t *= k;
    ck("in-place arithmetic", t, map(&|p| p * k))?;
    let cc = 1 + cx.rng.usize(5);
    let o = random_int(cx, c, cc, 50);
    let p = lib(&o, cc);
    let prod: M64 = m.iter().map(|x| (0..cc).map(|j| (0..c).map(|l| x[l] * o[l][j]).sum()).collect()).collect();
    for x in [&a * &p, a.clone() * &p, &a * p.clone(), a.clone() * p.clone()] {
        ensure!(back(&x) == prod && x.shape() == (r, cc), "product with {}: {:?}, expected {}", show(&o), x, show(&prod));
    }

    // stacking, parts, shapes
    let q2 = 1 + cx.rng.usize(3);
    let side = random_int(cx, r, q2, 50);
    let below = random_int(cx, q2, c, 50);
    let h = Matrix::hstack(&[a.clone(), lib(&side, q2), b.clone()]);
    let hm: M64 = (0..r).map(|i| [m[i].clone(), side[i].clone(), n[i].clone()].concat()).collect();
    ensure!(back(&h) == hm, "side by side: {:?}, expected {}", h, show(&hm));
    let v = Matrix::vstack(&[a.clone(), lib(&below, c), b.clone()]);
    let vm: M64 = [m.clone(), below.clone(), n.clone()].concat();
    ensure!(back(&v) == vm, "on top of each other: {:?}, expected {}", v, show(&vm));
    // from one part to five of them, of differing sizes
    let count = 1 + cx.rng.usize(5);
    let sizes: Vec<usize> = (0..count).map(|_| 1 + cx.rng.usize(4)).collect();
    let beside: Vec<M64> = sizes.iter().map(|s| random_int(cx, r, *s, 50)).collect();
    let stacked: Vec<M64> = sizes.iter().map(|s| random_int(cx, *s, c, 50)).collect();
    let h = Matrix::hstack(&beside.iter().zip(&sizes).map(|(x, s)| lib(x, *s)).collect::<Vec<_>>());
    let hm: M64 = (0..r).map(|i| beside.iter().flat_map(|x| x[i].clone()).collect()).collect();
    ensure!(back(&h) == hm, "{} parts side by side: {:?}, expected {}", count, h, show(&hm));
    let v = Matrix::vstack(&stacked.iter().map(|x| lib(x, c)).collect::<Vec<_>>());
    ensure!(back(&v) == stacked.concat(), "{} parts on top of each other: {:?}, expected {}", count, v, show(&stacked.concat()));
    cx.add("operations", 2);
    ensure!(Matrix::<i64>::hstack(&[]).shape().0 == 0 && Matrix::<i64>::vstack(&[]).shape().0 == 0, "stacks of nothing");
    let (i0, j0) = (cx.rng.usize(r), cx.rng.usize(c));
    let (i1, j1) = (i0 + 1 + cx.rng.usize(r - i0), j0 + 1 + cx.rng.usize(c - j0));
    let s = a.submatrix(i0..i1, j0..j1);
    let sm: M64 = m[i0..i1].iter().map(|x| x[j0..j1].to_vec()).collect();
    ensure!(back(&s) == sm, "part {}..{} x {}..{}: {:?}", i0, i1, j0, j1, s);
    let flat = m.concat();
    ensure!(back(&Matrix::row(&flat)) == vec![flat.clone()], "row matrix");
    ensure!(back(&Matrix::col(&flat)) == flat.iter().map(|x| vec![*x]).collect::<M64>(), "column matrix");
    ensure!(flat.iter().cloned().collect::<Matrix<i64>>().reshape(c) == a, "reshaping a flat list");
    ensure!(a.clone().reshape(r) == Matrix::new(r, &flat), "reshaping");
    let idm: M64 = (0..r).map(|i| (0..r).map(|j| (i == j) as i64).collect()).collect();
    ensure!(back(&Matrix::<i64>::identity(r)) == idm && Matrix::<i64>::identity(r).is_identity(), "identity of size {}", r);
    ensure!(back(&Matrix::<i64>::zero(r, c)) == vec![vec![0i64; c]; r], "zero matrix");
    let kk = cx.rng.usize(r);
    ensure!(back(&Matrix::<i64>::unit_vector(r, kk)) == vec![idm[kk].clone()], "unit vector {} of {}", kk, r);
    ensure!(a.is_identity() == (r == c && m == idm), "is_identity {}", a.is_identity());
    let mut near = idm.clone();
    let (ni, nj) = (cx.rng.usize(r), cx.rng.usize(r));
    near[ni][nj] += 1;
    ensure!(!lib(&near, r).is_identity(), "{} is taken for an identity", show(&near));
    cx.add("operations", 60);

    // refusals
    let odd = |f: &dyn Fn() -> Option<String>| f();
    let (r2, c2) = (r + 1 + cx.rng.usize(3), c + 1 + cx.rng.usize(3));
    let taller = Matrix::<i64>::zero(r2, c);
    let wider = Matrix::<i64>::zero(r, c2);
    let cases: Vec<(&str, bool)> = vec![
        ("a sum with more rows", refused(|| &a + &taller).is_some()),
        ("a sum with more columns", refused(|| &a + &wider).is_some()),
        ("a difference with more rows", refused(|| &a - &taller).is_some()),
        ("a difference with more columns", refused(|| wider.clone() - a.clone()).is_some()),
        ("a product of unfitting shapes", refused(|| &wider * &Matrix::<i64>::zero(c, r)).is_some()),
        ("side by side with other heights", refused(|| Matrix::hstack(&[a.clone(), taller.clone()])).is_some()),
        ("on top with other widths", refused(|| Matrix::vstack(&[a.clone(), wider.clone()])).is_some()),
        ("a row out of range", refused(|| a.get_row(r + kk)).is_some()),
        ("a column out of range", refused(|| a.get_col(c + kk)).is_some()),
        ("an entry with row out of range", refused(|| a[(r + kk, 0)]).is_some()),
        ("an entry with column out of range", refused(|| a[(0, c + kk)]).is_some()),
        ("writing an entry with column out of range", refused(|| { let mut x = a.clone(); x[(0, c + kk)] = 1; }).is_some()),
        ("writing an entry with row out of range", refused(|| { let mut x = a.clone(); x[(r + kk, c - 1)] = 1; }).is_some()),
        ("writing an entry below the last row", refused(|| { let mut x = a.clone(); x[(r, 0)] = 1; }).is_some()),
        ("reshaping to a width that does not divide the size", r * c % c2 != 0 && refused(|| a.clone().reshape(c2)).is_some()),
        ("reshaping to a larger width than there are entries", refused(|| a.clone().reshape(r * c + 1 + kk)).is_some()),
        ("reshaping to width zero", refused(|| a.clone().reshape(0)).is_some()),
        ("a part of rows far out of range", refused(|| a.submatrix(r + kk..r + kk + 1, 0..c)).is_some()),
        ("a part of columns far out of range", refused(|| a.submatrix(0..r, c + kk..c + kk + 1)).is_some()),
        ("a part with rows out of range", refused(|| a.submatrix(0..r + 1, 0..c)).is_some()),
        ("a part with columns out of range", refused(|| a.submatrix(0..r, 0..c + 1)).is_some()),
        ("an incomplete list of entries", refused(|| Matrix::new(c2, &flat[..(flat.len() / c2 * c2 + 1).min(flat.len())])).is_some()
            && (flat.len() / c2 * c2 + 1).min(flat.len()) % c2 != 0),
        ("a unit vector out of range", refused(|| Matrix::<i64>::unit_vector(r, r + kk)).is_some()),
    ];
    let _ = odd;
    // one misfit among several parts, and misfits that even out
    let mut heights = vec![r; 2 + cx.rng.usize(3)];
    let mut widths = vec![c; heights.len()];
    let at = cx.rng.usize(heights.len());
    let by = 1 + cx.rng.usize(3);
    heights[at] += by;
    widths[at] += by;
    if cx.rng.bool() {
        let other = (at + 1 + cx.rng.usize(heights.len() - 1)) % heights.len();
        if r > by { heights[other] -= by }
        if c > by { widths[other] -= by }
    }
    let beside: Vec<_> = heights.iter().map(|h| Matrix::<i64>::zero(*h, c)).collect();
    let above: Vec<_> = widths.iter().map(|w| Matrix::<i64>::zero(r, *w)).collect();
    ensure!(refused(|| Matrix::hstack(&beside)).is_none(), "parts of heights {:?} are put side by side", heights);
    ensure!(refused(|| Matrix::vstack(&above)).is_none(), "parts of widths {:?} are put on top of each other", widths);
    cx.add("refusals", 2);
    // sums, differences and products of unfitting shapes in every operand form, including shapes of as many entries
    let mut shapes = vec![(r2, c), (r, c2), (r2, c2), (r * c + 1, 1)];
    for s in [(c, r), (1, r * c), (r * c, 1)] {
        if s != (r, c) {
            shapes.push(s);
        }
    }
    let (sr, sc) = *cx.rng.pick(&shapes);
    let b = Matrix::<i64>::zero(sr, sc);
    let sums: [(&str, bool); 12] = [
        ("&a + &b", refused(|| &a + &b).is_some()), ("&a + b", refused(|| &a + b.clone()).is_some()),
        ("a + &b", refused(|| a.clone() + &b).is_some()), ("a + b", refused(|| a.clone() + b.clone()).is_some()),
        ("a += &b", refused(|| { let mut x = a.clone(); x += &b; x }).is_some()), ("a += b", refused(|| { let mut x = a.clone(); x += b.clone(); x }).is_some()),
        ("&a - &b", refused(|| &a - &b).is_some()), ("&a - b", refused(|| &a - b.clone()).is_some()),
        ("a - &b", refused(|| a.clone() - &b).is_some()), ("a - b", refused(|| a.clone() - b.clone()).is_some()),
        ("a -= &b", refused(|| { let mut x = a.clone(); x -= &b; x }).is_some()), ("a -= b", refused(|| { let mut x = a.clone(); x -= b.clone(); x }).is_some()),
    ];
    for (what, done) in sums {
        ensure!(!done, "{} is not refused for {} x {} and {} x {}", what, r, c, sr, sc);
        cx.count("refusals");
    }
    if sr != c {
        let products: [(&str, bool); 4] = [
            ("&a * &b", refused(|| &a * &b).is_some()), ("&a * b", refused(|| &a * b.clone()).is_some()),
            ("a * &b", refused(|| a.clone() * &b).is_some()), ("a * b", refused(|| a.clone() * b.clone()).is_some()),
        ];
        for (what, done) in products {
            ensure!(!done, "{} is not refused for {} x {} and {} x {}", what, r, c, sr, sc);
            cx.count("refusals");
        }
    }
    ensure!(a != b, "matrices of different shapes are equal");
    for (what, done) in cases {
        ensure!(!done, "{} is not refused", what);
        cx.count("refusals");
    }
    if r * c > 1 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------- A02

trait Num: Scalar + Clone + PartialEq + std::fmt::Debug + std::fmt::Display + std::ops::Sub<Output = Self> + std::ops::Neg<Output = Self>
where
    Matrix<Self>: LinearAlgebra<Self>,
{
    const FIELD: bool;
    const NAME: &'static str;
    fn of(x: &Q) -> Self;
    fn exact(&self) -> Q;
    fn rational(cx: &mut Ctx, x: i64) -> Self;
}

macro_rules! num_int {
    ($t:ty) => {
        impl Num for $t {
            const FIELD: bool = false;
            const NAME: &'static str = stringify!($t);
            fn of(x: &Q) -> Self { <$t>::try_from(x.to_integer()).expect("inconclusive: too large") }
            fn exact(&self) -> Q { Q::from(BigInt::from(self.clone())) }
            fn rational(_: &mut Ctx, x: i64) -> Self { <$t>::try_from(x).unwrap() }
        }
    };
}
num_int!(i32);
num_int!(i64);
num_int!(BigInt);
impl Num for Q {
    const FIELD: bool = true;
    const NAME: &'static str = "rational";
    fn of(x: &Q) -> Self { x.clone() }
    fn exact(&self) -> Q { self.clone() }
    fn rational(cx: &mut Ctx, x: i64) -> Self {
        if cx.rng.bool() { q(x) } else { qf(x, cx.rng.range(1, 12)) }
    }
}

fn ex<T: Num>(m: &Matrix<T>) -> QM where Matrix<T>: LinearAlgebra<T> {
    back(m).iter().map(|r| r.iter().map(|x| x.exact()).collect()).collect()
}

fn gcdx_check(cx: &mut Ctx) -> Res {
    let m = *cx.rng.pick(&[1i64, 10, 1000, 1_000_000_000]);
    let (a, b) = (cx.rng.range(-m, m), cx.rng.range(-m, m));
    let (g, r, s, t, u) = gcdx(a, b);
    let gi = g as i128;
    let w = |x: i64| x as i128;
    ensure!(g.abs() == a.gcd(&b), "gcdx({}, {}) finds {}", a, b, g);
    ensure!(w(a) * w(r) + w(b) * w(s) == gi, "gcdx({}, {}): {}*{} + {}*{} is not {}", a, b, a, r, b, s, g);
    ensure!(w(a) * w(t) + w(b) * w(u) == 0, "gcdx({}, {}): {}, {} do not cancel", a, b, t, u);
    ensure!((w(r) * w(u) - w(s) * w(t)).abs() == 1, "gcdx({}, {}): coefficients are not unimodular", a, b);
    cx.count("gcdx");
    Ok(())
}

fn a02t<T: Num>(cx: &mut Ctx, nmax: usize, mag: i64) -> Res
where
    Matrix<T>: LinearAlgebra<T>,
    for<'a> T: std::ops::Mul<&'a T, Output = T> + std::ops::AddAssign<&'a T> + std::ops::MulAssign<&'a T>,
    for<'a> &'a T: std::ops::Mul<&'a T, Output = T>,
{
    let square = cx.rng.chance(1, 2);
    let r = 1 + cx.rng.usize(nmax);
    let c = if square { r } else { 1 + cx.rng.usize(nmax) };
    let square = r == c;
    let base = random_int(cx, r, c, mag);
    let m: Vec<Vec<T>> = base.iter().map(|x| x.iter().map(|y| T::rational(cx, *y)).collect()).collect();
    let a = lib(&m, c);
    let e = ex(&a);
    cx.describe(format!("{} {}", T::NAME, qs(&e)));
    cx.count(&format!("matrices_{}", T::NAME));
    let rk = rank(&e);

    ensure!(a.rank() == rk, "rank {}, expected {}", a.rank(), rk);
    if square {
        ensure!(a.determinant().exact() == det(&e), "determinant {}, expected {}", a.determinant(), det(&e));
    } else {
        ensure!(refused(|| a.determinant()).is_none(), "determinant of a {} x {} matrix is given", r, c);
    }

    // canonical basis
    let rb = ex(&a.reduced_basis());
    let want: QM = if T::FIELD {
        let (x, p) = rref(&e);
        x[..p.len()].to_vec()
    } else {
        zq(&hnf(&e.iter().map(|x| x.iter().map(|y| y.to_integer()).collect()).collect()).0)
    };
    ensure!(rb == want, "reduced basis {}, expected {}", qs(&rb), qs(&want));

    // incremental basis
    let mut bs: Vec<Vec<T>> = vec![];
    for (i, row) in m.iter().enumerate() {
        extend_basis(row, &mut bs);
        let part: QM = e[..=i].to_vec();
        let cur: QM = bs.iter().map(|x| x.iter().map(|y| y.exact()).collect()).collect();
        let piv: Vec<usize> = cur.iter().map(|x| x.iter().position(|y| !y.is_zero()).unwrap_or(usize::MAX)).collect();
        ensure!(piv.windows(2).all(|w| w[0] < w[1]) && piv.iter().all(|p| *p < c), "basis after {} rows is not in echelon form: {}", i + 1, qs(&cur));
        ensure!(cur.len() == rank(&part), "basis after {} rows has {} elements: {}", i + 1, cur.len(), qs(&cur));
        if T::FIELD {
            let both: QM = [part.clone(), cur.clone()].concat();
            ensure!(rank(&both) == cur.len(), "basis {} does not span {}", qs(&cur), qs(&part));
        } else {
            let iz = |x: &QM| hnf(&x.iter().map(|r| r.iter().map(|y| y.to_integer()).collect()).collect()).0;
            ensure!(iz(&cur) == iz(&part), "basis {} generates another lattice than {}", qs(&cur), qs(&part));
        }
    }

    // linear systems
    let k = 1 + cx.rng.usize(3);
    let solvable = cx.rng.bool();
    let bq: QM = if solvable {
        let x: Vec<Vec<T>> = (0..c).map(|_| (0..k).map(|_| { let v = cx.rng.range(-4, 4); T::rational(cx, v) }).collect()).collect();
        mul(&e, &ex(&lib(&x, k)))
    } else {
        let b: Vec<Vec<T>> = (0..r).map(|_| (0..k).map(|_| { let v = cx.rng.range(-mag, mag); T::rational(cx, v) }).collect()).collect();
        ex(&lib(&b, k))
    };
    let bt: Vec<Vec<T>> = bq.iter().map(|x| x.iter().map(|y| T::of(y)).collect()).collect();
    let rgt = lib(&bt, k);
    let exists = if T::FIELD {
        let aug: QM = e.iter().zip(&bq).map(|(x, y)| [x.clone(), y.clone()].concat()).collect();
        rank(&aug) == rk
    } else {
        // every column must lie in the lattice of the columns of A
        let cols: ZM = transpose(&e).iter().map(|x| x.iter().map(|y| y.to_integer()).collect()).collect();
        let h = hnf(&cols).0;
        transpose(&bq).iter().all(|b| {
            let mut ext = cols.clone();
            ext.push(b.iter().map(|y| y.to_integer()).collect());
            hnf(&ext).0 == h
        })
    };
    match a.solve(&rgt) {
        Some(x) => {
            ensure!(exists, "a solution is given for right side {}, there is none", qs(&bq));
            ensure!(x.shape() == (c, k), "solution has shape {:?}", x.shape());
            let p = mul(&e, &ex(&x));
            ensure!(p == bq, "solution {} gives {} instead of {}", qs(&ex(&x)), qs(&p), qs(&bq));
            cx.count("solved");
        }
        None => {
            ensure!(!exists, "no solution is given for right side {}, there is one", qs(&bq));
            cx.count("unsolvable");
        }
    }

    // null space
    match a.null_space() {
        None => ensure!(rk == c, "no null space is given, rank {} of {}", rk, c),
        Some(n) => {
            ensure!(n.shape() == (c, c - rk), "null space of shape {:?}, rank {} of {}", n.shape(), rk, c);
            let nq = ex(&n);
            ensure!(mul(&e, &nq).iter().flatten().all(|x| x.is_zero()), "null space {} is not annihilated", qs(&nq));
            ensure!(rank(&nq) == c - rk, "null space {} has dependent columns", qs(&nq));
            if !T::FIELD {
                let rows: ZM = nq.iter().map(|x| x.iter().map(|y| y.to_integer()).collect()).collect();
                let idn: ZM = (0..c - rk).map(|i| (0..c - rk).map(|j| if i == j { z(1) } else { z(0) }).collect()).collect();
                ensure!(hnf(&rows).0 == idn, "null space {} misses integer solutions", qs(&nq));
            }
            cx.count("null_spaces");
        }
    }

    // inverse
    if square {
        let d = det(&e);
        let invertible = if T::FIELD { !d.is_zero() } else { d == q(1) || d == q(-1) };
        match a.inverse() {
            Some(x) => {
                ensure!(invertible, "an inverse is given, determinant {}", d);
                ensure!(mul(&e, &ex(&x)) == identity(r) && mul(&ex(&x), &e) == identity(r), "{} is not the inverse", qs(&ex(&x)));
                cx.count("inverses");
            }
            None => ensure!(!invertible, "no inverse is given, determinant {}", d),
        }
    } else {
        ensure!(refused(|| a.inverse()).is_none(), "inverse of a {} x {} matrix is given", r, c);
    }
    if rk > 0 && r * c > 1 {
        cx.nontrivial();
    }
    Ok(())
}

fn a02(cx: &mut Ctx) -> Res {
    for _ in 0..5 {
        gcdx_check(cx)?;
    }
    // larger matrices and larger numbers from time to time
    let (n, mag) = if cfg!(miri) { (6, 30) } else {
        match cx.rng.usize(60) {
            0 => (12, 20),
            1..=3 => (5, 1 << 50),
            4..=6 => (8, 30),
            _ => (6, 30),
        }
    };
    if (cx.case % 4 == 0 || cx.case % 4 == 3) && (n > 6 || mag > 30) {
        cx.count(if mag > 30 { "large numbers" } else { "large matrices" });
    }
    match cx.case % 4 {
        0 => a02t::<Q>(cx, n, mag),
        1 => a02t::<i64>(cx, 4, 7),
        2 => a02t::<i32>(cx, 3, 6),
        _ => a02t::<BigInt>(cx, n, mag),
    }
}

// ------------------------------------------------------------------- A03

const PRIMES: [i64; 10] = [2, 3, 5, 7, 31, 101, 65_537, 9_999_991, 998_244_353, 2_147_483_647];

fn ref_mod_rref(m: &M64, p: i64) -> M64 {
    let p = p as i128;
    let mut a: Vec<Vec<i128>> = m.iter().map(|r| r.iter().map(|x| (*x as i128).rem_euclid(p)).collect()).collect();
    let (nr, nc) = (a.len(), a[0].len());
    let pw = |b: i128, mut e: i128| {
        let (mut r, mut b) = (1i128, b);
        while e > 0 {
            if e & 1 == 1 { r = r * b % p }
            b = b * b % p;
            e >>= 1;
        }
        r
    };
    let mut row = 0;
    for c in 0..nc {
        if row == nr { break }
        let Some(k) = (row..nr).find(|i| a[*i][c] != 0) else { continue };
        a.swap(row, k);
        let f = pw(a[row][c], p - 2);
        let f = if p == 2 { 1 } else { f };
        for x in a[row].iter_mut() { *x = *x * f % p }
        for i in 0..nr {
            if i != row && a[i][c] != 0 {
                let f = a[i][c];
                for j in 0..nc {
                    let t = a[row][j];
                    a[i][j] = (a[i][j] - f * t).rem_euclid(p);
                }
            }
        }
        row += 1;
    }
    a.iter().map(|r| r.iter().map(|x| *x as i64).collect()).collect()
}

fn a03(cx: &mut Ctx) -> Res {
    // inverses of numbers
    for _ in 0..20 {
        let m = match cx.rng.usize(4) {
            0 => *cx.rng.pick(&PRIMES),
            1 => cx.rng.range(2, 50),
            2 => cx.rng.range(2, 1 << 40),
            _ => cx.rng.range(i64::MAX / 2, i64::MAX),
        };
        let a = match cx.rng.usize(3) {
            0 => cx.rng.range(-60, 60),
            1 => cx.rng.range(i64::MIN, i64::MAX),
            _ => cx.rng.range(-m, m),
        };
        let got = ms::modular_inverse(a, m);
        let ok = (a as i128).gcd(&(m as i128)) == 1;
        match got {
            Some(x) => {
                ensure!(ok, "inverse {} of {} modulo {} is given, there is none", x, a, m);
                ensure!(0 <= x && x < m && (a as i128 * x as i128).rem_euclid(m as i128) == 1, "{} is not the inverse of {} modulo {}", x, a, m);
                cx.count("number_inverses");
            }
            None => ensure!(!ok, "no inverse of {} modulo {} is given", a, m),
        }
    }
    let p = *cx.rng.pick(&PRIMES);
    let square = cx.rng.bool();
    let most = if cx.rng.chance(1, 12) && !cfg!(miri) { 24 } else { 6 };
    let r = 1 + cx.rng.usize(most);
    let c = if square { r } else { 1 + cx.rng.usize(most) };
    let square = r == c;
    if r.min(c) > 8 { cx.count("large_matrices") }
    let mag = *cx.rng.pick(&[1, 5, p, i64::MAX]);
    let mut m = random_int(cx, r, c, 3);
    if cx.rng.bool() {
        for x in m.iter_mut().flatten() {
            if *x != 0 { *x = cx.rng.range(-mag, mag) }
        }
    }
    if cx.rng.chance(1, 3) {
        for x in m.iter_mut().flatten() {
            if cx.rng.chance(1, 3) { *x = x.saturating_add(p.saturating_mul(cx.rng.range(-3, 3))) }
        }
    }
    // lower the rank modulo p only
    if r > 1 && cx.rng.chance(1, 3) {
        let (i, j) = (cx.rng.usize(r), cx.rng.usize(r));
        if i != j && m[j].iter().all(|x| x.abs() < 1 << 30) {
            for k in 0..c { m[i][k] = m[j][k] + p * cx.rng.range(-2, 2) }
        }
    }
    cx.describe(format!("modulo {}: {}", p, show(&m)));
    let want = ref_mod_rref(&m, p);
    let got = ms::modular_row_echelon_form(&m, p);
    ensure!(got == want, "echelon form {}, expected {}", show(&got), show(&want));
    cx.count("echelon_forms");
    ensure!(ms::modular_row_echelon_form(&vec![], p).is_empty(), "echelon form of the empty matrix");
    if square {
        let rk = want.iter().filter(|x| x.iter().any(|y| *y != 0)).count();
        match ms::modular_matrix_inverse(&m, p) {
            Some(x) => {
                ensure!(rk == r, "an inverse is given, rank {}", rk);
                ensure!(x.len() == r && x.iter().all(|y| y.len() == r && y.iter().all(|t| 0 <= *t && *t < p)), "inverse {} has entries out of range", show(&x));
                for i in 0..r {
                    for j in 0..r {
                        let mut s = 0i128;
                        for k in 0..r { s = (s + (m[i][k] as i128).rem_euclid(p as i128) * x[k][j] as i128) % p as i128 }
                        ensure!(s == (i == j) as i128, "{} is not the inverse", show(&x));
                    }
                }
                cx.count("matrix_inverses");
            }
            None => {
                ensure!(rk < r, "no inverse is given, rank {}", rk);
                cx.count("singular");
            }
        }
    }
    ensure!(ms::modular_matrix_inverse(&vec![], p).is_none(), "inverse of the empty matrix");
    // products
    let cc = 1 + cx.rng.usize(4);
    let big = if p > 1 << 30 { 1 << 31 } else { *cx.rng.pick(&[9, 1 << 31]) };
    let a: M64 = (0..r).map(|_| (0..c).map(|_| cx.rng.range(if cx.case % 2 == 0 { 0 } else { -big }, big)).collect()).collect();
    let b: M64 = (0..c).map(|_| (0..cc).map(|_| cx.rng.range(if cx.case % 2 == 0 { 0 } else { -big }, big)).collect()).collect();
    let x = ms::modular_matrix_product(&a, &b, p);
    ensure!(x.len() == r && x.iter().all(|y| y.len() == cc), "product of shape {} x {}", x.len(), x[0].len());
    for i in 0..r {
        for j in 0..cc {
            let s: i128 = (0..c).map(|k| a[i][k] as i128 * b[k][j] as i128).sum();
            ensure!((x[i][j] as i128 - s) % p as i128 == 0 && x[i][j].abs() < p && (cx.case % 2 == 1 || x[i][j] >= 0),
                "entry ({}, {}) of the product of {} and {} modulo {} is {}", i, j, show(&a), show(&b), p, x[i][j]);
        }
    }
    let small = 1 << 29;
    let a: M64 = (0..r).map(|_| (0..c).map(|_| cx.rng.range(-small, small)).collect()).collect();
    let b: M64 = (0..c).map(|_| (0..cc).map(|_| cx.rng.range(-small, small)).collect()).collect();
    let x = ms::integer_matrix_product(&a, &b);
    let w: M64 = a.iter().map(|x| (0..cc).map(|j| (0..c).map(|l| x[l] * b[l][j]).sum()).collect()).collect();
    ensure!(x == w, "product of {} and {} is {}", show(&a), show(&b), show(&x));
    let wrong = refused(|| ms::integer_matrix_product(&a, &vec![vec![1; cc]; c + 1])).is_some()
        || refused(|| ms::modular_matrix_product(&a, &vec![vec![1; cc]; c + 1], p)).is_some();
    ensure!(!wrong, "a product of unfitting shapes is not refused");
    cx.add("products", 2);
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------- A04

fn a04(cx: &mut Ctx) -> Res {
    let p = 9_999_991i64;
    let kind = cx.rng.usize(7);
    let n = match kind { 0 => 1, 1 => *cx.rng.pick(&[2, 4, 8]), _ => 1 + cx.rng.usize(8) };
    let k = 1 + cx.rng.usize(3);
    let mag = *cx.rng.pick(&[1i64, 3, 100, 100_000, 10_000_000_000]);
    let mut a: M64 = match kind {
        // the Hadamard bound is attained
        1 => {
            let f = if cx.rng.bool() { 1 } else { cx.rng.range(1, mag) };
            let mut h = vec![vec![1i64]];
            while h.len() < n {
                let t: M64 = h.iter().map(|r| [r.clone(), r.clone()].concat())
                    .chain(h.iter().map(|r| [r.clone(), r.iter().map(|x| -x).collect()].concat())).collect();
                h = t;
            }
            h.iter().map(|r| r.iter().map(|x| x * f).collect()).collect()
        }
        2 => (0..n).map(|i| (0..n).map(|j| if i == j { cx.rng.range(1, mag) } else { 0 }).collect()).collect(),
        _ => random_int(cx, n, n, mag),
    };
    // determinant a multiple of the working prime
    if kind == 3 {
        let i = cx.rng.usize(n);
        let j = cx.rng.usize(n);
        for (c, x) in a[i].iter_mut().enumerate() {
            *x = if c == j { p * cx.rng.range(1, 3) } else { 0 };
        }
    }
    // a graph Laplacian, the system the library itself solves
    if kind == 4 {
        let m = n + 1;
        let mut l = vec![vec![0i64; m]; m];
        for _ in 0..3 * m {
            let (u, v) = (cx.rng.usize(m), cx.rng.usize(m));
            l[u][v] -= 1;
            l[u][u] += 1;
            l[v][u] -= 1;
            l[v][v] += 1;
        }
        a = (0..n).map(|i| l[i][..n].to_vec()).collect();
    }
    let bmag = *cx.rng.pick(&[0i64, 1, 1000, 10_000_000_000]);
    let mut b: M64 = (0..n).map(|_| (0..k).map(|_| cx.rng.range(-bmag, bmag)).collect()).collect();
    if cx.rng.chance(1, 4) {
        // one zero column
        let j = cx.rng.usize(k);
        for r in b.iter_mut() { r[j] = 0 }
    }
    cx.describe(format!("{} x = {}", show(&a), show(&b)));
    let (qa, qb) = (to_q(&a), to_q(&b));
    let d = det(&qa);
    let got = ms::solve(&a, &b);
    if d.is_zero() {
        ensure!(got.is_none(), "a solution of a singular system is given");
        cx.count("singular");
        return Ok(());
    }
    let x = match got {
        Some(x) => x,
        None => fail!("no solution is given, determinant {}", d),
    };
    ensure!(x.len() == n && x.iter().all(|r| r.len() == k), "the solution has the wrong shape");
    ensure!(x.iter().flatten().all(|t| t.denom().is_positive() && t.numer().gcd(t.denom()).is_one()), "the solution {} is not in lowest terms", qs(&x));
    ensure!(mul(&qa, &x) == qb, "the solution {} is wrong", qs(&x));
    if (d.numer() % z(p)).is_zero() { cx.count("determinant_divisible_by_prime") }
    if kind == 1 { cx.count("extreme_determinants") }
    cx.count("solved");
    if n > 1 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------- A05

#[derive(Clone, Debug, Eq, PartialEq, Hash)]
struct CA {}
#[derive(Clone, Debug, Eq, PartialEq, Hash)]
struct CB {}
#[derive(Clone, Debug, Eq, PartialEq, Hash)]
struct CC {}

fn rq(cx: &mut Ctx) -> Q {
    let n = cx.rng.range(-12, 12);
    if cx.rng.bool() { q(n) } else { qf(n, cx.rng.range(1, 9)) }
}

fn rvec(cx: &mut Ctx, n: usize) -> Vec<Q> {
    (0..n).map(|_| rq(cx)).collect()
}

fn rmat(cx: &mut Ctx, n: usize, singular_too: bool) -> QM {
    loop {
        let m: QM = if cx.rng.chance(1, 3) {
            (0..n).map(|_| (0..n).map(|_| q(cx.rng.range(-1, 1))).collect()).collect()
        } else {
            (0..n).map(|_| rvec(cx, n)).collect()
        };
        if singular_too || !det(&m).is_zero() {
            return m;
        }
    }
}

fn qm(m: &QM) -> Matrix<Q> {
    lib(m, m[0].len())
}

fn add(a: &[Q], b: &[Q]) -> Vec<Q> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}

fn sub(a: &[Q], b: &[Q]) -> Vec<Q> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}

fn pv<CS>(p: &Point<Q, CS>) -> Vec<Q> {
    p.iter().cloned().collect()
}

fn vv<CS>(p: &Vector<Q, CS>) -> Vec<Q> {
    p.iter().cloned().collect()
}

fn parts<CS: Clone>(a: &AffineMap<Q, CS>) -> (QM, Vec<Q>) {
    (back(&a.linear_matrix()), vv(&a.shift()))
}

/// the words of a printed form, line by line
fn tokens(s: &str) -> Vec<Vec<String>> {
    s.lines().map(|l| l.split_whitespace().map(|x| x.to_string()).collect()).collect()
}

fn texts(v: &[Q]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

fn hashed<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn a05(cx: &mut Ctx) -> Res {
    let mut laws_extra = 0;
    let n = 1 + cx.rng.usize(4);
    let (m1, s1) = (rmat(cx, n, true), rvec(cx, n));
    let (m2, s2) = (rmat(cx, n, true), rvec(cx, n));
    let (u, v) = (rvec(cx, n), rvec(cx, n));
    let f = { let x = rq(cx); if x.is_zero() { q(1) } else { x } };
    cx.describe(format!("maps ({} + {}), ({} + {}), vectors {} {}", qs(&m1), vs(&s1), qs(&m2), vs(&s2), vs(&u), vs(&v)));
    let (tu, tv) = (Vector::<Q, CA>::new(&u), Vector::<Q, CA>::new(&v));
    let (pu, pw) = (Point::<Q, CA>::new(&u), Point::<Q, CA>::new(&v));

    // vectors and points
    ensure!(vv(&(&tu + &tv)) == add(&u, &v) && vv(&(tu.clone() + tv.clone())) == add(&u, &v), "vector sum");
    ensure!(vv(&(&tu - &tv)) == sub(&u, &v) && vv(&(tu.clone() - tv.clone())) == sub(&u, &v), "vector difference");
    ensure!(vv(&-&tu) == u.iter().map(|x| -x).collect::<Vec<_>>() && -tu.clone() == -&tu, "vector negation");
    ensure!(vv(&(&tu * &f)) == u.iter().map(|x| x * &f).collect::<Vec<_>>(), "vector multiple");
    ensure!(vv(&(&tu / &f)) == u.iter().map(|x| x / &f).collect::<Vec<_>>(), "vector quotient");
    ensure!(pv(&(&pu + &tv)) == add(&u, &v) && pv(&(pu.clone() + tv.clone())) == add(&u, &v), "point plus vector");
    ensure!(pv(&(&pu - &tv)) == sub(&u, &v) && pv(&(pu.clone() - tv.clone())) == sub(&u, &v), "point minus vector");
    ensure!(vv(&(&pu - &pw)) == sub(&u, &v) && vv(&(pu.clone() - pw.clone())) == sub(&u, &v), "point difference");
    ensure!(tu.dim() == n && pu.dim() == n && (0..n).all(|i| tu[i] == u[i] && pu[i] == u[i]), "coordinates");
    let fz = frac_vec(&u);
    ensure!(vv(&tu.mod_z()) == fz, "{} reduced modulo 1 is {}", vs(&u), vs(&vv(&tu.mod_z())));
    ensure!(tu.mod_z().mod_z() == tu.mod_z(), "reduction modulo 1 is not idempotent");
    ensure!(pv(&Point::<Q, CA>::origin(n)).iter().all(|x| x.is_zero()) && vv(&Vector::<Q, CA>::zero(n)).iter().all(|x| x.is_zero()), "origin and zero");
    let k = cx.rng.usize(n);
    ensure!(vv(&Vector::<Q, CA>::unit(n, k)) == identity(n)[k], "unit vector");
    ensure!(refused(|| &tu + &Vector::<Q, CA>::zero(n + 1)).is_none() && refused(|| &pu + &Vector::<Q, CA>::zero(n + 1)).is_none()
        && refused(|| &tu - &Vector::<Q, CA>::zero(n + 1)).is_none(), "adding vectors of different dimensions is not refused");
    // the other operand forms
    let (sum, dif): (Vec<Q>, Vec<Q>) = (add(&u, &v), sub(&u, &v));
    let (mul_f, div_f): (Vec<Q>, Vec<Q>) = (u.iter().map(|x| x * &f).collect(), u.iter().map(|x| x / &f).collect());
    let mut forms: Vec<(&str, Vec<Q>, &[Q])> = vec![
        ("&u + v", vv(&(&tu + tv.clone())), &sum), ("u + &v", vv(&(tu.clone() + &tv)), &sum),
        ("&u - v", vv(&(&tu - tv.clone())), &dif), ("u - &v", vv(&(tu.clone() - &tv)), &dif),
        ("&u * f", vv(&(&tu * f.clone())), &mul_f), ("u * &f", vv(&(tu.clone() * &f)), &mul_f), ("u * f", vv(&(tu.clone() * f.clone())), &mul_f),
        ("&u / f", vv(&(&tu / f.clone())), &div_f), ("u / &f", vv(&(tu.clone() / &f)), &div_f), ("u / f", vv(&(tu.clone() / f.clone())), &div_f),
        ("&p + v", pv(&(&pu + tv.clone())), &sum), ("p + &v", pv(&(pu.clone() + &tv)), &sum),
        ("&p - v", pv(&(&pu - tv.clone())), &dif), ("p - &v", pv(&(pu.clone() - &tv)), &dif),
        ("&p - q", vv(&(&pu - pw.clone())), &dif), ("p - &q", vv(&(pu.clone() - &pw)), &dif),
    ];
    macro_rules! assigned {
        ($name:expr, $start:expr, $op:tt, $rhs:expr, $read:ident, $want:expr) => {{ let mut x = $start.clone(); x $op $rhs; forms.push(($name, $read(&x), $want)); }};
    }
    assigned!("u += v", tu, +=, tv.clone(), vv, &sum);
    assigned!("u += &v", tu, +=, &tv, vv, &sum);
    assigned!("u -= v", tu, -=, tv.clone(), vv, &dif);
    assigned!("u -= &v", tu, -=, &tv, vv, &dif);
    assigned!("u *= f", tu, *=, f.clone(), vv, &mul_f);
    assigned!("u *= &f", tu, *=, &f, vv, &mul_f);
    assigned!("u /= f", tu, /=, f.clone(), vv, &div_f);
    assigned!("u /= &f", tu, /=, &f, vv, &div_f);
    assigned!("p += v", pu, +=, tv.clone(), pv, &sum);
    assigned!("p += &v", pu, +=, &tv, pv, &sum);
    assigned!("p -= v", pu, -=, tv.clone(), pv, &dif);
    assigned!("p -= &v", pu, -=, &tv, pv, &dif);
    for (what, got, want) in &forms {
        ensure!(got == want, "{} is {}, expected {}", what, vs(got), vs(want));
    }
    ensure!(Vector::<Q, CA>::from(Matrix::col(&u)) == tu && Point::<Q, CA>::from(Matrix::col(&u)) == pu
        && u.iter().cloned().collect::<Vector<Q, CA>>() == tu && u.iter().cloned().collect::<Point<Q, CA>>() == pu, "vectors and points from matrices and iterators");
    ensure!(tu.clone().into_iter().collect::<Vec<_>>() == u && pu.clone().into_iter().collect::<Vec<_>>() == u, "coordinates by value");
    {
        let (mut x, mut y) = (tu.clone(), pu.clone());
        x[k] = q(17);
        y[k] = q(17);
        ensure!((0..n).all(|i| x[i] == if i == k { q(17) } else { u[i].clone() } && y[i] == x[i]), "writing a coordinate");
        ensure!((x == tu) == (u[k] == q(17)) && (y == pu) == (u[k] == q(17)), "comparing vectors and points");
    }
    // printed forms state the coordinates in order; equal values hash alike
    {
        let am = AffineMap::<Q, CA>::new(&qm(&m1), &tu);
        ensure!(tokens(&tu.to_string()).concat() == texts(&u) && tokens(&pu.to_string()).concat() == texts(&u), "{} is printed as '{}'", vs(&u), tu);
        let want: Vec<Vec<String>> = m1.iter().zip(&u).map(|(r, x)| [texts(r), vec![x.to_string()]].concat()).collect();
        ensure!(tokens(&am.to_string()) == want, "the map {} + {} is printed as '{}'", qs(&m1), vs(&u), am);
        if !det(&m1).is_zero() {
            let cm = CoordinateMap::<Q, CA, CB>::new(&am);
            ensure!(tokens(&cm.to_string()) == want, "the coordinate change {} + {} is printed as '{}'", qs(&m1), vs(&u), cm);
        }
        let gram = mul(&transpose(&m1), &m1);
        if !det(&gram).is_zero() {
            let sp = ScalarProduct::<Q, CA>::from(qm(&gram));
            ensure!(tokens(&sp.to_string()) == gram.iter().map(|r| texts(r)).collect::<Vec<_>>(), "the form {} is printed as '{}'", qs(&gram), sp);
        }
        // the same values, computed another way
        let (tu2, pu2) = (&(&tu + &tv) - &tv, &(&pu + &tv) - &tv);
        let am2 = AffineMap::<Q, CA>::new(&(-&(-qm(&m1))), &tu2);
        ensure!(tu2 == tu && pu2 == pu && am2 == am, "values computed in two ways differ");
        ensure!(hashed(&tu2) == hashed(&tu) && hashed(&pu2) == hashed(&pu) && hashed(&am2) == hashed(&am) && hashed(&am2.linear_matrix()) == hashed(&qm(&m1)), "equal values hash differently");
        laws_extra += 8;
    }
    // and dimensions that do not fit
    let wrong = if n > 1 && cx.rng.bool() { n - 1 } else { n + 1 + cx.rng.usize(2) };
    let (wv, wp) = (Vector::<Q, CA>::zero(wrong), Point::<Q, CA>::origin(wrong));
    macro_rules! refuses {
        ($($what:expr => $e:expr),* $(,)?) => {$(
            ensure!(refused(|| $e).is_none(), "{} is not refused for dimensions {} and {}", $what, n, wrong);
        )*};
    }
    refuses! {
        "u + v" => tu.clone() + wv.clone(), "u - v" => tu.clone() - wv.clone(),
        "u += v" => { let mut x = tu.clone(); x += wv.clone(); x }, "u -= v" => { let mut x = tu.clone(); x -= wv.clone(); x },
        "u += &v" => { let mut x = tu.clone(); x += &wv; x }, "u -= &v" => { let mut x = tu.clone(); x -= &wv; x },
        "p + v" => pu.clone() + wv.clone(), "p - v" => pu.clone() - wv.clone(),
        "p += v" => { let mut x = pu.clone(); x += wv.clone(); x }, "p -= v" => { let mut x = pu.clone(); x -= wv.clone(); x },
        "p += &v" => { let mut x = pu.clone(); x += &wv; x }, "p -= &v" => { let mut x = pu.clone(); x -= &wv; x },
        "p - q" => pu.clone() - wp.clone(), "&p - &q" => &pu - &wp,
        "a unit vector out of range" => Vector::<Q, CA>::unit(n, n + wrong - 1),
        "a coordinate of a vector out of range" => tu[n + wrong - 1].clone(), "a coordinate of a point out of range" => pu[n + wrong - 1].clone(),
        "writing a coordinate out of range" => { let mut x = tu.clone(); x[n] = q(1); x },
    }

    // affine maps
    let a = AffineMap::<Q, CA>::new(&qm(&m1), &Vector::new(&s1));
    refuses! {
        "a map on a point" => &a * &wp, "a map on a vector" => &a * &wv, "a map on a map" => &AffineMap::<Q, CA>::identity(wrong) * &a,
        "a map of mixed dimensions" => AffineMap::<Q, CA>::new(&qm(&m1), &wv),
        "a map with a wide matrix" => AffineMap::<Q, CA>::new(&Matrix::zero(n, n + 1), &tu),
        "a map with a tall matrix" => AffineMap::<Q, CA>::new(&Matrix::zero(n + 1, n), &tu),
    }
    ensure!(&a * pu.clone() == &a * &pu && a.clone() * pu.clone() == &a * &pu && a.clone() * &pu == &a * &pu
        && &a * tu.clone() == &a * &tu && a.clone() * tu.clone() == &a * &tu && a.clone() * &tu == &a * &tu
        && a.clone() * a.clone() == &a * &a && &a * a.clone() == &a * &a && a.clone() * &a == &a * &a, "operand forms of affine maps");
    let b = AffineMap::<Q, CA>::new(&qm(&m2), &Vector::new(&s2));
    ensure!(parts(&a) == (m1.clone(), s1.clone()) && a.dim() == n, "parts of an affine map");
    let au = add(&apply(&m1, &u), &s1);
    ensure!(pv(&(&a * &pu)) == au, "image of the point {} is {}, expected {}", vs(&u), vs(&pv(&(&a * &pu))), vs(&au));
    ensure!(vv(&(&a * &tu)) == apply(&m1, &u), "image of the vector {} is {}", vs(&u), vs(&vv(&(&a * &tu))));
    ensure!(&a * &(&pu + &tv) == &(&a * &pu) + &(&a * &tv), "affine maps do not respect addition");
    let ab = &a * &b;
    ensure!(parts(&ab) == (mul(&m1, &m2), add(&apply(&m1, &s2), &s1)), "product of affine maps");
    ensure!(&ab * &pu == &a * &(&b * &pu) && &ab * &tu == &a * &(&b * &tu), "product of affine maps is not composition");
    let id = AffineMap::<Q, CA>::identity(n);
    ensure!(id.is_identity() && &id * &a == a && &a * &id == a, "identity map");
    ensure!(a.is_identity() == (m1 == identity(n) && s1.iter().all(|x| x.is_zero())), "is_identity {}", a.is_identity());
    let mut near = s1.clone();
    near[k] = q(1);
    let near = AffineMap::<Q, CA>::new(&qm(&identity(n)), &Vector::new(&near));
    ensure!(!near.is_identity(), "a translation is taken for the identity");
    ensure!(parts(&a.mod_z()) == (m1.clone(), frac_vec(&s1)), "affine map reduced modulo 1");
    match a.inverse() {
        Some(i) => {
            ensure!(!det(&m1).is_zero(), "inverse of a singular map");
            ensure!((&i * &a).is_identity() && (&a * &i).is_identity(), "inverse of an affine map");
            cx.count("inverse_maps");
        }
        None => ensure!(det(&m1).is_zero(), "no inverse of a regular map"),
    }
    ensure!(refused(|| AffineMap::<Q, CA>::new(&qm(&m1), &Vector::zero(n + 1))).is_none(), "an affine map of mixed dimensions is not refused");
    ensure!(refused(|| &a * &AffineMap::<Q, CA>::identity(n + 1)).is_none(), "a product of affine maps of different dimensions is not refused");
    let lin = AffineMap::<Q, CA>::from(qm(&m1));
    ensure!(parts(&lin) == (m1.clone(), vec![Q::zero(); n]), "affine map from a matrix");

    // coordinate maps
    let (c1, t1) = (rmat(cx, n, false), rvec(cx, n));
    let (c2, t2) = (rmat(cx, n, false), rvec(cx, n));
    cx.desc.push_str(&format!(", coordinate maps ({} + {}), ({} + {})", qs(&c1), vs(&t1), qs(&c2), vs(&t2)));
    let x = CoordinateMap::<Q, CA, CB>::new(&AffineMap::new(&qm(&c1), &Vector::new(&t1)));
    let y = CoordinateMap::<Q, CB, CC>::new(&AffineMap::new(&qm(&c2), &Vector::new(&t2)));
    ensure!(parts(&x.forward()) == (c1.clone(), t1.clone()) && x.dim() == n, "forward part of a coordinate map");
    ensure!(pv(&(&x * &pu)) == add(&apply(&c1, &u), &t1) && vv(&(&x * &tu)) == apply(&c1, &u), "coordinate map on points and vectors");
    let xi = x.inverse();
    ensure!(&xi * &(&x * &pu) == pu && &xi * &(&x * &tu) == tu, "coordinate map and back");
    ensure!(xi.inverse() == x, "double inverse of a coordinate map");
    let xq = CoordinateMap::<Q, CB, CA>::new(&xi.forward());
    ensure!(xq == xi, "the inverse coordinate map is not consistent with its own forward map");
    let yx = &y * &x;
    ensure!(&yx * &pu == &y * &(&x * &pu) && &yx * &tu == &y * &(&x * &tu), "composed coordinate maps");
    ensure!(pv(&(&yx.inverse() * &(&yx * &pu))) == u, "composed coordinate maps and back");
    ensure!(yx.inverse() == &x.inverse() * &y.inverse(), "inverse of composed coordinate maps");
    ensure!(x.determinant() == det(&c1), "determinant of a coordinate map");
    ensure!(CoordinateMap::<Q, CA, CB>::identity(n).is_identity() && x.is_identity() == (c1 == identity(n) && t1.iter().all(|z| z.is_zero())), "identity coordinate map");
    let xa: AffineMap<Q, CB> = &x * &a;
    ensure!(&xa * &(&x * &pu) == &x * &(&a * &pu) && &xa * &(&x * &tu) == &x * &(&a * &tu), "an affine map in new coordinates acts differently");
    let xab: AffineMap<Q, CB> = &x * &ab;
    ensure!(xab == &xa * &(&x * &b), "change of coordinates does not respect products");
    let cols: Vec<Vector<Q, CB>> = transpose(&c1).iter().map(|c| Vector::new(c)).collect();
    let fb = CoordinateMap::<Q, CA, CB>::from_basis(&cols);
    for i in 0..n {
        ensure!(&fb * &Vector::<Q, CA>::unit(n, i) == cols[i], "coordinates from a basis: unit vector {}", i);
    }
    let tb = CoordinateMap::<Q, CB, CA>::to_basis(&cols);
    for i in 0..n {
        ensure!(&tb * &cols[i] == Vector::<Q, CA>::unit(n, i), "coordinates to a basis: basis vector {}", i);
    }

    ensure!(x.clone() * pu.clone() == &x * &pu && x.clone() * tu.clone() == &x * &tu && x.clone() * a.clone() == xa && y.clone() * x.clone() == yx,
        "operand forms of coordinate maps");
    ensure!(CoordinateMap::<Q, CA, CB>::from(qm(&c1)).forward() == AffineMap::from(qm(&c1)), "coordinate map from a matrix");
    // a coordinate map needs a regular linear part
    let mut flat = c1.clone();
    let (i, j) = (cx.rng.usize(n), cx.rng.usize(n));
    let factor = rq(cx);
    flat[i] = if i == j { vec![q(0); n] } else { c1[j].iter().map(|z| z * &factor).collect() };
    refuses! {
        "a coordinate map with a singular matrix" => CoordinateMap::<Q, CA, CB>::new(&AffineMap::new(&qm(&flat), &Vector::new(&t1))),
        "a coordinate map from dependent vectors" => CoordinateMap::<Q, CA, CB>::from_basis(&flat.iter().map(|z| Vector::new(z)).collect::<Vec<_>>()),
        "a coordinate map to dependent vectors" => CoordinateMap::<Q, CA, CB>::to_basis(&flat.iter().map(|z| Vector::new(z)).collect::<Vec<_>>()),
        "a coordinate map on a point" => &x * &wp, "a coordinate map on a vector" => &x * &wv,
        "a coordinate map on a map" => &x * &AffineMap::<Q, CA>::identity(wrong),
    }

    // scalar products
    let g = mul(&c2, &transpose(&c2));
    let sp = ScalarProduct::<Q, CA>::from(qm(&g));
    refuses! { "a scalar product" => sp.apply(&tu, &wv), "a scalar product (first)" => sp.apply(&wv, &tu), "a scalar product (both)" => sp.apply(&wv, &wv) }
    let want = { let gv = apply(&g, &v); u.iter().zip(&gv).map(|(p, r)| p * r).fold(Q::zero(), |s, t| s + t) };
    ensure!(sp.apply(&tu, &tv) == want && sp.apply(&tv, &tu) == want && sp.dim() == n, "scalar product {}: {}, expected {}", qs(&g), sp.apply(&tu, &tv), want);
    ensure!((0..n).all(|i| (0..n).all(|j| sp[(i, j)] == g[i][j])), "scalar product entries");
    let sx: ScalarProduct<Q, CB> = &x * &sp;
    ensure!(sx.apply(&(&x * &tu), &(&x * &tv)) == want, "scalar product changes with coordinates");
    ensure!(ScalarProduct::<Q, CA>::default(n).apply(&tu, &tv) == u.iter().zip(&v).map(|(p, r)| p * r).fold(Q::zero(), |s, t| s + t), "standard scalar product");
    // forms that are no scalar products
    let mut bad = g.clone();
    if n > 1 && cx.rng.bool() {
        let i = cx.rng.usize(n);
        let j = (i + 1) % n;
        bad[i][j] += q(1);
    } else {
        // singular or indefinite symmetric form
        let mut w = rmat(cx, n, false);
        let k = cx.rng.usize(n);
        let signs: Vec<i64> = (0..n).map(|i| if i == k { cx.rng.range(-1, 0) } else { *cx.rng.pick(&[-1, 0, 1, 1]) }).collect();
        let d: QM = (0..n).map(|a| (0..n).map(|b| if a == b { q(signs[a]) } else { q(0) }).collect()).collect();
        let t = transpose(&w);
        w = mul(&mul(&w, &d), &t);
        bad = w;
    }
    ensure!(refused(|| ScalarProduct::<Q, CA>::from(qm(&bad))).is_none(), "{} is accepted as a scalar product", qs(&bad));
    cx.count("bad_forms_refused");
    cx.add("laws", 110 + laws_extra);
    if n > 1 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------- A06

fn a06_run<T: Clone + Eq + std::hash::Hash + std::fmt::Debug>(cx: &mut Ctx, elms: &[T], text: &str) -> Res {
    let n = elms.len();
    let mut p = Partition::new();
    let mut cls: Vec<usize> = (0..n).collect();
    let mut log = vec![];
    let ops = 1 + cx.rng.usize(4 * n);
    let mode = cx.rng.usize(4);
    for step in 0..ops {
        let (i, j) = match mode {
            0 => (cx.rng.usize(n), cx.rng.usize(n)),
            1 => (step % n, (step + 1) % n),                  // chain
            2 => ((step * 2) % n, (step * 2 + 1 + step / n) % n),
            _ => (0, cx.rng.usize(n)),                        // star
        };
        match cx.rng.usize(5) {
            0 | 1 | 2 => {
                log.push(format!("{}={}", i, j));
                p.unite(&elms[i], &elms[j]);
                let (a, b) = (cls[i], cls[j]);
                for c in cls.iter_mut() {
                    if *c == a { *c = b }
                }
                cx.count("unions");
            }
            3 => {
                let same = p.find(&elms[i]) == p.find(&elms[j]);
                cx.desc = format!("{} elements {}: {}", n, text, log.join(" "));
                ensure!(same == (cls[i] == cls[j]), "elements {} and {} are {}in the same class", i, j, if same { "" } else { "not " });
                let rep = p.find(&elms[i]);
                ensure!(elms.iter().position(|e| *e == rep).map(|k| cls[k]) == Some(cls[i]), "the representative of {} is in another class", i);
                ensure!(p.find(&rep) == rep, "a representative is not its own representative");
                cx.count("finds");
            }
            _ => {
                let mut order: Vec<usize> = (0..n).filter(|_| cx.rng.chance(4, 5)).collect();
                cx.rng.shuffle(&mut order);
                if cx.rng.chance(1, 5) {
                    // an element given twice is listed twice
                    let i = cx.rng.usize(n);
                    order.push(i);
                }
                let list: Vec<T> = order.iter().map(|i| elms[*i].clone()).collect();
                let mut want: Vec<(usize, Vec<T>)> = vec![];
                for i in &order {
                    match want.iter_mut().find(|w| w.0 == cls[*i]) {
                        Some(w) => w.1.push(elms[*i].clone()),
                        None => want.push((cls[*i], vec![elms[*i].clone()])),
                    }
                }
                let want: Vec<Vec<T>> = want.into_iter().map(|w| w.1).collect();
                cx.desc = format!("{} elements {}: {}", n, text, log.join(" "));
                let got = p.classes(&list);
                ensure!(got == want, "classes of {:?}: {:?}, expected {:?}", list, got, want);
                cx.count("class_lists");
            }
        }
    }
    for i in 0..n {
        for j in 0..i {
            ensure!((p.find(&elms[i]) == p.find(&elms[j])) == (cls[i] == cls[j]), "elements {} and {} are wrongly joined or kept apart", i, j);
        }
    }
    cx.desc = format!("{} elements {}: {}", n, text, log.join(" "));
    if log.len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}

/// Many elements, joined in patterns that build deep trees; the model keeps
/// lists of members and relabels the shorter one.
fn a06_large(cx: &mut Ctx) -> Res {
    let n = *cx.rng.pick(&[1_000usize, 20_000, 200_000]);
    let mut p: Partition<u64> = Partition::new();
    let elm = |i: usize| (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let mut label: Vec<usize> = (0..n).collect();
    let mut members: Vec<Vec<usize>> = (0..n).map(|i| vec![i]).collect();
    let mode = cx.rng.usize(6);
    let swap = cx.rng.bool();
    let keep = *cx.rng.pick(&[0u64, 1, 3]);
    cx.describe(format!("{} elements, joined in pattern {}, {}, leaving out {} of 20", n, mode, if swap { "swapped" } else { "in order" }, keep));
    let mut pairs: Vec<(usize, usize)> = match mode {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).rev().map(|i| (i - 1, i)).collect(),
        2 => (1..n).map(|i| (0, i)).collect(),
        3 => (0..n).map(|_| (cx.rng.usize(n), cx.rng.usize(n))).collect(),
        4 => {   // tournament
            let mut v = vec![];
            let mut w = 1;
            while w < n {
                v.extend((0..n).step_by(2 * w).filter(|i| i + w < n).map(|i| (i, i + w)));
                w *= 2;
            }
            v
        }
        _ => (7..n).map(|i| (i - 7, i)).collect(),
    };
    pairs.retain(|_| !cx.rng.chance(keep, 20));
    for (i, j) in pairs {
        let (i, j) = if swap { (j, i) } else { (i, j) };
        p.unite(&elm(i), &elm(j));
        let (mut a, mut b) = (label[i], label[j]);
        if a != b {
            if members[a].len() < members[b].len() { std::mem::swap(&mut a, &mut b) }
            let m = std::mem::take(&mut members[b]);
            for x in &m { label[*x] = a }
            members[a].extend(m);
        }
        cx.count("unions");
    }
    for _ in 0..100 {
        let (i, j) = (cx.rng.usize(n), cx.rng.usize(n));
        ensure!((p.find(&elm(i)) == p.find(&elm(j))) == (label[i] == label[j]), "elements {} and {} are wrongly joined or kept apart", i, j);
        cx.count("finds");
    }
    let mut order: Vec<usize> = (0..n).collect();
    if cx.rng.bool() { order.reverse() }
    let mut slot: Vec<usize> = vec![usize::MAX; n];
    let mut want: Vec<Vec<u64>> = vec![];
    for i in &order {
        let l = label[*i];
        if slot[l] == usize::MAX {
            slot[l] = want.len();
            want.push(vec![]);
        }
        want[slot[l]].push(elm(*i));
    }
    let got = p.classes(&order.iter().map(|i| elm(*i)).collect::<Vec<_>>());
    ensure!(got == want, "{} classes, expected {}, or other members", got.len(), want.len());
    cx.count("class_lists");
    cx.count("large partitions");
    cx.nontrivial();
    Ok(())
}

fn a06(cx: &mut Ctx) -> Res {
    if cx.rng.chance(1, 1500) && !cfg!(miri) {
        return a06_large(cx);
    }
    let n = 1 + cx.rng.usize(*[3, 8, 20, 60].get((cx.case % 4) as usize).unwrap());
    if cx.rng.bool() {
        let ids = harness::net::random_ids(&mut cx.rng, n);
        a06_run(cx, &ids, "numbers")
    } else {
        let ids: Vec<Vec<String>> = (0..n).map(|i| vec![format!("e{}", i % 7), i.to_string()]).collect();
        a06_run(cx, &ids, "lists")
    }
}

// ------------------------------------------------------------------- A07

/// equal up to rounding, measured against the size of what was computed with
fn near(x: f64, y: f64, scale: f64) -> bool {
    x.is_finite() && (x - y).abs() <= 1e-9 * scale.max(1.0)
}

fn fl(m: &QM, ncols: usize) -> Matrix<f64> {
    use num_traits::ToPrimitive;
    Matrix::new(ncols.max(1), &m.iter().flatten().map(|x| x.to_f64().unwrap()).collect::<Vec<_>>())
}

fn near_all(x: &Matrix<f64>, y: &QM) -> bool {
    use num_traits::ToPrimitive;
    let w: Vec<f64> = y.iter().flatten().map(|x| x.to_f64().unwrap()).collect();
    let scale = w.iter().fold(1.0, |s: f64, t| s.max(t.abs()));
    x.iter().count() == w.len() && x.iter().zip(&w).all(|(a, b)| near(*a, *b, scale))
}

// rows that are multiples of one another only up to rounding
fn a07_parallel(cx: &mut Ctx) -> Res {
    let (r, c) = (1 + cx.rng.usize(5), 1 + cx.rng.usize(5));
    let k = 1 + cx.rng.usize(2);
    let mut number = |zero: bool| -> f64 {
        if zero && cx.rng.chance(1, 5) { return 0.0; }
        let x = cx.rng.range(1, 999) as f64 / cx.rng.range(1, 999) as f64;
        if cx.rng.bool() { x } else { -x }
    };
    let row: Vec<f64> = (0..c).map(|_| number(true)).collect();
    let right: Vec<f64> = (0..k).map(|_| number(true)).collect();
    let fs: Vec<f64> = (0..r).map(|i| if i == 0 { 1.0 } else { number(true) }).collect();
    let a = Matrix::new(c, &fs.iter().flat_map(|f| row.iter().map(|x| f * x).collect::<Vec<_>>()).collect::<Vec<_>>());
    let mut b: Vec<f64> = fs.iter().flat_map(|f| right.iter().map(|x| f * x).collect::<Vec<_>>()).collect();
    let zero = row.iter().all(|x| *x == 0.0);
    let spoil = r > 1 && cx.rng.chance(1, 3);
    if spoil {
        // the first right side no longer follows the rows
        let i = 1 + cx.rng.usize(r - 1);
        b[i * k] += b[i * k].abs() + 1.0;
    }
    let b = Matrix::new(k, &b);
    cx.describe(format!("f64 rows {:?} = {:?} times {:?}", row, right, fs));
    let rk = if zero { 0 } else { 1 };
    ensure!(a.rank() == rk, "rank {} of parallel rows", a.rank());
    ensure!(a.reduced_basis().shape().0 == rk || zero, "reduced basis {:?} of parallel rows", a.reduced_basis());
    if r == c && r > 1 {
        ensure!(a.inverse().is_none(), "parallel rows have an inverse");
        let size: f64 = fs.iter().map(|f| row.iter().map(|x| (f * x).abs()).sum::<f64>()).product();
        let d = a.determinant();
        ensure!(d.abs() <= 1e-9 * size, "parallel rows have determinant {}", d);
    }
    match a.null_space() {
        None => ensure!(rk == c, "no null space is given"),
        Some(s) => {
            ensure!(s.shape() == (c, c - rk), "null space of shape {:?}", s.shape());
            for j in 0..c - rk {
                let top = (0..c).fold(0.0, |m: f64, i| m.max((s[(i, j)] * row[i]).abs()));
                let sum: f64 = (0..c).map(|i| row[i] * s[(i, j)]).sum();
                ensure!(near(sum / if top > 0.0 { top } else { 1.0 }, 0.0, 1.0), "null space {:?} is not annihilated", s);
            }
        }
    }
    if !zero {
        match a.solve(&b) {
            Some(y) => {
                ensure!(!spoil, "a solution is given, there is none");
                for j in 0..k {
                    let top = (0..c).fold(1.0, |m: f64, i| m.max((row[i] * y[(i, j)]).abs()));
                    let sum: f64 = (0..c).map(|i| row[i] * y[(i, j)]).sum();
                    ensure!(near(sum, right[j], top), "solution {:?}", y);
                }
            }
            None => ensure!(spoil, "no solution is given"),
        }
    }
    cx.count("parallel rows");
    if r * c > 1 {
        cx.nontrivial();
    }
    Ok(())
}

fn a07(cx: &mut Ctx) -> Res {
    use num_traits::ToPrimitive;
    if cx.rng.chance(1, 6) {
        return a07_parallel(cx);
    }
    let n = 1 + cx.rng.usize(6);
    let dominant = cx.rng.bool();
    // all entries are dyadic, so that both number types start from the same matrix
    let e: QM = if dominant {
        let mut m: QM = (0..n).map(|_| (0..n).map(|_| qf(cx.rng.range(-16, 16), 8)).collect()).collect();
        for i in 0..n {
            let s: Q = (0..n).filter(|j| *j != i).map(|j| m[i][j].abs()).fold(q(1), |a, b| a + b);
            m[i][i] = (s + qf(cx.rng.range(0, 20), 4)) * q(if cx.rng.bool() { 1 } else { -1 });
        }
        m
    } else {
        // unit lower triangle, powers of two, unit upper triangle: elimination is exact
        let c = n + if cx.rng.bool() { 0 } else { cx.rng.usize(4) };
        let low: QM = (0..n).map(|i| (0..n).map(|j| q(if i == j { 1 } else if j < i { cx.rng.range(-2, 2) } else { 0 })).collect()).collect();
        let upp: QM = (0..n).map(|i| {
            let p = cx.rng.pick(&[qf(1, 4), qf(1, 2), q(1), q(2), q(4), q(-1), q(-2), qf(-1, 2)]).clone();
            (0..c).map(|j| &p * q(if i == j { 1 } else if j > i { cx.rng.range(-2, 2) } else { 0 })).collect()
        }).collect();
        let mut m = mul(&low, &upp);
        // dependent rows: copies of other rows times a power of two, and zero rows
        for _ in 0..cx.rng.usize(3) {
            let f = cx.rng.pick(&[q(0), q(1), q(-1), q(2), qf(-1, 2)]).clone();
            let i = cx.rng.usize(m.len());
            let row: Vec<Q> = m[i].iter().map(|x| x * &f).collect();
            m.insert(i + 1 + cx.rng.usize(m.len() - i), row);
        }
        m
    };
    let (r, c) = (e.len(), e[0].len());
    // rows and columns in very different units; powers of two change no digits,
    // and all results are converted back before they are judged
    let scaled = cx.rng.chance(1, 3);
    let mut unit = |n: usize| -> Vec<f64> {
        (0..n).map(|_| if scaled { (cx.rng.range(-30, 30) as f64).exp2() } else { 1.0 }).collect()
    };
    let (ur, uc) = (unit(r), unit(c));
    let to_units = |m: &QM, ncols: usize, us: &[f64], vs: &[f64]| -> Matrix<f64> {
        let f = fl(m, ncols);
        Matrix::new(ncols.max(1), &(0..m.len()).flat_map(|i| (0..ncols).map(|j| f[(i, j)] * us[i] * vs[j]).collect::<Vec<_>>()).collect::<Vec<_>>())
    };
    let scale_by = |m: &Matrix<f64>, f: &dyn Fn(usize, usize) -> f64| -> Matrix<f64> {
        let (r, c) = m.shape();
        Matrix::new(c.max(1), &(0..r).flat_map(|i| (0..c).map(|j| m[(i, j)] * f(i, j)).collect::<Vec<_>>()).collect::<Vec<_>>())
    };
    cx.describe(format!("f64 {} in units {:?} {:?}", qs(&e), ur, uc));
    let plain = fl(&e, c);
    let a = to_units(&e, c, &ur, &uc);
    if scaled {
        cx.count("mixed units");
    }
    let rk = rank(&e);
    ensure!(a.rank() == rk, "rank {}, expected {}", a.rank(), rk);
    cx.count(if rk == r { "independent rows" } else { "dependent rows" });
    if r == c {
        let d = det(&e);
        let size: f64 = e.iter().map(|x| x.iter().map(|y| y.abs().to_f64().unwrap()).sum::<f64>()).product();
        let got = ur.iter().chain(&uc).fold(a.determinant(), |d, u| d / u);
        ensure!(near(got, d.to_f64().unwrap(), size), "determinant {}, expected {}", got, d);
        match a.inverse() {
            Some(x) => {
                ensure!(!d.is_zero(), "an inverse is given, the determinant is zero");
                let x = scale_by(&x, &|i, j| uc[i] * ur[j]);
                ensure!(near_all(&x, &inverse(&e).unwrap()), "inverse {:?}, expected {}", x, qs(&inverse(&e).unwrap()));
                cx.count("inverses");
            }
            None => ensure!(d.is_zero(), "no inverse is given, determinant {}", d),
        }
    }
    let rb = a.reduced_basis();
    let (want, piv) = rref(&e);
    ensure!(rb.shape().0 == piv.len(), "reduced basis {:?}, expected {}", rb, qs(&want));
    if rk > 0 {
        let rb = scale_by(&rb, &|i, j| uc[piv[i]] / uc[j]);
        ensure!(near_all(&rb, &want[..piv.len()].to_vec()), "reduced basis {:?}, expected {}", rb, qs(&want));
    }

    // right sides with and without solution
    let k = 1 + cx.rng.usize(3);
    let x: QM = (0..c).map(|_| (0..k).map(|_| q(cx.rng.range(-4, 4))).collect()).collect();
    let mut b = mul(&e, &x);
    if cx.rng.chance(1, 3) {
        let (i, j) = (cx.rng.usize(r), cx.rng.usize(k));
        b[i][j] += q(cx.rng.range(1, 5));
    }
    let aug: QM = e.iter().zip(&b).map(|(x, y)| [x.clone(), y.clone()].concat()).collect();
    let exists = rank(&aug) == rk;
    match a.solve(&to_units(&b, k, &ur, &vec![1.0; k])) {
        Some(y) => {
            ensure!(exists, "a solution is given for {}, there is none", qs(&b));
            ensure!(y.shape() == (c, k), "solution has shape {:?}", y.shape());
            let y = scale_by(&y, &|i, _| uc[i]);
            let big = y.iter().fold(1.0, |s: f64, t| s.max(t.abs()));
            let p = &plain * &y;
            for i in 0..r {
                let size: f64 = e[i].iter().map(|t| t.abs().to_f64().unwrap() * big).sum();
                for j in 0..k {
                    ensure!(near(p[(i, j)], b[i][j].to_f64().unwrap(), size), "solution {:?} gives {:?} instead of {}", y, p, qs(&b));
                }
            }
            cx.count("solved");
        }
        None => {
            ensure!(!exists, "no solution is given for {}, there is one", qs(&b));
            cx.count("unsolvable");
        }
    }
    match a.null_space() {
        None => ensure!(rk == c, "no null space is given, rank {} of {}", rk, c),
        Some(s) => {
            ensure!(s.shape() == (c, c - rk), "null space of shape {:?}, rank {} of {}", s.shape(), rk, c);
            let s = scale_by(&s, &|i, _| uc[i]);
            let top: Vec<f64> = (0..c - rk).map(|j| (0..c).fold(0.0, |m: f64, i| m.max(s[(i, j)].abs()))).collect();
            ensure!(top.iter().all(|t| *t > 0.0), "null space {:?} has a zero column", s);
            let s = scale_by(&s, &|_, j| 1.0 / top[j]);
            ensure!(s.transpose().rank() == c - rk, "null space {:?} has dependent columns", s);
            let p = &plain * &s;
            for i in 0..r {
                let size: f64 = e[i].iter().map(|t| t.abs().to_f64().unwrap()).sum();
                ensure!((0..c - rk).all(|j| near(p[(i, j)], 0.0, size)), "null space {:?} is not annihilated", s);
            }
            cx.count("null_spaces");
        }
    }
    if r * c > 1 {
        cx.nontrivial();
    }
    Ok(())
}

fn main() {
    main_with(&[
        Prop {
            id: "A01", rule: "a pair of matrices with more than one entry",
            quick: 20_000, thorough: 1_000_000, run: a01,
            need: &[("operations", 100_000), ("operand forms", 100_000), ("refusals", 50_000)],
            assumptions: &["entries are machine integers small enough not to overflow", "at least one row and one column (matrices without entries do not remember their shape)"],
        },
        Prop {
            id: "A02", rule: "a non-zero matrix with more than one entry",
            quick: 24_000, thorough: 1_500_000, run: a02,
            need: &[("matrices_rational", 1000), ("matrices_i64", 1000), ("matrices_i32", 1000), ("matrices_BigInt", 1000), ("solved", 3000), ("unsolvable", 1000), ("null_spaces", 2000), ("inverses", 500), ("gcdx", 10_000), ("large matrices", 200), ("large numbers", 200)],
            assumptions: &["machine-integer matrices have at most 4 x 4 entries of at most 7, so that no intermediate value overflows"],
        },
        Prop {
            id: "A03", rule: "a matrix and a prime",
            quick: 100_000, thorough: 2_000_000, run: a03,
            need: &[("number_inverses", 50_000), ("echelon_forms", 20_000), ("matrix_inverses", 3000), ("singular", 2000), ("large_matrices", 1000)],
            assumptions: &["prime moduli below 2^31 for matrices", "factors below 2^31 in modular products"],
        },
        Prop {
            id: "A04", rule: "a regular system with at least two unknowns",
            quick: 12_000, thorough: 600_000, run: a04,
            need: &[("solved", 5000), ("singular", 300), ("determinant_divisible_by_prime", 300), ("extreme_determinants", 500)],
            assumptions: &["|entries| at most 10^10, at most 8 unknowns"],
        },
        Prop {
            id: "A05", rule: "maps in dimension at least two",
            quick: 6_000, thorough: 300_000, run: a05,
            need: &[("laws", 100_000), ("inverse_maps", 1000), ("bad_forms_refused", 2000)],
            assumptions: &["rational coordinates"],
        },
        Prop {
            id: "A06", rule: "at least two unions, of up to 60 elements, and in some cases of up to 200000",
            quick: 80_000, thorough: 1_000_000, run: a06,
            need: &[("unions", 50_000), ("finds", 20_000), ("class_lists", 20_000), ("large partitions", 20)],
            assumptions: &[],
        },
        Prop {
            id: "A07", rule: "a floating point matrix with more than one entry: diagonally dominant, or with an elimination free of rounding, with dependent and zero rows; or rows that are multiples of one another up to rounding",
            quick: 30_000, thorough: 2_000_000, run: a07,
            need: &[("dependent rows", 5000), ("inverses", 5000), ("solved", 10_000), ("unsolvable", 1000), ("null_spaces", 2000), ("mixed units", 5000), ("parallel rows", 3000)],
            assumptions: &["agreement within 1e-9 of the size of the numbers involved", "matrices on which elimination in the given order is stable"],
        },
    ])
}
