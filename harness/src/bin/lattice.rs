//! Monitors L01..L03: reduced lattice bases, Dirichlet vectors and domains,
//! lattices spanned by rational vectors.

use harness::core::*;
use harness::exact::*;
use harness::net::random_unimodular;
use harness::{ensure, fail};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rust_systre::spacegroups::lattices as lib;

fn form(g: &QM, v: &[Q], w: &[Q]) -> Q {
    let gw = apply(g, w);
    let mut s = Q::zero();
    for i in 0..v.len() {
        s += &v[i] * &gw[i];
    }
    s
}

/// A positive definite form: a named lattice's metric or a random one.
fn metric(cx: &mut Ctx, d: usize) -> QM {
    let g: Vec<Vec<i64>> = match (d, cx.rng.usize(9)) {
        (1, _) => vec![vec![cx.rng.range(1, 30)]],
        (2, 0) => vec![vec![1, 0], vec![0, 1]],
        (2, 1) => vec![vec![2, -1], vec![-1, 2]],
        (2, 2) => vec![vec![2, 1], vec![1, 2]],
        (2, 3) => { let a = cx.rng.range(1, 20); vec![vec![1, 0], vec![0, a]] }
        (2, 4) => { let a = cx.rng.range(1, 9); let b = cx.rng.range(1, 9);
            vec![vec![a + b, a - b], vec![a - b, a + b]] }
        (3, 0) => vec![vec![1, 0, 0], vec![0, 1, 0], vec![0, 0, 1]],
        (3, 1) => vec![vec![3, -1, -1], vec![-1, 3, -1], vec![-1, -1, 3]],
        (3, 2) => vec![vec![2, 1, 1], vec![1, 2, 1], vec![1, 1, 2]],
        (3, 3) => { let c = cx.rng.range(1, 9); vec![vec![2, -1, 0], vec![-1, 2, 0], vec![0, 0, c]] }
        (3, 4) => { let (a, b) = (cx.rng.range(1, 9), cx.rng.range(1, 9));
            vec![vec![a + b, b, b], vec![b, a + b, b], vec![b, b, a + b]] }
        (3, 5) => { let (a, b, c) = (cx.rng.range(1, 9), cx.rng.range(1, 9), cx.rng.range(1, 9));
            vec![vec![a, 0, 0], vec![0, b, 0], vec![0, 0, c]] }
        _ => loop {
            let m: Vec<Vec<i64>> = (0..d).map(|_| (0..d).map(|_| cx.rng.range(-6, 6)).collect()).collect();
            let q = to_q(&m);
            if det(&q).is_zero() {
                continue;
            }
            break (0..d).map(|i| (0..d).map(|j| (0..d).map(|k| m[k][i] * m[k][j]).sum()).collect()).collect();
        },
    };
    let f = qf(cx.rng.range(1, 12), cx.rng.range(1, 12));
    to_q(&g).iter().map(|r| r.iter().map(|x| x * &f).collect()).collect()
}

/// A lattice: form plus basis vectors (rows), presented by a possibly very
/// skew basis.
fn lattice(cx: &mut Ctx, d: usize) -> (QM, QM) {
    let g = metric(cx, d);
    let b: QM = if cx.rng.chance(1, 2) {
        identity(d)
    } else {
        loop {
            let m: QM = (0..d).map(|_| (0..d).map(|_| {
                qf(cx.rng.range(-6, 6), *cx.rng.pick(&[1, 1, 2, 3, 4, 6]))
            }).collect()).collect();
            if !det(&m).is_zero() {
                break m;
            }
        }
    };
    let mut u = to_q(&random_unimodular(&mut cx.rng, d, 6, 12));
    for _ in 0..cx.rng.usize(4) {
        u = mul(&u, &to_q(&random_unimodular(&mut cx.rng, d, 6, 12)));
    }
    if d > 1 && cx.rng.chance(1, 50) && !cfg!(miri) {
        // a very flat cell: adding one vector to another many times
        let (i, j) = (cx.rng.usize(d), cx.rng.usize(d - 1));
        let j = if j >= i { j + 1 } else { j };
        let k = cx.rng.range(200, 600);
        let k = q(if cx.rng.bool() { k } else { -k });
        u[i] = (0..d).map(|c| &u[i][c] + &k * &u[j][c]).collect();
        cx.count("very flat cells");
    }
    (g, mul(&u, &b))
}

fn gram(g: &QM, b: &QM) -> QM {
    b.iter().map(|v| b.iter().map(|w| form(g, v, w)).collect()).collect()
}

/// Greedy size reduction, to make enumeration cheap; keeps the lattice.
fn reduce(g: &QM, b: &QM) -> QM {
    let mut b = b.clone();
    let d = b.len();
    loop {
        let mut better = false;
        for i in 0..d {
            for j in 0..d {
                if i == j {
                    continue;
                }
                let t = (form(g, &b[i], &b[j]) / form(g, &b[j], &b[j])).round();
                if !t.is_zero() {
                    let w: Vec<Q> = b[i].iter().zip(&b[j]).map(|(x, y)| x - &t * y).collect();
                    if form(g, &w, &w) < form(g, &b[i], &b[i]) {
                        b[i] = w;
                        better = true;
                    }
                }
            }
        }
        if !better {
            return b;
        }
    }
}

fn isqrt_up(x: &Q) -> i64 {
    let n = x.ceil().to_integer();
    let r = n.sqrt() + BigInt::one();
    r.to_i64().unwrap()
}

/// All lattice vectors v with form(v + off, v + off) <= bound.
fn short(g: &QM, b: &QM, off: &[Q], bound: &Q) -> Vec<Vec<Q>> {
    let d = b.len();
    let gm = gram(g, b);
    let gi = inverse(&gm).unwrap();
    let bt = transpose(b);
    let c0 = apply(&inverse(&bt).unwrap(), off);
    let rng: Vec<(i64, i64)> = (0..d).map(|i| {
        let r = isqrt_up(&(bound * &gi[i][i]));
        let c = (-&c0[i]).round().to_integer().to_i64().unwrap();
        (c - r - 1, c + r + 1)
    }).collect();
    let vol: i64 = rng.iter().map(|(a, b)| b - a + 1).product();
    if vol > 200_000 {
        panic!("inconclusive: {} candidates", vol);
    }
    let mut out = vec![];
    let mut c: Vec<i64> = rng.iter().map(|r| r.0).collect();
    loop {
        let v: Vec<Q> = (0..d).map(|k| {
            let mut s = Q::zero();
            for i in 0..d {
                s += q(c[i]) * &b[i][k];
            }
            s
        }).collect();
        let w: Vec<Q> = v.iter().zip(off).map(|(x, y)| x + y).collect();
        if &form(g, &w, &w) <= bound {
            out.push(v);
        }
        let mut i = 0;
        loop {
            if i == d {
                return out;
            }
            c[i] += 1;
            if c[i] <= rng[i].1 {
                break;
            }
            c[i] = rng[i].0;
            i += 1;
        }
    }
}

/// No tolerance, or one below every difference between the numbers that occur,
/// which must make no difference.
fn tolerance(cx: &mut Ctx) -> Q {
    if cx.rng.chance(1, 3) {
        cx.count("calls with a tiny tolerance");
        Q::new(BigInt::one(), BigInt::from(10).pow(80))
    } else {
        Q::zero()
    }
}

fn coords(b: &QM, v: &[Q]) -> Vec<Q> {
    apply(&inverse(&transpose(b)).unwrap(), v)
}

fn class(c: &[Q]) -> Option<Vec<bool>> {
    c.iter().map(|x| if x.is_integer() { Some(x.to_integer().is_odd()) } else { None }).collect()
}

// ------------------------------------------------------------------- L01

fn l01(cx: &mut Ctx) -> Res {
    let d = *cx.rng.pick(&[1, 2, 2, 2, 3, 3, 3, 3]);
    let (g, b) = lattice(cx, d);
    cx.describe(format!("basis {} with inner products {}", qs(&b), qs(&g)));
    let dot = |v: &[Q], w: &[Q]| form(&g, v, w);
    let eps = tolerance(cx);
    let dv = lib::dirichlet_vectors(&b, dot, &eps);
    let n = (1usize << d) - 1;
    ensure!(dv.len() == n, "{} vectors instead of {}", dv.len(), n);

    // the shortest vectors of every class, found by search
    let r = reduce(&g, &b);
    let bound = dv.iter().map(|v| form(&g, v, v)).max().unwrap();
    for v in &dv {
        ensure!(v.len() == d, "vector {} of the wrong length", vs(v));
    }
    // every class has a member of at most this squared length
    let cap: Q = r.iter().map(|v| form(&g, v, v)).sum::<Q>() * q(d as i64);
    let longest = r.iter().map(|v| form(&g, v, v)).max().unwrap();
    let limit = bound.min(cap).max(longest);
    let zero = vec![Q::zero(); d];
    let all = short(&g, &r, &zero, &limit);
    let mut seen: Vec<Vec<bool>> = vec![];
    for v in &dv {
        let c = coords(&b, v);
        let Some(k) = class(&c) else { fail!("{} is not in the lattice", vs(v)) };
        ensure!(k.iter().any(|x| *x), "{} is twice a lattice vector", vs(v));
        ensure!(!seen.contains(&k), "two of the vectors differ by twice a lattice vector: {}", qs(&dv));
        if d > 1 {
            let nv = form(&g, v, v);
            let shorter = all.iter().find(|w| form(&g, w, w) < nv && class(&coords(&b, w)).as_ref() == Some(&k));
            if let Some(w) = shorter {
                fail!("{} of squared length {}, but {} differs from it by twice a lattice vector and has {}",
                    vs(v), nv, vs(w), form(&g, w, w));
            }
        }
        seen.push(k);
        cx.count("vectors compared with their class");
    }

    // reduced basis = successive minima, a basis of the lattice
    let Some(rb) = lib::reduced_lattice_basis(&b, dot, &eps) else { fail!("no reduced basis") };
    ensure!(rb.len() == d, "{} vectors in a reduced basis", rb.len());
    let cs: QM = rb.iter().map(|v| coords(&b, v)).collect();
    for (v, c) in rb.iter().zip(&cs) {
        ensure!(c.iter().all(is_int), "{} of the reduced basis is not in the lattice", vs(v));
    }
    ensure!(det(&cs).abs() == Q::one(), "the reduced basis {} spans a sublattice of index {}", qs(&rb), det(&cs).abs());
    let mut sorted: Vec<(Q, Vec<Q>)> = all.iter().filter(|v| v.iter().any(|x| !x.is_zero()))
        .map(|v| (form(&g, v, v), v.clone())).collect();
    sorted.sort_by(|a, b| a.0.cmp(&b.0));
    let mut minima: Vec<Q> = vec![];
    let mut span: QM = vec![];
    for (nv, v) in &sorted {
        span.push(v.clone());
        if rank(&span) < span.len() {
            span.pop();
        } else {
            minima.push(nv.clone());
        }
        if minima.len() == d {
            break;
        }
    }
    if minima.len() < d {
        panic!("inconclusive: the search found no basis");
    }
    for i in 0..d {
        ensure!(form(&g, &rb[i], &rb[i]) == minima[i],
            "vector {} of the reduced basis {} has squared length {}, the shortest possible is {}",
            i, qs(&rb), form(&g, &rb[i], &rb[i]), minima[i]);
        ensure!(i == 0 || !form(&g, &rb[0], &rb[i]).is_positive(),
            "vector {} of {} makes an acute angle with the first", i, qs(&rb));
    }
    cx.count(&format!("{}-d lattices", d));
    if minima.windows(2).any(|w| w[0] == w[1]) {
        cx.count("lattices with equal minima");
    }
    if d > 1 && r != b {
        cx.count("skew bases");
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------- L02

fn l02(cx: &mut Ctx) -> Res {
    let d = *cx.rng.pick(&[1, 2, 2, 3, 3]);
    let (g, b) = lattice(cx, d);
    let eps = tolerance(cx);
    let dot = |v: &[Q], w: &[Q]| form(&g, v, w);
    let dens: &[i64] = match cx.rng.usize(4) {
        0 => &[1, 2],
        1 => &[2, 4],
        2 => &[2, 3, 6],
        _ => &[1, 5, 7, 10, 97],
    };
    let mag = *cx.rng.pick(&[3, 20, 2000]);
    let co: Vec<Q> = (0..d).map(|_| qf(cx.rng.range(-mag, mag), *cx.rng.pick(dens))).collect();
    let p: Vec<Q> = (0..d).map(|k| {
        let mut s = Q::zero();
        for i in 0..d {
            s += &co[i] * &b[i][k];
        }
        s
    }).collect();
    // either the lattice's own Dirichlet vectors or merely some lattice vectors
    let complete = cx.rng.chance(3, 4);
    let r = reduce(&g, &b);
    let dv: QM = if complete {
        let mut t = lib::dirichlet_vectors(&b, dot, &eps);
        cx.rng.shuffle(&mut t);
        for v in t.iter_mut() {
            if cx.rng.bool() {
                for x in v.iter_mut() {
                    *x = -x.clone();
                }
            }
        }
        t
    } else {
        r.clone()
    };
    cx.describe(format!("point {} for vectors {} with inner products {}", vs(&p), qs(&dv), qs(&g)));
    let s = lib::shift_for_dirichlet_domain(&p, &dv, dot, &eps);
    ensure!(s.len() == d, "a shift of length {}", s.len());
    ensure!(coords(&b, &s).iter().all(is_int), "shift {} is not a lattice vector", vs(&s));
    let np: Vec<Q> = p.iter().zip(&s).map(|(x, y)| x + y).collect();
    let half = qf(1, 2);
    for v in &dv {
        let t = form(&g, &np, v) / form(&g, v, v);
        ensure!(t.abs() <= half, "shifted point {} is {} along {}", vs(&np), t, vs(v));
        if t.abs() == half {
            cx.count("points on the boundary");
        }
    }
    if complete {
        let n0 = form(&g, &np, &np);
        // no lattice translate is nearer to the origin
        for w in short(&g, &r, &np, &n0) {
            let x: Vec<Q> = w.iter().zip(&np).map(|(a, b)| a + b).collect();
            ensure!(form(&g, &x, &x) >= n0, "shifted point {} is not nearest to the origin, {} is nearer", vs(&np), vs(&x));
            cx.count("translates compared");
        }
        // a point that is in the domain already stays
        let s2 = lib::shift_for_dirichlet_domain(&np, &dv, dot, &eps);
        ensure!(s2.iter().all(|x| x.is_zero()), "a point of the domain, {}, is shifted by {}", vs(&np), vs(&s2));
    }
    if s.iter().any(|x| !x.is_zero()) {
        cx.count("points moved");
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------- L03

fn l03(cx: &mut Ctx) -> Res {
    let d = if cx.rng.chance(1, 50) { 5 + cx.rng.usize(2) } else { 1 + cx.rng.usize(4) };
    let kind = cx.rng.usize(5);
    // many vectors in high dimensions are not tried: the numbers in their elimination grow without bound
    let n = if d > 4 { 1 + cx.rng.usize(3) } else if kind < 4 && cx.rng.chance(1, 10) { 20 + cx.rng.usize(60) } else { 1 + cx.rng.usize(5) };
    let vectors: QM = (0..n).map(|_| (0..d).map(|_| {
        match kind {
            0 => qf(cx.rng.range(-3, 3), 2),
            1 => qf(cx.rng.range(-12, 12), *cx.rng.pick(&[1, 2, 3, 4, 6])),
            2 => qf(cx.rng.range(-100, 100), cx.rng.range(1, 60)),
            3 => q(cx.rng.range(-5, 5)),
            _ => {
                let big = cx.rng.range(1 << 40, 1 << 60);
                qf(cx.rng.range(-(1 << 62), 1 << 62), *cx.rng.pick(&[1, 2, 65536, 999983, 1 << 40, big]))
            }
        }
    }).collect()).collect();
    cx.describe(format!("vectors {}", qs(&vectors)));
    let basis = lib::rational_lattice_basis(&vectors);
    ensure!(basis.len() == d, "{} basis vectors in dimension {}", basis.len(), d);
    for v in &basis {
        ensure!(v.len() == d, "basis vector {} of the wrong length", vs(v));
    }
    let mut den = BigInt::one();
    for v in vectors.iter().chain(&basis) {
        for x in v {
            den = den.lcm(x.denom());
        }
    }
    let scale = |m: &QM| -> ZM { m.iter().map(|r| r.iter().map(|x| (x * Q::from(den.clone())).to_integer()).collect()).collect() };
    let mut gens = vectors.clone();
    gens.extend(identity(d));
    let a = hnf(&scale(&gens)).0;
    let b = hnf(&scale(&basis)).0;
    ensure!(a == b, "basis {} spans another lattice than the unit vectors and the given ones", qs(&basis));
    if n > 5 {
        cx.count("many vectors");
    }
    cx.count(["halves", "crystallographic fractions", "random fractions", "integer vectors", "huge fractions"][kind]);
    if vectors.iter().flatten().any(|x| !x.is_integer()) {
        cx.nontrivial();
    }
    Ok(())
}

fn main() {
    main_with(&[
        Prop {
            id: "L01",
            rule: "positive definite forms of named 2-d and 3-d lattices (square, hexagonal, rectangular, cubic P/I/F, rhombohedral, orthorhombic) and random integer forms, scaled, with rational bases skewed by products of unimodular matrices; the monitor searches the lattice exhaustively within a proven bound for shorter vectors of each class modulo 2L and for the successive minima; non-trivial: 2-d or 3-d and the basis given was not already reduced",
            quick: 2400, thorough: 40000, run: l01,
            need: &[("2-d lattices", 300), ("3-d lattices", 500), ("lattices with equal minima", 200), ("skew bases", 500), ("very flat cells", 10), ("calls with a tiny tolerance", 300)],
            assumptions: &["exact rational coordinates, the only coordinate type the crate provides, with tolerance zero or 10^-80, below every difference that occurs"],
        },
        Prop {
            id: "L02",
            rule: "random rational points (including far away ones and ones on the boundary of the domain) for the lattices of L01, with the lattice's own Dirichlet vectors in random order and sign, or with a reduced basis only; the monitor looks for nearer translates within a proven bound; non-trivial: the point had to be moved",
            quick: 6000, thorough: 200000, run: l02,
            need: &[("points moved", 800), ("points on the boundary", 100), ("translates compared", 1000), ("calls with a tiny tolerance", 300)],
            assumptions: &["exact rational coordinates with tolerance zero or 10^-80"],
        },
        Prop {
            id: "L03",
            rule: "1 to 5 rational vectors in dimension 1 to 6 with halves, crystallographic, random and huge (60 bit) fractions; the monitor compares Hermite normal forms of the basis and of the unit vectors with the given ones; non-trivial: at least one coordinate is not an integer",
            quick: 200000, thorough: 8000000, run: l03,
            need: &[("huge fractions", 1000), ("halves", 1000), ("many vectors", 1000)],
            assumptions: &[],
        },
    ]);
}
