//! Monitors C01..C08: space group generation, primitive settings, invariant
//! metrics, crystal systems, operator strings and space group tables.

use harness::core::*;
use harness::exact::*;
use harness::faults::Hostile;
use harness::table::*;
use harness::{ensure, fail};
use harness::net::random_unimodular;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, ModZ, Point, Vector};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::spacegroups::basics;
use rust_systre::spacegroups::parse_operator::parse_operator;
use rust_systre::spacegroups::parse_table::{parse_space_group_table, Tables};
use rust_systre::spacegroups::types::{Centering, CrystalSystem};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::ErrorKind;

#[derive(Clone, Debug, Eq, PartialEq, Hash)]
struct World {}
#[derive(Clone, Debug, Eq, PartialEq, Hash)]
struct Prim {}

fn lib_matrix(m: &QM) -> Matrix<Q> {
    let flat: Vec<Q> = m.iter().flatten().cloned().collect();
    Matrix::new(m[0].len(), &flat)
}

fn back<T: Clone>(m: &Matrix<T>) -> Vec<Vec<T>> {
    let (r, c) = m.shape();
    let flat: Vec<T> = m.iter().cloned().collect();
    (0..r).map(|i| flat[i * c..(i + 1) * c].to_vec()).collect()
}

fn lib_op<CS: Clone>(a: &Op) -> AffineMap<Q, CS> {
    AffineMap::new(&lib_matrix(&a.0), &Vector::new(&a.1))
}

fn read_op<CS: Clone>(a: &AffineMap<Q, CS>) -> Op {
    (back(&a.linear_matrix()), a.shift().iter().cloned().collect())
}

// ------------------------------------------------------------- generators

/// Integer matrices of finite order that generate point groups.
fn point_generators(d: usize) -> Vec<Vec<Vec<i64>>> {
    match d {
        1 => vec![vec![vec![-1]], vec![vec![1]]],
        2 => vec![
            vec![vec![-1, 0], vec![0, -1]],
            vec![vec![1, 0], vec![0, -1]],
            vec![vec![-1, 0], vec![0, 1]],
            vec![vec![0, 1], vec![1, 0]],
            vec![vec![0, -1], vec![1, 0]],
            vec![vec![0, -1], vec![1, -1]],
            vec![vec![1, -1], vec![1, 0]],
            vec![vec![0, -1], vec![-1, 0]],
            vec![vec![1, 0], vec![0, 1]],
            vec![vec![1, -1], vec![0, -1]],
        ],
        _ => vec![
            vec![vec![-1, 0, 0], vec![0, -1, 0], vec![0, 0, -1]],
            vec![vec![-1, 0, 0], vec![0, -1, 0], vec![0, 0, 1]],
            vec![vec![-1, 0, 0], vec![0, 1, 0], vec![0, 0, -1]],
            vec![vec![1, 0, 0], vec![0, -1, 0], vec![0, 0, 1]],
            vec![vec![0, 1, 0], vec![1, 0, 0], vec![0, 0, 1]],
            vec![vec![0, 1, 0], vec![1, 0, 0], vec![0, 0, -1]],
            vec![vec![0, -1, 0], vec![1, 0, 0], vec![0, 0, 1]],
            vec![vec![0, 1, 0], vec![-1, 0, 0], vec![0, 0, -1]],
            vec![vec![0, 0, 1], vec![1, 0, 0], vec![0, 1, 0]],
            vec![vec![0, 0, -1], vec![-1, 0, 0], vec![0, -1, 0]],
            vec![vec![0, -1, 0], vec![1, -1, 0], vec![0, 0, 1]],
            vec![vec![1, -1, 0], vec![1, 0, 0], vec![0, 0, 1]],
            vec![vec![0, -1, 0], vec![1, -1, 0], vec![0, 0, -1]],
            vec![vec![1, 0, 0], vec![0, 1, 0], vec![0, 0, 1]],
            vec![vec![1, 0, 0], vec![0, 1, 0], vec![0, 0, -1]],
        ],
    }
}

/// Closure modulo integer translations; None if larger than `cap`.
fn closure(gens: &[Op], cap: usize) -> Option<Vec<Op>> {
    let d = gens[0].1.len();
    let mut list = vec![op_identity(d)];
    let mut seen: HashSet<Op> = list.iter().cloned().collect();
    let mut i = 0;
    while i < list.len() {
        for g in gens {
            let h = op_mod(&compose(&list[i], g));
            if seen.insert(h.clone()) {
                list.push(h);
                if list.len() > cap {
                    return None;
                }
            }
        }
        i += 1;
    }
    Some(list)
}

/// Random generators of a finite group modulo integer translations: integer
/// matrices with rational shifts.
fn random_gens(cx: &mut Ctx, d: usize, centred: bool, cap: usize) -> (Vec<Op>, Vec<Op>) {
    loop {
        let pool = point_generators(d);
        let base = if cx.rng.chance(1, 2) { identity(d) } else { to_q(&random_unimodular(&mut cx.rng, d, 4, 4)) };
        let basei = inverse(&base).unwrap();
        let n = 1 + cx.rng.usize(3);
        let den = *cx.rng.pick(&[1, 2, 2, 3, 4, 6, 5]);
        let mut gens: Vec<Op> = (0..n).map(|_| {
            let m = mul(&mul(&base, &to_q(cx.rng.pick(&pool))), &basei);
            let t = if cx.rng.chance(1, 3) { vec![Q::zero(); d] } else {
                (0..d).map(|_| qf(cx.rng.range(-2 * den, 2 * den), den)).collect()
            };
            (m, t)
        }).collect();
        if centred || cx.rng.chance(1, 4) {
            for _ in 0..1 + cx.rng.usize(2) {
                let den = *cx.rng.pick(&[2, 2, 2, 3, 4]);
                gens.push((identity(d), (0..d).map(|_| qf(cx.rng.range(-den, 2 * den), den)).collect()));
            }
        }
        cx.rng.shuffle(&mut gens);
        if let Some(g) = closure(&gens, cap) {
            return (gens, g);
        }
    }
}

fn gens_text(g: &[Op]) -> String {
    g.iter().map(op_text).collect::<Vec<_>>().join(", ")
}

// ------------------------------------------------------------------- C01

fn c01(cx: &mut Ctx) -> Res {
    let d = *cx.rng.pick(&[1, 2, 2, 3, 3, 3]);
    let cap = if cx.thorough { 600 } else { 250 };
    let (gens, want) = random_gens(cx, d, false, cap);
    cx.describe(format!("generators {}", gens_text(&gens)));
    let lib: Vec<AffineMap<Q, World>> = gens.iter().map(lib_op).collect();
    let got = basics::generate(&lib);
    let ops: Vec<Op> = got.iter().map(read_op).collect();
    let set: HashSet<Op> = ops.iter().cloned().collect();
    for o in &ops {
        ensure!(o.1.iter().all(|x| !x.is_negative() && *x < Q::one()), "operator {} has a shift outside of [0, 1)", op_text(o));
    }
    ensure!(set.len() == ops.len(), "{} operators, {} of them different", ops.len(), set.len());
    let want: HashSet<Op> = want.into_iter().collect();
    if let Some(o) = want.difference(&set).next() {
        fail!("operator {} is missing ({} of {})", op_text(o), set.len(), want.len());
    }
    if let Some(o) = set.difference(&want).next() {
        fail!("operator {} is not in the group", op_text(o));
    }
    // an operator and one differing from it by integer translations are one
    let shifted: Vec<AffineMap<Q, World>> = gens.iter().map(|g| {
        let t: Vec<Q> = g.1.iter().map(|x| x + q(cx.rng.range(-3, 3))).collect();
        lib_op(&(g.0.clone(), t))
    }).collect();
    let again: HashSet<Op> = basics::generate(&shifted).iter().map(read_op).collect();
    ensure!(again == want, "moving generators by integer translations changes the group");
    // generating from the whole group adds nothing
    if got.len() <= 48 {
        let again: HashSet<Op> = basics::generate(&got).iter().map(read_op).collect();
        ensure!(again == want, "generating from the whole group changes it");
        cx.count("regenerated");
    }
    cx.add("operators compared", ops.len() as u64);
    if want.len() > 2 {
        cx.nontrivial();
    }
    if gens.iter().any(|g| g.1.iter().any(|x| x.is_negative())) {
        cx.count("generators with negative shifts");
    }
    if want.len() > 48 {
        cx.count("groups of more than 48 operators");
    }
    Ok(())
}

// ------------------------------------------------------------------- C02

#[cfg(not(systre_hooks_setting))]
fn c02(_cx: &mut Ctx) -> Res {
    panic!("inconclusive: built without the hooks that let a primitive setting be read");
}

#[cfg(systre_hooks_setting)]
fn c02(cx: &mut Ctx) -> Res {
    let d = *cx.rng.pick(&[1, 2, 2, 3, 3, 3]);
    let centred = cx.rng.chance(2, 3);
    let (gens, all) = random_gens(cx, d, centred, 300);
    // the complete set of operators, in any order, sometimes with shifts
    // outside of the unit cell
    let mut ops = all.clone();
    if cx.rng.chance(1, 2) {
        cx.rng.shuffle(&mut ops);
    }
    cx.describe(format!("group of {} operators generated by {}", all.len(), gens_text(&gens)));
    let lib: Vec<AffineMap<Q, World>> = ops.iter().map(lib_op).collect();
    let p = basics::PrimitiveSetting::<World, Prim>::hook_new(&lib);
    let (cell, map, prim) = p.hook_parts();
    let cell: QM = cell.iter().map(|v| v.iter().cloned().collect()).collect();
    ensure!(cell.len() == d && cell.iter().all(|v| v.len() == d), "a cell of {} vectors", cell.len());

    // the cell spans exactly the translations
    let mut gens_t = identity(d);
    gens_t.extend(all.iter().filter(|o| o.0 == identity(d)).map(|o| o.1.clone()));
    let mut den = BigInt::one();
    for x in gens_t.iter().chain(&cell).flatten() {
        den = den.lcm(x.denom());
    }
    let scale = |m: &QM| -> ZM { m.iter().map(|r| r.iter().map(|x| (x * Q::from(den.clone())).to_integer()).collect()).collect() };
    ensure!(hnf(&scale(&gens_t)).0 == hnf(&scale(&cell)).0, "cell {} does not span the translations of the group", qs(&cell));
    let vol = det(&cell);
    ensure!(vol.is_positive(), "cell {} is not right handed", qs(&cell));

    // coordinates with respect to it
    let f = read_op(&map.forward());
    for (i, v) in cell.iter().enumerate() {
        let w: Vec<Q> = (map * &Vector::new(v)).iter().cloned().collect();
        ensure!(w == identity(d)[i], "cell vector {} gets the coordinates {}", vs(v), vs(&w));
    }
    let o: Vec<Q> = (map * &Point::<Q, World>::origin(d)).iter().cloned().collect();
    ensure!(o.iter().all(|x| x.is_zero()), "the origin is moved to {}", vs(&o));
    let fi = op_inverse(&f).unwrap();
    let b = read_op(&map.inverse().forward());
    ensure!(b == fi, "the inverse coordinate change {} does not undo {}", op_text(&b), op_text(&f));

    // the operators, one per class modulo translations
    let want: HashSet<Op> = all.iter().map(|g| op_mod(&compose(&compose(&f, g), &fi))).collect();
    let got: Vec<Op> = prim.iter().map(read_op).collect();
    let set: HashSet<Op> = got.iter().cloned().collect();
    ensure!(set.len() == got.len(), "{} primitive operators, {} of them different", got.len(), set.len());
    ensure!(set == want, "primitive operators {} of the cell {} are not those of the group", gens_text(&got), qs(&cell));
    let centre = all.iter().filter(|o| o.0 == identity(d)).count();
    ensure!(got.len() * centre == all.len(), "{} primitive operators of {} with {} translations", got.len(), all.len(), centre);
    ensure!(&vol * q(centre as i64) == q(1), "cell volume {} for {} centring translations", vol, centre);
    ensure!(got.iter().all(|o| o.0.iter().flatten().all(is_int)), "a primitive operator is not integral");
    cx.add("operators compared", got.len() as u64);
    if centre > 1 {
        cx.count("centred settings");
        cx.nontrivial();
    } else {
        cx.count("primitive settings");
    }
    Ok(())
}

// ------------------------------------------------------------------- C03

fn null_dim(eqs: &QM, n: usize) -> usize {
    if eqs.is_empty() { n } else { n - rank(eqs) }
}

fn c03(cx: &mut Ctx) -> Res {
    let d = *cx.rng.pick(&[1, 2, 2, 3, 3, 3]);
    let kind = cx.rng.usize(6);
    let ops: Vec<Op> = match kind {
        0 | 1 | 2 => random_gens(cx, d, false, 200).0,
        3 => random_gens(cx, d, false, 100).1,
        4 => (0..1 + cx.rng.usize(2)).map(|_| {
            let t = (0..d).map(|_| qf(cx.rng.range(-3, 3), 4)).collect();
            if cx.rng.bool() {
                (to_q(&random_unimodular(&mut cx.rng, d, 4, 5)), t)
            } else {
                ((0..d).map(|_| (0..d).map(|_| qf(cx.rng.range(-2, 2), cx.rng.range(1, 2))).collect()).collect(), t)
            }
        }).collect(),
        _ => (0..1 + cx.rng.usize(3)).map(|_| translation(&(0..d).map(|_| qf(cx.rng.range(-3, 3), 4)).collect::<Vec<_>>())).collect(),
    };
    let mut ops = ops;
    cx.rng.shuffle(&mut ops);
    ops.truncate(12);
    cx.describe(format!("operators {}", gens_text(&ops)));
    let lib: Vec<AffineMap<Q, World>> = ops.iter().map(lib_op).collect();

    // metrics: symmetric G with transpose(S) G S = G for every S
    let pairs: Vec<(usize, usize)> = (0..d).flat_map(|i| (i..d).map(move |j| (i, j))).collect();
    let m = pairs.len();
    let expand = |v: &[Q]| -> QM {
        let mut g = vec![vec![Q::zero(); d]; d];
        for (k, (i, j)) in pairs.iter().enumerate() {
            g[*i][*j] = v[k].clone();
            g[*j][*i] = v[k].clone();
        }
        g
    };
    let mut eqs: QM = vec![];
    for (s, _) in &ops {
        let cols: Vec<QM> = (0..m).map(|k| {
            let g = expand(&identity(m)[k]);
            let sgs = mul(&mul(&transpose(s), &g), s);
            (0..d).map(|i| (0..d).map(|j| &sgs[i][j] - &g[i][j]).collect()).collect()
        }).collect();
        for i in 0..d {
            for j in 0..d {
                eqs.push((0..m).map(|k| cols[k][i][j].clone()).collect());
            }
        }
    }
    let want = null_dim(&eqs, m);
    let got: QM = match basics::gram_matrix_configuration_space(&lib) {
        None => vec![],
        Some(g) => {
            ensure!(g.shape().0 == m, "metrics with {} parameters instead of {}", g.shape().0, m);
            transpose(&back(&g))
        }
    };
    for v in &got {
        let g = expand(v);
        for (s, _) in &ops {
            ensure!(mul(&mul(&transpose(s), &g), s) == g, "metric {} is not invariant under {}", qs(&g), qs(s));
        }
        cx.count("metrics verified");
    }
    ensure!(got.len() == want && rank(&got) == want, "{} metrics of rank {}, expected {} independent ones", got.len(), rank(&got), want);

    // shifts: s with S s = s for every S
    let mut eqs: QM = vec![];
    for (s, _) in &ops {
        for i in 0..d {
            eqs.push((0..d).map(|j| &s[i][j] - q((i == j) as i64)).collect());
        }
    }
    let want_s = null_dim(&eqs, d);
    let got: QM = match basics::shift_space(&lib) {
        None => vec![],
        Some(g) => {
            ensure!(g.shape().0 == d, "shifts of dimension {}", g.shape().0);
            transpose(&back(&g))
        }
    };
    for v in &got {
        for (s, _) in &ops {
            ensure!(apply(s, v) == *v, "shift {} is not invariant under {}", vs(v), qs(s));
        }
        cx.count("shifts verified");
    }
    ensure!(got.len() == want_s && rank(&got) == want_s, "{} shifts of rank {}, expected {} independent ones", got.len(), rank(&got), want_s);
    cx.count(["generators", "generators", "generators", "whole groups", "arbitrary maps", "pure translations"][kind]);
    if want_s == 0 { cx.count("no invariant shift") }
    if want == 0 { cx.count("no invariant metric") }
    if want < m && want > 0 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------- C04

#[cfg(not(systre_hooks_operators))]
fn c04(_cx: &mut Ctx) -> Res {
    panic!("inconclusive: built without the hooks that let the classification be read");
}

/// generators of the ten 2-d point groups, with crystal system
#[cfg(systre_hooks_operators)]
fn groups_2d() -> Vec<(&'static str, CrystalSystem, Vec<Vec<Vec<i64>>>)> {
    use CrystalSystem::*;
    let r2 = vec![vec![-1, 0], vec![0, -1]];
    let m = vec![vec![1, 0], vec![0, -1]];
    let mc = vec![vec![0, 1], vec![1, 0]];
    let r4 = vec![vec![0, -1], vec![1, 0]];
    let r3 = vec![vec![0, -1], vec![1, -1]];
    let r6 = vec![vec![1, -1], vec![1, 0]];
    let md = vec![vec![0, -1], vec![-1, 0]];
    vec![
        ("1", Oblique, vec![]), ("2", Oblique, vec![r2.clone()]),
        ("m", Rectangular, vec![m.clone()]), ("m on a centred lattice", Rectangular, vec![mc.clone()]),
        ("2mm", Rectangular, vec![m.clone(), r2.clone()]), ("2mm on a centred lattice", Rectangular, vec![mc.clone(), r2]),
        ("4", Square, vec![r4.clone()]), ("4mm", Square, vec![r4, m]),
        ("3", Hexagonal, vec![r3.clone()]), ("3m1", Hexagonal, vec![r3.clone(), md]), ("31m", Hexagonal, vec![r3, mc.clone()]),
        ("6", Hexagonal, vec![r6.clone()]), ("6mm", Hexagonal, vec![r6, mc]),
    ]
}

#[cfg(systre_hooks_operators)]
fn c04(cx: &mut Ctx) -> Res {
    use rust_systre::spacegroups::finder::{hook_crystal_system_2d, hook_operator_details};
    let groups = groups_2d();
    let (name, system, gens) = cx.rng.pick(&groups);
    let ops: Vec<Op> = gens.iter().map(|g| (to_q(g), vec![Q::zero(); 2])).collect();
    let all: Vec<QM> = if ops.is_empty() { vec![identity(2)] } else {
        closure(&ops, 20).unwrap().into_iter().map(|o| o.0).collect()
    };
    // any rational coordinate system
    let base: QM = loop {
        let b: QM = if cx.rng.chance(1, 2) { to_q(&random_unimodular(&mut cx.rng, 2, 5, 6)) } else {
            (0..2).map(|_| (0..2).map(|_| qf(cx.rng.range(-5, 5), *cx.rng.pick(&[1, 1, 2, 3]))).collect()).collect()
        };
        if !det(&b).is_zero() {
            break b;
        }
    };
    let bi = inverse(&base).unwrap();
    let mut all: Vec<QM> = all.iter().map(|m| mul(&mul(&base, m), &bi)).collect();
    // the operators of a centred group have each linear part several times
    if cx.rng.chance(1, 3) {
        let copies = all.clone();
        for _ in 0..1 + cx.rng.usize(2) {
            all.extend(copies.iter().cloned());
        }
        cx.count("linear parts of centred groups");
    }
    cx.rng.shuffle(&mut all);
    cx.describe(format!("group {} as {}", name, all.iter().map(|m| qs(m)).collect::<Vec<_>>().join(", ")));
    let lib: Vec<Matrix<Q>> = all.iter().map(lib_matrix).collect();
    let (got, basis) = hook_crystal_system_2d(&lib);
    ensure!(got == *system, "crystal system {} instead of {}", got, system);
    ensure!(basis.len() == 2 && basis.iter().all(|v| v.shape() == (2, 1)), "{} basis vectors", basis.len());
    let b: QM = basis.iter().map(|v| v.iter().cloned().collect()).collect();
    ensure!(det(&b).is_positive(), "basis {} is not right handed", qs(&b));
    // invariant metric of the group
    let gm: QM = all.iter().fold(vec![vec![Q::zero(); 2]; 2], |s, m| {
        let g = mul(&transpose(m), m);
        (0..2).map(|i| (0..2).map(|j| &s[i][j] + &g[i][j]).collect()).collect()
    });
    let ip = |u: &[Q], v: &[Q]| -> Q {
        let w = apply(&gm, v);
        &u[0] * &w[0] + &u[1] * &w[1]
    };
    let (xx, xy, yy) = (ip(&b[0], &b[0]), ip(&b[0], &b[1]), ip(&b[1], &b[1]));
    match system {
        CrystalSystem::Hexagonal => ensure!(xx == yy && &xy.abs() * q(2) == xx, "basis {} is not hexagonal", qs(&b)),
        CrystalSystem::Square => ensure!(xx == yy && xy.is_zero(), "basis {} is not square", qs(&b)),
        CrystalSystem::Rectangular => ensure!(xy.is_zero(), "basis {} is not rectangular", qs(&b)),
        _ => {}
    }
    let mirrors: Vec<&QM> = all.iter().filter(|m| det(m).is_negative()).collect();
    if !mirrors.is_empty() {
        ensure!(mirrors.iter().any(|m| apply(m, &b[0]) == b[0]), "the first vector of {} lies on no mirror line", qs(&b));
        cx.count("groups with mirrors");
    }
    cx.nontrivial();

    // single operators, in one to three dimensions
    let d = 1 + cx.rng.usize(3);
    let pool = point_generators(d);
    let mut m = to_q(cx.rng.pick(&pool));
    for _ in 0..cx.rng.usize(3) {
        let n = mul(&m, &to_q(cx.rng.pick(&pool)));
        if (1..=6).scan(identity(d), |p, _| { *p = mul(p, &n); Some(p.clone()) }).any(|p| p == identity(d)) {
            m = n;
        }
    }
    let u = to_q(&random_unimodular(&mut cx.rng, d, 4, 4));
    let m = mul(&mul(&u, &m), &inverse(&u).unwrap());
    cx.describe(format!("{}, operator {}", cx.desc, qs(&m)));
    let order = (1..=6).scan(identity(d), |p, k| { *p = mul(p, &m); Some((k, p.clone())) })
        .find(|(_, p)| *p == identity(d)).unwrap().0;
    let (dim, axis, ord, pres, clock) = hook_operator_details(lib_matrix(&m));
    let positive = det(&m).is_positive();
    ensure!(dim == d, "dimension {}", dim);
    ensure!(ord == order, "order {} instead of {}", ord, order);
    ensure!(pres == positive, "preserves orientation: {}", pres);
    let sgn = q(if d % 2 == 1 && !positive { -1 } else { 1 });
    let fixed: QM = (0..d).map(|i| (0..d).map(|j| &m[i][j] - if i == j { sgn.clone() } else { Q::zero() }).collect()).collect();
    let n = d - rank(&fixed);
    match &axis {
        None => ensure!(n != 1, "no axis is found"),
        Some(a) => {
            ensure!(n == 1 && a.len() == d, "an axis is found, the fixed space has dimension {}", n);
            ensure!(apply(&fixed, a).iter().all(|x| x.is_zero()) && a.iter().any(|x| !x.is_zero()), "axis {} is not fixed", vs(a));
            ensure!(a.iter().find(|x| !x.is_zero()).unwrap().is_positive(), "axis {} does not point in a positive direction", vs(a));
            cx.count("axes verified");
        }
    }
    if order > 2 && d == 2 && positive {
        let v = [q(1), q(0)];
        let w = apply(&m, &v);
        ensure!(clock == (&v[0] * &w[1] - &v[1] * &w[0]).is_negative(), "sense of rotation: clockwise is {}", clock);
        cx.count("senses of rotation verified");
    }
    if order > 2 && d == 3 {
        let a = axis.unwrap();
        let id = identity(3);
        for v in &id {
            let dd = det(&vec![a.clone(), v.clone(), apply(&m, v)]);
            if !dd.is_zero() {
                ensure!(clock == dd.is_positive(), "sense of rotation about {}: {}", vs(&a), clock);
                cx.count("senses of rotation verified");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C05

fn spaces(cx: &mut Ctx, style: u64) -> &'static str {
    match style {
        0 => "",
        1 => if cx.rng.bool() { " " } else { "" },
        _ => *cx.rng.pick(&["", " ", "  ", "\t", " \t "]),
    }
}

/// Write an operator in one of the many notations the format allows.
fn write_operator(cx: &mut Ctx, op: &Op, style: u64) -> String {
    let d = op.1.len();
    let mut out = String::new();
    out.push_str(spaces(cx, style));
    for i in 0..d {
        if i > 0 {
            out.push_str(spaces(cx, style));
            out.push(',');
            out.push_str(spaces(cx, style));
        }
        // terms: (value, axis)
        let mut terms: Vec<(Q, Option<usize>)> = vec![];
        for j in 0..=d {
            let axis = if j < d { Some(j) } else { None };
            let v = if j < d { op.0[i][j].clone() } else { op.1[i].clone() };
            if v.is_zero() && !cx.rng.chance(style, 12) {
                continue;
            }
            let mut rest = v;
            while style > 1 && cx.rng.chance(1, 4) {
                let part = qf(cx.rng.range(-6, 6), cx.rng.range(1, 6));
                rest -= &part;
                terms.push((part, axis));
            }
            terms.push((rest, axis));
        }
        if style > 0 {
            cx.rng.shuffle(&mut terms);
        }
        if terms.is_empty() {
            terms.push((q(0), None));
        }
        for (k, (v, axis)) in terms.iter().enumerate() {
            if k > 0 {
                out.push_str(spaces(cx, style));
            }
            let neg = v.is_negative();
            if neg {
                out.push('-');
            } else if k > 0 || (style > 1 && cx.rng.chance(1, 4)) {
                out.push('+');
            }
            if neg || out.ends_with('+') {
                out.push_str(spaces(cx, style));
            }
            let a = v.abs();
            if !(a.is_one() && axis.is_some() && !cx.rng.chance(style, 12)) {
                let f = if style > 1 && cx.rng.chance(1, 4) { cx.rng.range(2, 5) } else { 1 };
                let (n, dn) = (a.numer() * BigInt::from(f), a.denom() * BigInt::from(f));
                let (n, dn) = if n > BigInt::from(999_999_999) || dn > BigInt::from(999_999_999) {
                    (a.numer().clone(), a.denom().clone())
                } else { (n, dn) };
                out.push_str(&n.to_string());
                if !dn.is_one() || (style > 1 && cx.rng.chance(1, 8)) {
                    out.push_str(spaces(cx, style));
                    out.push('/');
                    out.push_str(spaces(cx, style));
                    out.push_str(&dn.to_string());
                }
                if axis.is_some() {
                    if style > 0 && cx.rng.chance(1, 3) {
                        out.push('*');
                    } else {
                        out.push_str(spaces(cx, style));
                    }
                }
            }
            if let Some(j) = axis {
                out.push(['x', 'y', 'z'][*j]);
            }
        }
    }
    out.push_str(spaces(cx, style));
    out
}

fn random_op(cx: &mut Ctx, d: usize, invertible: bool) -> Op {
    loop {
        let kind = cx.rng.usize(4);
        let co = |cx: &mut Ctx| match kind {
            0 => q(cx.rng.range(-1, 1)),
            1 => qf(cx.rng.range(-12, 12), *cx.rng.pick(&[1, 2, 3, 4, 6, 8, 12])),
            2 => qf(cx.rng.range(-100, 100), cx.rng.range(1, 100)),
            _ => if cx.rng.chance(1, 6) { qf(cx.rng.range(-999_999_999, 999_999_999), cx.rng.range(1, 999_999_999)) } else { q(cx.rng.range(-1, 1)) },
        };
        let m: QM = (0..d).map(|_| (0..d).map(|_| co(cx)).collect()).collect();
        let t: Vec<Q> = (0..d).map(|_| co(cx)).collect();
        if !invertible || !det(&m).is_zero() {
            return (m, t);
        }
    }
}

fn is_big(op: &Op) -> bool {
    op.0.iter().flatten().chain(&op.1).any(|x| x.numer().abs() > BigInt::from(1000) || x.denom() > &BigInt::from(1000))
}

fn c05(cx: &mut Ctx) -> Res {
    let d = 1 + cx.rng.usize(3);
    let op = random_op(cx, d, false);
    let style = if is_big(&op) { cx.rng.below(2) } else { cx.rng.below(3) };
    let text = write_operator(cx, &op, style);
    if cx.rng.chance(1, 8) {
        // damaged texts mean nothing, or something else
        let text = mangle(cx, &text, &OP_BITS);
        cx.describe(format!("damaged {:?}", text));
        check_operator_text(cx, &text)?;
        cx.count("damaged texts");
        cx.nontrivial();
        return Ok(());
    }
    cx.describe(format!("{:?}", text));
    if read_operator(&text).as_ref() != Some(&op) {
        panic!("inconclusive: the monitor's own reading disagrees with its writing of {:?}", text);
    }
    let Some(a) = AffineMap::<Q, World>::from_string(&text) else { fail!("the operator {:?} is rejected", text) };
    ensure!(read_op(&a) == op, "{:?} is read as {}, it means {}", text, op_text(&read_op(&a)), op_text(&op));
    match parse_operator(&text) {
        Err(e) => fail!("the operator {:?} is rejected: {}", text, e),
        Ok((rest, (rows, shift))) => {
            let p: Op = (
                rows.iter().map(|r| r.iter().map(|x| qf(*x.numer() as i64, *x.denom() as i64)).collect()).collect(),
                shift.iter().map(|x| qf(*x.numer() as i64, *x.denom() as i64)).collect(),
            );
            ensure!(p == op, "{:?} is parsed as {}, it means {}", text, op_text(&p), op_text(&op));
            ensure!(rest.is_empty(), "parsing {:?} leaves {:?}", text, rest);
        }
    }
    let c = CoordinateMap::<Q, World, Prim>::from_string(&text);
    match (c, op_inverse(&op)) {
        (None, None) => cx.count("singular operators"),
        (None, Some(_)) => fail!("the coordinate change {:?} is rejected", text),
        (Some(_), None) => fail!("the singular coordinate change {:?} is accepted", text),
        (Some(c), Some(inv)) => {
            ensure!(read_op(&c.forward()) == op, "coordinate change {:?} is read as {}", text, op_text(&read_op(&c.forward())));
            ensure!(read_op(&c.inverse().forward()) == inv, "inverse of the coordinate change {:?}", text);
            ensure!(c.is_identity() == (op == op_identity(d)), "is {:?} the identity? {}", text, c.is_identity());
            cx.count("coordinate changes");
        }
    }
    // how operators are printed can be seen in the entries of a table
    if cx.rng.chance(1, 4) {
        let id = ["x", "x,y", "x,y,z"][d - 1];
        let tr = op_inverse(&op).is_some() && cx.rng.bool();
        let table = if tr { format!("S {}\n {}\nlookup S Cubic P {}\n", text, id, text) } else { format!("S {}\n {}\n", id, text) };
        let Some(t) = parse_space_group_table(table.as_bytes()) else { fail!("the table {:?} is rejected", table) };
        let Some(e) = t.settings.get("S") else { fail!("the setting of the table {:?} is missing", table) };
        let (_, _, shown_tr, shown_ops) = shown_entry(&e.to_string())?;
        ensure!(shown_ops.len() == 1, "one operator is printed as {}", e);
        let printed = if tr { &shown_tr } else { &shown_ops[0] };
        ensure!(*printed == op, "the operator {} is printed as {}", op_text(&op), e);
        cx.count("printed operators");
        if tr {
            ensure!(t.lookup.len() == 1, "the lookup entry of the table {:?} is missing", table);
            let shown = shown_lookup(&t.lookup[0].to_string())?.3;
            ensure!(shown == op, "the coordinate change {} is printed as {}", op_text(&op), t.lookup[0]);
        }
    }
    cx.count(["plain notation", "spaced notation", "free notation"][style as usize]);
    if is_big(&op) { cx.count("nine digit numbers") }
    if op != op_identity(d) {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------- C06

fn parse_shown(what: &str, s: &str) -> Result<Op, Violation> {
    read_operator(s).ok_or_else(|| Violation::new(format!("{} is shown as {:?}", what, s)))
}

/// A table entry as it shows itself.
fn shown_entry(text: &str) -> Result<(String, String, Op, Vec<Op>), Violation> {
    let bad = |l: Option<&str>| Violation::new(format!("a setting shows itself with the line {:?}", l));
    let mut lines = text.lines();
    let l = lines.next();
    let name = l.and_then(|l| l.strip_prefix("Setting Name: ")).ok_or_else(|| bad(l))?.to_string();
    let l = lines.next();
    let canon = l.and_then(|l| l.strip_prefix("Group name: ")).ok_or_else(|| bad(l))?.to_string();
    let l = lines.next();
    let t = parse_shown("a transformation", l.and_then(|l| l.strip_prefix("Transform: ")).ok_or_else(|| bad(l))?)?;
    let l = lines.next();
    if l != Some("Operators:") {
        return Err(bad(l));
    }
    let mut ops = vec![];
    for l in lines {
        ops.push(parse_shown("an operator", l)?);
    }
    Ok((name, canon, t, ops))
}

fn shown_lookup(text: &str) -> Result<(String, String, String, Op), Violation> {
    let l: Vec<&str> = text.lines().collect();
    let bad = || Violation::new(format!("a lookup entry shows itself as {:?}", text));
    if l.len() != 4 {
        return Err(bad());
    }
    let get = |i: usize, p: &str| l[i].strip_prefix(p).map(|s| s.to_string()).ok_or_else(bad);
    Ok((get(0, "Lookup name: ")?, get(1, "Crystal system: ")?, get(2, "Centering: ")?,
        parse_shown("a transformation", &get(3, "Transform: ")?)?))
}

fn compare_tables(cx: &mut Ctx, t: &Tables, want: &RefTable) -> Res {
    let names: BTreeSet<&String> = t.settings.keys().collect();
    let wanted: BTreeSet<&String> = want.settings.keys().collect();
    if let Some(n) = wanted.difference(&names).next() {
        fail!("setting {} is missing", n);
    }
    if let Some(n) = names.difference(&wanted).next() {
        fail!("setting {} is not in the table", n);
    }
    for (n, (canon, tr, ops)) in &want.settings {
        let (a, b, c, d) = shown_entry(&t.settings[n].to_string())?;
        ensure!(a == *n, "setting {} is called {}", n, a);
        ensure!(b == *canon, "setting {} belongs to {} instead of {}", n, b, canon);
        ensure!(c == *tr, "setting {} has the transformation {} instead of {}", n, op_text(&c), op_text(tr));
        ensure!(d.len() == ops.len(), "setting {} has {} operators instead of {}", n, d.len(), ops.len());
        for (x, y) in d.iter().zip(ops) {
            ensure!(x == y, "setting {} has the operator {} instead of {}", n, op_text(x), op_text(y));
        }
        cx.add("operators compared", ops.len() as u64);
    }
    let alias: BTreeMap<String, String> = t.alias.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    ensure!(alias == want.alias, "aliases {:?} instead of {:?}", alias, want.alias);
    ensure!(t.lookup.len() == want.lookup.len(), "{} lookup entries instead of {}", t.lookup.len(), want.lookup.len());
    for (x, y) in t.lookup.iter().zip(&want.lookup) {
        let s = shown_lookup(&x.to_string())?;
        ensure!(s == *y, "lookup entry {:?} instead of {:?}", s, y);
    }
    for s in SYSTEMS {
        for c in CENTERINGS {
            let (sys, cen) = (CrystalSystem::from_string(s), Centering::from_string(c));
            let (Some(sys), Some(cen)) = (sys, cen) else { fail!("{} {} is unknown", s, c) };
            ensure!(sys.to_string() == s && cen.to_string() == c, "{} {} is shown as {} {}", s, c, sys, cen);
            let got: Vec<(String, Op)> = t.lookup_settings(sys, cen).into_iter()
                .map(|(n, m)| (n, read_op(&m.forward()))).collect();
            let exp: Vec<(String, Op)> = want.lookup.iter().filter(|l| l.1 == s && l.2 == c)
                .map(|l| (l.0.clone(), l.3.clone())).collect();
            ensure!(got == exp, "lookup of {} {} gives {:?} instead of {:?}", s, c, got, exp);
            cx.add("lookups compared", exp.len() as u64);
        }
    }
    Ok(())
}

fn table_op(cx: &mut Ctx, d: usize, invertible: bool) -> Op {
    loop {
        let m: QM = if cx.rng.chance(3, 4) {
            let pool = point_generators(d);
            to_q(cx.rng.pick(&pool))
        } else {
            (0..d).map(|_| (0..d).map(|_| qf(cx.rng.range(-2, 2), *cx.rng.pick(&[1, 1, 2, 3]))).collect()).collect()
        };
        if invertible && det(&m).is_zero() {
            continue;
        }
        let den = *cx.rng.pick(&[1, 2, 3, 4, 6, 8]);
        let t = (0..d).map(|_| if cx.rng.bool() { q(0) } else { qf(cx.rng.range(-den, den), den) }).collect();
        return (m, t);
    }
}

/// A random well-formed table and its text.
fn random_table(cx: &mut Ctx) -> String {
    let names = ["P1", "P-1", "p31m", "I41/amd:2", "R-3c:H", "F", "\u{fc}ber", "1", "x,y", "P1", "Fd-3m:1", "Ia-3d", "aliases", "lookup2"];
    let mut out = String::new();
    let nl = if cx.rng.chance(1, 5) { "\r\n" } else { "\n" };
    let n = 1 + cx.rng.usize(9);
    let mut blank = |cx: &mut Ctx, out: &mut String| {
        while cx.rng.chance(1, 4) {
            let c = *cx.rng.pick(&["", "   ", "\t", "# a comment", "#", "   # x,y,z", "#alias a b"]);
            out.push_str(c);
            out.push_str(nl);
        }
    };
    for _ in 0..n {
        blank(cx, &mut out);
        let d = 1 + cx.rng.usize(3);
        match cx.rng.usize(5) {
            0 => {
                let k = *cx.rng.pick(&["alias", "alias", "Alias", "ALIAS"]);
                out.push_str(&format!("{} {}{}{}", k, cx.rng.pick(&names), if cx.rng.bool() { "   " } else { "\t" }, cx.rng.pick(&names)));
                if cx.rng.chance(1, 8) {
                    out.push_str(" and more");
                }
                out.push_str(nl);
            }
            1 => {
                let k = *cx.rng.pick(&["lookup", "lookup", "Lookup", "LOOKUP"]);
                let mut s = cx.rng.pick(&SYSTEMS).to_string();
                if cx.rng.chance(1, 4) {
                    s = s.to_uppercase();
                }
                let c = *cx.rng.pick(&CENTERINGS);
                let op = table_op(cx, d, true);
                let style = cx.rng.below(2);
                let t = write_operator(cx, &op, style);
                out.push_str(&format!("{} {} {} {} {}{}", k, cx.rng.pick(&names), s, c, t, nl));
            }
            _ => {
                let op = if cx.rng.chance(1, 3) { op_identity(d) } else { table_op(cx, d, true) };
                let style = cx.rng.below(2);
                let t = write_operator(cx, &op, style);
                out.push_str(&format!("{} {}{}", cx.rng.pick(&names), t, nl));
                for _ in 0..cx.rng.usize(6) {
                    blank(cx, &mut out);
                    let op = table_op(cx, d, false);
                    let style = cx.rng.below(3);
                    let t = write_operator(cx, &op, style);
                    out.push_str(&format!(" {}{}", t, nl));
                }
            }
        }
    }
    if cx.rng.chance(1, 4) {
        // no end of line at the end of the file
        while out.ends_with('\n') || out.ends_with('\r') {
            out.pop();
        }
    }
    out
}

fn shipped() -> String {
    std::fs::read_to_string("/repo/src/data/sgtable.data").expect("inconclusive: the shipped table cannot be read")
}

fn c06(cx: &mut Ctx) -> Res {
    let text = if cx.case == 0 { shipped() } else { random_table(cx) };
    let want = match read_table(&text) {
        Reading::Table(t) => t,
        r if cx.case == 0 => fail!("the shipped table is not well-formed: {:?}", r),
        r => panic!("inconclusive: the monitor's own table reads as {:?}", r),
    };
    let mut input = Hostile::new(text.as_bytes(), &mut cx.rng);
    cx.describe(if cx.case == 0 { "the shipped table".into() } else { format!("table {:?}, {}", text, input.style()) });
    let Some(t) = parse_space_group_table(&mut input) else { fail!("the table is rejected") };
    cx.add("reads delivered", input.reads);
    compare_tables(cx, &t, &want)?;
    cx.add("settings compared", want.settings.len() as u64);
    cx.add("aliases compared", want.alias.len() as u64);
    if want.settings.len() + want.lookup.len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------------- C07

struct Shipped {
    table: RefTable,
    /// per setting the operators modulo integer translations
    groups: BTreeMap<String, HashSet<Op>>,
}

thread_local! {
    static SHIPPED: std::cell::OnceCell<Shipped> = std::cell::OnceCell::new();
}

/// What the library makes of the shipped table, as it shows itself.
fn load_shipped() -> Result<Shipped, Violation> {
    let Some(t) = parse_space_group_table(shipped().as_bytes()) else { fail!("the shipped table is rejected") };
    let mut r = RefTable::default();
    for (n, e) in &t.settings {
        let (_, canon, tr, ops) = shown_entry(&e.to_string())?;
        r.settings.insert(n.clone(), (canon, tr, ops));
    }
    for (a, b) in &t.alias {
        r.alias.insert(a.clone(), b.clone());
    }
    for l in &t.lookup {
        r.lookup.push(shown_lookup(&l.to_string())?);
    }
    let groups = r.settings.iter().map(|(n, s)| (n.clone(), s.2.iter().map(op_mod).collect())).collect();
    Ok(Shipped { table: r, groups })
}

fn unit_shifts(d: usize) -> Vec<Op> {
    identity(d).iter().map(|v| translation(v)).collect()
}

fn order_of(m: &QM) -> usize {
    let mut p = m.clone();
    for k in 1..=6 {
        if p == identity(m.len()) {
            return k;
        }
        p = mul(&p, m);
    }
    0
}

/// the crystal systems whose lookup may list a group with this point group
fn system_of(linear: &HashSet<QM>, d: usize) -> &'static str {
    // order of the rotation part of each operator
    let rot = |m: &QM| -> usize {
        if d % 2 == 1 && det(m).is_negative() {
            order_of(&m.iter().map(|r| r.iter().map(|x| -x).collect()).collect())
        } else {
            order_of(m)
        }
    };
    let count = |k: usize| linear.iter().filter(|m| (d == 3 || det(m).is_positive()) && rot(m) == k).count();
    if d == 2 {
        let mirrors = linear.iter().any(|m| det(m).is_negative());
        return if count(3) > 0 { "hexagonal" } else if count(4) > 0 { "square" }
            else if mirrors { "rectangular" } else { "oblique" };
    }
    let inv = linear.contains(&identity(3).iter().map(|r| r.iter().map(|x| -x).collect()).collect::<QM>());
    let f = if inv { 2 } else { 1 };
    if count(3) > 2 * f { "cubic" }
    else if count(6) > 0 { "hexagonal" }
    else if count(3) > 0 { "trigonal" }
    else if count(4) > 0 { "tetragonal" }
    else if count(2) / f >= 3 { "orthorhombic" }
    else if count(2) > 0 { "monoclinic" }
    else { "triclinic" }
}

fn c07(cx: &mut Ctx) -> Res {
    let fresh = SHIPPED.with(|s| s.get().is_none());
    if fresh {
        cx.describe("loading the shipped table");
        let t = load_shipped()?;
        SHIPPED.with(|s| { let _ = s.set(t); });
    }
    SHIPPED.with(|s| c07_item(cx, s.get().unwrap()))
}

fn c07_item(cx: &mut Ctx, sh: &Shipped) -> Res {
    let t = &sh.table;
    let mut i = cx.case as usize;
    if i == 0 {
        cx.describe("the list of groups in the shipped table");
        let mut dims: BTreeMap<usize, BTreeSet<&String>> = BTreeMap::new();
        for (_, (canon, tr, _)) in &t.settings {
            dims.entry(tr.1.len()).or_default().insert(canon);
        }
        let count = |d: usize| dims.get(&d).map_or(0, |s| s.len());
        ensure!(count(1) == 2 && count(2) == 17 && count(3) == 230,
            "{} line groups, {} plane groups, {} space groups", count(1), count(2), count(3));
        let looked: BTreeSet<&String> = t.lookup.iter().map(|l| &l.0).collect();
        for d in [2, 3] {
            for c in &dims[&d] {
                ensure!(looked.contains(c), "group {} cannot be looked up", c);
            }
        }
        ensure!(looked.len() == t.lookup.len(), "a group is listed twice for lookup");
        cx.nontrivial();
        return Ok(());
    }
    i -= 1;
    if i < t.settings.len() {
        let (name, (canon, tr, ops)) = t.settings.iter().nth(i).unwrap();
        cx.describe(format!("setting {}", name));
        let d = tr.1.len();
        let g = &sh.groups[name];
        ensure!(ops.iter().all(|o| o.1.len() == d), "operators of mixed dimensions");
        ensure!(g.len() == ops.len(), "an operator is listed twice");
        ensure!(g.contains(&op_identity(d)), "no identity");
        for o in ops {
            ensure!(o.0.iter().flatten().all(is_int) && det(&o.0).abs().is_one(), "operator {} does not respect the lattice", op_text(o));
        }
        // closed: products of every operator with a generating subset
        let mut gens: Vec<Op> = vec![];
        let mut have: HashSet<Op> = [op_identity(d)].into_iter().collect();
        for o in g {
            if !have.contains(o) {
                gens.push(o.clone());
                match closure(&gens, g.len()) {
                    Some(c) => have = c.into_iter().collect(),
                    None => fail!("the operators are not closed under multiplication"),
                }
            }
        }
        ensure!(have == *g, "the operators are not closed under multiplication");
        cx.add("operators verified", g.len() as u64);
        // related to the group's own setting by the transformation
        let Some((_, ctr, cops)) = t.settings.get(canon) else { fail!("its group {} is not listed", canon) };
        ensure!(*ctr == op_identity(d), "its group {} is not given in its own setting", canon);
        let cg = &sh.groups[canon];
        let Some(ti) = op_inverse(tr) else { fail!("singular transformation") };
        for o in cops.iter().chain(&unit_shifts(d)) {
            let x = op_mod(&compose(&compose(&ti, o), tr));
            ensure!(g.contains(&x), "operator {} of {} becomes {}, which is not listed", op_text(o), canon, op_text(&x));
        }
        for o in ops.iter().chain(&unit_shifts(d)) {
            let x = op_mod(&compose(&compose(tr, o), &ti));
            ensure!(cg.contains(&x), "operator {} becomes {}, which is not in {}", op_text(o), op_text(&x), canon);
        }
        cx.count("settings verified");
        cx.nontrivial();
        return Ok(());
    }
    i -= t.settings.len();
    if i < t.alias.len() {
        let (a, b) = t.alias.iter().nth(i).unwrap();
        cx.describe(format!("alias {} of {}", a, b));
        ensure!(!t.settings.contains_key(a), "the alias hides the setting {}", a);
        let stem = format!("{}:", b);
        ensure!(t.settings.contains_key(b) || t.settings.keys().any(|k| k.starts_with(&stem)), "it stands for nothing");
        cx.count("aliases verified");
        cx.nontrivial();
        return Ok(());
    }
    i -= t.alias.len();
    if i < t.lookup.len() {
        let (name, system, cent, tr) = &t.lookup[i];
        cx.describe(format!("lookup entry {} {} {}", name, system, cent));
        let Some((_, _, ops)) = t.settings.get(name) else { fail!("it stands for no setting") };
        let d = tr.1.len();
        let Some(ti) = op_inverse(tr) else { fail!("singular transformation") };
        let moved: Vec<Op> = ops.iter().chain(&unit_shifts(d)).map(|o| compose(&compose(tr, o), &ti)).collect();
        ensure!(moved.iter().all(|o| o.0.iter().flatten().all(is_int)), "the transformed operators do not respect the lattice");
        let gens: Vec<Op> = moved.iter().filter(|o| o.0 == identity(d)).cloned().collect();
        let h = qf(1, 2);
        let o = q(0);
        let want: Vec<Vec<Q>> = match cent.as_str() {
            "p" | "P" => vec![],
            "c" => vec![vec![h.clone(), h]],
            "F" => vec![vec![o.clone(), h.clone(), h.clone()], vec![h.clone(), o.clone(), h.clone()], vec![h.clone(), h, o]],
            "I" => vec![vec![h.clone(), h.clone(), h]],
            "A" => vec![vec![o, h.clone(), h]],
            "B" => vec![vec![h.clone(), o, h]],
            "C" => vec![vec![h.clone(), h, o]],
            _ => vec![vec![qf(2, 3), qf(1, 3), qf(1, 3)], vec![qf(1, 3), qf(2, 3), qf(2, 3)]],
        };
        ensure!(want.iter().all(|v| v.len() == d), "centering of another dimension");
        let mut want: HashSet<Op> = want.iter().map(|v| translation(v)).collect();
        want.insert(op_identity(d));
        let got: HashSet<Op> = closure(&gens, 16).unwrap_or_default().into_iter().collect();
        ensure!(got == want, "the lattice has {} centring translations, not those of {}", got.len(), cent);
        let linear: HashSet<QM> = ops.iter().map(|o| o.0.clone()).collect();
        let sys = system_of(&linear, d);
        ensure!(sys == system, "it is listed as {}, the group is {}", system, sys);
        // unit cell metric of the system: invariant metrics must include the
        // conventional ones of the crystal system
        let conv: Vec<QM> = match system.as_str() {
            "cubic" => vec![identity(3)],
            "hexagonal" | "trigonal" if d == 3 => vec![to_q(&[vec![2, -1, 0], vec![-1, 2, 0], vec![0, 0, 3]]), to_q(&[vec![2, -1, 0], vec![-1, 2, 0], vec![0, 0, 7]])],
            "hexagonal" => vec![to_q(&[vec![2, -1], vec![-1, 2]])],
            "tetragonal" => vec![to_q(&[vec![1, 0, 0], vec![0, 1, 0], vec![0, 0, 3]])],
            "orthorhombic" => vec![to_q(&[vec![1, 0, 0], vec![0, 2, 0], vec![0, 0, 5]])],
            "square" => vec![identity(2)],
            "rectangular" => vec![to_q(&[vec![1, 0], vec![0, 3]])],
            _ => vec![],
        };
        for gm in &conv {
            for o in &moved {
                ensure!(mul(&mul(&transpose(&o.0), gm), &o.0) == *gm, "transformed operator {} is no symmetry of a {} cell", op_text(o), system);
            }
        }
        cx.count("lookup entries verified");
        cx.nontrivial();
        return Ok(());
    }
    Ok(())
}

// ------------------------------------------------------------------- C08

fn mangle(cx: &mut Ctx, text: &str, alphabet: &[&str]) -> String {
    let mut s: Vec<char> = text.chars().collect();
    for _ in 0..1 + cx.rng.usize(4).min(cx.rng.usize(4)) {
        let n = s.len();
        match cx.rng.usize(7) {
            0 if n > 0 => { let i = cx.rng.usize(n); s.remove(i); }
            1 if n > 0 => { let i = cx.rng.usize(n); s.truncate(i); }
            2 if n > 1 => { let (i, j) = (cx.rng.usize(n), cx.rng.usize(n)); s.swap(i, j); }
            3 if n > 0 => {
                let i = cx.rng.usize(n);
                let j = (i + 1 + cx.rng.usize(6)).min(n);
                let part: Vec<char> = s[i..j].to_vec();
                let k = cx.rng.usize(n + 1);
                for c in part.into_iter().rev() {
                    s.insert(k, c);
                }
            }
            4 if n > 0 => {
                let i = cx.rng.usize(n);
                let c: Vec<char> = cx.rng.pick(alphabet).chars().collect();
                s.splice(i..i + 1, c);
            }
            _ => {
                let i = cx.rng.usize(n + 1);
                let c: Vec<char> = cx.rng.pick(alphabet).chars().collect();
                s.splice(i..i, c);
            }
        }
    }
    s.into_iter().collect()
}

const OP_BITS: [&str; 34] = ["x", "y", "z", ",", "+", "-", "*", "/", "0", "1", "2", "7", "/0", " 1/0 ", "x,", "w", "X", " ", "\t", "\n", "\u{e9}",
    "\u{221e}", "\u{a0}", "999999999", "2147483648", "4294967296", "99999999999999999999", "1/3", "1.5", "1e3", "(", ";", ",x,y,z", "\0"];

fn check_operator_text(cx: &mut Ctx, text: &str) -> Res {
    let want = read_operator(text);
    if let Some(a) = AffineMap::<Q, World>::from_string(text) {
        match &want {
            None => fail!("{:?} is no operator, it is read as {}", text, op_text(&read_op(&a))),
            Some(w) => ensure!(read_op(&a) == *w, "{:?} is read as {}, it means {}", text, op_text(&read_op(&a)), op_text(w)),
        }
        cx.count("texts accepted");
    } else {
        cx.count("texts rejected");
    }
    if let Some(c) = CoordinateMap::<Q, World, Prim>::from_string(text) {
        match &want {
            None => fail!("{:?} is no coordinate change, it is read as {}", text, op_text(&read_op(&c.forward()))),
            Some(w) => {
                ensure!(read_op(&c.forward()) == *w, "{:?} is read as {}, it means {}", text, op_text(&read_op(&c.forward())), op_text(w));
                ensure!(op_inverse(w).is_some(), "the singular coordinate change {:?} is accepted", text);
            }
        }
    }
    if let Ok((rest, (rows, shift))) = parse_operator(text) {
        ensure!(text.ends_with(rest), "parsing {:?} leaves {:?}", text, rest);
        let used = &text[..text.len() - rest.len()];
        let p: Op = (
            rows.iter().map(|r| r.iter().map(|x| qf(*x.numer() as i64, *x.denom() as i64)).collect()).collect(),
            shift.iter().map(|x| qf(*x.numer() as i64, *x.denom() as i64)).collect(),
        );
        ensure!(read_operator(used).as_ref() == Some(&p), "{:?} is parsed as {}", used, op_text(&p));
    }
    Ok(())
}

fn c08(cx: &mut Ctx) -> Res {
    match cx.rng.usize(4) {
        0 => {
            // operator strings
            let text = if cx.rng.chance(1, 4) {
                (0..cx.rng.usize(12)).map(|_| *cx.rng.pick(&OP_BITS)).collect::<String>()
            } else {
                let d = 1 + cx.rng.usize(3);
                let op = random_op(cx, d, false);
                let style = cx.rng.below(3);
                let t = write_operator(cx, &op, style);
                mangle(cx, &t, &OP_BITS)
            };
            cx.describe(format!("operator {:?}", text));
            check_operator_text(cx, &text)?;
            cx.count("operator strings");
            cx.nontrivial();
        }
        1 => {
            // mangled tables
            let bits = ["alias", "lookup", " ", "\n", "\n ", "\n\n", "x,y,z", "#", "alias a\n", "lookup a\n", "lookup a cubic P\n", "P1\n", " x,y,z\n",
                "cubic", "P", "p", "\t", "\r", "\u{2003}", "0,0,0", "x,x,z", "-", ",", "1/0", "99999999999", "lookup A cubic Q x,y,z\n", "lookup A cube P x,y,z\n",
                "S x,y,x\n", "\u{feff}"];
            let text = {
                let t = random_table(cx);
                if cx.rng.chance(1, 3) {
                    // a single line, damaged inside its operator
                    let lines: Vec<&str> = t.lines().filter(|l| l.contains(',')).collect();
                    if lines.is_empty() { t } else {
                        let l = cx.rng.pick(&lines).to_string();
                        let at = l.find(',').unwrap_or(0).saturating_sub(6);
                        let at = (at..l.len()).find(|i| l.is_char_boundary(*i)).unwrap_or(0);
                        let tail = mangle(cx, &l[at..], &OP_BITS);
                        format!("{}{}{}\n", if l.starts_with(' ') { "S x,y,z\n" } else { "" }, &l[..at], tail)
                    }
                } else {
                    mangle(cx, &t, &bits)
                }
            };
            let mut input = Hostile::new(text.as_bytes(), &mut cx.rng);
            cx.describe(format!("table {:?}, {}", text, input.style()));
            let got = parse_space_group_table(&mut input);
            match (read_table(&text), got) {
                (Reading::Malformed(w), Some(_)) => fail!("the table is accepted: {}", w),
                (Reading::Malformed(_), None) => cx.count("malformed tables rejected"),
                (Reading::Table(w), Some(t)) => {
                    compare_tables(cx, &t, &w)?;
                    cx.count("still well-formed tables compared");
                }
                // numbers too large to be represented, odd spacing
                (Reading::Table(_), None) => cx.count("tables rejected for notation"),
                (Reading::Unclear(_), _) => cx.count("ambiguous tables"),
            }
            cx.nontrivial();
        }
        2 => {
            // arbitrary bytes in tables: undecodable text is rejected
            let text = random_table(cx);
            let mut bytes = text.into_bytes();
            for _ in 0..1 + cx.rng.usize(3) {
                let i = cx.rng.usize(bytes.len() + 1);
                bytes.insert(i, cx.rng.below(256) as u8);
            }
            let mut input = Hostile::new(&bytes, &mut cx.rng);
            cx.describe(format!("table {:?}, {}", String::from_utf8_lossy(&bytes), input.style()));
            let got = parse_space_group_table(&mut input);
            match std::str::from_utf8(&bytes) {
                Err(_) => {
                    ensure!(got.is_none(), "a table that is not text is accepted");
                    cx.count("undecodable tables rejected");
                }
                Ok(s) => match (read_table(s), got) {
                    (Reading::Malformed(w), Some(_)) => fail!("the table is accepted: {}", w),
                    (Reading::Table(w), Some(t)) => compare_tables(cx, &t, &w)?,
                    _ => {}
                },
            }
            cx.nontrivial();
        }
        _ => {
            // a reader that fails: no partial table is taken for a whole one
            let text = random_table(cx);
            let at = cx.rng.usize(text.len() + 1);
            let kind = *cx.rng.pick(&[ErrorKind::UnexpectedEof, ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::InvalidData]);
            let persistent = cx.rng.bool();
            let mut input = Hostile::new(text.as_bytes(), &mut cx.rng).failing(at, kind, persistent);
            cx.describe(format!("table {:?}, {}", text, input.style()));
            let got = parse_space_group_table(&mut input);
            ensure!(got.is_none(), "a table is returned although reading failed");
            cx.count("failed reads reported");
            cx.nontrivial();
        }
    }
    Ok(())
}

fn main() {
    let _ = q(1).to_i64();
    main_with(&[
        Prop {
            id: "C01",
            rule: "1 to 5 random generators in dimension 1 to 3: integer matrices from crystallographic point groups in random lattice bases with rational shifts (positive, negative, larger than 1) and centring translations, groups of up to 250 (thorough 600) operators; oracle: independent closure modulo integer translations; non-trivial: more than two operators",
            quick: 3000, thorough: 60000, run: c01,
            need: &[("regenerated", 500), ("generators with negative shifts", 300), ("groups of more than 48 operators", 100)],
            assumptions: &["generators whose linear parts are integral and generate a finite group, as the function requires to terminate"],
        },
        Prop {
            id: "C02",
            rule: "complete operator lists of random groups as in C01, in generated or random order, with and without centring translations; cell compared by Hermite normal form, operators with an independent transformation; non-trivial: a centred setting",
            quick: 2400, thorough: 60000, run: c02,
            need: &[("centred settings", 600), ("primitive settings", 200)],
            assumptions: &["the list given is a complete group modulo integer translations", "read through the guarded accessor"],
        },
        Prop {
            id: "C03",
            rule: "generators, whole groups, arbitrary rational maps and pure translations in dimension 1 to 3; every returned metric and shift is substituted, and the number of independent ones is compared with an independent rank computation; non-trivial: the metrics form a proper non-zero subspace",
            quick: 8000, thorough: 400000, run: c03,
            need: &[("metrics verified", 3000), ("shifts verified", 1000), ("no invariant shift", 200), ("pure translations", 200), ("whole groups", 200)],
            assumptions: &[],
        },
        Prop {
            id: "C04",
            rule: "the 13 arithmetic types of plane point groups in random rational coordinate systems and random order, a third with each operator listed several times as in centred groups, and random operators of finite order in dimension 1 to 3; basis checked against the group's invariant metric and mirrors, sense of rotation against determinants; non-trivial: every case",
            quick: 60000, thorough: 3000000, run: c04,
            need: &[("groups with mirrors", 1000), ("linear parts of centred groups", 1000), ("axes verified", 500), ("senses of rotation verified", 300)],
            assumptions: &["read through guarded functions"],
        },
        Prop {
            id: "C05",
            rule: "random 1- to 3-dimensional operators (up to nine digit fractions) written in plain, spaced and free notation (split, repeated, zero and permuted terms, unreduced fractions, explicit signs, tabs), read back by three entry points and compared exactly; one in eight damaged, and then refused or read as what is left; non-trivial: not the identity",
            quick: 200000, thorough: 10000000, run: c05,
            need: &[("coordinate changes", 3000), ("singular operators", 200), ("free notation", 1000), ("nine digit numbers", 300), ("printed operators", 2000), ("damaged texts", 5000)],
            assumptions: &[],
        },
        Prop {
            id: "C06",
            rule: "the shipped table and random well-formed tables (comments, blank lines, CRLF, missing final end of line, repeated names, mixed case keywords, non-ASCII names) delivered in small chunks with interrupted reads; settings, aliases, lookup entries and lookups compared with an independent reader; non-trivial: more than one setting or lookup entry",
            quick: 30000, thorough: 1500000, run: c06,
            need: &[("operators compared", 8000), ("lookups compared", 500), ("aliases compared", 500)],
            assumptions: &["settings are observed through their printed form"],
        },
        Prop {
            id: "C07",
            rule: "every setting, alias and lookup entry of the shipped table as the library loads it: group axioms, conjugacy to the group's own setting in both directions, centring, crystal system and cell metric; 2, 17 and 230 groups; non-trivial: every entry",
            quick: 1000, thorough: 1000, run: c07,
            need: &[("settings verified", 549), ("lookup entries verified", 247), ("aliases verified", 50)],
            assumptions: &["that listed groups are pairwise inequivalent is not decided"],
        },
        Prop {
            id: "C08",
            rule: "mangled and random operator strings, mangled tables, tables with arbitrary bytes and readers that fail at any position once or for good, delivered in small chunks; oracle: a liberal independent reader says what the text can mean at most; non-trivial: every case",
            quick: 150000, thorough: 8000000, run: c08,
            need: &[("texts rejected", 1000), ("texts accepted", 100), ("malformed tables rejected", 500), ("undecodable tables rejected", 300), ("failed reads reported", 1000)],
            assumptions: &["a text that a liberal reader can understand may still be rejected"],
        },
    ]);
}
