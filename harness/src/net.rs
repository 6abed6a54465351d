//! Reference model of periodic nets plus generators; independent of the crate
//! except for the two conversion functions at the end.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::ops::{Add, Neg, Sub};

use num_bigint::BigInt;
use num_traits::{ToPrimitive, Zero};

use crate::core::Rng;
use crate::exact::*;

use rust_systre::pgraphs::{Edge, Graph, LabelVector, LabelVector2d, LabelVector3d};

#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct W {}
pub type L2 = LabelVector2d<W>;
pub type L3 = LabelVector3d<W>;

pub trait Label: LabelVector<W> + Display + Debug + Hash + 'static {}
impl Label for L2 {}
impl Label for L3 {}

/// Labels of any dimension: the trait is public, so nets need not have two or
/// three dimensions.
#[derive(Clone, Copy, Debug, Eq, PartialEq, Hash, Ord, PartialOrd)]
pub struct Ln<const D: usize>([i32; D]);
pub type L1 = Ln<1>;
pub type L4 = Ln<4>;
impl Label for L1 {}
impl Label for L4 {}

impl<const D: usize> LabelVector<W> for Ln<D> {
    fn dim() -> usize {
        D
    }
    fn zero() -> Self {
        Ln([0; D])
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; D]
    }
    fn is_negative(&self) -> bool {
        self.0 < [0; D]
    }
    fn is_positive(&self) -> bool {
        self.0 > [0; D]
    }
    fn to_vec(&self) -> Vec<i32> {
        self.0.to_vec()
    }
    fn from_vec(v: &[i32]) -> Self {
        Ln(v.try_into().expect("wrong length"))
    }
}

impl<const D: usize> Neg for Ln<D> {
    type Output = Self;
    fn neg(self) -> Self {
        Ln(self.0.map(|x| -x))
    }
}

impl<const D: usize> Add for Ln<D> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Ln(std::array::from_fn(|i| self.0[i] + o.0[i]))
    }
}

impl<const D: usize> Sub for Ln<D> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Ln(std::array::from_fn(|i| self.0[i] - o.0[i]))
    }
}

impl<const D: usize> Display for Ln<D> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({})", self.0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
    }
}

/// The dimension a case is about: mostly two or three, sometimes one or four.
pub fn case_dim(case: u64) -> usize {
    match (case / 2) % 12 {
        5 => 1 + 3 * (case % 2) as usize,
        _ => 2 + (case % 2) as usize,
    }
}

#[macro_export]
macro_rules! with_dim {
    ($cx:expr, $f:ident) => {
        match $crate::net::case_dim($cx.case) {
            1 => { $cx.count("dimension_1"); $f::<$crate::net::L1>($cx) }
            2 => $f::<$crate::net::L2>($cx),
            3 => $f::<$crate::net::L3>($cx),
            _ => { $cx.count("dimension_4"); $f::<$crate::net::L4>($cx) }
        }
    };
}

pub type Raw = (u32, u32, Vec<i64>);

/// A labelled quotient graph given by undirected edges.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Net {
    pub d: usize,
    pub edges: Vec<Raw>,
}

pub fn neg_raw(e: &Raw) -> Raw {
    (e.1, e.0, e.2.iter().map(|x| -x).collect())
}

pub fn canon(e: &Raw) -> Raw {
    let n = neg_raw(e);
    if e.0 < e.1 {
        e.clone()
    } else if e.0 > e.1 {
        n
    } else if e.2 >= n.2 {
        e.clone()
    } else {
        n
    }
}

impl Net {
    pub fn new(d: usize, edges: Vec<Raw>) -> Net {
        let mut s: Vec<Raw> = edges.iter().map(canon).collect::<BTreeSet<_>>()
            .into_iter().collect();
        s.sort();
        Net { d, edges: s }
    }

    pub fn verts(&self) -> Vec<u32> {
        self.edges.iter().flat_map(|e| [e.0, e.1]).collect::<BTreeSet<_>>()
            .into_iter().collect()
    }

    /// Darts (directed edges) by head vertex; loops give two darts.
    pub fn darts(&self) -> BTreeMap<u32, Vec<Raw>> {
        let mut m: BTreeMap<u32, Vec<Raw>> = BTreeMap::new();
        for e in &self.edges {
            m.entry(e.0).or_default().push(e.clone());
            let n = neg_raw(e);
            m.entry(n.0).or_default().push(n);
        }
        m
    }

    pub fn has_zero_loop(&self) -> bool {
        self.edges.iter().any(|e| e.0 == e.1 && e.2.iter().all(|x| *x == 0))
    }

    /// (vertices, generators of the cycle lattice) of the component of v.
    pub fn component(&self, v: u32) -> (BTreeSet<u32>, Vec<Vec<i64>>) {
        let darts = self.darts();
        let mut pos: BTreeMap<u32, Vec<i64>> = BTreeMap::new();
        pos.insert(v, vec![0; self.d]);
        let mut stack = vec![v];
        let mut cycles = vec![];
        while let Some(u) = stack.pop() {
            let pu = pos[&u].clone();
            for (_, w, s) in darts.get(&u).map(|x| x.as_slice()).unwrap_or(&[]) {
                let t: Vec<i64> = pu.iter().zip(s).map(|(a, b)| a + b).collect();
                if let Some(pw) = pos.get(w) {
                    let c: Vec<i64> = t.iter().zip(pw).map(|(a, b)| a - b).collect();
                    if c.iter().any(|x| *x != 0) {
                        cycles.push(c);
                    }
                } else {
                    pos.insert(*w, t);
                    stack.push(*w);
                }
            }
        }
        (pos.keys().cloned().collect(), cycles)
    }

    /// (size, rank, index or None)
    pub fn measures(&self, v: u32) -> (usize, usize, Option<BigInt>) {
        let (vs, cyc) = self.component(v);
        let zs = to_z(&cyc);
        let (h, piv) = hnf(&zs);
        let _ = h;
        let idx = index(&zs, self.d);
        (vs.len(), piv.len(), idx)
    }

    pub fn quotient_connected(&self) -> bool {
        let vs = self.verts();
        vs.is_empty() || self.component(vs[0]).0.len() == vs.len()
    }

    pub fn connected(&self) -> bool {
        let vs = self.verts();
        if vs.is_empty() {
            return true;
        }
        let (n, _, m) = self.measures(vs[0]);
        n == vs.len() && m == Some(z(1))
    }

    /// Shell sizes 1..=n of the infinite net around (v, 0).
    pub fn shells(&self, v: u32, n: usize) -> Vec<usize> {
        let darts = self.darts();
        let mut seen: HashSet<(u32, Vec<i64>)> = HashSet::new();
        seen.insert((v, vec![0; self.d]));
        let mut cur = vec![(v, vec![0i64; self.d])];
        let mut out = vec![];
        for _ in 0..n {
            let mut next = vec![];
            for (u, p) in &cur {
                for (_, w, s) in darts.get(u).map(|x| x.as_slice()).unwrap_or(&[]) {
                    let t: Vec<i64> = p.iter().zip(s).map(|(a, b)| a + b).collect();
                    if seen.insert((*w, t.clone())) {
                        next.push((*w, t));
                    }
                }
            }
            out.push(next.len());
            cur = next;
        }
        out
    }

    /// Barycentric positions with the smallest vertex at the origin (the
    /// quotient graph must be connected).
    pub fn positions(&self) -> BTreeMap<u32, Vec<Q>> {
        let vs = self.verts();
        let darts = self.darts();
        let idx: HashMap<u32, usize> = vs.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let n = vs.len();
        let mut a = vec![vec![Q::zero(); n + self.d]; n];
        a[0][0] = q(1);
        for i in 1..n {
            for (_, w, s) in &darts[&vs[i]] {
                let j = idx[w];
                a[i][j] -= q(1);
                a[i][i] += q(1);
                for k in 0..self.d {
                    a[i][n + k] += q(s[k]);
                }
            }
        }
        let (e, piv) = rref(&a);
        assert_eq!(piv, (0..n).collect::<Vec<_>>());
        vs.iter().enumerate().map(|(i, v)| (*v, e[i][n..].to_vec())).collect()
    }

    pub fn vectors(&self, pos: &BTreeMap<u32, Vec<Q>>) -> BTreeMap<u32, Vec<(Raw, Vec<Q>)>> {
        self.darts().into_iter().map(|(v, ds)| {
            (v, ds.into_iter().map(|e| {
                let dv = edge_vec(&e, pos);
                (e, dv)
            }).collect())
        }).collect()
    }

    pub fn stable(&self, pos: &BTreeMap<u32, Vec<Q>>) -> bool {
        let set: HashSet<Vec<Q>> = pos.values().map(|p| frac_vec(p)).collect();
        set.len() == pos.len()
    }

    pub fn locally_stable(&self, pos: &BTreeMap<u32, Vec<Q>>) -> bool {
        self.vectors(pos).values().all(|ds| {
            let s: HashSet<&Vec<Q>> = ds.iter().map(|x| &x.1).collect();
            s.len() == ds.len()
        })
    }

    pub fn show(&self) -> String {
        let es: Vec<String> = self.edges.iter()
            .map(|(u, v, s)| format!("{}-{}{:?}", u, v, s).replace(' ', ""))
            .collect();
        format!("{}d {}", self.d, es.join(" "))
    }

    // ------------------------------------------------------ presentations

    pub fn relabel<F: Fn(u32) -> u32>(&self, f: F) -> Net {
        Net::new(self.d, self.edges.iter().map(|(u, v, s)| (f(*u), f(*v), s.clone())).collect())
    }

    /// New coordinates s' = m s for integer m (rows).
    pub fn basis_change(&self, m: &[Vec<i64>]) -> Net {
        Net::new(self.d, self.edges.iter().map(|(u, v, s)| {
            (*u, *v, m.iter().map(|r| r.iter().zip(s).map(|(a, b)| a * b).sum()).collect())
        }).collect())
    }

    pub fn offset(&self, o: &BTreeMap<u32, Vec<i64>>) -> Net {
        Net::new(self.d, self.edges.iter().map(|(u, v, s)| {
            (*u, *v, (0..self.d).map(|k| s[k] + o[u][k] - o[v][k]).collect())
        }).collect())
    }

    /// The same net over the sublattice spanned by the rows of h (Hermite
    /// form, full rank): coset representatives become vertices.
    pub fn supercell(&self, h: &[Vec<i64>]) -> Net {
        let d = self.d;
        let hm = to_q(h);
        let hinv = inverse(&hm).expect("full rank");
        // x = c * H + r  with r reduced against the Hermite rows
        let reduce = |x: &[i64]| -> (Vec<i64>, Vec<i64>) {
            let mut r = x.to_vec();
            let mut c = vec![0i64; d];
            for i in 0..d {
                let f = r[i].div_euclid(h[i][i]);
                for k in 0..d {
                    r[k] -= f * h[i][k];
                }
                c[i] = f;
            }
            (r, c)
        };
        let _ = hinv;
        let mut reps: Vec<Vec<i64>> = vec![vec![]];
        for i in 0..d {
            let mut nx = vec![];
            for r in &reps {
                for x in 0..h[i][i] {
                    let mut t = r.clone();
                    t.push(x);
                    nx.push(t);
                }
            }
            reps = nx;
        }
        let n = reps.len() as u32;
        let id: HashMap<Vec<i64>, u32> = reps.iter().enumerate()
            .map(|(i, r)| (r.clone(), i as u32)).collect();
        let vs = self.verts();
        let vi: HashMap<u32, u32> = vs.iter().enumerate().map(|(i, v)| (*v, i as u32)).collect();
        let mut edges = vec![];
        for (u, v, s) in &self.edges {
            for r in &reps {
                let t: Vec<i64> = r.iter().zip(s).map(|(a, b)| a + b).collect();
                let (r2, c) = reduce(&t);
                edges.push((vi[u] * n + id[r] + 1, vi[v] * n + id[&r2] + 1, c));
            }
        }
        Net::new(d, edges)
    }

    pub fn to_raw_shuffled(&self, rng: &mut Rng, dups: bool) -> Vec<Raw> {
        let mut out = vec![];
        for e in &self.edges {
            out.push(if rng.bool() { neg_raw(e) } else { e.clone() });
            if dups {
                while rng.chance(1, 4) {
                    out.push(if rng.bool() { neg_raw(e) } else { e.clone() });
                }
            }
        }
        rng.shuffle(&mut out);
        out
    }
}

pub fn edge_vec(e: &Raw, pos: &BTreeMap<u32, Vec<Q>>) -> Vec<Q> {
    let (u, v, s) = e;
    (0..s.len()).map(|k| &pos[v][k] + q(s[k]) - &pos[u][k]).collect()
}

// ---------------------------------------------------------------- bridging

pub fn to_edge<T: Label>(e: &Raw) -> Edge<T, W> {
    let s: Vec<i32> = e.2.iter().map(|x| i32::try_from(*x).expect("i32")).collect();
    Edge::new(e.0, e.1, T::from_vec(&s))
}

pub fn from_edge<T: Label>(e: &Edge<T, W>) -> Raw {
    (e.head, e.tail, e.shift.to_vec().iter().map(|x| *x as i64).collect())
}

pub fn build<T: Label>(raw: &[Raw]) -> Graph<T, W> {
    let es: Vec<_> = raw.iter().map(to_edge::<T>).collect();
    Graph::new(&es)
}

pub fn read_back<T: Label>(g: &Graph<T, W>) -> Net {
    let es: Vec<Raw> = g.directed_edges().iter().map(from_edge::<T>).collect();
    Net::new(T::dim(), es)
}

pub fn to_i64(x: &Q) -> Option<i64> {
    if x.is_integer() { x.to_integer().to_i64() } else { None }
}

// -------------------------------------------------------------- generators

pub fn random_unimodular(rng: &mut Rng, d: usize, steps: usize, cap: i64) -> Vec<Vec<i64>> {
    let mut m: Vec<Vec<i64>> = (0..d).map(|i| (0..d).map(|j| (i == j) as i64).collect()).collect();
    for _ in 0..steps {
        let mut t = m.clone();
        match if d == 1 { 1 } else { rng.below(4) } {
            0 => {
                let i = rng.usize(d);
                let j = (i + 1 + rng.usize(d - 1)) % d;
                t.swap(i, j);
            }
            1 => {
                let i = rng.usize(d);
                for x in t[i].iter_mut() {
                    *x = -*x;
                }
            }
            _ => {
                let i = rng.usize(d);
                let j = (i + 1 + rng.usize(d - 1)) % d;
                let f = if rng.chance(1, 3) { rng.range(-3, 3) } else if rng.bool() { 1 } else { -1 };
                for k in 0..d {
                    t[i][k] += f * m[j][k];
                }
            }
        }
        if t.iter().flatten().all(|x| x.abs() <= cap) {
            m = t;
        }
    }
    m
}

/// Random Hermite basis of a sublattice of the given index.
pub fn random_sublattice(rng: &mut Rng, d: usize, index: i64) -> Vec<Vec<i64>> {
    let mut diag = vec![1i64; d];
    let mut n = index;
    let mut p = 2;
    while n > 1 {
        while n % p == 0 {
            diag[rng.usize(d)] *= p;
            n /= p;
        }
        p += 1;
    }
    (0..d).map(|i| (0..d).map(|j| {
        if j < i { 0 } else if i == j { diag[i] } else { rng.range(0, diag[j] - 1) }
    }).collect()).collect()
}

pub fn random_ids(rng: &mut Rng, n: usize) -> Vec<u32> {
    match rng.below(4) {
        0 => (1..=n as u32).collect(),
        1 => {
            let mut v: Vec<u32> = (1..=n as u32).collect();
            rng.shuffle(&mut v);
            v
        }
        2 => {
            let mut s = BTreeSet::new();
            while s.len() < n {
                s.insert(rng.below(1000.max(3 * n as u64)) as u32);
            }
            let mut v: Vec<u32> = s.into_iter().collect();
            rng.shuffle(&mut v);
            v
        }
        _ => {
            let mut s = BTreeSet::new();
            while s.len() < n {
                s.insert(if rng.bool() { u32::MAX - rng.below(5000) as u32 } else { rng.next() as u32 });
            }
            let mut v: Vec<u32> = s.into_iter().collect();
            rng.shuffle(&mut v);
            v
        }
    }
}

/// Any multigraph: may be disconnected, of deficient rank, with loops.
pub fn random_graph(rng: &mut Rng, d: usize, nmax: usize, mag: i64) -> Net {
    loop {
        let n = 1 + rng.usize(nmax);
        let ids = random_ids(rng, n);
        let m = 1 + rng.usize(2 * n + 3);
        let deficient = rng.chance(1, 5);
        let coarse = rng.chance(1, 6);
        let mut edges = vec![];
        for _ in 0..m {
            let u = ids[rng.usize(n)];
            let v = ids[rng.usize(n)];
            let mut s: Vec<i64> = (0..d).map(|_| {
                if rng.chance(1, 3) { 0 } else { rng.range(-mag, mag) }
            }).collect();
            if deficient {
                s[d - 1] = 0;
            }
            if coarse {
                for x in s.iter_mut() {
                    *x *= 2;
                }
            }
            if u == v && s.iter().all(|x| *x == 0) {
                continue;
            }
            edges.push((u, v, s));
        }
        if !edges.is_empty() {
            return Net::new(d, edges);
        }
    }
}

/// In one draw of six adds loops with zero label, at old or new vertices.
pub fn with_zero_loops(rng: &mut Rng, net: Net) -> Net {
    if !rng.chance(1, 6) {
        return net;
    }
    let mut edges = net.edges.clone();
    let vs = net.verts();
    for _ in 0..1 + rng.usize(2) {
        let u = if rng.chance(1, 3) { rng.usize(50) as u32 } else { *rng.pick(&vs) };
        edges.push((u, u, vec![0; net.d]));
    }
    Net::new(net.d, edges)
}

/// A graph whose quotient is connected and whose net is d-periodic; `strict`
/// asks for a connected net as well.
pub fn random_connected(rng: &mut Rng, d: usize, nmax: usize, mag: i64, strict: bool) -> Net {
    loop {
        let n = 1 + rng.usize(nmax);
        let ids = random_ids(rng, n);
        let mut edges: Vec<Raw> = vec![];
        let shift = |rng: &mut Rng| -> Vec<i64> {
            (0..d).map(|_| if rng.chance(2, 5) { 0 } else { rng.range(-mag, mag) }).collect()
        };
        for i in 1..n {
            let j = rng.usize(i);
            edges.push((ids[j], ids[i], shift(rng)));
        }
        let extra = d + rng.usize(n + 2);
        for _ in 0..extra {
            let u = ids[rng.usize(n)];
            let v = ids[rng.usize(n)];
            let s = shift(rng);
            if u == v && s.iter().all(|x| *x == 0) {
                continue;
            }
            edges.push((u, v, s));
        }
        if edges.is_empty() {
            continue;
        }
        let g = Net::new(d, edges);
        let (_, r, idx) = g.measures(g.verts()[0]);
        if r == d && (!strict || idx == Some(z(1))) {
            return g;
        }
    }
}

/// Named nets: (name, dimension, edges).
pub fn catalog() -> Vec<(&'static str, Net)> {
    let n2 = |v: &[[i64; 4]]| Net::new(2, v.iter().map(|e| (e[0] as u32, e[1] as u32, vec![e[2], e[3]])).collect());
    let nn = |d: usize, v: &[&[i64]]| Net::new(d, v.iter().map(|e| (e[0] as u32, e[1] as u32, e[2..].to_vec())).collect());
    let n3 = |v: &[[i64; 5]]| Net::new(3, v.iter().map(|e| (e[0] as u32, e[1] as u32, vec![e[2], e[3], e[4]])).collect());
    vec![
        ("chain", nn(1, &[&[1, 1, 1]])),
        ("strip of triangles", nn(1, &[&[1, 1, 1], &[1, 1, 2]])),
        ("strip of squares", nn(1, &[&[1, 1, 1], &[2, 2, 1], &[1, 2, 0]])),
        ("comb", nn(1, &[&[1, 1, 1], &[1, 2, 0]])),
        ("chords", nn(1, &[&[1, 2, 0], &[1, 2, 1], &[1, 1, 1]])),
        ("long chords", nn(1, &[&[1, 1, 1], &[1, 1, 2], &[1, 1, 3]])),
        ("four-dimensional diamond", nn(4, &[&[1, 2, 0, 0, 0, 0], &[1, 2, 1, 0, 0, 0], &[1, 2, 0, 1, 0, 0],
            &[1, 2, 0, 0, 1, 0], &[1, 2, 0, 0, 0, 1]])),
        ("two squares crossed", nn(4, &[&[1, 1, 1, 0, 0, 0], &[1, 1, 0, 1, 0, 0], &[1, 2, 0, 0, 0, 0],
            &[2, 2, 0, 0, 1, 0], &[2, 2, 0, 0, 0, 1]])),
        ("four loops", nn(4, &[&[1, 1, 1, 0, 0, 0], &[1, 1, 0, 1, 0, 0], &[1, 1, 0, 0, 1, 0], &[1, 1, 0, 0, 0, 1]])),
        ("sql", n2(&[[1, 1, 1, 0], [1, 1, 0, 1]])),
        ("hxl", n2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 1, 1, 1]])),
        ("hcb", n2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 0, 1]])),
        ("kgm", n2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 3, 0, 0], [1, 3, 0, 1], [2, 3, 0, 0], [2, 3, -1, 1]])),
        ("csq", n2(&[[1, 2, 0, 0], [2, 3, 0, 0], [3, 4, 0, 0], [4, 1, 0, 0], [1, 3, 1, 0], [2, 4, 0, 1]])),
        ("tts", n2(&[[1, 2, 0, 0], [2, 3, 0, 0], [3, 4, 0, 0], [4, 1, 0, 0], [1, 3, 1, 0], [2, 4, 0, 1],
            [1, 2, 1, 0]])),
        ("next-sql", n2(&[[1, 1, 1, 0], [1, 1, 0, 1], [1, 1, 1, 1], [1, 1, 1, -1]])),
        ("pcu", n3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 0, 0, 1]])),
        ("hex", n3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 1, 1, 0], [1, 1, 0, 0, 1]])),
        ("bcu", n3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 0, 0, 1], [1, 1, 1, 1, 1]])),
        ("fcu", n3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 0, 0, 1], [1, 1, 1, -1, 0], [1, 1, 0, 1, -1],
            [1, 1, 1, 0, -1]])),
        ("dia", n3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 2, 0, 1, 0], [1, 2, 0, 0, 1]])),
        ("srs", n3(&[[1, 2, 0, 0, 0], [1, 3, 0, 0, 0], [1, 4, 0, 0, 0], [2, 3, 1, 0, 0], [3, 4, 0, 1, 0],
            [4, 2, 0, 0, 1]])),
        ("cds", n3(&[[1, 1, 1, 0, 0], [1, 2, 0, 0, 0], [1, 2, 0, 0, 1], [2, 2, 0, 1, 0]])),
        ("ths", n3(&[[1, 2, 0, 0, 0], [1, 3, 0, 0, 0], [1, 3, 1, 0, 0], [2, 4, 0, 0, 0], [2, 4, 0, 1, 0],
            [3, 4, 0, 0, 1]])),
        ("bnn", n3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 2, 0, 1, 0], [1, 1, 0, 0, 1], [2, 2, 0, 0, 1]])),
        ("nbo-ish", n3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [2, 3, 0, 0, 0], [2, 3, 0, 1, 0], [3, 1, 0, 0, 0],
            [3, 1, 0, 0, 1]])),
        ("qtz-ish", n3(&[[1, 2, 0, 0, 0], [2, 3, 0, 0, 0], [3, 1, 0, 0, 1], [1, 2, 1, 0, 0], [2, 3, 0, 1, 0],
            [3, 1, -1, -1, 1]])),
        ("pts-ish", n3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 3, 0, 0, 0], [1, 3, 0, 1, 0], [2, 4, 0, 0, 0],
            [2, 4, 0, 1, 0], [3, 4, 0, 0, 1], [3, 4, 1, 0, 1]])),
    ]
}

/// G x (small graph): vertices are doubled/tripled with the same barycentric
/// positions. `rungs` are edges of the fibre graph on k vertices; `twist`
/// permutes the fibre along the given lattice directions.
pub fn ladder(base: &Net, k: usize, rungs: &[(usize, usize)], twist: &[Vec<usize>]) -> Net {
    let vs = base.verts();
    let base = &base.relabel(|v| vs.binary_search(&v).unwrap() as u32);
    let mut edges = vec![];
    let kk = k as u32;
    let inv = |p: &Vec<usize>| {
        let mut r = vec![0; k];
        for i in 0..k {
            r[p[i]] = i;
        }
        r
    };
    for (u, v, s) in &base.edges {
        for i in 0..k {
            let mut j = i;
            for (a, t) in s.iter().zip(twist) {
                let p = if *a < 0 { inv(t) } else { t.clone() };
                for _ in 0..a.abs() {
                    j = p[j];
                }
            }
            edges.push((u * kk + i as u32, v * kk + j as u32, s.clone()));
        }
    }
    for v in base.verts() {
        for (a, b) in rungs {
            edges.push((v * kk + *a as u32, v * kk + *b as u32, vec![0; base.d]));
        }
    }
    Net::new(base.d, edges)
}

/// Random different presentation of the same net.
pub fn disguise(rng: &mut Rng, g: &Net, steps: usize) -> Net {
    let d = g.d;
    let m = random_unimodular(rng, d, steps, 6);
    let vs = g.verts();
    let ids = random_ids(rng, vs.len());
    let map: HashMap<u32, u32> = vs.iter().cloned().zip(ids).collect();
    let o: BTreeMap<u32, Vec<i64>> = vs.iter().map(|v| {
        (*v, (0..d).map(|_| if rng.bool() { 0 } else { rng.range(-2, 2) }).collect())
    }).collect();
    g.offset(&o).basis_change(&m).relabel(|v| map[&v])
}

/// The same net with its vertices represented far away from each other.
pub fn far(rng: &mut Rng, g: &Net) -> Net {
    let m = *rng.pick(&[100, 40_000, 10_000_000]);
    let o: BTreeMap<u32, Vec<i64>> = g.verts().iter().map(|v| {
        (*v, (0..g.d).map(|_| if rng.chance(1, 3) { 0 } else { rng.range(-m, m) }).collect())
    }).collect();
    g.offset(&o)
}

/// How many sequences of d edges the search for symmetries has to look at:
/// at one vertex, else along chains, else anywhere.
pub fn effort(n: &Net) -> usize {
    let d = n.d;
    let vecs = n.vectors(&n.positions());
    let perms = |k: usize| (0..d).map(|i| k.saturating_sub(i)).product::<usize>();
    let mut total = 0;
    for ds in vecs.values() {
        let rows: QM = ds.iter().map(|x| x.1.clone()).collect();
        if rank(&rows) == d {
            total += perms(ds.len());
        }
    }
    if total > 0 {
        return total;
    }
    let mut chains = 0;
    for ds in vecs.values() {
        for (e, v) in ds {
            let mut level: Vec<(u32, QM)> = vec![(e.1, vec![v.clone()])];
            for _ in 1..d {
                let mut next = vec![];
                for (w, rows) in &level {
                    for (f, x) in &vecs[w] {
                        let mut r = rows.clone();
                        r.push(x.clone());
                        if rank(&r) == r.len() {
                            next.push((f.1, r));
                        }
                    }
                }
                level = next;
            }
            chains += level.len();
        }
    }
    if chains > 0 {
        return chains;
    }
    perms(2 * n.edges.len())
}

// --------------------------------------------------- automorphisms (oracle)

pub type VMap = BTreeMap<u32, u32>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Aut {
    pub mat: QM,
    pub vmap: VMap,
}

/// Extend (linear part, root -> image) to a label-preserving map of g onto h,
/// matching darts by their vectors. Requires local stability.
pub struct Geo {
    pub net: Net,
    pub pos: BTreeMap<u32, Vec<Q>>,
    pub vecs: BTreeMap<u32, Vec<(Raw, Vec<Q>)>>,
    pub look: BTreeMap<u32, HashMap<Vec<Q>, usize>>,
}

impl Geo {
    pub fn new(net: &Net) -> Geo {
        let pos = net.positions();
        let vecs = net.vectors(&pos);
        let look = vecs.iter().map(|(v, ds)| {
            (*v, ds.iter().enumerate().map(|(i, x)| (x.1.clone(), i)).collect())
        }).collect();
        Geo { net: net.clone(), pos, vecs, look }
    }

    pub fn extend(&self, h: &Geo, mat: &QM, src: u32, img: u32) -> Option<VMap> {
        let mut map = VMap::new();
        map.insert(src, img);
        let mut queue = VecDeque::from([src]);
        let mut used: HashSet<(u32, usize)> = HashSet::new();
        while let Some(u) = queue.pop_front() {
            let w = map[&u];
            if self.vecs[&u].len() != h.vecs[&w].len() {
                return None;
            }
            for (e, dv) in &self.vecs[&u] {
                let k = *h.look[&w].get(&apply(mat, dv))?;
                if !used.insert((w, k)) {
                    // every dart of w is hit once per preimage of w; a second
                    // preimage means the map is not injective
                    return None;
                }
                let t = h.vecs[&w][k].0.1;
                match map.get(&e.1) {
                    Some(x) if *x != t => return None,
                    Some(_) => {}
                    None => {
                        map.insert(e.1, t);
                        queue.push_back(e.1);
                    }
                }
            }
        }
        if map.len() != h.vecs.len() {
            return None;
        }
        Some(map)
    }

    /// d darts with independent vectors, preferring a common head vertex.
    fn frame(&self) -> (Vec<(u32, usize)>, bool) {
        let d = self.net.d;
        for (v, ds) in &self.vecs {
            let mut rows: QM = vec![];
            let mut out = vec![];
            for (i, (_, dv)) in ds.iter().enumerate() {
                let mut t = rows.clone();
                t.push(dv.clone());
                if rank(&t) == t.len() {
                    rows = t;
                    out.push((*v, i));
                }
                if out.len() == d {
                    return (out, true);
                }
            }
        }
        let mut rows: QM = vec![];
        let mut out = vec![];
        for (v, ds) in &self.vecs {
            for (i, (_, dv)) in ds.iter().enumerate() {
                let mut t = rows.clone();
                t.push(dv.clone());
                if rank(&t) == t.len() {
                    rows = t;
                    out.push((*v, i));
                }
                if out.len() == d {
                    return (out, false);
                }
            }
        }
        panic!("net is not {}-periodic", d);
    }

    pub fn frame_is_common(&self) -> bool {
        self.frame().1
    }

    /// All isomorphisms self -> h with integral unimodular linear part, up to
    /// lattice translations of h. `cap` limits the number of frames tried.
    pub fn isos(&self, h: &Geo, cap: usize) -> Option<Vec<Aut>> {
        let d = self.net.d;
        let (fr, common) = self.frame();
        let rows: QM = fr.iter().map(|(v, i)| self.vecs[v][*i].1.clone()).collect();
        let rinv = inverse(&rows).unwrap();
        let mut cands: HashSet<QM> = HashSet::new();
        let mut tried = 0usize;
        let mut consider = |imgs: &[&Vec<Q>]| {
            // A with A r_i = s_i  <=>  R A^T = S
            let s: QM = imgs.iter().map(|x| (*x).clone()).collect();
            let at = mul(&rinv, &s);
            if at.iter().flatten().all(|x| x.is_integer()) {
                let a = transpose(&at);
                let dt = det(&a);
                if dt == q(1) || dt == q(-1) {
                    cands.insert(a);
                }
            }
        };
        let mut lists: Vec<Vec<&Vec<Q>>> = vec![];
        if common {
            for (_, ds) in &h.vecs {
                lists.push(ds.iter().map(|x| &x.1).collect());
            }
        } else {
            let all: HashSet<&Vec<Q>> = h.vecs.values().flatten().map(|x| &x.1).collect();
            lists.push(all.into_iter().collect());
        }
        for l in &lists {
            tried += l.len().pow(d as u32);
            if tried > cap {
                return None;
            }
            let mut idx = vec![0usize; d];
            'outer: loop {
                let imgs: Vec<&Vec<Q>> = idx.iter().map(|i| l[*i]).collect();
                if (0..d).all(|i| (0..i).all(|j| idx[i] != idx[j])) {
                    consider(&imgs);
                }
                let mut k = 0;
                loop {
                    idx[k] += 1;
                    if idx[k] < l.len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                    if k == d {
                        break 'outer;
                    }
                }
            }
        }
        let src = *self.vecs.keys().next().unwrap();
        let mut out = vec![];
        for a in cands {
            for w in h.vecs.keys() {
                if let Some(m) = self.extend(h, &a, src, *w) {
                    out.push(Aut { mat: a.clone(), vmap: m });
                }
            }
        }
        out.sort();
        out.dedup();
        Some(out)
    }

    pub fn automorphisms(&self, cap: usize) -> Option<Vec<Aut>> {
        self.isos(self, cap)
    }

    pub fn translations(&self) -> Vec<VMap> {
        let id = identity(self.net.d);
        let src = *self.vecs.keys().next().unwrap();
        self.vecs.keys().filter_map(|w| self.extend(self, &id, src, *w)).collect()
    }
}

pub fn classes(verts: &[u32], maps: &[&VMap]) -> BTreeSet<BTreeSet<u32>> {
    let mut c: BTreeMap<u32, u32> = verts.iter().map(|v| (*v, *v)).collect();
    for m in maps {
        for (a, b) in m.iter() {
            let x = c[a];
            let y = c[b];
            if x != y {
                for t in c.values_mut() {
                    if *t == y {
                        *t = x;
                    }
                }
            }
        }
    }
    let mut g: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for (v, k) in c {
        g.entry(k).or_default().insert(v);
    }
    g.into_values().collect()
}

// ------------------------------------------------------------ voltage nets

/// Multiplication tables (identity first) of small groups.
pub fn small_groups() -> Vec<(&'static str, Vec<Vec<usize>>)> {
    let cyc = |n: usize| (0..n).map(|i| (0..n).map(|j| (i + j) % n).collect()).collect::<Vec<Vec<usize>>>();
    let v4 = (0..4).map(|i| (0..4).map(|j| i ^ j).collect()).collect();
    let perms: Vec<[usize; 3]> = vec![[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]];
    let s3 = perms.iter().map(|p| perms.iter().map(|r| {
        let c = [p[r[0]], p[r[1]], p[r[2]]];
        perms.iter().position(|x| *x == c).unwrap()
    }).collect()).collect();
    vec![("Z2", cyc(2)), ("Z3", cyc(3)), ("Z4", cyc(4)), ("Z2xZ2", v4), ("S3", s3), ("Z6", cyc(6))]
}

/// Regular cover of the quotient graph with the given group and one group
/// element per edge, taken modulo the lattice of translations generated by
/// the rows of h (Hermite form), the i-th combined with the deck
/// transformation ks[i] (which must commute pairwise).
pub fn voltage_net(base: &Net, table: &[Vec<usize>], volts: &[usize], h: &[Vec<i64>], ks: &[usize]) -> Net {
    let d = base.d;
    let n = table.len();
    let inv: Vec<usize> = (0..n).map(|i| (0..n).find(|j| table[i][*j] == 0).unwrap()).collect();
    let pow = |k: usize, e: i64| {
        let b = if e < 0 { inv[k] } else { k };
        (0..e.abs()).fold(0, |a, _| table[a][b])
    };
    let mut reps: Vec<Vec<i64>> = vec![vec![]];
    for i in 0..d {
        reps = reps.iter().flat_map(|r| (0..h[i][i]).map(move |x| {
            let mut t = r.clone();
            t.push(x);
            t
        })).collect();
    }
    let id: HashMap<Vec<i64>, usize> = reps.iter().cloned().enumerate().map(|(i, r)| (r, i)).collect();
    let vs = base.verts();
    let vi: HashMap<u32, usize> = vs.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let name = |v: u32, g: usize, r: usize| ((vi[&v] * n + g) * reps.len() + r + 1) as u32;
    let mut edges = vec![];
    for ((u, v, s), volt) in base.edges.iter().zip(volts) {
        for (ri, r) in reps.iter().enumerate() {
            let mut t: Vec<i64> = r.iter().zip(s).map(|(a, b)| a + b).collect();
            let mut c = vec![0i64; d];
            for i in 0..d {
                let f = t[i].div_euclid(h[i][i]);
                for k in 0..d {
                    t[k] -= f * h[i][k];
                }
                c[i] = f;
            }
            let back = (0..d).fold(0, |a, i| table[a][pow(ks[i], -c[i])]);
            for g in 0..n {
                edges.push((name(*u, g, ri), name(*v, table[back][table[g][*volt]], id[&t]), c.clone()));
            }
        }
    }
    Net::new(d, edges)
}

/// A connected, locally stable net whose quotient graph has translations in a
/// non-trivial extension of a ladder group (None when the draw fails).
pub fn random_voltage(rng: &mut Rng, d: usize, base: &Net, index: i64) -> Option<(String, Net)> {
    let groups = small_groups();
    let (gname, table) = rng.pick(&groups);
    let volts: Vec<usize> = base.edges.iter().map(|_| if rng.chance(1, 3) { 0 } else { rng.usize(table.len()) }).collect();
    let h = random_sublattice(rng, d, index);
    let k = if rng.chance(1, 2) { 0 } else { rng.usize(table.len()) };
    let ks: Vec<usize> = (0..d).map(|_| {
        let e = if rng.chance(1, 2) { 0 } else { rng.usize(3) };
        (0..e).fold(0, |a, _| table[a][k])
    }).collect();
    let g = voltage_net(base, table, &volts, &h, &ks);
    if !g.connected() || g.has_zero_loop() {
        return None;
    }
    Some((format!("cover {} {:?} over {:?} twisted {:?}", gname, volts, h, ks), g))
}
