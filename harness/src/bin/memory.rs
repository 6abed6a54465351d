//! Monitor G08: memory safety and absence of data races.
//!
//! `inline` runs small workloads that touch every module, meant to be executed
//! by the Miri interpreter; `sanitize` (this file's own parent) runs them there
//! and runs all monitors' workloads under AddressSanitizer. Only reports of the
//! interpreter or the sanitizer count here; wrong values are for other monitors.

use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::ErrorKind;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Command, Stdio};
use std::rc::Rc;
use std::sync::{Arc, Barrier};
use std::time::{Duration, Instant};

use harness::core::*;
use harness::ensure;
use harness::exact::*;
use harness::faults::Hostile;
use harness::net::*;
use num_bigint::BigInt;
use num_traits::Zero;
use rust_systre::arithmetic::geometry::{AffineMap, CoordinateMap, Vector};
use rust_systre::arithmetic::linear_algebra::{extend_basis, LinearAlgebra};
use rust_systre::arithmetic::matrices::Matrix;
use rust_systre::arithmetic::modular_solver as ms;
use rust_systre::io::parse_cgd_blocks::{parse_blocks, parse_lines};
use rust_systre::io::parse_cgd_line::parse_cgd_line;
use rust_systre::partitions::Partition;
use rust_systre::pgraphs::{graph_component_measures, CoordinationSequence, Edge, Graph, LabelVector};
use rust_systre::spacegroups::parse_operator::parse_operator;
use rust_systre::spacegroups::parse_table::parse_space_group_table;
use rust_systre::spacegroups::{basics, lattices};
use rust_systre::symmetries as syms;

// ------------------------------------------- which types may be shared

struct Probe<T>(PhantomData<T>);

trait No {
    fn shareable(&self) -> bool { false }
    fn sendable(&self) -> bool { false }
}

impl<T> No for &Probe<T> {}

impl<T: Sync> Probe<T> {
    fn shareable(&self) -> bool { true }
}

struct SendProbe<T>(PhantomData<T>);

impl<T> No for &SendProbe<T> {}

impl<T: Send> SendProbe<T> {
    fn sendable(&self) -> bool { true }
}

/// Used only after the compiler has said that the type is shareable/sendable.
struct Claimed<T>(T);
unsafe impl<T> Send for Claimed<T> {}
unsafe impl<T> Sync for Claimed<T> {}

// -------------------------------------------------------------- workloads

fn tiny_net(cx: &mut Ctx) -> Net {
    let n2 = |v: &[[i64; 4]]| Net::new(2, v.iter().map(|e| (e[0] as u32, e[1] as u32, vec![e[2], e[3]])).collect());
    let n3 = |v: &[[i64; 5]]| Net::new(3, v.iter().map(|e| (e[0] as u32, e[1] as u32, vec![e[2], e[3], e[4]])).collect());
    let i = cx.rng.usize(9);
    match i {
        0 => n2(&[[1, 1, 1, 0], [1, 1, 0, 1]]),
        1 => n2(&[[1, 2, 0, 0], [1, 2, 1, 0], [1, 2, 0, 1]]),
        2 => n2(&[[1, 1, 1, 0], [1, 1, 0, 1], [2, 2, 1, 0], [2, 2, 0, 1], [1, 2, 0, 0]]),
        3 => n2(&[[1, 2, 0, 0], [1, 2, 1, 0], [2, 2, 0, 1], [1, 1, 0, 1]]),
        4 => n3(&[[1, 1, 1, 0, 0], [1, 1, 0, 1, 0], [1, 1, 0, 0, 1]]),
        5 => n3(&[[1, 2, 0, 0, 0], [1, 2, 1, 0, 0], [1, 2, 0, 1, 0], [1, 2, 0, 0, 1]]),
        // not connected, not periodic in all directions, with a useless loop
        6 => n2(&[[1, 1, 1, 0], [2, 2, 0, 1]]),
        7 => n2(&[[1, 2, 0, 0], [2, 3, 1, 0]]),
        _ => {
            let d = 2 + cx.rng.usize(2);
            random_connected(&mut cx.rng, d, 2, 1, true)
        }
    }
}

/// Small enough to have its symmetries computed under the interpreter.
fn tiniest_net(cx: &mut Ctx) -> Net {
    let e = |v: &[(u32, u32, i64, i64)]| Net::new(2, v.iter().map(|e| (e.0, e.1, vec![e.2, e.3])).collect());
    match cx.rng.usize(4) {
        0 => e(&[(1, 1, 1, 0), (1, 1, 0, 1)]),
        1 => e(&[(7, 7, 1, 0), (7, 7, 2, 1)]),
        2 => e(&[(1, 1, 1, 0), (1, 1, 0, 1), (1, 1, 2, 1)]),
        _ => e(&[(1, 2, 0, 0), (1, 2, 1, 0), (1, 2, 0, 1)]),
    }
}

struct Held<T: Label> {
    raw: Vec<Vec<Raw>>,
    text: Vec<String>,
    _p: PhantomData<T>,
}

/// One query. Results are kept alive across further queries before being read.
fn poke<T: Label>(g: &Graph<T, W>, rng: &mut Rng, heavy: bool, seen: &mut BTreeSet<u64>) -> String {
    let vs: Vec<u32> = refused(|| g.vertices().to_vec()).unwrap_or_default();
    if vs.is_empty() {
        return String::new();
    }
    let v = if rng.chance(1, 8) { 77 } else { *rng.pick(&vs) };
    let w = *rng.pick(&vs);
    let kind = rng.below(if heavy { 17 } else { 13 });
    seen.insert(kind);
    refused(|| {
        let raws = |es: &[Edge<T, W>]| es.iter().map(from_edge).collect::<Vec<Raw>>();
        match kind {
            0 => {
                let a = g.vertices();
                let b = g.incidences(&v);
                let c = g.incidences(&w);
                let d = g.directed_edges();
                format!("{:?} {:?} {:?} {:?}", a, raws(&b), raws(&c), raws(&d))
            }
            1 => {
                let b = g.incidences(&w);
                let p = g.position(&v);
                let q = g.position(&w);
                format!("{:?} {} {}", raws(&b), p, q)
            }
            2 => format!("{}", g.position_normalized(&v)),
            3 | 4 => {
                let es = g.incidences(&w);
                let dv = g.edge_vector(&es[0]);
                let a = g.edge_by_unique_delta(&w, &dv);
                let b = g.edge_by_unique_delta(&v, &dv);
                format!("{:?} {:?}", a.map(|e| from_edge(&e)), b.map(|e| from_edge(&e)))
            }
            5 => format!("{} {}", g.is_stable(), g.has_second_order_collisions()),
            6 => format!("{}", g.is_locally_stable()),
            7 => {
                let mut a = g.coordination_sequence(&w);
                let x = a.next();
                let p = g.incidences(&w);
                let mut b = g.coordination_sequence(&v);
                let y = (b.next(), a.next(), b.next());
                format!("{:?} {:?} {:?}", x, y, raws(&p))
            }
            8 => format!("{}", g.shift_normalized()),
            9 => format!("{:?} {}", graph_component_measures(g, &v), g.is_connected()),
            10 => format!("{}", g),
            11 => {
                let p = g.position(&w);
                let e = g.directed_edges();
                format!("{} {:?}", p, raws(&e))
            }
            12 => {
                let es = g.directed_edges();
                let dv = g.edge_vector(&es[es.len() - 1]);
                format!("{:?}", g.edge_by_unique_delta(&w, &dv).map(|e| from_edge(&e)))
            }
            13 => {
                let s = g.symmetries();
                let o = g.vertex_orbits();
                let t = g.symmetries();
                format!("{} {} {:?}", s.len(), t.len(), o.len())
            }
            14 => format!("{} {}", g.edge_orbits().len(), g.vertex_orbits().len()),
            15 => format!("{} {}", syms::is_minimal(g), syms::is_ladder(g)),
            _ => {
                let m: Option<Graph<T, W>> = syms::minimal_image(g);
                let s = m.as_ref().map(|m| m.vertices().len());
                drop(m);
                format!("{:?} {}", s, syms::translational_orbits(g).len())
            }
        }
    })
    .unwrap_or("refused".into())
}

fn caches<T: Label>(cx: &mut Ctx, net: &Net, heavy: bool) -> Res {
    let raw = net.to_raw_shuffled(&mut cx.rng, true);
    let g = build::<T>(&raw);
    let mut seen = BTreeSet::new();
    let n = if heavy { 3 } else { 10 };
    let mut held: Held<T> = Held { raw: vec![], text: vec![], _p: PhantomData };
    for _ in 0..n {
        let t = poke(&g, &mut cx.rng, heavy, &mut seen);
        held.text.push(t);
    }
    // results outlive the graph
    let es = refused(|| g.directed_edges()).unwrap_or_default();
    let ps = refused(|| g.vertices().iter().map(|v| g.position(v)).collect::<Vec<_>>()).unwrap_or_default();
    drop(g);
    held.raw.push(es.iter().map(from_edge).collect());
    held.text.push(ps.iter().map(|p| p.to_string()).collect());
    cx.add("graph queries", n);
    cx.add("kinds of query", seen.len() as u64);
    ensure!(held.raw[0].len() == 2 * net.edges.len(), "{:?}", held.raw);
    Ok(())
}

#[derive(Clone, Copy)]
struct Allowed {
    share: bool,
    send: bool,
    send_sequence: bool,
    share_partition: bool,
}

// asked for concrete types, since bounds on the parameters may decide
macro_rules! allowed {
    ($label: ty) => {
        Allowed {
            share: (&Probe::<Graph<$label, W>>(PhantomData)).shareable(),
            send: (&SendProbe::<Graph<$label, W>>(PhantomData)).sendable(),
            send_sequence: (&SendProbe::<CoordinationSequence<'static, $label, W>>(PhantomData)).sendable(),
            share_partition: (&Probe::<Partition<String>>(PhantomData)).shareable(),
        }
    }
}

fn threads<T: Label>(cx: &mut Ctx, net: &Net, allowed: Allowed) -> Res {
    let raw = net.to_raw_shuffled(&mut cx.rng, true);
    let Allowed { share, send, send_sequence, share_partition: shared_partition } = allowed;
    cx.count(if share { "graph type is shareable" } else { "graph type is not shareable" });
    let seeds: Vec<Rng> = (0..3).map(|_| { let s = cx.rng.next(); Rng::new(s, "thread", 0) }).collect();
    if share {
        let g = Arc::new(Claimed(build::<T>(&raw)));
        let gate = Arc::new(Barrier::new(seeds.len()));
        let hs: Vec<_> = seeds.iter().cloned().map(|mut r| {
            let (g, gate) = (g.clone(), gate.clone());
            std::thread::spawn(move || {
                let g = g;
                gate.wait();
                let mut seen = BTreeSet::new();
                for _ in 0..5 {
                    poke(&g.0, &mut r, false, &mut seen);
                }
            })
        }).collect();
        for h in hs {
            let _ = h.join();
        }
        cx.count("graphs shared by threads");
    }
    if send_sequence {
        // a sequence in another thread while its graph is used here
        let g = build::<T>(&raw);
        let v = g.vertices()[0];
        let gate = &Barrier::new(2);
        std::thread::scope(|s| {
            let it = Claimed(g.coordination_sequence(&v));
            s.spawn(move || {
                let mut it = it;
                gate.wait();
                for _ in 0..3 {
                    let _ = refused(|| it.0.next());
                }
            });
            gate.wait();
            let mut r = seeds[0].clone();
            let mut seen = BTreeSet::new();
            for _ in 0..3 {
                poke(&g, &mut r, false, &mut seen);
            }
        });
        cx.count("sequences used by another thread");
    }
    if shared_partition {
        let mut p = Partition::new();
        for i in 0..8 {
            p.unite(&format!("p{}", i), &format!("p{}", i + 1));
        }
        let p = Arc::new(Claimed(p));
        let gate = Arc::new(Barrier::new(2));
        let hs: Vec<_> = (0..2).map(|k| {
            let (p, gate) = (p.clone(), gate.clone());
            std::thread::spawn(move || {
                let p = p;
                gate.wait();
                for i in 0..9 {
                    let _ = p.0.find(&format!("p{}", i * (k + 1)));
                }
            })
        }).collect();
        for h in hs {
            let _ = h.join();
        }
        cx.count("partitions shared by threads");
    }
    // separate graphs, used at the same time
    let hs: Vec<_> = seeds.into_iter().take(2).map(|mut r| {
        let raw = raw.clone();
        std::thread::spawn(move || {
            let g = build::<T>(&raw);
            let mut seen = BTreeSet::new();
            for _ in 0..4 {
                poke(&g, &mut r, false, &mut seen);
            }
            if send { Some(Claimed(g)) } else { None }
        })
    }).collect();
    // a graph used by one thread and handed to the next
    for h in hs {
        if let Ok(Some(g)) = h.join() {
            let mut seen = BTreeSet::new();
            for _ in 0..3 {
                poke(&g.0, &mut cx.rng, false, &mut seen);
            }
            cx.count("graphs handed between threads");
        }
    }
    Ok(())
}

fn partition(cx: &mut Ctx) -> Res {
    let n = 1 + cx.rng.usize(14);
    let name = |i: usize| format!("element-{}", i);
    let mut p: Partition<String> = Partition::new();
    let mut kept: Vec<String> = vec![];
    for _ in 0..3 * n {
        let (a, b) = (name(cx.rng.usize(n)), name(cx.rng.usize(n)));
        match cx.rng.below(4) {
            0 => p.unite(&a, &b),
            1 => {
                let (x, y) = (p.find(&a), p.find(&b));
                kept.push(x);
                kept.push(y);
            }
            2 => {
                let els: Vec<String> = (0..n + 2).map(name).collect();
                let cl = p.classes(&els);
                kept.extend(cl.into_iter().flatten());
            }
            _ => {
                let r = p.find(&a);
                p.unite(&r, &b);
            }
        }
    }
    drop(p);
    ensure!(kept.iter().all(|s| s.starts_with("element-")), "{:?}", kept);
    cx.add("partition operations", 3 * n as u64);
    Ok(())
}

// -------------------------------- value types that call back while being used

thread_local! {
    /// What a value does when it is copied, compared or hashed, and how often it still may.
    static NOSY: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
    static PATIENCE: Cell<u32> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

fn call_back() {
    let left = PATIENCE.with(|p| p.get());
    if left == 0 || DEPTH.with(|d| d.get()) > 1 {
        return;
    }
    if let Some(f) = NOSY.with(|h| h.borrow().clone()) {
        PATIENCE.with(|p| p.set(left - 1));
        DEPTH.with(|d| d.set(d.get() + 1));
        let _ = refused(|| f());
        DEPTH.with(|d| d.set(d.get() - 1));
        CALLS.with(|c| c.set(c.get() + 1));
    }
}

/// Calls back are made during the work only.
fn with_calls_back<R>(f: Rc<dyn Fn()>, patience: u32, work: impl FnOnce() -> R) -> Option<R> {
    NOSY.with(|h| *h.borrow_mut() = Some(f));
    PATIENCE.with(|p| p.set(patience));
    let r = refused(work);
    PATIENCE.with(|p| p.set(0));
    DEPTH.with(|d| d.set(0));
    NOSY.with(|h| *h.borrow_mut() = None);
    r
}

#[derive(Debug)]
struct Name(String);

impl Clone for Name {
    fn clone(&self) -> Self {
        let early = self.0.len() % 2 == 0;
        if early { call_back() }
        let r = Name(self.0.clone());
        if !early { call_back() }
        r
    }
}

impl PartialEq for Name {
    fn eq(&self, other: &Self) -> bool {
        call_back();
        self.0 == other.0
    }
}

impl Eq for Name {}

impl Hash for Name {
    fn hash<H: Hasher>(&self, state: &mut H) {
        call_back();
        self.0.hash(state);
    }
}

#[derive(Debug)]
struct NosyLabel(L2);

impl Clone for NosyLabel {
    #[allow(clippy::non_canonical_clone_impl)]
    fn clone(&self) -> Self {
        call_back();
        NosyLabel(self.0)
    }
}

impl Copy for NosyLabel {}

impl PartialEq for NosyLabel {
    fn eq(&self, other: &Self) -> bool {
        call_back();
        self.0 == other.0
    }
}

impl Eq for NosyLabel {}

impl Hash for NosyLabel {
    fn hash<H: Hasher>(&self, state: &mut H) {
        call_back();
        self.0.hash(state);
    }
}

impl PartialOrd for NosyLabel {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for NosyLabel {
    fn cmp(&self, other: &Self) -> Ordering {
        call_back();
        self.0.cmp(&other.0)
    }
}

impl std::fmt::Display for NosyLabel {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        call_back();
        write!(f, "{}", self.0)
    }
}

impl std::ops::Neg for NosyLabel {
    type Output = Self;
    fn neg(self) -> Self {
        call_back();
        NosyLabel(-self.0)
    }
}

impl std::ops::Add for NosyLabel {
    type Output = Self;
    fn add(self, rhs: Self) -> Self {
        call_back();
        NosyLabel(self.0 + rhs.0)
    }
}

impl std::ops::Sub for NosyLabel {
    type Output = Self;
    fn sub(self, rhs: Self) -> Self {
        call_back();
        NosyLabel(self.0 - rhs.0)
    }
}

impl LabelVector<W> for NosyLabel {
    fn dim() -> usize { 2 }
    fn zero() -> Self { NosyLabel(L2::zero()) }
    fn is_zero(&self) -> bool { call_back(); self.0.is_zero() }
    fn is_negative(&self) -> bool { call_back(); self.0.is_negative() }
    fn is_positive(&self) -> bool { call_back(); self.0.is_positive() }
    fn to_vec(&self) -> Vec<i32> { call_back(); self.0.to_vec() }
    fn from_vec(v: &[i32]) -> Self { NosyLabel(L2::from_vec(v)) }
}

impl Label for NosyLabel {}

/// Elements that use the partition while it is using them.
fn nosy_partition(cx: &mut Ctx) -> Res {
    let n = 1 + cx.rng.usize(4);
    let name = |i: usize| Name(format!("{}element-{}", if i % 2 == 0 { "x" } else { "" }, i));
    let mut p: Partition<Name> = Partition::new();
    for _ in 0..cx.rng.usize(2 * n) {
        p.unite(&name(cx.rng.usize(n)), &name(cx.rng.usize(n)));
    }
    let p = Rc::new(p);
    let fresh = Rc::new(Cell::new(100usize));
    let mut kept: Vec<Name> = vec![];
    for _ in 0..2 {
        let (q, fr, start) = (p.clone(), fresh.clone(), cx.rng.usize(n));
        let many = cx.rng.bool();
        let held = Rc::new(RefCell::new(vec![]));
        let keep = held.clone();
        let f = Rc::new(move || {
            // new elements make the tables of the partition grow
            for _ in 0..if many { 4 } else { 1 } {
                fr.set(fr.get() + 1);
                let x = q.find(&name(fr.get()));
                keep.borrow_mut().push(x);
            }
            let y = q.classes(&[name(start), name(fr.get())]);
            keep.borrow_mut().extend(y.into_iter().flatten());
        });
        let x = name(cx.rng.usize(2 * n));
        let els: Vec<Name> = (0..n + 2).map(name).collect();
        let listing = cx.rng.chance(1, 3);
        let r = with_calls_back(f, 3, || if listing { p.classes(&els).concat() } else { vec![p.find(&x), p.find(&x)] });
        kept.extend(r.unwrap_or_default());
        kept.extend(held.borrow_mut().drain(..));
    }
    drop(p);
    cx.add("calls from within a call", CALLS.with(|c| c.replace(0)));
    ensure!(kept.iter().all(|s| s.0.contains("element-")), "{:?}", kept);
    Ok(())
}

/// Labels that use the graph while it is using them.
fn nosy_graph(cx: &mut Ctx) -> Res {
    let mut net = tiny_net(cx);
    while net.d != 2 {
        net = tiny_net(cx);
    }
    let raw = net.to_raw_shuffled(&mut cx.rng, true);
    let g = Rc::new(build::<NosyLabel>(&raw));
    cx.describe(format!("labels that use the graph they belong to, on {}", net.show()));
    let mut seen = BTreeSet::new();
    let mut texts: Vec<String> = vec![];
    for _ in 0..2 {
        let h = g.clone();
        let s = cx.rng.next();
        let count = Cell::new(0);
        let f = Rc::new(move || {
            count.set(count.get() + 1);
            let mut r = Rng::new(s, "within", count.get());
            let mut seen = BTreeSet::new();
            poke(&h, &mut r, false, &mut seen);
        });
        let patience = 1 + cx.rng.below(3) as u32;
        // calls back are made late in some queries
        if cx.rng.bool() {
            texts.push(poke(&g, &mut cx.rng, false, &mut seen));
        }
        let r = with_calls_back(f, patience, || poke(&g, &mut cx.rng, false, &mut seen));
        texts.extend(r);
    }
    // looking up an edge with a label that looks up another one
    let h = g.clone();
    let f = Rc::new(move || {
        for v in [78, 79] {
            let zero: Vector<Q, rust_systre::pgraphs::InputCS> = Vector::zero(2);
            let _ = refused(|| h.edge_by_unique_delta(&v, &zero));
            let _ = refused(|| h.incidences(&v));
            let _ = refused(|| h.position(&v));
        }
    });
    let known = refused(|| g.directed_edges().iter().map(|e| (e.head, g.edge_vector(e))).collect::<Vec<_>>()).unwrap_or_default();
    for (v, d) in known.iter().take(2) {
        let e = with_calls_back(f.clone(), 2, || g.edge_by_unique_delta(v, d));
        texts.extend(e.flatten().map(|e| e.to_string()));
        let e = with_calls_back(f.clone(), 2, || g.incidences(v));
        texts.extend(e.unwrap_or_default().iter().map(|e| e.to_string()));
    }
    drop(g);
    cx.add("calls from within a call", CALLS.with(|c| c.replace(0)));
    cx.add("kinds of query", seen.len() as u64);
    ensure!(texts.iter().all(|t| t.len() < 10_000), "{:?}", texts);
    Ok(())
}

fn matrices(cx: &mut Ctx) -> Res {
    let (r, c) = (1 + cx.rng.usize(3), 1 + cx.rng.usize(3));
    let word = |i: usize| format!("{}", i);
    let data: Vec<String> = (0..r * c).map(word).collect();
    let mut refusals = 0;
    let mut note = |b: bool| if !b { refusals += 1 };
    // over heap-allocated entries
    let m = Matrix::new(c, &data);
    note(refused(|| Matrix::new(c + 1, &data).shape()).is_some());
    note(refused(|| m[(0, c)].clone()).is_some());
    note(refused(|| m[(r, 0)].clone()).is_some());
    note(refused(|| m[(r - 1, c - 1)].clone()).is_some());
    note(refused(|| m.get_row(r)).is_some());
    note(refused(|| m.get_col(c)).is_some());
    note(refused(|| m.submatrix(0..r, 0..c + 1)).is_some());
    note(refused(|| m.submatrix(r..r + 1, 0..c)).is_some());
    note(refused(|| m.submatrix(1..0, 0..c)).is_some());
    note(refused(|| m.submatrix(0..1, 0..1)).is_some());
    let t = m.transpose();
    note(refused(|| Matrix::hstack(&[m.clone(), t.clone()])).is_some());
    note(refused(|| Matrix::vstack(&[m.clone(), t.clone()])).is_some());
    note(refused(|| Matrix::hstack(&[m.clone(), m.clone()])).is_some());
    note(refused(|| Matrix::vstack(&[m.clone(), m.clone()])).is_some());
    note(refused(|| m.clone().reshape(r * c)).is_some());
    note(refused(|| m.clone().reshape(r * c + 1)).is_some());
    note(refused(|| m.clone().reshape(0)).is_some());
    let mut w = m.clone();
    note(refused(std::panic::AssertUnwindSafe(|| w[(r, c)] = "x".into())).is_some());
    w[(r - 1, 0)] = "y".into();
    drop(m);
    let back: Vec<String> = w.into_iter().collect();
    ensure!(back.len() == r * c && t.shape() == (c, r), "{:?}", back);
    // over numbers
    let ints: Vec<BigInt> = (0..r * c).map(|_| BigInt::from(cx.rng.range(-4, 4))).collect();
    let a = Matrix::new(c, &ints);
    let b = a.transpose();
    note(refused(|| (&a * &b).shape()).is_some());
    note(refused(|| (&a * &a).shape()).is_some());
    note(refused(|| (&a + &b).shape()).is_some());
    note(refused(|| a.determinant()).is_some());
    note(refused(|| a.inverse()).is_some());
    note(refused(|| a.null_space()).is_some());
    note(refused(|| a.solve(&a)).is_some());
    note(refused(|| a.solve(&b)).is_some());
    let rk = a.rank();
    ensure!(rk <= r.min(c), "rank {}", rk);
    let mut bs: Vec<Vec<BigInt>> = vec![];
    for row in a.get_rows() {
        extend_basis(&row, &mut bs);
    }
    let v: Vec<i64> = (0..4).map(|_| cx.rng.range(-3, 3)).collect();
    let sq = vec![v[..2].to_vec(), v[2..].to_vec()];
    let rag = vec![v[..2].to_vec(), v[..1].to_vec()];
    for x in [&sq, &rag, &vec![], &vec![vec![]]] {
        note(refused(|| ms::modular_row_echelon_form(x, 7)).is_some());
        note(refused(|| ms::modular_matrix_inverse(x, 7)).is_some());
        note(refused(|| ms::modular_matrix_product(x, &sq, 7)).is_some());
        note(refused(|| ms::integer_matrix_product(&sq, x)).is_some());
    }
    cx.add("refused matrix calls", refusals);
    cx.count("matrix workloads");
    Ok(())
}

fn solver(cx: &mut Ctx) -> Res {
    let a: Vec<Vec<i64>> = vec![vec![cx.rng.range(1, 5), cx.rng.range(-2, 2)], vec![cx.rng.range(-2, 2), cx.rng.range(1, 5)]];
    let b: Vec<Vec<i64>> = vec![vec![cx.rng.range(-3, 3)], vec![cx.rng.range(-3, 3)]];
    let x = refused(|| ms::solve(&a, &b));
    let _ = refused(|| ms::solve(&a, &b[..1].to_vec()));
    let _ = refused(|| ms::solve(&vec![], &b));
    cx.count("solver workloads");
    ensure!(x.is_some(), "no answer");
    Ok(())
}

fn geometry(cx: &mut Ctx) -> Res {
    let q = |a: i64, b: i64| Q::new(a.into(), b.into());
    let l = Matrix::new(2, &[q(0, 1), q(-1, 1), q(1, 1), q(cx.rng.range(-1, 0), 1)]);
    let s: Vector<Q, W> = Vector::new(&[q(cx.rng.range(-3, 3), 2), q(1, 3)]);
    let a = AffineMap::new(&l, &s);
    let three: Vector<Q, W> = Vector::new(&[q(1, 1), q(0, 1), q(0, 1)]);
    let _ = refused(|| AffineMap::new(&l, &three).shift());
    let _ = refused(|| (&a * &three).iter().cloned().collect::<Vec<_>>());
    let _ = refused(|| &s[2] + &s[1]);
    let _ = refused(|| (&s + &three).dim());
    let c: CoordinateMap<Q, W, ()> = CoordinateMap::new(&a);
    let t = a.to_string() + &c.to_string();
    let ops = vec![AffineMap::<Q, W>::new(&Matrix::new(2, &[q(-1, 1), q(0, 1), q(0, 1), q(-1, 1)]), &s)];
    let all = refused(|| basics::generate(&ops));
    if cx.rng.chance(1, 2) {
        let _ = refused(|| basics::shift_space(&ops));
        let _ = refused(|| basics::gram_matrix_configuration_space(&ops));
    }
    ensure!(!t.is_empty() && all.is_some(), "{}", t);
    cx.count("geometry workloads");
    Ok(())
}

fn lattice(cx: &mut Ctx) -> Res {
    let q = |a: i64| Q::from_integer(a.into());
    let k = cx.rng.range(-2, 2);
    let b = vec![vec![q(1), q(0)], vec![q(k), q(1)]];
    let dot = |v: &[Q], w: &[Q]| {
        let mut s = Q::zero();
        for i in 0..v.len() {
            s += &v[i] * &w[i];
        }
        s
    };
    let dv = refused(|| lattices::dirichlet_vectors(&b, dot, &Q::zero()));
    let rag = vec![vec![q(1), q(0)], vec![q(1)]];
    let _ = refused(|| lattices::dirichlet_vectors(&rag, dot, &Q::zero()));
    let _ = refused(|| lattices::reduced_lattice_basis(&b, dot, &Q::zero()));
    let _ = refused(|| lattices::rational_lattice_basis(&vec![vec![Q::new(1.into(), 2.into()), q(0)], vec![q(0), q(1)]]));
    let _ = refused(|| lattices::rational_lattice_basis(&vec![]));
    ensure!(dv.map_or(false, |d| d.len() == 3), "dirichlet");
    cx.count("lattice workloads");
    Ok(())
}

const SNIPPETS: &[&str] = &[
    "x,y,z", "-x+1/2, y, -z", "x y", "1/0,x", "x,y,z,w", "", "é,x", "1/3x-2/3y+5", "x,,y", "99999999999,x",
    "\u{a0}x", "--x", "x;y", "x,y,zz", "2*x,y",
];

const LINES: &[&str] = &[
    "atom 1 4 0.25 1/2 \"a b\" # note", "FIRST Second \"third\"", "\"open", "1/0 5/ 5e5 -", "é\u{3b1} x",
    "NAME \"\u{1F600}\"", "", "# only", "+1/2", "a\"b", "\t x\t", "1e999 -1e999 nan inf",
];

const TABLES: &[&str] = &[
    "P1 x,y,z\n  x,y,z\n", "alias A P1\nlookup P1 triclinic P x,y,z\n", "x\n y\n", " x,y\n", "P\u{e9} x,y\n  x,y\n -x,-y\n",
    "lookup a b\n", "p2 x,y\n  x,y\n  -x,-y\nalias q p2\n", "alias\n", "p2 1/0,y\n",
];

fn texts(cx: &mut Ctx) -> Res {
    let mangle = |cx: &mut Ctx, s: &str| -> Vec<u8> {
        let mut b = s.as_bytes().to_vec();
        for _ in 0..cx.rng.usize(3) {
            if b.is_empty() {
                break;
            }
            let i = cx.rng.usize(b.len());
            match cx.rng.below(4) {
                0 => { b.remove(i); }
                1 => b[i] = cx.rng.below(256) as u8,
                2 => b.insert(i, *cx.rng.pick(b" ,/x-\"#\n\xc3\xff9")),
                _ => b.truncate(i),
            }
        }
        b
    };
    let s = *cx.rng.pick(SNIPPETS);
    let b = mangle(cx, s);
    let s = String::from_utf8_lossy(&b).to_string();
    let _ = refused(|| format!("{:?}", parse_operator(&s)));
    let _ = refused(|| AffineMap::<Q, W>::from_string(&s).map(|a| a.to_string()));
    cx.count("operator strings");
    for _ in 0..2 {
        let s = *cx.rng.pick(LINES);
        let b = mangle(cx, s);
        let s = String::from_utf8_lossy(&b).to_string();
        let _ = refused(|| format!("{:?}", parse_cgd_line(&s)));
        cx.count("cgd lines");
    }
    let mut all: Vec<u8> = vec![];
    for _ in 0..cx.rng.usize(4) {
        match cx.rng.below(4) {
            0 => all.extend(b"crystal\n"),
            1 => all.extend(b"end\r\n"),
            _ => { let s = *cx.rng.pick(LINES); all.extend(mangle(cx, s)); all.push(b'\n'); }
        }
    }
    let fault = if cx.rng.bool() { Some((cx.rng.usize(all.len() + 1), ErrorKind::Other, cx.rng.bool())) } else { None };
    let mk = |cx: &mut Ctx| -> Hostile<'_> {
        let mut h = Hostile::new(&all, &mut cx.rng);
        if let Some((at, kind, lasting)) = fault {
            h = h.failing(at, kind, lasting);
        }
        h
    };
    let h = mk(cx);
    let _ = refused(|| format!("{:?}", parse_blocks(h)));
    let h = mk(cx);
    let _ = refused(|| format!("{:?}", parse_lines(h)));
    cx.count("cgd files");
    let s = *cx.rng.pick(TABLES);
    let b = mangle(cx, s);
    let h = Hostile::new(&b, &mut cx.rng);
    let _ = refused(|| parse_space_group_table(h).is_some());
    cx.count("tables");
    Ok(())
}

fn g08(cx: &mut Ctx) -> Res {
    // the cheap ones are many, the interpreter's dear ones few
    let kind = match cx.case % 8 {
        6 | 7 => 2,
        k => [0, 3, 9, 1, 6, 0, 4, 7, 10, 1, 8, 9, 6, 0, 10, 1, 3][((k + 5 * (cx.case / 8)) % 17) as usize],
    };
    cx.describe(format!("workload {} of case {} ({:x})", kind, cx.case, cx.rng.clone().next()));
    match kind {
        0 | 1 | 2 => {
            let net = if kind == 2 { tiniest_net(cx) } else { tiny_net(cx) };
            cx.describe(format!("{} on {}", ["queries", "threads", "symmetries"][kind], net.show()));
            match (kind, net.d) {
                (0, 2) => caches::<L2>(cx, &net, false)?,
                (0, _) => caches::<L3>(cx, &net, false)?,
                (1, 2) => threads::<L2>(cx, &net, allowed!(L2))?,
                (1, _) => threads::<L3>(cx, &net, allowed!(L3))?,
                (_, 2) => caches::<L2>(cx, &net, true)?,
                (_, _) => caches::<L3>(cx, &net, true)?,
            }
        }
        3 => partition(cx)?,
        4 => matrices(cx)?,
        6 => { for _ in 0..3 { texts(cx)? } }
        7 => { solver(cx)?; geometry(cx)? }
        9 => nosy_graph(cx)?,
        10 => nosy_partition(cx)?,
        _ => lattice(cx)?,
    }
    cx.nontrivial();
    Ok(())
}

const P: &[Prop] = &[Prop {
    id: "G08",
    rule: "",
    quick: 0,
    thorough: 0,
    run: g08,
    need: &[],
    assumptions: &[],
}];

// ------------------------------------------------------------ the parent

#[derive(Clone, Copy, PartialEq)]
enum Tool {
    Stacked,
    Tree,
    Asan,
}

struct Task {
    tool: Tool,
    bin: &'static str,
    prop: &'static str,
    start: u64,
    step: u64,
    count: u64,
    cap: u64,
}

struct Run {
    task: Task,
    child: Child,
    out: PathBuf,
    err: PathBuf,
    t0: Instant,
}

fn tool_name(t: Tool) -> &'static str {
    match t {
        Tool::Stacked => "miri (stacked borrows)",
        Tool::Tree => "miri (tree borrows)",
        Tool::Asan => "address sanitizer",
    }
}

fn command(t: &Task, tier: &str, seed: u64, root: &Path) -> Command {
    let args = ["inline".to_string(), t.prop.to_string(), tier.to_string(), seed.to_string(),
        t.start.to_string(), t.step.to_string(), t.count.to_string(), t.cap.to_string()];
    let mut c = match t.tool {
        Tool::Asan => {
            let mut c = Command::new(PathBuf::from(std::env::var("ASAN_DIR").unwrap()).join(t.bin));
            c.env("ASAN_OPTIONS", "detect_leaks=0:halt_on_error=1:exitcode=97:allocator_may_return_null=1");
            c
        }
        _ => {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "-q", "--offline", "--bin", t.bin, "--"]);
            c.current_dir(root.join("harness"));
            c.env("CARGO_TARGET_DIR", std::env::var("MIRI_DIR").unwrap());
            c.env("RUSTFLAGS", std::env::var("MIRI_RUSTFLAGS").unwrap_or_default());
            let mut f = format!("-Zmiri-ignore-leaks -Zmiri-seed={}", seed.wrapping_add(t.start));
            if t.tool == Tool::Tree {
                f.push_str(" -Zmiri-tree-borrows");
            }
            c.env("MIRIFLAGS", f);
            c
        }
    };
    c.args(args);
    c
}

/// What the tool's report says, if it is a report of a memory error.
fn report(tool: Tool, err: &str) -> Option<String> {
    let key = match tool {
        Tool::Asan => "ERROR: AddressSanitizer",
        _ => "error: Undefined Behavior",
    };
    let at = err.find(key)?;
    if tool == Tool::Asan {
        let line = err[at..].lines().next().unwrap_or("");
        // limits of the sandbox, not errors of the program
        for t in ["out of memory", "allocation-size-too-big", "failed to allocate", "stack-overflow"] {
            if line.contains(t) {
                return None;
            }
        }
    }
    let mut s: String = err[at..].lines().take(40).collect::<Vec<_>>().join("\n");
    s.truncate((0..=s.len().min(2500)).rev().find(|i| s.is_char_boundary(*i)).unwrap());
    Some(s)
}

/// cargo runs the interpreter as a child in its own process group.
fn stop_group(c: &mut Child) {
    let _ = Command::new("/bin/kill").args(["-KILL", "--", &format!("-{}", c.id())])
        .stderr(Stdio::null()).status();
    let _ = c.kill();
    let _ = c.wait();
}

fn sanitize(tier: &str) -> i32 {
    let t0 = Instant::now();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let scale = if thorough { 6 } else { 1 };
    let mut tasks: Vec<Task> = vec![];
    for k in 0..8 {
        tasks.push(Task { tool: if k % 2 == 0 { Tool::Stacked } else { Tool::Tree }, bin: "memory", prop: "G08",
            start: k, step: 8, count: 100_000, cap: if k >= 6 { 75 } else { 45 } * scale });
    }
    for (i, (bin, prop)) in [("arith", "A01"), ("arith", "A06"), ("graphs", "G01"), ("graphs", "G02"), ("cgd", "I01"),
        ("cgd", "I02"), ("cgd", "I03"), ("groups", "C08")].into_iter().enumerate()
    {
        tasks.push(Task { tool: if i % 2 == 0 { Tool::Stacked } else { Tool::Tree }, bin, prop,
            start: 0, step: 1, count: 100_000, cap: 12 * scale });
    }
    for (bin, props) in [
        ("memory", &["G08"][..]),
        ("graphs", &["G01", "G02", "G03", "G04", "G05", "G06", "G07"][..]),
        ("syms", &["S01", "S02", "S03", "S04"]),
        ("arith", &["A01", "A02", "A03", "A04", "A05", "A06", "A07"]),
        ("lattice", &["L01", "L02", "L03"]),
        ("groups", &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"]),
        ("cgd", &["I01", "I02", "I03"]),
    ] {
        for prop in props {
            tasks.push(Task { tool: Tool::Asan, bin, prop, start: 0, step: 1, count: 1_000_000, cap: 3 * scale });
        }
    }
    tasks.sort_by_key(|t| t.cap);   // the long ones start first

    let scratch = std::env::temp_dir().join(format!("systre-mon-G08-{}", std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let mut running: Vec<Run> = vec![];
    let mut n = 0;
    let mut cases: BTreeMap<String, u64> = BTreeMap::new();
    let mut finished: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<(String, u64)> = BTreeSet::new();
    let mut evals = 0u64;
    let mut cut = 0u64;
    let mut found: Option<(String, String)> = None;
    let mut trouble: Vec<String> = vec![];
    let mut samples: Vec<String> = vec![];
    while (!tasks.is_empty() || !running.is_empty()) && found.is_none() {
        while running.len() < 8 && !tasks.is_empty() {
            let task = tasks.pop().unwrap();
            let out = scratch.join(format!("{}.out", n));
            let err = scratch.join(format!("{}.err", n));
            n += 1;
            let child = command(&task, tier, seed, &root)
                .env("TMPDIR", &scratch)
                .process_group(0)
                .stdin(Stdio::null())
                .stdout(fs::File::create(&out).unwrap())
                .stderr(fs::File::create(&err).unwrap())
                .spawn();
            match child {
                Ok(child) => running.push(Run { task, child, out, err, t0: Instant::now() }),
                Err(e) => trouble.push(format!("cannot start {}: {}", tool_name(task.tool), e)),
            }
        }
        std::thread::sleep(Duration::from_millis(30));
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            let late = r.t0.elapsed().as_secs() > r.task.cap + if r.task.tool == Tool::Asan { 10 } else { 8 };
            let st = r.child.try_wait().ok().flatten();
            if st.is_none() && !late {
                i += 1;
                continue;
            }
            if st.is_none() {
                stop_group(&mut r.child);
                cut += 1;
            }
            let out = fs::read_to_string(&r.out).unwrap_or_default();
            let err = String::from_utf8_lossy(&fs::read(&r.err).unwrap_or_default()).to_string();
            let mut last = String::new();
            let mut mine = 0;
            for l in out.lines() {
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "B" => last = f.get(1).unwrap_or(&"").to_string(),
                    "I" if f.len() == 4 => {
                        mine += 1;
                        if let Ok(h) = f[3].parse() {
                            distinct.insert((r.task.prop.to_string(), h));
                        }
                    }
                    _ => {}
                }
            }
            evals += mine;
            *cases.entry(format!("{}: cases of {}", tool_name(r.task.tool), r.task.prop)).or_insert(0) += mine;
            *finished.entry(tool_name(r.task.tool)).or_insert(0) += mine;
            if samples.len() < 6 && mine > 0 {
                samples.push(format!("{}: {} cases of the workload of {} from case {} in steps of {}",
                    tool_name(r.task.tool), mine, r.task.prop, r.task.start, r.task.step));
            }
            if let Some(text) = report(r.task.tool, &err) {
                let re = match r.task.tool {
                    Tool::Asan => format!("{} inline {} {} {} {} 1 {} 600", r.task.bin, r.task.prop, tier, seed, last,
                        last.parse::<u64>().unwrap_or(0) + 1),
                    _ => format!("cargo +nightly miri run --bin {} -- inline {} {} {} {} 1 {} 600", r.task.bin,
                        r.task.prop, tier, seed, last, last.parse::<u64>().unwrap_or(0) + 1),
                };
                found = Some((format!("{} while running case {} of the workload of {}: {}", tool_name(r.task.tool),
                    last, r.task.prop, text), re));
            } else if let Some(st) = st {
                let fatal = matches!(st.signal(), Some(4) | Some(7) | Some(11));
                if fatal && !err.contains("stack overflow") && !err.contains("stack-overflow") {
                    found = Some((format!("the process dies ({}) while running case {} of the workload of {}",
                        st, last, r.task.prop), String::new()));
                } else if !st.success() && mine == 0 && r.task.tool != Tool::Asan {
                    trouble.push(format!("{} on {}: {} {}", tool_name(r.task.tool), r.task.prop, st,
                        err.lines().take(6).collect::<Vec<_>>().join(" / ")));
                }
            }
            running.swap_remove(i);
        }
    }
    for r in running.iter_mut() {
        stop_group(&mut r.child);
    }
    let _ = fs::remove_dir_all(&scratch);
    if found.is_none() {
        for t in ["miri (stacked borrows)", "miri (tree borrows)", "address sanitizer"] {
            if finished.get(t).copied().unwrap_or(0) < 5 {
                trouble.push(format!("{}: only {} cases finished", t, finished.get(t).copied().unwrap_or(0)));
            }
        }
    }

    let mut ev = String::new();
    ev.push_str(&format!("{{\n \"property\": \"G08\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n",
        if thorough { "thorough" } else { "quick" }, seed));
    ev.push_str(&format!(" \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
        evals, distinct.len(), json_str("a case is one generated workload run to its end under an interpreter or sanitizer; \
distinct by workload and generated input")));
    ev.push_str(&format!("  \"observed\": {{{}}},\n  \"runs ended by the clock\": {},\n", cases.iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "), cut));
    ev.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str(" \"assumptions\": [\"comparing, hashing and copying the caller's label and element types does not call back into the structure that holds them\"],\n");
    ev.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), found.is_some() as u32));
    let _ = fs::create_dir_all(root.join("evidence"));
    fs::write(root.join("evidence/G08.json"), ev).unwrap();

    if let Some((text, re)) = found {
        let dir = root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("G08-{}.txt", seed));
        let _ = fs::write(&path, format!("property: G08\nseed: {}\ntier: {}\nobserved: {}\nre-run: {}\n", seed, tier, text, re));
        println!("G08: {}", text);
        println!("VIOLATION property=G08 replay={}", path.display());
        return 1;
    }
    if !trouble.is_empty() {
        for t in trouble {
            println!("INCONCLUSIVE property=G08 {}", t);
        }
        return 2;
    }
    println!("G08: no report on {} cases ({} distinct) in {:.1} s", evals, distinct.len(), t0.elapsed().as_secs_f64());
    for (k, v) in &cases {
        println!("  {} = {}", k, v);
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("run") {
        std::process::exit(sanitize(&args[3]));
    }
    main_with(P)
}
