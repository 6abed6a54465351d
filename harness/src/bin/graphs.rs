//! Monitors G01..G07: periodic graph representation and queries.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use harness::core::*;
use harness::exact::*;
use harness::net::*;
use harness::{ensure, fail, with_dim};
use num_traits::{ToPrimitive, Zero};
use rust_systre::pgraphs::{graph_component_measures, Edge, Graph, Vector};

fn shift_str(s: &[i64]) -> String {
    format!("({})", s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))
}

fn multiset(xs: &[Raw]) -> BTreeMap<Raw, usize> {
    let mut m = BTreeMap::new();
    for x in xs {
        *m.entry(x.clone()).or_insert(0) += 1;
    }
    m
}

// ------------------------------------------------------------------- G01

fn g01(cx: &mut Ctx) -> Res {
    with_dim!(cx, g01t)
}

fn lex_sign(s: &[i64]) -> i32 {
    for x in s {
        if *x != 0 {
            return if *x > 0 { 1 } else { -1 };
        }
    }
    0
}

fn g01_labels<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let big = cx.rng.chance(1, 3);
    let mk = |cx: &mut Ctx| -> Vec<i64> {
        (0..d).map(|_| {
            let m = if big { 1_073_741_823 } else { 3 };
            cx.rng.range(-m, m)
        }).collect()
    };
    let (a, b) = (mk(cx), mk(cx));
    let i32s = |v: &[i64]| v.iter().map(|x| *x as i32).collect::<Vec<i32>>();
    let i64s = |v: &T| v.to_vec().iter().map(|x| *x as i64).collect::<Vec<i64>>();
    let (ta, tb) = (T::from_vec(&i32s(&a)), T::from_vec(&i32s(&b)));
    ensure!(i64s(&ta) == a, "label {:?} reads back as {:?}", a, i64s(&ta));
    let sum: Vec<i64> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
    let dif: Vec<i64> = a.iter().zip(&b).map(|(x, y)| x - y).collect();
    let neg: Vec<i64> = a.iter().map(|x| -x).collect();
    ensure!(i64s(&(ta + tb)) == sum, "label sum {:?}+{:?} gives {:?}", a, b, i64s(&(ta + tb)));
    ensure!(i64s(&(ta - tb)) == dif, "label difference {:?}-{:?} gives {:?}", a, b, i64s(&(ta - tb)));
    ensure!(i64s(&(-ta)) == neg, "label negation of {:?} gives {:?}", a, i64s(&(-ta)));
    ensure!((ta == tb) == (a == b), "label equality of {:?} and {:?}", a, b);
    ensure!(ta.cmp(&tb) == a.cmp(&b), "label order of {:?} and {:?}", a, b);
    let s = lex_sign(&a);
    ensure!(ta.is_zero() == (s == 0) && ta.is_positive() == (s > 0) && ta.is_negative() == (s < 0),
        "sign predicates of label {:?}: zero {} positive {} negative {}", a, ta.is_zero(),
        ta.is_positive(), ta.is_negative());
    ensure!(T::zero().is_zero() && i64s(&T::zero()).iter().all(|x| *x == 0), "zero label");
    ensure!(T::zero().to_vec().len() == d, "label dimension");
    let len = *cx.rng.pick(&[0, if d > 1 { 1 } else { 2 }, d - 1, d + 1, d + 2]);
    ensure!(refused(|| T::from_vec(&vec![1; len])).is_none(), "a list of {} numbers is taken for a label", len);
    ensure!(ta.to_string() == shift_str(&a), "label {:?} prints as {}", a, ta);
    cx.count("label_pairs");
    Ok(())
}

fn g01t<T: Label>(cx: &mut Ctx) -> Res {
    for _ in 0..20 {
        g01_labels::<T>(cx)?;
    }
    let d = T::dim();
    let mag = *cx.rng.pick(&[1i64, 2, 5, 1000, 1_000_000_000]);
    let mut nmax = *cx.rng.pick(&[1usize, 2, 3, 6, 12, 30]);
    if cx.rng.chance(1, 150) && !cfg!(miri) {
        nmax = 1200;
        cx.count("large graphs");
    }
    let net = random_graph(&mut cx.rng, d, nmax, mag);
    let net = with_zero_loops(&mut cx.rng, net);
    if net.has_zero_loop() {
        cx.count("with zero loops");
    }
    let raw1 = net.to_raw_shuffled(&mut cx.rng, true);
    let raw2 = net.to_raw_shuffled(&mut cx.rng, true);
    cx.describe(format!("{} given as {:?}", net.show(), raw1));
    let g1 = build::<T>(&raw1);
    let g2 = build::<T>(&raw2);
    cx.add("edges_given", raw1.len() as u64);

    // edges
    for r in &raw1 {
        let e = to_edge::<T>(r);
        ensure!(from_edge(&e) == *r, "edge {:?} reads back as {:?}", r, from_edge(&e));
        let n = -&e;
        ensure!(from_edge(&n) == neg_raw(r), "reverse of {:?} is {:?}", r, from_edge(&n));
        ensure!(-&n == e, "double reverse of {:?}", r);
        let c = e.canonical();
        ensure!(c == n.canonical(), "edge {:?} and its reverse have different canonical forms", r);
        ensure!(c == e || c == n, "canonical form of {:?} is neither direction", r);
        ensure!(c == c.canonical(), "canonical form of {:?} is not a fixed point", r);
        ensure!(e.to_string() == format!("{} --{}-> {}", r.0, shift_str(&r.2), r.1),
            "edge {:?} prints as '{}'", r, e);
    }

    // the printed form lists every undirected edge once, in some direction,
    // and does not depend on the presentation
    let text = g1.to_string();
    ensure!(text == g2.to_string(), "the printed form depends on the order or direction of the input: '{}' / '{}'",
        text, g2);
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == net.edges.len(), "{} distinct edges are printed as {} lines: '{}'",
        net.edges.len(), lines.len(), text);
    let both: HashSet<String> = lines.iter().map(|s| s.to_string()).collect();
    for e in &net.edges {
        let f = |e: &Raw| format!("{} --{}-> {}", e.0, shift_str(&e.2), e.1);
        ensure!(both.contains(&f(e)) || both.contains(&f(&neg_raw(e))), "edge {:?} is not printed in '{}'", e, text);
    }

    // queries, in a random order
    let verts = net.verts();
    let darts = net.darts();
    for g in [&g1, &g2] {
        let mut vs = verts.clone();
        cx.rng.shuffle(&mut vs);
        for v in &vs {
            let inc: Vec<Raw> = g.incidences(v).iter().map(from_edge).collect();
            ensure!(inc.iter().all(|e| e.0 == *v), "incidence at {} does not start there: {:?}", v, inc);
            ensure!(multiset(&inc) == multiset(&darts[v]), "incidences at {}: {:?}, expected {:?}", v, inc, darts[v]);
        }
        ensure!(g.vertices() == verts, "vertices {:?}, expected {:?}", g.vertices(), verts);
        let de: Vec<Raw> = g.directed_edges().iter().map(from_edge).collect();
        let all: Vec<Raw> = darts.values().flatten().cloned().collect();
        ensure!(multiset(&de) == multiset(&all), "directed edges {:?}, expected {:?}", de, all);
        ensure!(de.len() == 2 * net.edges.len(), "number of directed edges");
    }
    for v in &verts {
        ensure!(g1.incidences(v) == g2.incidences(v), "order of incidences at {} depends on the presentation", v);
    }
    ensure!(g1.directed_edges() == g2.directed_edges(), "order of directed edges depends on the presentation");
    ensure!(Graph::<T, W>::dim() == d, "dimension");
    if raw1.len() > 1 {
        cx.nontrivial();
    }
    if raw1.len() > net.edges.len() {
        cx.count("with_duplicates");
    }
    if net.edges.iter().any(|e| e.0 == e.1) {
        cx.count("with_loops");
    }
    Ok(())
}

// ------------------------------------------------------------------- G02

fn g02(cx: &mut Ctx) -> Res {
    with_dim!(cx, g02t)
}

fn g02t<T: Label>(cx: &mut Ctx) -> Res {
    if cx.rng.chance(1, 100) {
        let g = build::<T>(&[]);
        cx.describe("the graph without edges".to_string());
        ensure!(g.vertices().is_empty() && g.directed_edges().is_empty() && g.to_string().is_empty(), "the graph without edges has vertices or edges");
        ensure!(g.is_connected(), "the graph without edges is not connected");
        cx.count("empty");
    }
    let d = T::dim();
    let mag = *cx.rng.pick(&[1i64, 1, 2, 3, 6, 20]);
    let nmax = *cx.rng.pick(&[2usize, 3, 5, 8, 14]);
    let large = cx.rng.chance(1, 150) && !cfg!(miri);
    let net = match cx.rng.below(6) {
        _ if large => {
            let n = if cx.rng.bool() { 60 } else { 500 };
            let m = *cx.rng.pick(&[1, 2]);
            if cx.rng.bool() { random_connected(&mut cx.rng, d, n, m, false) } else { random_graph(&mut cx.rng, d, n, m) }
        }
        0 | 1 => random_graph(&mut cx.rng, d, nmax, mag),
        2 => random_connected(&mut cx.rng, d, nmax, mag, false),
        5 => {
            // large labels, whether or not the index is large
            let big = *cx.rng.pick(&[100, 600, 20_000]);
            if cx.rng.bool() {
                random_graph(&mut cx.rng, d, 4, match d { 1 | 2 => big, 3 => big.min(600), _ => 20 })
            } else {
                let a = random_graph(&mut cx.rng, d, nmax, 2);
                let b = random_unimodular(&mut cx.rng, d, 40, 100 * big);
                a.basis_change(&b)
            }
        }
        3 => {
            // several copies of lattices side by side, some disjoint
            let a = random_connected(&mut cx.rng, d, 4, 2, true);
            let k = 1 + cx.rng.range(0, 5);
            let h = random_sublattice(&mut cx.rng, d, k);
            let t = transpose(&h);
            a.basis_change(&t)
        }
        _ => {
            let a = random_connected(&mut cx.rng, d, 4, 2, true).relabel(|v| v / 2);
            let b = random_connected(&mut cx.rng, d, 4, 2, false).relabel(|v| v / 2 + 0x8000_0000);
            let mut e = a.edges.clone();
            e.extend(b.edges);
            let n = Net::new(d, e);
            if n.has_zero_loop() { a } else { n }
        }
    };
    let net = with_zero_loops(&mut cx.rng, net);
    if net.has_zero_loop() {
        cx.count("with zero loops");
    }
    let raw = net.to_raw_shuffled(&mut cx.rng, true);
    cx.describe(net.show());
    let g = build::<T>(&raw);
    let conn = net.connected();
    let fits = net.measures(net.verts()[0]).2.is_none_or(|m| m <= z(i32::MAX as i64));
    ensure!(!fits || g.is_connected() == conn, "reported connected: {}, the net is connected: {}", g.is_connected(), conn);
    let mut multi = false;
    let mut vs = net.verts();
    if large {
        cx.rng.shuffle(&mut vs);
        vs.truncate(6);
        cx.count("large graphs");
    }
    for v in vs {
        let (n, r, m) = net.measures(v);
        if m.as_ref().is_some_and(|m| *m > z(i32::MAX as i64)) {
            continue;
        }
        let (gn, gr, gm) = graph_component_measures(&g, &v);
        ensure!(gn == n, "component of {} has {} vertices, reported {}", v, n, gn);
        ensure!(gr == r, "component of {} has rank {}, reported {}", v, r, gr);
        let m = m.map(|x| x.to_i64().unwrap());
        ensure!(gm.map(|x| x as i64) == m, "component of {} has multiplicity {:?}, reported {:?}", v, m, gm);
        if let Some(k) = m {
            multi |= k > 1;
        }
        if r < d {
            cx.count("deficient_components");
        }
    }
    cx.count(if conn { "connected" } else { "disconnected" });
    if multi {
        cx.count("multiplicity_above_1");
    }
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------- G03

fn g03(cx: &mut Ctx) -> Res {
    with_dim!(cx, g03t)
}

fn g03t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let mag = *cx.rng.pick(&[1i64, 2, 4, 50, 1_000_000]);
    let mut nmax = *cx.rng.pick(&[1usize, 2, 4, 8, 16]);
    if cx.rng.chance(1, 150) && !cfg!(miri) {
        nmax = 150;
        cx.count("large graphs");
    }
    let net = if cx.rng.chance(2, 3) {
        random_graph(&mut cx.rng, d, nmax, mag)
    } else {
        random_connected(&mut cx.rng, d, nmax, mag, false)
    };
    let net = with_zero_loops(&mut cx.rng, net);
    if net.has_zero_loop() {
        cx.count("with zero loops");
    }
    cx.describe(net.show());
    let g = build::<T>(&net.to_raw_shuffled(&mut cx.rng, false));
    let h = g.shift_normalized();
    let out = read_back(&h);
    cx.count("normalised");
    check_representation(&net, &out)?;
    // zero-shift edges must connect every component
    let zero = Net::new(d, out.edges.iter().filter(|e| e.2.iter().all(|x| *x == 0)).cloned().collect());
    for v in net.verts() {
        let full = net.component(v).0;
        let got = zero.component(v).0;
        ensure!(full == got, "zero-shift edges reach only {:?} from {} instead of {:?} in {}", got, v, full, out.show());
    }
    // and again, from the normalised net
    let again = read_back(&h.shift_normalized());
    check_representation(&net, &again)?;
    if out.edges != net.edges {
        cx.count("changed_shifts");
    }
    if net.verts().len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}

/// out = in up to one lattice offset per vertex
fn check_representation(net: &Net, out: &Net) -> Res {
    ensure!(net.verts() == out.verts(), "vertices {:?} become {:?}", net.verts(), out.verts());
    let by_pair = |n: &Net| {
        let mut m: BTreeMap<(u32, u32), BTreeSet<Vec<i64>>> = BTreeMap::new();
        for ds in n.darts().values() {
            for e in ds {
                m.entry((e.0, e.1)).or_default().insert(e.2.clone());
            }
        }
        m
    };
    let (a, b) = (by_pair(net), by_pair(out));
    let ka: Vec<_> = a.keys().collect();
    let kb: Vec<_> = b.keys().collect();
    ensure!(ka == kb, "adjacent vertex pairs {:?} become {:?}", ka, kb);
    let mut off: HashMap<u32, Vec<i64>> = HashMap::new();
    for v0 in net.verts() {
        if off.contains_key(&v0) {
            continue;
        }
        off.insert(v0, vec![0; net.d]);
        let mut stack = vec![v0];
        while let Some(u) = stack.pop() {
            for ((x, w), s) in a.range((u, 0)..=(u, u32::MAX)) {
                debug_assert!(*x == u);
                let t = &b[&(u, *w)];
                if s.len() != t.len() {
                    fail!("{} edges from {} to {} become {}", s.len(), u, w, t.len());
                }
                // translation preserves the lexicographic minimum
                let diff: Vec<i64> = t.iter().next().unwrap().iter()
                    .zip(s.iter().next().unwrap()).map(|(p, q)| p - q).collect();
                let moved: BTreeSet<Vec<i64>> = s.iter()
                    .map(|x| x.iter().zip(&diff).map(|(p, q)| p + q).collect()).collect();
                if &moved != t {
                    fail!("edges from {} to {} with shifts {:?} become {:?}, which is no translate", u, w, s, t);
                }
                // t = s + o(u) - o(w)
                let ow: Vec<i64> = off[&u].iter().zip(&diff).map(|(p, q)| p - q).collect();
                match off.get(w) {
                    None => {
                        off.insert(*w, ow);
                        stack.push(*w);
                    }
                    Some(o) => {
                        if *o != ow {
                            fail!("no consistent offset for vertex {}: {:?} and {:?} (result {})", w, o, ow, out.show());
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- G04

fn g04(cx: &mut Ctx) -> Res {
    with_dim!(cx, g04t)
}

fn g04t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let deep = cx.rng.chance(1, 40) && !cfg!(miri);
    let net = match cx.rng.below(4) {
        _ if deep => {
            // few vertices and many shells, or the reverse
            if cx.rng.bool() { random_connected(&mut cx.rng, d, 2, 1, false) } else { random_graph(&mut cx.rng, d, 80, 1) }
        }
        0 => random_graph(&mut cx.rng, d, 5, 2),
        1 => random_connected(&mut cx.rng, d, 6, 1, true),
        2 => {
            let c: Vec<_> = catalog().into_iter().filter(|c| c.1.d == d).collect();
            let i = cx.rng.usize(c.len());
            let n = 4 + cx.rng.usize(8);
            disguise(&mut cx.rng, &c[i].1, n)
        }
        _ => random_connected(&mut cx.rng, d, 3, 30, false),
    };
    let net = with_zero_loops(&mut cx.rng, net);
    if net.has_zero_loop() {
        cx.count("with zero loops");
    }
    let mut n = match d { 1 => 12, 2 => 7, 3 => 5, _ => 3 } + if cx.thorough { 3 } else { 0 };
    cx.describe(net.show());
    let g = build::<T>(&net.to_raw_shuffled(&mut cx.rng, false));
    let mut verts = net.verts();
    if deep {
        if verts.len() <= 2 {
            let far = cx.rng.chance(1, 3);
            n = match (d, far) { (1, true) => 600, (1, _) => 60, (2, true) => 64, (2, _) => 30, (3, _) => 12, _ => 6 }
        }
        cx.rng.shuffle(&mut verts);
        verts.truncate(5);
        cx.count("deep or large");
    }
    // several sequences from the same vertex, and asking for one that is not run to its end
    if cx.rng.chance(1, 3) {
        let v = *cx.rng.pick(&verts);
        verts.push(v);
        let _ = g.coordination_sequence(&v).take(cx.rng.usize(3)).count();
    }
    // interleave iterators over several vertices with other queries
    let mut its: Vec<_> = verts.iter().map(|v| (g.coordination_sequence(v), vec![])).collect();
    for _ in 0..n {
        let mut order: Vec<usize> = (0..its.len()).collect();
        cx.rng.shuffle(&mut order);
        for i in order {
            let x = its[i].0.next();
            let Some(x) = x else { fail!("coordination sequence of {} ends", verts[i]) };
            its[i].1.push(x);
            if cx.rng.chance(1, 6) {
                let _ = g.incidences(&verts[i]);
                let _ = g.vertices();
            }
        }
    }
    let mut finite = false;
    for (v, (_, got)) in verts.iter().zip(&its) {
        let want = net.shells(*v, n);
        ensure!(*got == want, "coordination sequence of {}: {:?}, shells have sizes {:?}", v, got, want);
        cx.add("shells", n as u64);
        finite |= want.contains(&0);
    }
    if finite {
        cx.count("finite_components");
    }
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------- G05

/// A graph with k disjoint 2-vertex chains etc. whose number of spanning
/// trees is a multiple of the prime used by the modular solver.
fn tree_count_multiple(rng: &mut Rng, d: usize) -> Net {
    // Series-parallel construction: continued fraction for p/q gives a ladder
    // of parallel edges and subdivisions with exactly p spanning trees.
    let p: u64 = *rng.pick(&[9_999_991, 2 * 9_999_991]);
    loop {
        let q = 1 + rng.below(p - 1);
        let (mut a, mut b) = (p, q);
        let mut terms = vec![];
        while b > 0 {
            terms.push(a / b);
            let r = a % b;
            a = b;
            b = r;
        }
        if a != 1 || terms.iter().sum::<u64>() > 60 {
            continue;
        }
        // network between vertices 1 and 2
        let mut edges: Vec<Raw> = vec![];
        let mut next = 2u32;
        let s0 = |rng: &mut Rng| -> Vec<i64> { (0..d).map(|_| rng.range(-2, 2)).collect() };
        let (mut s, mut t) = (1u32, 2u32);
        for (i, k) in terms.iter().rev().enumerate() {
            for j in 0..*k {
                if i % 2 == 0 {
                    // add a parallel edge through distinct shift
                    let mut sh = s0(rng);
                    sh[0] = 7 * j as i64 - 20;
                    if d > 1 { sh[1] += (i as i64) * 3 }
                    edges.push((s, t, sh));
                } else {
                    next += 1;
                    edges.push((t, next, s0(rng)));
                    t = next;
                }
            }
        }
        let _ = &mut s;
        let n = Net::new(d, edges);
        if n.has_zero_loop() || n.verts().len() < 2 || !n.quotient_connected() {
            continue;
        }
        if n.measures(n.verts()[0]).1 < d {
            continue;
        }
        return n;
    }
}

fn trees(net: &Net) -> Q {
    let vs = net.verts();
    let n = vs.len();
    let ix: HashMap<u32, usize> = vs.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut a = vec![vec![Q::zero(); n]; n];
    for e in &net.edges {
        let (i, j) = (ix[&e.0], ix[&e.1]);
        if i != j {
            a[i][i] += q(1);
            a[j][j] += q(1);
            a[i][j] -= q(1);
            a[j][i] -= q(1);
        }
    }
    let m: QM = a[1..].iter().map(|r| r[1..].to_vec()).collect();
    det(&m)
}

fn g05(cx: &mut Ctx) -> Res {
    with_dim!(cx, g05t)
}

fn g05t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let net = match cx.rng.below(10) {
        0 => tree_count_multiple(&mut cx.rng, d),
        1 | 2 => {
            let m = *cx.rng.pick(&[100i64, 100_000, 10_000_000, 1 << 31, 1 << 31]);
            let m = m.min((1 << 31) - 1);
            if m > 10_000_000 {
                cx.count("labels up to 2^31");
            }
            random_connected(&mut cx.rng, d, 8, m, false)
        }
        3 if !cfg!(miri) && cx.rng.chance(1, 20) => {
            cx.count("large graphs");
            let n = if cx.thorough { 220 } else { 90 };
            random_connected(&mut cx.rng, d, n, 3, false)
        }
        3 => {
            let n = if cx.thorough { 45 } else { 25 };
            random_connected(&mut cx.rng, d, n, 3, false)
        }
        4 => {
            // rank-deficient but connected quotient
            let mut n;
            loop {
                n = random_connected(&mut cx.rng, d, 6, 2, false);
                n = Net::new(d, n.edges.iter().map(|e| {
                    let mut s = e.2.clone();
                    s[d - 1] = 0;
                    (e.0, e.1, s)
                }).filter(|e| !(e.0 == e.1 && e.2.iter().all(|x| *x == 0))).collect());
                if !n.edges.is_empty() && n.quotient_connected() {
                    break;
                }
            }
            n
        }
        5 => {
            let c: Vec<_> = catalog().into_iter().filter(|c| c.1.d == d).collect();
            let i = cx.rng.usize(c.len());
            let k = 1 + cx.rng.range(0, 5);
            let h = random_sublattice(&mut cx.rng, d, k);
            let s = c[i].1.supercell(&h);
            disguise(&mut cx.rng, &s, 6)
        }
        _ => random_connected(&mut cx.rng, d, 10, 2, false),
    };
    cx.describe(net.show());
    let g = build::<T>(&net.to_raw_shuffled(&mut cx.rng, false));
    let mut vs = net.verts();
    let first = vs[0];
    cx.rng.shuffle(&mut vs);
    let mut pos: BTreeMap<u32, Vec<Q>> = BTreeMap::new();
    for v in &vs {
        let p = g.position(v);
        ensure!(p.dim() == d, "position of {} has {} coordinates", v, p.dim());
        pos.insert(*v, p.iter().cloned().collect());
    }
    ensure!(pos[&first].iter().all(|x| x.is_zero()), "first vertex {} lies at {}", first, vs2(&pos[&first]));
    for (v, ds) in net.darts() {
        let mut sum = vec![Q::zero(); d];
        for e in &ds {
            let want = edge_vec(e, &pos);
            let got: Vec<Q> = g.edge_vector(&to_edge::<T>(e)).iter().cloned().collect();
            ensure!(got == want, "edge {:?} has vector {}, its ends differ by {}", e, vs2(&got), vs2(&want));
            for k in 0..d {
                sum[k] += &want[k];
            }
        }
        ensure!(sum.iter().all(|x| x.is_zero()),
            "vertex {} at {} is not the barycentre of its neighbours: the edge vectors add up to {}",
            v, vs2(&pos[&v]), vs2(&sum));
        let nrm: Vec<Q> = g.position_normalized(&v).iter().cloned().collect();
        ensure!(nrm == frac_vec(&pos[&v]), "normalised position of {}: {} for {}", v, vs2(&nrm), vs2(&pos[&v]));
        cx.count("vertices_placed");
    }
    let small = net.verts().len() <= 46;
    if small && (trees(&net).to_integer() % z(9_999_991)).is_zero() {
        cx.count("tree_count_divisible_by_solver_prime");
    }
    if net.verts().len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}

fn vs2(v: &[Q]) -> String {
    vs(v)
}

// ------------------------------------------------------------------- G06

/// Nets in which positions collide in different ways.
fn colliding(rng: &mut Rng, d: usize) -> Net {
    let c: Vec<_> = catalog().into_iter().filter(|c| c.1.d == d).collect();
    match rng.below(5) {
        0 => random_connected(rng, d, 6, 1, false),
        1 => {
            // two or three leaves / two-connected bridges at one vertex
            let base = random_connected(rng, d, 3, 1, false);
            let mut e = base.edges.clone();
            let vs = base.verts();
            let top = 5_000_000u32;
            let k = 2 + rng.usize(2);
            let u = *rng.pick(&vs);
            let w = *rng.pick(&vs);
            for i in 0..k {
                let s: Vec<i64> = (0..d).map(|_| rng.range(-1, 1)).collect();
                e.push((u, top + i as u32, vec![0; d]));
                if rng.bool() {
                    e.push((w, top + i as u32, s));
                }
            }
            Net::new(d, e)
        }
        2 => {
            let i = rng.usize(c.len());
            let rungs: &[(usize, usize)] = if rng.bool() { &[(0, 1)] } else { &[] };
            ladder(&c[i].1, 2, rungs, &vec![vec![0, 1]; d])
        }
        3 => voltage_net(rng, d),
        _ => {
            let i = rng.usize(c.len());
            let k = 1 + rng.range(0, 3);
            let h = random_sublattice(rng, d, k);
            c[i].1.supercell(&h)
        }
    }
}

pub fn voltage_net(rng: &mut Rng, d: usize) -> Net {
    let c: Vec<_> = catalog().into_iter().filter(|c| c.1.d == d).collect();
    let base = &c[rng.usize(c.len())].1;
    let k = 2 + rng.usize(3) as u32;
    let mut e = vec![];
    for (u, v, s) in &base.edges {
        let g = rng.below(k as u64) as u32;
        for i in 0..k {
            e.push((u * k + i, v * k + (i + g) % k, s.clone()));
        }
    }
    Net::new(d, e)
}

fn g06(cx: &mut Ctx) -> Res {
    with_dim!(cx, g06t)
}

fn g06t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let mut net = colliding(&mut cx.rng, d);
    let mut tries = 0;
    if cx.rng.chance(1, 150) && !cfg!(miri) {
        let c: Vec<_> = catalog().into_iter().filter(|c| c.1.d == d && c.1.verts().len() <= 2).collect();
        let n = &cx.rng.pick(&c).1;
        let k = n.verts().len() as i64;
        let i = cx.rng.range(64 / k + 2, 76 / k);
        net = n.supercell(&random_sublattice(&mut cx.rng, d, i));
        if cx.rng.bool() {
            // coincident leaves at the last vertex
            let u = *net.verts().last().unwrap();
            net.edges.push((u, u + 1, vec![0; d]));
            net.edges.push((u, u + 2, vec![0; d]));
            net = Net::new(d, net.edges);
        }
        cx.count("large_nets");
    }
    let big = net.verts().len() > 60 && net.verts().len() < 200;
    while net.has_zero_loop() || !net.quotient_connected() || net.verts().len() > 40 && !big {
        net = if tries > 20 { random_connected(&mut cx.rng, d, 4, 1, false) } else { colliding(&mut cx.rng, d) };
        tries += 1;
    }
    let net = if cx.rng.bool() { disguise(&mut cx.rng, &net, 5) } else { net };
    if net.has_zero_loop() {
        return Ok(());
    }
    cx.describe(net.show());
    let pos = net.positions();
    let vecs = net.vectors(&pos);
    let g = build::<T>(&net.to_raw_shuffled(&mut cx.rng, false));
    let stable = net.stable(&pos);
    let local = net.locally_stable(&pos);
    let mut seen: HashSet<(Vec<Q>, Vec<Vec<Q>>)> = HashSet::new();
    let mut second = false;
    for (v, ds) in &vecs {
        let mut x: Vec<Vec<Q>> = ds.iter().map(|e| e.1.clone()).collect();
        x.sort();
        second |= !seen.insert((frac_vec(&pos[v]), x));
    }
    for what in [0, 1, 2, 0, 1, 2].iter().skip(cx.rng.usize(3)).take(3) {
        match what {
            0 => ensure!(g.is_stable() == stable, "reported stable: {}, positions are pairwise distinct: {}", g.is_stable(), stable),
            1 => ensure!(g.is_locally_stable() == local, "reported locally stable: {}, actually {}", g.is_locally_stable(), local),
            _ => ensure!(g.has_second_order_collisions() == second, "reported second-order collisions: {}, actually {}",
                g.has_second_order_collisions(), second),
        }
    }
    // lookup by displacement
    for (v, ds) in &vecs {
        for (e, dv) in ds {
            let n = ds.iter().filter(|x| x.1 == *dv).count();
            let got = g.edge_by_unique_delta(v, &Vector::new(dv)).map(|e| from_edge(&e));
            if n == 1 {
                ensure!(got.as_ref() == Some(e), "edge at {} with displacement {}: {:?}, expected {:?}", v, vs(dv), got, e);
                cx.count("lookup_unique");
            } else {
                ensure!(got.is_none(), "edge at {} with ambiguous displacement {} ({} edges): {:?}", v, vs(dv), n, got);
                cx.count("lookup_ambiguous");
            }
            let mut other = dv.clone();
            let k = cx.rng.usize(d);
            other[k] += if cx.rng.bool() { q(1) } else { qf(1, 3) };
            if ds.iter().all(|x| x.1 != other) {
                let got = g.edge_by_unique_delta(v, &Vector::new(&other)).map(|e| from_edge(&e));
                ensure!(got.is_none(), "no edge at {} has displacement {}, got {:?}", v, vs(&other), got);
                cx.count("lookup_absent");
            }
        }
    }
    let unknown = 4_000_000_000u32;
    if !vecs.contains_key(&unknown) {
        let dv = vecs.values().next().unwrap()[0].1.clone();
        ensure!(g.edge_by_unique_delta(&unknown, &Vector::new(&dv)).is_none(), "edge found at an unknown vertex");
    }
    cx.count(if stable { "stable" } else { "unstable" });
    cx.count(if local { "locally_stable" } else { "locally_unstable" });
    if second {
        cx.count("second_order_collisions");
    }
    cx.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------- G07

fn g07(cx: &mut Ctx) -> Res {
    with_dim!(cx, g07t)
}

fn fnv(s: String) -> String {
    s
}

fn query<T: Label>(g: &Graph<T, W>, kind: u64, v: u32, w: usize) -> Option<String> {
    let raw = |es: Vec<Edge<T, W>>| es.iter().map(from_edge).collect::<Vec<_>>();
    refused(|| fnv(match kind {
        0 => format!("{:?}", g.vertices()),
        1 => format!("{:?}", raw(g.incidences(&v))),
        2 => format!("{:?}", raw(g.directed_edges())),
        3 => format!("{}", g.position(&v)),
        4 => format!("{}", g.position_normalized(&v)),
        5 => {
            let es = g.incidences(&v);
            format!("{}", g.edge_vector(&es[w % es.len()]))
        }
        6 => {
            let es = g.incidences(&v);
            let dv = g.edge_vector(&es[w % es.len()]);
            format!("{:?}", g.edge_by_unique_delta(&v, &dv).map(|e| from_edge(&e)))
        }
        7 => format!("{} {} {}", g.is_stable(), g.is_locally_stable(), g.has_second_order_collisions()),
        8 => format!("{:?}", g.coordination_sequence(&v).take(4).collect::<Vec<_>>()),
        9 => format!("{}", g.shift_normalized()),
        10 => format!("{:?} {}", graph_component_measures(g, &v), g.is_connected()),
        11 => format!("{}", g),
        12 => {
            // displacement belonging to another vertex or to none
            let es = g.directed_edges();
            let dv = g.edge_vector(&es[w % es.len()]);
            format!("{:?}", g.edge_by_unique_delta(&v, &dv).map(|e| from_edge(&e)))
        }
        13 => {
            if g.is_locally_stable() && g.vertices().len() <= 6 {
                let mut o: Vec<_> = g.vertex_orbits();
                for x in o.iter_mut() {
                    x.sort();
                }
                o.sort();
                let mut eo: Vec<Vec<Raw>> = g.edge_orbits().into_iter().map(raw).collect();
                for x in eo.iter_mut() {
                    *x = x.iter().map(canon).collect();
                    x.sort();
                }
                eo.sort();
                format!("{} {:?} {:?}", g.symmetries().len(), o, eo)
            } else {
                String::new()
            }
        }
        _ => {
            if g.is_locally_stable() && g.vertices().len() <= 6 {
                format!("{}", g.symmetries().len())
            } else {
                String::new()
            }
        }
    }))
}

fn g07t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let net = match cx.rng.below(3) {
        0 => colliding(&mut cx.rng, d),
        1 => random_connected(&mut cx.rng, d, 5, 1, true),
        _ => {
            let c: Vec<_> = catalog().into_iter().filter(|c| c.1.d == d).collect();
            let i = cx.rng.usize(c.len());
            disguise(&mut cx.rng, &c[i].1, 4)
        }
    };
    if net.has_zero_loop() || !net.quotient_connected() || net.verts().len() > 16
        || net.darts().values().any(|x| x.len() > 12) || d == 4 && effort(&net) > 1500
    {
        return Ok(());
    }
    let raw = net.to_raw_shuffled(&mut cx.rng, false);
    let vs = net.verts();
    let len = 8 + cx.rng.usize(16);
    let mut hist: Vec<(u64, u32, usize)> = vec![];
    for _ in 0..len {
        let k = if cx.rng.chance(1, 8) { 13 + cx.rng.below(2) } else { cx.rng.below(13) };
        let v = if cx.rng.chance(1, 12) { 3_999_999_999 } else { *cx.rng.pick(&vs) };
        hist.push((k, v, cx.rng.usize(8)));
    }
    cx.describe(format!("{} history {:?}", net.show(), hist));
    let g = build::<T>(&raw);
    let mut done: Vec<(u64, u32, usize, Option<String>)> = vec![];
    for (k, v, w) in &hist {
        let got = query(&g, *k, *v, *w);
        let fresh = query(&build::<T>(&raw), *k, *v, *w);
        ensure!(got == fresh, "query {} at {} after {:?}: {:?}, on a fresh graph {:?}", k, v,
            done.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), got, fresh);
        if got.is_none() {
            cx.count("refused_queries");
            ensure!(*v == 3_999_999_999, "query {} at existing vertex {} is refused", k, v);
        }
        done.push((*k, *v, *w, got));
        cx.count("queries");
    }
    // everything asked again gives what it gave before
    cx.rng.shuffle(&mut done);
    for (k, v, w, old) in &done {
        let got = query(&g, *k, *v, *w);
        ensure!(got == *old, "query {} at {} gave {:?} and later {:?}", k, v, old, got);
        cx.count("queries_repeated");
    }
    cx.nontrivial();
    Ok(())
}

fn main() {
    main_with(&[
        Prop { id: "G01", run: g01, quick: 60_000, thorough: 300_000,
            rule: "random labelled multigraphs (1-30, sometimes up to 1200 vertices, 2d/3d, labels up to 1e9, sparse and extreme ids) each built from two shuffled presentations with repeated and reversed edges, all read queries compared with the set of undirected edges; non-trivial: more than one edge given; distinct by edge list",
            need: &[("with_duplicates", 500), ("with_loops", 500), ("label_pairs", 10000), ("large graphs", 10), ("with zero loops", 500)],
            assumptions: &[] },
        Prop { id: "G02", run: g02, quick: 80_000, thorough: 400_000,
            rule: "random, disconnected, rank-deficient and multi-component nets, some with labels of up to 2000000 or up to 500 vertices; measures compared per vertex with a breadth-first spanning tree plus integer Hermite form; every case counted, distinct by edge list",
            need: &[("connected", 300), ("disconnected", 300), ("multiplicity_above_1", 100), ("deficient_components", 100), ("large graphs", 15), ("with zero loops", 500)],
            assumptions: &["index of the label lattice at most 2^31 - 1"] },
        Prop { id: "G03", run: g03, quick: 60_000, thorough: 400_000,
            rule: "random graphs of up to 16, sometimes 150 vertices; the normalised edge set must be the input up to one offset per vertex and contain zero-label spanning trees; non-trivial: at least two vertices",
            need: &[("changed_shifts", 1000), ("large graphs", 15), ("with zero loops", 500)],
            assumptions: &[] },
        Prop { id: "G04", run: g04, quick: 10_000, thorough: 40_000,
            rule: "first 5-10 (in some nets up to 30) shell sizes at every vertex, iterators interleaved with each other and with other queries, compared with a breadth-first search that remembers all visited vertices; every case counted",
            need: &[("shells", 5000), ("finite_components", 20), ("deep or large", 10), ("with zero loops", 100)],
            assumptions: &[] },
        Prop { id: "G05", run: g05, quick: 3000, thorough: 120_000,
            rule: "connected quotient graphs (up to 25/45, sometimes 90/220 vertices, labels over the whole 32-bit range, supercells, rank-deficient, spanning-tree counts divisible by the internal prime); the returned positions are substituted into the barycentric equations exactly; non-trivial: at least two vertices",
            need: &[("vertices_placed", 5000), ("tree_count_divisible_by_solver_prime", 50),
                ("labels up to 2^31", 100), ("large graphs", 8)],
            assumptions: &["quotient graph connected (otherwise the placement is not determined)"] },
        Prop { id: "G06", run: g06, quick: 4000, thorough: 160_000,
            rule: "nets with and without coinciding positions, neighbours or whole surroundings; the predicates and the lookup are compared with an independent exact placement; every case counted",
            need: &[("stable", 200), ("unstable", 200), ("locally_unstable", 100), ("second_order_collisions", 50),
                ("lookup_ambiguous", 200), ("lookup_absent", 1000), ("large_nets", 10)],
            assumptions: &["quotient graph connected"] },
        Prop { id: "G07", run: g07, quick: 2400, thorough: 80_000,
            rule: "random histories of 8-23 queries (including queries at unknown vertices) on one graph object, each answer compared with a fresh object's and with its own repetition; non-trivial: every history run; distinct by net and history",
            need: &[("queries", 10000), ("refused_queries", 100)],
            assumptions: &["single-threaded use, as the type requires"] },
    ]);
}
