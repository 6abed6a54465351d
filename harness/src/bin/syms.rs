//! Monitors S01..S04: symmetries, translations and minimal images of nets.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use harness::core::*;
use harness::exact::*;
use harness::net::*;
use harness::{ensure, fail, with_dim};
use num_traits::{One, Zero};
use rust_systre::pgraphs::{AffineMap, Automorphism, Graph};
use rust_systre::symmetries::*;

// --------------------------------------------------------------- workloads

fn locally_stable(n: &Net) -> bool {
    !n.has_zero_loop() && n.locally_stable(&n.positions())
}

/// Remove edges in orbits of a random group of symmetries.
fn thin_out(rng: &mut Rng, n: &Net) -> Option<Net> {
    let geo = Geo::new(n);
    let auts = geo.automorphisms(20_000)?;
    if auts.is_empty() {
        return None;
    }
    let ngens = 1 + rng.usize(2);
    let gens: Vec<Aut> = (0..ngens).map(|_| rng.pick(&auts).clone()).collect();
    let maps: Vec<BTreeMap<Raw, Raw>> = gens.iter().map(|a| dart_map(&geo, a)).collect();
    let mut cur = n.clone();
    for _ in 0..1 + rng.usize(2) {
        let e = rng.pick(&cur.edges).clone();
        let mut orb = BTreeSet::from([canon(&e)]);
        let mut stack = vec![canon(&e)];
        while let Some(x) = stack.pop() {
            for m in &maps {
                let y = canon(&m[&x]);
                if orb.insert(y.clone()) {
                    stack.push(y);
                }
            }
        }
        let rest: Vec<Raw> = cur.edges.iter().filter(|x| !orb.contains(x)).cloned().collect();
        if rest.is_empty() {
            continue;
        }
        let c = Net::new(n.d, rest);
        if c.verts().len() == n.verts().len() && c.connected() {
            cur = c;
        }
    }
    Some(cur)
}

fn dart_map(geo: &Geo, a: &Aut) -> BTreeMap<Raw, Raw> {
    let mut m = BTreeMap::new();
    for (v, ds) in &geo.vecs {
        let w = a.vmap[v];
        for (e, x) in ds {
            let k = geo.look[&w][&apply(&a.mat, x)];
            m.insert(e.clone(), geo.vecs[&w][k].0.clone());
        }
    }
    m
}

fn base_net(cx: &mut Ctx, d: usize) -> (String, Net) {
    if cx.rng.chance(1, 2) {
        let c: Vec<_> = catalog().into_iter().filter(|x| x.1.d == d).collect();
        let (n, g) = cx.rng.pick(&c);
        (n.to_string(), g.clone())
    } else {
        let nmax = match d { 1 => 7, 2 => 5, 3 => 4, _ => 2 };
        for _ in 0..200 {
            let g = random_connected(&mut cx.rng, d, nmax, 1, true);
            if locally_stable(&g) && effort(&g) <= 600 {
                return ("random".into(), g);
            }
        }
        let c: Vec<_> = catalog().into_iter().filter(|x| x.1.d == d).collect();
        (c[0].0.to_string(), c[0].1.clone())
    }
}

/// A connected, locally stable net of limited size.
fn sym_net(cx: &mut Ctx, d: usize, cap: usize) -> Net {
    for _ in 0..60 {
        let (bname, base) = base_net(cx, d);
        let kind = cx.rng.usize(6);
        let (how, net) = match kind {
            0 => ("as is".to_string(), base.clone()),
            1 => {
                let ix = *cx.rng.pick(&[2, 3, 4, 4, 5, 6, 8, 8, 9, 12, 16]);
                let h = if cx.rng.chance(1, 5) {
                    // a cell with the symmetry of the net itself: large groups
                    let k = if d <= 2 { cx.rng.range(2, 3) } else { 2 };
                    (0..d).map(|i| (0..d).map(|j| if i == j { k } else { 0 }).collect()).collect()
                } else {
                    random_sublattice(&mut cx.rng, d, ix)
                };
                (format!("supercell {:?}", h), base.supercell(&h))
            }
            2 | 3 => {
                let ix = *cx.rng.pick(&[1, 1, 2, 2, 3, 4]);
                match random_voltage(&mut cx.rng, d, &base, ix) {
                    Some(x) => x,
                    None => continue,
                }
            }
            4 => {
                // parallel copies joined by rungs
                let k = 2 + cx.rng.usize(2);
                let rungs: Vec<(usize, usize)> = if k == 2 { vec![(0, 1)] }
                    else if cx.rng.bool() { vec![(0, 1), (1, 2)] } else { vec![(0, 1)] };
                let swap: Vec<usize> = (0..k).map(|i| (i + 1) % k).collect();
                let id: Vec<usize> = (0..k).collect();
                let tw: Vec<Vec<usize>> = (0..d).map(|_| if cx.rng.chance(1, 4) { swap.clone() } else { id.clone() }).collect();
                let l = ladder(&base, k, &rungs, &tw);
                let ix = *cx.rng.pick(&[1, 1, 2, 3]);
                let h = random_sublattice(&mut cx.rng, d, ix);
                (format!("{} copies, rungs {:?}, twist {:?}, supercell {:?}", k, rungs, tw, h), l.supercell(&h))
            }
            _ => {
                let ix = cx.rng.range(1, 4);
                let h = random_sublattice(&mut cx.rng, d, ix);
                let s = base.supercell(&h);
                match thin_out(&mut cx.rng, &s) {
                    Some(t) => (format!("thinned supercell {:?}", h), t),
                    None => continue,
                }
            }
        };
        if net.verts().len() > 40 || !net.connected() || !locally_stable(&net) || effort(&net) > cap {
            continue;
        }
        let steps = cx.rng.usize(4);
        let mut g = disguise(&mut cx.rng, &net, steps);
        if cx.rng.chance(1, 8) {
            g = far(&mut cx.rng, &g);
            cx.count("far_presentations");
        }
        cx.describe(format!("{} {}: {}", bname, how, g.show()));
        cx.count(["kind_plain", "kind_supercell", "kind_cover", "kind_cover", "kind_copies", "kind_thinned"][kind]);
        return g;
    }
    let c: Vec<_> = catalog().into_iter().filter(|x| x.1.d == d).collect();
    let g = disguise(&mut cx.rng, &c[0].1, 3);
    cx.describe(format!("fallback {}", g.show()));
    g
}

fn lib_graph<T: Label>(cx: &mut Ctx, n: &Net) -> Graph<T, W> {
    let raw = n.to_raw_shuffled(&mut cx.rng, true);
    build::<T>(&raw)
}

// ---------------------------------------------------- reading automorphisms

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct Sym {
    mat: QM,
    vmap: BTreeMap<u32, u32>,
    dmap: BTreeMap<Raw, Raw>,
}

fn linear(t: &AffineMap, d: usize) -> Option<QM> {
    let m = t.linear_matrix();
    if m.shape() != (d, d) {
        return None;
    }
    Some((0..d).map(|i| (0..d).map(|j| m[(i, j)].clone()).collect()).collect())
}

/// What the library's symmetries are read with: directly where its hook is
/// there, else by looking them up among all the symmetries found by the
/// monitor's own search, made into objects of the library.
#[cfg(systre_hooks_symmetries)]
struct Known<T: Label>(std::marker::PhantomData<T>);

#[cfg(systre_hooks_symmetries)]
impl<T: Label> Known<T> {
    fn new(_geo: &Geo) -> Option<Self> {
        Some(Known(Default::default()))
    }

    fn read(&self, a: &Automorphism<T, W>) -> Option<Sym> {
        let (v, e, t) = a.hook_parts();
        Some(Sym {
            mat: linear(t, T::dim())?,
            vmap: v.iter().map(|(x, y)| (*x, *y)).collect(),
            dmap: e.iter().map(|(x, y)| (from_edge(x), from_edge(y))).collect(),
        })
    }
}

#[cfg(not(systre_hooks_symmetries))]
struct Known<T: Label>(Vec<(Automorphism<T, W>, Sym)>);

#[cfg(not(systre_hooks_symmetries))]
impl<T: Label> Known<T> {
    fn new(geo: &Geo) -> Option<Self> {
        use rust_systre::arithmetic::matrices::Matrix;
        let d = T::dim();
        let zero = rust_systre::pgraphs::Vector::zero(d);
        let auts = geo.automorphisms(60_000)?;
        Some(Known(auts.iter().map(|a| {
            let s = Sym { mat: a.mat.clone(), vmap: a.vmap.clone(), dmap: dart_map(geo, a) };
            let flat: Vec<Q> = a.mat.iter().flatten().cloned().collect();
            let t = AffineMap::new(&Matrix::new(d, &flat), &zero);
            let v = s.vmap.iter().map(|(x, y)| (*x, *y)).collect();
            let e = s.dmap.iter().map(|(x, y)| (to_edge(x), to_edge(y))).collect();
            (Automorphism::new(v, e, t), s)
        }).collect()))
    }

    fn read(&self, a: &Automorphism<T, W>) -> Option<Sym> {
        self.0.iter().find(|x| x.0 == *a).map(|x| x.1.clone())
    }
}

/// Is s a symmetry of the net with an integral unimodular linear part?
fn genuine(s: &Sym, geo: &Geo) -> Res {
    let verts: BTreeSet<u32> = geo.vecs.keys().cloned().collect();
    ensure!(s.vmap.keys().cloned().collect::<BTreeSet<_>>() == verts, "the vertex map {:?} is not defined on the vertices", s.vmap);
    ensure!(s.vmap.values().cloned().collect::<BTreeSet<_>>() == verts, "the vertex map {:?} is not a bijection", s.vmap);
    let all: BTreeSet<Raw> = geo.vecs.values().flatten().map(|x| x.0.clone()).collect();
    ensure!(s.dmap.keys().cloned().collect::<BTreeSet<_>>() == all, "the edge map is not defined on exactly the directed edges");
    ensure!(s.dmap.values().cloned().collect::<BTreeSet<_>>() == all, "the edge map is not a bijection of the directed edges");
    ensure!(s.mat.iter().flatten().all(|x| x.is_integer()), "linear part {} is not integral", qs(&s.mat));
    let dt = det(&s.mat);
    ensure!(dt == q(1) || dt == q(-1), "linear part {} has determinant {}", qs(&s.mat), dt);
    for (e, f) in &s.dmap {
        ensure!(f.0 == s.vmap[&e.0] && f.1 == s.vmap[&e.1], "edge {:?} is sent to {:?}, but its ends to {} and {}", e, f,
            s.vmap[&e.0], s.vmap[&e.1]);
        ensure!(s.dmap[&neg_raw(e)] == neg_raw(f), "edge {:?} is sent to {:?} but its reverse to {:?}", e, f, s.dmap[&neg_raw(e)]);
        let x = apply(&s.mat, &edge_vec(e, &geo.pos));
        let y = edge_vec(f, &geo.pos);
        ensure!(x == y, "linear part {} takes the vector of {:?} to {}, its image {:?} has vector {}", qs(&s.mat), e, vs(&x), f, vs(&y));
    }
    Ok(())
}

fn compose(a: &Sym, b: &Sym) -> Sym {
    Sym {
        mat: mul(&a.mat, &b.mat),
        vmap: b.vmap.iter().map(|(x, y)| (*x, a.vmap[y])).collect(),
        dmap: b.dmap.iter().map(|(x, y)| (x.clone(), a.dmap[y].clone())).collect(),
    }
}

// ------------------------------------------------------------------- S01

fn s01(cx: &mut Ctx) -> Res {
    with_dim!(cx, s01t)
}

fn s01t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    if cx.rng.chance(1, 8) {
        // not locally stable: every answer must be refused
        let n = loop {
            let x = if cx.rng.bool() {
                random_connected(&mut cx.rng, d, 5, 1, false)
            } else {
                let (_, b) = base_net(cx, d);
                let k = 3 + cx.rng.usize(2);
                let rungs: Vec<_> = (0..k).map(|i| (i, (i + 1) % k)).collect();
                let id: Vec<usize> = (0..k).collect();
                let l = ladder(&b, k, &rungs, &vec![id; d]);
                disguise(&mut cx.rng, &l, 2)
            };
            if !x.has_zero_loop() && !locally_stable(&x) {
                break x;
            }
        };
        cx.describe(format!("not locally stable: {}", n.show()));
        let which = cx.rng.usize(6);
        let g = lib_graph::<T>(cx, &n);
        let gave = match which {
            0 => refused(|| g.symmetries().len()).is_some(),
            1 => refused(|| is_ladder(&g)).is_some(),
            2 => refused(|| is_minimal(&g)).is_some(),
            3 => refused(|| ladder_symmetries(&g).len()).is_some(),
            4 => refused(|| translational_orbits(&g).len()).is_some(),
            _ => refused(|| minimal_image::<T, T, W, W>(&g).is_none()).is_some(),
        };
        ensure!(!gave, "query {} of a net that is not locally stable was answered", which);
        cx.count("refusals");
        return Ok(());
    }
    let n = sym_net(cx, d, 1500);
    let g = lib_graph::<T>(cx, &n);
    let geo = Geo::new(&n);
    let known = match Known::<T>::new(&geo) {
        Some(k) => k,
        None => return Ok(()),
    };
    let lib = g.symmetries();
    let mut syms = vec![];
    for a in &lib {
        let s = match known.read(a) {
            Some(s) => s,
            None => fail!("a symmetry is none of the net, or has a transformation of the wrong dimension"),
        };
        genuine(&s, &geo)?;
        syms.push(s);
    }
    cx.add("symmetries_checked", syms.len() as u64);
    let set: HashSet<&Sym> = syms.iter().collect();
    ensure!(set.len() == syms.len(), "{} symmetries, only {} different ones", syms.len(), set.len());
    let found: HashSet<&Automorphism<T, W>> = lib.iter().collect();
    ensure!(found.len() == lib.len(), "{} symmetries, {} as a set", lib.len(), found.len());
    let idm = identity(d);
    ensure!(syms.iter().any(|s| s.mat == idm && s.vmap.iter().all(|(a, b)| a == b)), "the identity is missing");
    for _ in 0..40.min(syms.len() * syms.len()) {
        let i = cx.rng.usize(syms.len());
        let j = cx.rng.usize(syms.len());
        let c = compose(&syms[i], &syms[j]);
        ensure!(set.contains(&c), "the product of {} and {} is missing", qs(&syms[i].mat), qs(&syms[j].mat));
        let p = &lib[i] * &lib[j];
        ensure!(known.read(&p).as_ref() == Some(&c), "multiplying two symmetries does not give their composition");
        ensure!(found.contains(&p), "the product of {} and {} is not found in the set of all symmetries", qs(&syms[i].mat), qs(&syms[j].mat));
        cx.count("products");
    }
    for s in &syms {
        let inv = Sym {
            mat: inverse(&s.mat).unwrap(),
            vmap: s.vmap.iter().map(|(a, b)| (*b, *a)).collect(),
            dmap: s.dmap.iter().map(|(a, b)| (b.clone(), a.clone())).collect(),
        };
        ensure!(set.contains(&inv), "the inverse of {} is missing", qs(&s.mat));
    }
    let id = match known.read(&Automorphism::identity(&g)) {
        Some(s) => s,
        None => fail!("the identity symmetry is not one"),
    };
    genuine(&id, &geo)?;
    ensure!(id.mat == idm && id.dmap.iter().all(|(a, b)| a == b), "the identity symmetry is not the identity");
    // asking again gives the same group
    let again: HashSet<Sym> = g.symmetries().iter().filter_map(|a| known.read(a)).collect();
    ensure!(again.len() == syms.len() && again.iter().all(|s| set.contains(s)), "asking again gives other symmetries");
    if syms.len() > 1 {
        cx.nontrivial();
    }
    if n.verts().len() == 1 { cx.count("one_vertex") }
    Ok(())
}

// ------------------------------------------------------------------- S02

fn s02(cx: &mut Ctx) -> Res {
    with_dim!(cx, s02t)
}

fn s02t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let n = sym_net(cx, d, 1500);
    let geo = Geo::new(&n);
    let auts = match geo.automorphisms(60_000) {
        Some(a) => a,
        None => {
            cx.count("skipped_large");
            return Ok(());
        }
    };
    let g = lib_graph::<T>(cx, &n);
    let known = match Known::<T>::new(&geo) {
        Some(k) => k,
        None => return Ok(()),
    };
    let expected: BTreeSet<(QM, BTreeMap<u32, u32>)> = auts.iter().map(|a| (a.mat.clone(), a.vmap.clone())).collect();
    let got: BTreeSet<(QM, BTreeMap<u32, u32>)> = g.symmetries().iter().filter_map(|a| known.read(a)).map(|s| (s.mat, s.vmap)).collect();
    ensure!(g.symmetries().len() == expected.len(), "{} symmetries found, there are {}", g.symmetries().len(), expected.len());
    if let Some(x) = expected.difference(&got).next() {
        fail!("symmetry {} with vertex map {:?} was not found", qs(&x.0), x.1);
    }
    ensure!(got.len() == expected.len(), "extra symmetries");
    cx.add("symmetries_expected", expected.len() as u64);

    // vertex orbits
    let maps: Vec<&VMap> = auts.iter().map(|a| &a.vmap).collect();
    let vo: BTreeSet<BTreeSet<u32>> = classes(&n.verts(), &maps);
    let lv = g.vertex_orbits();
    let lvs: BTreeSet<BTreeSet<u32>> = lv.iter().map(|c| c.iter().cloned().collect()).collect();
    ensure!(lv.iter().map(|c| c.len()).sum::<usize>() == n.verts().len() && lvs == vo, "vertex orbits {:?}, expected {:?}", lv, vo);
    // edge orbits, by identity of undirected edges
    let ids: BTreeMap<Raw, u32> = n.edges.iter().enumerate().map(|(i, e)| (e.clone(), i as u32)).collect();
    let emaps: Vec<VMap> = auts.iter().map(|a| {
        let m = dart_map(&geo, a);
        n.edges.iter().map(|e| (ids[e], ids[&canon(&m[e])])).collect()
    }).collect();
    let eo = classes(&ids.values().cloned().collect::<Vec<_>>(), &emaps.iter().collect::<Vec<_>>());
    let le = g.edge_orbits();
    let mut les: BTreeSet<BTreeSet<u32>> = BTreeSet::new();
    for c in &le {
        let mut s = BTreeSet::new();
        for e in c {
            match ids.get(&canon(&from_edge(e))) {
                Some(i) => { s.insert(*i); }
                None => fail!("edge orbit contains {:?}, which is not an edge", from_edge(e)),
            }
        }
        les.insert(s);
    }
    ensure!(le.iter().map(|c| c.len()).sum::<usize>() == n.edges.len() && les == eo, "edge orbits {:?}, expected {:?} in {:?}", les, eo, n.edges);
    cx.add("vertex_orbits", vo.len() as u64);
    cx.add("edge_orbits", eo.len() as u64);

    // another presentation
    if cx.rng.chance(1, 2) {
        let m = disguise(&mut cx.rng, &n, 4);
        let h = lib_graph::<T>(cx, &m);
        let hs = h.symmetries();
        ensure!(hs.len() == expected.len(), "{} symmetries, but {} in the presentation {}", expected.len(), hs.len(), m.show());
        let sizes = |x: Vec<usize>| { let mut x = x; x.sort(); x };
        ensure!(sizes(h.vertex_orbits().iter().map(|c| c.len()).collect()) == sizes(lv.iter().map(|c| c.len()).collect()),
            "vertex orbit sizes change in the presentation {}", m.show());
        ensure!(sizes(h.edge_orbits().iter().map(|c| c.len()).collect()) == sizes(le.iter().map(|c| c.len()).collect()),
            "edge orbit sizes change in the presentation {}", m.show());
        cx.count("presentations");
    }
    if auts.len() > 1 {
        cx.nontrivial();
    }
    if geo.frame_is_common() { cx.count("common_frame") } else { cx.count("spread_frame") }
    Ok(())
}

// ------------------------------------------------------------------- S03

struct Trans {
    all: Vec<VMap>,
    /// by image of the first vertex
    by_img: HashMap<u32, usize>,
    ladder: BTreeSet<u32>,
    v0: u32,
}

fn translations(geo: &Geo) -> Trans {
    let all = geo.translations();
    let v0 = *geo.vecs.keys().next().unwrap();
    let by_img: HashMap<u32, usize> = all.iter().enumerate().map(|(i, m)| (m[&v0], i)).collect();
    let f0 = frac_vec(&geo.pos[&v0]);
    let ladder = all.iter().map(|m| m[&v0]).filter(|v| frac_vec(&geo.pos[v]) == f0).collect();
    Trans { all, by_img, ladder, v0 }
}

impl Trans {
    /// The orbit of v0 under the group generated by the elements with the
    /// given images of v0.
    fn span(&self, gens: &[u32]) -> BTreeSet<u32> {
        let mut s = BTreeSet::from([self.v0]);
        let mut st = vec![self.v0];
        while let Some(x) = st.pop() {
            for g in gens {
                let y = self.all[self.by_img[g]][&x];
                if s.insert(y) {
                    st.push(y);
                }
            }
        }
        s
    }

    fn free(&self, s: &BTreeSet<u32>) -> bool {
        s.iter().filter(|v| self.ladder.contains(v)).count() == 1
    }

    /// Is there a group of |T|/|K| translations meeting K trivially?
    /// None: too many to try.
    fn has_complement(&self, geo: &Geo) -> Option<bool> {
        let want = self.all.len() / self.ladder.len();
        // translation vectors mod 1, with all their lifts
        let f0 = geo.pos[&self.v0].clone();
        let mut lifts: BTreeMap<Vec<Q>, Vec<u32>> = BTreeMap::new();
        for m in &self.all {
            let w = m[&self.v0];
            let t: Vec<Q> = geo.pos[&w].iter().zip(&f0).map(|(a, b)| frac(&(a - b))).collect();
            lifts.entry(t).or_default().push(w);
        }
        // generators of the group of translation vectors
        let zero = vec![Q::zero(); geo.net.d];
        let mut group = BTreeSet::from([zero]);
        let mut gens: Vec<Vec<u32>> = vec![];
        for (t, l) in lifts.iter().rev() {
            if !group.contains(t) {
                let mut g2 = group.clone();
                let mut x = t.clone();
                while !group.contains(&x) {
                    for y in &group {
                        g2.insert(frac_vec(&x.iter().zip(y).map(|(a, b)| a + b).collect::<Vec<_>>()));
                    }
                    x = frac_vec(&x.iter().zip(t).map(|(a, b)| a + b).collect::<Vec<_>>());
                }
                group = g2;
                gens.push(l.clone());
            }
        }
        let total: usize = gens.iter().map(|l| l.len()).product();
        if total > 20_000 {
            return None;
        }
        let mut idx = vec![0usize; gens.len()];
        loop {
            let pick: Vec<u32> = gens.iter().zip(&idx).map(|(l, i)| l[*i]).collect();
            let s = self.span(&pick);
            if s.len() == want && self.free(&s) {
                return Some(true);
            }
            let mut k = 0;
            loop {
                if k == idx.len() {
                    return Some(false);
                }
                idx[k] += 1;
                if idx[k] < gens[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }
}

fn s03(cx: &mut Ctx) -> Res {
    with_dim!(cx, s03t)
}

/// Check a partition into translational orbits; returns the acting group.
fn orbit_group(orbits: &[Vec<u32>], geo: &Geo, tr: &Trans) -> Result<Vec<VMap>, Violation> {
    let verts: Vec<u32> = geo.vecs.keys().cloned().collect();
    let flat: Vec<u32> = { let mut f: Vec<u32> = orbits.iter().flatten().cloned().collect(); f.sort(); f };
    if flat != verts {
        return Err(Violation::new(format!("the translational orbits {:?} are not a partition of the vertices", orbits)));
    }
    let part: BTreeSet<BTreeSet<u32>> = orbits.iter().map(|c| c.iter().cloned().collect()).collect();
    let c0 = part.iter().find(|c| c.contains(&tr.v0)).unwrap().clone();
    let mut group = vec![];
    for w in &c0 {
        match tr.by_img.get(w) {
            Some(i) => group.push(tr.all[*i].clone()),
            None => return Err(Violation::new(format!("vertices {} and {} share a translational orbit, but no translation maps one to the other", tr.v0, w))),
        }
    }
    let set: HashSet<&VMap> = group.iter().collect();
    for a in &group {
        for b in &group {
            let c: VMap = b.iter().map(|(x, y)| (*x, a[y])).collect();
            if !set.contains(&c) {
                return Err(Violation::new(format!("the translations within the orbits {:?} do not form a group", orbits)));
            }
        }
    }
    if classes(&verts, &group.iter().collect::<Vec<_>>()) != part {
        return Err(Violation::new(format!("the orbits {:?} are not those of one group of translations", orbits)));
    }
    if !tr.free(&c0) {
        return Err(Violation::new(format!("orbits {:?} contain different vertices with the same place", orbits)));
    }
    Ok(group)
}

fn s03t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let n = sym_net(cx, d, 3000);
    let geo = Geo::new(&n);
    let tr = translations(&geo);
    let g = lib_graph::<T>(cx, &n);
    let nt = tr.all.len();
    let nk = tr.ladder.len();
    cx.add("translations", nt as u64);

    ensure!(is_ladder(&g) == (nk > 1), "is_ladder {}, with {} symmetries keeping every vertex in place", is_ladder(&g), nk);
    let known = match Known::<T>::new(&geo) {
        Some(k) => k,
        None => return Ok(()),
    };
    let ls = ladder_symmetries(&g);
    let idm = identity(d);
    let mut got = BTreeSet::new();
    for a in &ls {
        let s = match known.read(a) { Some(s) => s, None => fail!("a ladder symmetry is no symmetry") };
        genuine(&s, &geo)?;
        ensure!(s.mat == idm, "ladder symmetry with linear part {}", qs(&s.mat));
        let img = s.vmap[&tr.v0];
        ensure!(img != tr.v0 && tr.ladder.contains(&img), "ladder symmetry moves {} to {}", tr.v0, img);
        got.insert(img);
    }
    ensure!(got.len() == ls.len() && got.len() == nk - 1, "{} ladder symmetries given, there are {}", ls.len(), nk - 1);

    let orbits = translational_orbits(&g);
    let group = orbit_group(&orbits, &geo, &tr)?;
    if nk == 1 {
        ensure!(group.len() == nt, "orbits {:?} use {} of {} translations", orbits, group.len(), nt);
    } else {
        match tr.has_complement(&geo) {
            Some(true) => {
                ensure!(group.len() == nt / nk, "orbits {:?} use {} translations, {} can be used", orbits, group.len(), nt / nk);
                cx.count("ladder_with_complement");
            }
            Some(false) => cx.count("ladder_without_complement"),
            None => cx.count("ladder_large"),
        }
    }
    ensure!(is_minimal(&g) == (group.len() == 1), "is_minimal {}, but orbits {:?}", is_minimal(&g), orbits);
    if nk > 1 { cx.count("ladders") }
    if nk > 1 && nt > nk { cx.count("ladders_with_translations") }
    if nt > 1 {
        cx.nontrivial();
    } else {
        cx.count("minimal_as_given");
    }
    Ok(())
}

// ------------------------------------------------------------------- S04

fn s04(cx: &mut Ctx) -> Res {
    with_dim!(cx, s04t)
}

fn lattice_with(d: usize, extra: &[Vec<Q>]) -> QM {
    // lcm of denominators, then Hermite form
    let mut l = z(1);
    for x in extra.iter().flatten() {
        let den = x.denom();
        l = &l / num_integer::gcd(l.clone(), den.clone()) * den;
    }
    let lq = Q::from(l.clone());
    let mut rows: ZM = vec![];
    for i in 0..d {
        rows.push((0..d).map(|j| if i == j { l.clone() } else { z(0) }).collect());
    }
    for x in extra {
        rows.push(x.iter().map(|c| (c * &lq).to_integer()).collect());
    }
    let (h, _) = hnf(&rows);
    h.iter().map(|r| r.iter().map(|x| Q::from(x.clone()) / &lq).collect()).collect()
}

fn s04t<T: Label>(cx: &mut Ctx) -> Res {
    let d = T::dim();
    let n = sym_net(cx, d, 2000);
    let geo = Geo::new(&n);
    let tr = translations(&geo);
    let g = lib_graph::<T>(cx, &n);
    let orbits = translational_orbits(&g);
    let group = orbit_group(&orbits, &geo, &tr)?;
    let img = minimal_image::<T, T, W, W>(&g);
    ensure!(img.is_none() == (group.len() == 1), "minimal image {}, translational orbits {:?}",
        if img.is_none() { "refused" } else { "given" }, orbits);
    let img = match img {
        None => {
            ensure!(is_minimal(&g), "no minimal image of a net that is not minimal");
            cx.count("already_minimal");
            return Ok(());
        }
        Some(i) => i,
    };
    let got = read_back::<T>(&img);
    // the quotient by the group, in a basis of the finer lattice
    let deltas: Vec<Vec<Q>> = group.iter().map(|m| {
        let w = m[&tr.v0];
        geo.pos[&w].iter().zip(&geo.pos[&tr.v0]).map(|(a, b)| frac(&(a - b))).collect()
    }).collect();
    let basis = lattice_with(d, &deltas);
    let vol = det(&basis);
    ensure!(Q::one() / &vol == q(group.len() as i64) || Q::one() / &vol == q(-(group.len() as i64)),
        "the translations of the orbits {:?} generate a lattice of index {}", orbits, Q::one() / vol);
    let binv = inverse(&basis).unwrap();
    let mut cls: HashMap<u32, (u32, Vec<Q>)> = HashMap::new();
    for (i, c) in orbits.iter().enumerate() {
        let p0 = &geo.pos[&c[0]];
        for v in c {
            cls.insert(*v, (i as u32 + 1, geo.pos[v].iter().zip(p0).map(|(a, b)| a - b).collect()));
        }
    }
    let mut edges = vec![];
    for e in &n.edges {
        let (cu, su) = &cls[&e.0];
        let (cv, sv) = &cls[&e.1];
        let s: Vec<Q> = (0..d).map(|k| q(e.2[k]) + &sv[k] - &su[k]).collect();
        // coordinates in the rows of the basis
        let c: Vec<Q> = (0..d).map(|j| (0..d).map(|k| &s[k] * &binv[k][j]).sum()).collect();
        let c: Vec<i64> = match c.iter().map(to_i64).collect::<Option<Vec<_>>>() {
            Some(c) => c,
            None => fail!("harness: quotient shift {} not integral", vs(&c)),
        };
        edges.push((*cu, *cv, c));
    }
    let want = Net::new(d, edges);
    ensure!(want.edges.len() * group.len() == n.edges.len(), "harness: quotient has {} edges", want.edges.len());
    ensure!(got.verts().len() == want.verts().len() && got.edges.len() == want.edges.len(),
        "the minimal image has {} vertices and {} edges, expected {} and {}: {}", got.verts().len(), got.edges.len(),
        want.verts().len(), want.edges.len(), got.show());
    ensure!(got.quotient_connected() && got.measures(got.verts()[0]) == want.measures(want.verts()[0]),
        "the minimal image {} falls apart or has another dimension", got.show());
    ensure!(!got.has_zero_loop() && locally_stable(&got), "the minimal image {} is not locally stable", got.show());
    let (a, b) = (Geo::new(&want), Geo::new(&got));
    match a.isos(&b, 40_000) {
        Some(v) => {
            ensure!(!v.is_empty(), "the minimal image {} is not the net it was made from, which is {}", got.show(), want.show());
            cx.count("isomorphism_found");
        }
        None => {
            for _ in 0..1 {
                let sh = |n: &Net| { let mut x: Vec<_> = n.verts().iter().map(|v| n.shells(*v, 4)).collect(); x.sort(); x };
                ensure!(sh(&want) == sh(&got), "coordination in the minimal image differs");
            }
            cx.count("isomorphism_too_large");
        }
    }
    if group.len() * tr.ladder.len() == tr.all.len() {
        ensure!(is_minimal(&img), "the minimal image {} is not minimal", got.show());
        ensure!(minimal_image::<T, T, W, W>(&img).is_none(), "the minimal image {} has a smaller minimal image", got.show());
        ensure!(is_ladder(&img) == (tr.ladder.len() > 1), "the minimal image changes whether the net is a ladder");
    }
    cx.add("reduction", group.len() as u64);
    if tr.ladder.len() > 1 { cx.count("ladder_images") }
    cx.nontrivial();
    Ok(())
}

fn main() {
    main_with(&[
        Prop {
            id: "S01",
            rule: "a connected, locally stable net with at least two symmetries",
            quick: 1200, thorough: 40_000, run: s01,
            need: &[("symmetries_checked", 3000), ("products", 5000), ("refusals", 50), ("kind_cover", 50), ("kind_thinned", 50), ("far_presentations", 50)],
            assumptions: &["nets have at most 40 vertices per cell, |labels| up to some 10^8", "integral symmetries of the given lattice only"],
        },
        Prop {
            id: "S02",
            rule: "a connected, locally stable net with at least two symmetries, all of them enumerated independently",
            quick: 1200, thorough: 40_000, run: s02,
            need: &[("symmetries_expected", 3000), ("presentations", 200), ("edge_orbits", 1000), ("far_presentations", 50)],
            assumptions: &["nets have at most 40 vertices per cell", "symmetries that keep the given lattice"],
        },
        Prop {
            id: "S03",
            rule: "a net with at least one translation beyond the given lattice or one symmetry fixing all places",
            quick: 2400, thorough: 60_000, run: s03,
            need: &[("ladders", 200), ("ladders_with_translations", 50), ("ladder_with_complement", 100), ("ladder_without_complement", 1), ("minimal_as_given", 50), ("far_presentations", 100)],
            assumptions: &["nets have at most 40 vertices per cell"],
        },
        Prop {
            id: "S04",
            rule: "a net with a smaller translational cell",
            quick: 2400, thorough: 50_000, run: s04,
            need: &[("isomorphism_found", 200), ("already_minimal", 100), ("ladder_images", 20), ("far_presentations", 60)],
            assumptions: &["nets have at most 40 vertices per cell"],
        },
    ])
}
