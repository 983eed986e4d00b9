//! C31 traces, C32 neighbour counts and shattered sets, C33 vertex maps and colourings,
//! C34 intersections of vertices and edges.

use super::p_ord::OM;
use crate::engine::*;
use crate::gens::*;
use crate::refgraph::RG;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::DegenGraph;
use graphbench::graph::*;
use std::collections::{BTreeMap, BTreeSet};

/// A degeneracy-style graph together with its own ordering (read back from it).
fn degen(g: &mut Gen, cx: &mut Cx) -> (RG, DegenGraph, Vec<u32>) {
    let s = match g.weighted(&[6, 4, 2]) {
        0 => {
            const CFG: Cfg = Cfg::new(14).big(150, 60).huge(420, 2500).giant(2500, 60_000);
            graph(g, &CFG)
        }
        1 => {
            // a few centres seen by many others: traces of every kind occur
            let k = g.range(1, 4);
            let n = g.range(k, 40);
            let lab = labels(g, n, true);
            let mut edges = BTreeSet::new();
            for v in k..n {
                let mask = g.draw((1 << k) - 1);
                for c in 0..k {
                    if mask >> c & 1 == 1 {
                        edges.insert((lab[c], lab[v]));
                    }
                }
            }
            for u in 0..k {
                for v in u + 1..k {
                    if g.chance(1, 3) {
                        edges.insert((lab[u], lab[v]));
                    }
                }
            }
            if n > k + 1 {
                for _ in 0..g.range(0, n / 3) {
                    let (u, v) = (g.range(k, n - 1), g.range(k, n - 1));
                    if u != v {
                        edges.insert((lab[u.min(v)], lab[u.max(v)]));
                    }
                }
            }
            Spec { shape: "centres", verts: lab, edges: edges.into_iter().collect(), verts_first: g.bool() }
        }
        _ => {
            // every subset of k centres is the trace of m vertices (before one edge is possibly removed)
            let k = g.range(1, 4);
            let m = 1 + g.draw(2) as usize;
            let n = k + m * (1 << k);
            let lab = labels(g, n, true);
            let mut edges = vec![];
            for mask in 0..1usize << k {
                for j in 0..m {
                    for c in 0..k {
                        if mask >> c & 1 == 1 {
                            edges.push((lab[c], lab[k + mask * m + j]));
                        }
                    }
                }
            }
            if g.bool() && !edges.is_empty() {
                let i = g.below(edges.len());
                edges.swap_remove(i);
            }
            Spec { shape: "shattered", verts: lab, edges, verts_first: g.bool() }
        }
    };
    let rg = s.rg();
    cx.input(&s);
    let G = s.edit();
    let mut D = if g.chance(1, 3) {
        cx.label("from_graph");
        DegenGraph::from_graph(&G)
    } else {
        let (name, ord) = order(g, &rg);
        cx.label(name);
        degen_any(g, &G, &ord)
    };
    let mut rg = rg;
    if g.chance(1, 6) {
        cx.label("normalized");
        let map = D.normalize();
        let back: BTreeMap<u32, u32> = map.iter().map(|(new, old)| (*old, *new)).collect();
        rg = RG::from_parts(rg.vertices().into_iter().map(|v| back[&v]), rg.edges().into_iter().map(|(u, v)| (back[&u], back[&v])));
    }
    let ord: Vec<u32> = D.vertices().copied().collect();
    (rg, D, ord)
}

/// Distinct vertices, sorted by the ordering.
fn inner_set(g: &mut Gen, m: &OM) -> Vec<u32> {
    let n = m.ord.len();
    if n == 0 {
        return vec![];
    }
    match g.weighted(&[4, 3, 2, 1]) {
        0 => {
            let k = g.range(0, n.min(5));
            let p = g.permutation(n);
            m.by_pos(p[..k].iter().map(|i| m.ord[*i]))
        }
        1 => {
            // vertices of large degree
            let mut v = m.ord.clone();
            v.sort_by_key(|u| std::cmp::Reverse(m.rg.degree(*u)));
            v.truncate(g.range(1, n.min(5)));
            m.by_pos(v)
        }
        2 => {
            // inside one neighbourhood
            let u = m.ord[g.below(n)];
            let mut nb: Vec<u32> = m.rg.nbrs(u);
            if g.bool() {
                nb.push(u);
            }
            g.shuffle(&mut nb);
            nb.truncate(g.range(0, nb.len().min(5)));
            m.by_pos(nb)
        }
        _ => m.by_pos(subset(g, &m.ord).into_iter().collect::<BTreeSet<u32>>()),
    }
}

fn traces_def(m: &OM, inner: &[u32]) -> BTreeMap<Vec<u32>, usize> {
    let set: BTreeSet<u32> = inner.iter().copied().collect();
    let mut r = BTreeMap::new();
    for y in &m.ord {
        if !set.contains(y) {
            *r.entry(m.by_pos(m.rg.adj[y].intersection(&set).copied())).or_insert(0) += 1;
        }
    }
    r
}

pub fn c31(g: &mut Gen, cx: &mut Cx) {
    let (rg, D, ord) = degen(g, cx);
    let m = OM::new(rg, ord);
    let oracle = SReachTraceOracle::for_graph(&D);
    for _ in 0..g.range(1, 3) {
        let inner = inner_set(g, &m);
        cx.input(&("inner", &inner));
        let want = traces_def(&m, &inner);
        cx.nontrivial_if(want.keys().filter(|t| t.len() >= 2).count() >= 1 && want.len() >= 3);
        cx.label_if(inner.iter().any(|u| inner.iter().any(|v| m.rg.adjacent(*u, *v))), "inner has an edge");
        let got: BTreeMap<Vec<u32>, usize> = oracle.compute_traces(&inner, &D).into_iter().filter(|(_, c)| *c > 0).collect();
        cx.eq("traces", got, want);
    }
}

pub fn c32(g: &mut Gen, cx: &mut Cx) {
    let (rg, D, ord) = degen(g, cx);
    let m = OM::new(rg, ord);
    let oracle = SReachTraceOracle::for_graph(&D);
    for _ in 0..g.range(1, 3) {
        let inner = inner_set(g, &m);
        cx.input(&("inner", &inner));
        let set: BTreeSet<u32> = inner.iter().copied().collect();
        let want = if set.is_empty() { 0 } else { m.rg.open_nbh(&set).len() };
        cx.nontrivial_if(want >= 2 && inner.len() >= 2);
        cx.eq("neighbour_count", (&inner, oracle.compute_neighbour_count(&inner, &D)), (&inner, want));
        if inner.len() <= 6 {
            let k = inner.len() as u32 + g.draw(3) as u32;
            let t = traces_def(&m, &inner);
            let sh = t.len() == 1 << inner.len() && t.values().all(|c| *c >= 1 << (k as usize - inner.len()));
            let mut asked = inner.clone();
            g.shuffle(&mut asked);
            let got = if g.bool() { oracle.is_shattered(asked.iter(), k, &D) } else { oracle.is_shattered(asked.clone(), k, &D) };
            cx.eq("is_shattered", (&asked, k, got), (&asked, k, sh));
            cx.label_if(sh && inner.len() >= 2, "shattered, size >= 2");
            cx.label_if(!sh && inner.len() >= 2, "not shattered, size >= 2");
        }
    }
}

// ------------------------------------------------------------------ C33

type M = BTreeMap<u32, u32>;

fn colouring_of(c: &VertexColouring<u32>) -> M {
    c.iter().map(|(v, c)| (*v, *c)).collect()
}

fn classes(m: &M) -> BTreeMap<u32, BTreeSet<u32>> {
    let mut r: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for (v, c) in m {
        r.entry(*c).or_default().insert(*v);
    }
    r
}

fn check_map_ops<O: VertexMapOperations<u32>>(cx: &mut Cx, sig: &str, o: &O, m: &M) {
    let want = classes(m);
    let inv: BTreeMap<u32, BTreeSet<u32>> = o.invert().iter().map(|(c, s)| (*c, bset(s))).collect();
    cx.eq(&format!("{sig}/invert"), inv, want.clone());
    match o.majority_set() {
        None => cx.ok(&format!("{sig}/majority-none"), m.is_empty(), || "no majority set of a non-empty map".into()),
        Some((s, c)) => {
            let s = bset(&s);
            let max = want.values().map(|s| s.len()).max().unwrap_or(0);
            cx.ok(&format!("{sig}/majority"), want.get(&c) == Some(&s) && s.len() == max, || format!("majority set {s:?} of value {c}, classes {want:?}"))
        }
    };
}

fn check_colouring(cx: &mut Cx, sig: &str, c: &VertexColouring<u32>, m: &M, pool: &[u32]) {
    let cap = m.len() + 5;
    cx.eq(&format!("{sig}/len"), c.len(), m.len());
    cx.eq(&format!("{sig}/iter"), sorted(c.iter().take(cap).map(|x| *x.0)), m.keys().copied().collect::<Vec<_>>());
    cx.eq(&format!("{sig}/vertices"), sorted(c.vertices().take(cap).copied()), m.keys().copied().collect::<Vec<_>>());
    cx.eq(&format!("{sig}/colours"), sorted(c.colours().take(cap).copied()), classes(m).into_keys().collect::<Vec<_>>());
    for v in pool {
        cx.eq(&format!("{sig}/get"), (v, c.get(v).copied(), c.contains(v)), (v, m.get(v).copied(), m.contains_key(v)));
        if m.contains_key(v) {
            cx.eq(&format!("{sig}/index"), (v, c[v]), (v, m[v]));
        }
    }
    check_map_ops(cx, sig, c, m);
}

fn small_map(g: &mut Gen, pool: &[u32]) -> Vec<(u32, u32)> {
    let large = pool.len() > 14;
    let ncol = if large && g.bool() { 1 + g.draw(700) } else { 1 + g.draw(5) };
    let base = if g.chance(1, 6) { *g.pick(&[1u32, 1000, 1 << 30]) } else { 0 };
    (0..g.range(0, if large { 2 * pool.len() } else { 14 })).map(|_| (pool[g.below(pool.len())], base + g.draw(ncol) as u32)).collect()
}

pub fn c33(g: &mut Gen, cx: &mut Cx) {
    let size = if g.chance(1, 4000) { g.range(15, 700) } else { g.range(1, 14) };
    cx.label_if(size > 14, "large pool");
    let pool = labels(g, size, true);
    let init = small_map(g, &pool);
    cx.input(&("pool", &pool, "init", &init));
    let mut m: M = init.iter().copied().collect();
    let vm: VertexMap<u32> = init.iter().copied().collect();
    check_map_ops(cx, "map", &vm, &m);
    let mut c = if g.bool() { VertexColouring::from_iter(init.clone()) } else { VertexColouring::from(vm) };
    check_colouring(cx, "new", &c, &m, &pool);
    for _ in 0..g.range(1, 6) {
        match g.draw(4) {
            0 => {
                let (v, col) = (pool[g.below(pool.len())], g.draw(7) as u32);
                cx.input(&("insert", v, col));
                cx.eq("insert/returned", c.insert(v, col), m.insert(v, col));
            }
            1 => {
                let add = small_map(g, &pool);
                cx.input(&("disjoint_extend", &add));
                let other = VertexColouring::from_iter(add.clone());
                let om: M = add.into_iter().collect();
                let offset = m.values().max().map_or(0, |x| x + 1);
                if om.values().any(|x| x.checked_add(offset).map_or(true, |y| y == u32::MAX)) {
                    continue;
                }
                cx.nontrivial_if(!m.is_empty() && om.keys().any(|v| m.contains_key(v)) && om.keys().any(|v| !m.contains_key(v)));
                for (v, col) in &om {
                    m.entry(*v).or_insert(col + offset);
                }
                c.disjoint_extend(&other);
                cx.eq("disjoint_extend/argument", colouring_of(&other), om);
            }
            2 => {
                let sub = subset(g, &pool);
                cx.input(&("subset", &sub));
                let r = if g.bool() { c.subset(sub.iter()) } else { c.subset(sub.clone()) };
                let want: M = m.iter().filter(|(v, _)| sub.contains(v)).map(|(v, c)| (*v, *c)).collect();
                check_colouring(cx, "subset", &r, &want, &pool);
                cx.ok("subset/equality", (r == c) == (want == m), || "== disagrees with the contents".into());
                if g.bool() {
                    c = r;
                    m = want;
                }
            }
            3 => {
                let sets: Vec<VertexSet> = (0..g.range(0, if size > 14 { 300 } else { 5 })).map(|_| subset(g, &pool).into_iter().collect()).collect();
                cx.input(&("from_sets", &sets));
                let mut want = M::new();
                for (i, s) in sets.iter().enumerate() {
                    for v in s {
                        want.insert(*v, i as u32);
                    }
                }
                c = VertexColouring::from_sets(sets);
                m = want;
            }
            _ => {
                let twin: VertexColouring<u32> = VertexColouring::from_iter(m.iter().map(|(v, c)| (*v, *c)));
                cx.ok("equality", twin == c, || "colourings with equal contents differ".into());
                let map = std::mem::take(&mut c).as_map();
                cx.eq("as_map", map_of(&map), m.clone());
                c = VertexColouring::from(map);
            }
        }
        check_colouring(cx, "op", &c, &m, &pool);
    }
}

// ------------------------------------------------------------------ C34

pub fn c34(g: &mut Gen, cx: &mut Cx) {
    use VertexOrEdge::*;
    let size = g.range(1, 5);
    let pool = labels(g, size, true);
    let mut object = || {
        let a = pool[g.below(pool.len())];
        if g.chance(1, 3) {
            V(a)
        } else {
            E((a, pool[g.below(pool.len())]))
        }
    };
    let show = |x: VertexOrEdge| match x {
        V(v) => format!("{v}"),
        E((u, v)) => format!("{u}-{v}"),
    };
    let ends = |x: VertexOrEdge| -> BTreeSet<u32> {
        match x {
            V(v) => [v].into(),
            E((u, v)) => [u, v].into(),
        }
    };
    let xs: Vec<VertexOrEdge> = (0..5).map(|_| object()).collect();
    cx.input(&xs.iter().map(|x| show(*x)).collect::<Vec<_>>());
    let same = |x: VertexOrEdge, y: VertexOrEdge| match (x, y) {
        (V(a), V(b)) => a == b,
        (E(_), E(_)) => ends(x) == ends(y),
        _ => false,
    };
    for x in &xs {
        let (v, e) = match *x {
            V(v) => (Some(v), None),
            E(e) => (None, Some(e)),
        };
        cx.eq("kind", (x.as_vertex(), x.as_edge(), x.is_vertex(), x.is_edge()), (v, e, v.is_some(), e.is_some()));
        for y in &xs {
            let common: BTreeSet<u32> = ends(*x).intersection(&ends(*y)).copied().collect();
            let got = x.intersection(*y);
            cx.eq("intersects", (show(*x), show(*y), x.intersects(*y)), (show(*x), show(*y), !common.is_empty()));
            let both = x.is_edge() && y.is_edge();
            cx.nontrivial_if(both && !common.is_empty() && ends(*x) != ends(*y));
            let ok = match got {
                None => common.is_empty(),
                Some(z) if both && ends(*x) == ends(*y) => same(z, *x),
                Some(V(z)) => common.contains(&z),
                Some(E(_)) => false,
            };
            cx.ok("intersection", ok, || format!("{} and {} meet in {:?}", show(*x), show(*y), got.map(show)));
            let rev = y.intersection(*x);
            cx.ok("commutes", match (got, rev) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false }, || format!("{} and {}: {:?} one way, {:?} the other", show(*x), show(*y), got.map(show), rev.map(show)));
        }
    }
    let set: MixedSet = xs.iter().copied().collect();
    for x in &xs {
        cx.ok("mixed-set", set.contains(x), || format!("{} lost", show(*x)));
    }
}
