//! C14 components, C15 bipartiteness with witness, C16 degeneracy, C23 maximal cliques,
//! C24 greedy colouring.

use crate::engine::*;
use crate::gens::*;
use crate::refgraph::RG;
use graphbench::algorithms::*;
use graphbench::degengraph::DegenGraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C14

fn check_components<G: Graph>(cx: &mut Cx, sig: &str, G: &G, rg: &RG) {
    let got: Vec<BTreeSet<u32>> = G.components().iter().map(|c| bset(c)).collect();
    let want = rg.components();
    cx.eq(&format!("{sig}/count"), got.len(), want.len());
    cx.eq(&format!("{sig}/sets"), got.into_iter().collect::<BTreeSet<_>>(), want);
}

pub fn c14(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(24).big(500, 40).giant(70_000, 30_000).loops();
    let s = graph(g, &CFG);
    cx.input(&s);
    let rg = s.rg();
    let k = rg.components().len();
    cx.nontrivial_if(k >= 2 && rg.m() >= 2);
    cx.label_if(k == 1, "connected");
    cx.label_if(rg.n() == 0, "empty");
    cx.label_if(!rg.loops().is_empty(), "loops");
    cx.label_if(rg.n() > 48, "big");
    let G = edit_with_history(g, &s);
    check_components(cx, "edit", &G, &rg);
    let (X, anti) = any_digraph(g, &s);
    cx.label_if(anti, "antiparallel arcs");
    check_components(cx, "digraph", &X, &rg);
    if rg.loops().is_empty() {
        let (_, ord) = order(g, &rg);
        check_components(cx, "ord", &ord_any(g, &G, &ord), &rg);
        check_components(cx, "degen", &degen_any(g, &G, &ord), &rg);
    }
}

// ------------------------------------------------------------------ C15

fn check_bipartite<G: Graph>(cx: &mut Cx, sig: &str, G: &G, rg: &RG) {
    let want = rg.is_bipartite();
    match G.is_bipartite() {
        BipartiteWitness::Bipartition(l, r) => {
            cx.ok(&format!("{sig}/verdict"), want, || "bipartition returned for a graph with an odd cycle".into());
            let (l, r) = (bset(&l), bset(&r));
            cx.ok(&format!("{sig}/disjoint"), l.is_disjoint(&r), || format!("sides overlap: {l:?} {r:?}"));
            let all: BTreeSet<u32> = l.union(&r).copied().collect();
            cx.eq(&format!("{sig}/cover"), all.into_iter().collect::<Vec<_>>(), rg.vertices());
            for (u, v) in rg.edges() {
                cx.ok(&format!("{sig}/edge-inside"), l.contains(&u) != l.contains(&v), || format!("edge {u}-{v} inside one side"));
            }
        }
        BipartiteWitness::OddCycle(c) => {
            cx.ok(&format!("{sig}/verdict"), !want, || format!("odd cycle {c:?} returned for a bipartite graph"));
            cx.ok(&format!("{sig}/odd"), c.len() % 2 == 1, || format!("length {} is not odd: {c:?}", c.len()));
            let set = bset(&c);
            cx.ok(&format!("{sig}/simple"), set.len() == c.len(), || format!("cycle repeats a vertex: {c:?}"));
            for i in 0..c.len() {
                let (u, v) = (c[i], c[(i + 1) % c.len()]);
                cx.ok(&format!("{sig}/cycle-edge"), rg.adjacent(u, v), || format!("{u}-{v} is no edge, cycle {c:?}"));
            }
        }
    }
}

pub fn c15(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(20).big(400, 40).giant(70_000, 30_000).loops();
    let mut s = graph(g, &CFG);
    // half of the graphs are made bipartite, sometimes spoiled by one edge
    if g.bool() {
        let side: BTreeMap<u32, bool> = s.verts.iter().map(|v| (*v, g.bool())).collect();
        s.edges.retain(|(u, v)| side[u] != side[v]);
        if g.chance(1, 3) && s.verts.len() >= 2 {
            let (u, v) = (s.verts[g.below(s.verts.len())], s.verts[g.below(s.verts.len())]);
            if u != v && !s.rg().adjacent(u, v) {
                s.edges.push((u, v));
            }
        }
    }
    cx.input(&s);
    let rg = s.rg();
    let b = rg.is_bipartite();
    cx.label(if b { "bipartite" } else { "odd cycle" });
    cx.label_if(rg.components().len() > 1, "disconnected");
    cx.label_if(!rg.loops().is_empty(), "loops");
    cx.nontrivial_if(rg.m() >= 3);
    let G = edit_with_history(g, &s);
    check_bipartite(cx, "edit", &G, &rg);
    let (X, anti) = any_digraph(g, &s);
    cx.label_if(anti, "antiparallel arcs");
    check_bipartite(cx, "digraph", &X, &rg);
    if rg.loops().is_empty() {
        let (_, ord) = order(g, &rg);
        check_bipartite(cx, "ord", &ord_any(g, &G, &ord), &rg);
        check_bipartite(cx, "degen", &degen_any(g, &G, &ord), &rg);
    }
}

// ------------------------------------------------------------------ C16

fn check_degeneracy<G: Graph>(cx: &mut Cx, sig: &str, G: &G, rg: &RG, core: &BTreeMap<u32, u32>, exact: bool) {
    let (lower, upper, ord, cn) = G.degeneracy();
    let d = core.values().copied().max().unwrap_or(0);
    if !cx.eq(&format!("{sig}/order"), sorted(ord.iter().copied()), rg.vertices()) {
        return;
    }
    let cn = map_of(&cn);
    cx.ok(&format!("{sig}/core-keys"), cn.keys().eq(rg.adj.keys()), || "core numbers not given for exactly the vertices".into());
    cx.ok(&format!("{sig}/bounds"), (lower <= d || !exact) && d <= upper, || format!("degeneracy {d} not in {lower}..={upper}"));
    let maxdeg = rg.adj.values().map(|n| n.len()).max().unwrap_or(0);
    let pos: BTreeMap<u32, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    for v in &ord {
        let left = rg.adj[v].iter().filter(|x| pos[x] < pos[v]).count() as u32;
        let (c, t) = (cn.get(v).copied().unwrap_or(0), core[v]);
        cx.ok(&format!("{sig}/left-degree"), left <= upper, || format!("vertex {v} has {left} left neighbours, upper bound {upper}"));
        cx.ok(&format!("{sig}/left-degree-core"), left <= c, || format!("vertex {v} has {left} left neighbours, reported core number {c}"));
        cx.ok(&format!("{sig}/core-bound"), c >= t && c <= upper, || format!("vertex {v} has core number {t}, reported {c}, upper bound {upper}"));
        if exact && maxdeg <= 128 {
            cx.eq(&format!("{sig}/core-exact"), (*v, c), (*v, t));
        }
    }
    if exact && maxdeg <= 128 {
        cx.eq(&format!("{sig}/exact"), (lower, upper), (d, d));
    }
}

pub fn c16(g: &mut Gen, cx: &mut Cx) {
    let dense = g.chance(1, if g.tier == 0 { 400 } else { 250 });
    let s = if dense {
        // a dense core of more than 128 vertices, with a sparse rest: exercises the coarse buckets
        let k = if g.bool() { g.range(120, 150) } else { g.range(120, 420) };
        let rest = g.range(0, 40);
        let mut edges = vec![];
        let miss = g.draw(3);
        for u in 0..k as u32 {
            for v in u + 1..k as u32 {
                if !(miss > 0 && g.chance(miss, 16)) {
                    edges.push((u, v));
                }
            }
        }
        for v in k..k + rest {
            let nb: BTreeSet<u32> = (0..g.range(1, 6)).map(|_| g.below(v) as u32).collect();
            edges.extend(nb.into_iter().map(|u| (u, v as u32)));
        }
        Spec { shape: "dense-core", verts: (0..(k + rest) as u32).collect(), edges, verts_first: true }
    } else {
        const CFG: Cfg = Cfg::new(24).big(700, 60).giant(70_000, 30_000);
        graph(g, &CFG)
    };
    if s.edges.len() < 2000 {
        cx.input(&s);
    } else {
        cx.input(&(s.shape, s.verts.len(), s.edges.len()));
    }
    let rg = s.rg();
    let core = rg.core_numbers();
    let maxdeg = rg.adj.values().map(|n| n.len()).max().unwrap_or(0);
    let d = core.values().copied().max().unwrap_or(0);
    let distinct: BTreeSet<u32> = core.values().copied().collect();
    cx.nontrivial_if(d >= 2 && distinct.len() >= 2);
    cx.label_if(maxdeg > 128, "degree over 128");
    cx.label_if(d > 128, "degeneracy over 128");
    cx.label_if(d > 129, "degeneracy over 129");
    let G = edit_with_history(g, &s);
    check_degeneracy(cx, "edit", &G, &rg, &core, true);
    if dense {
        return;
    }
    match g.draw(2) {
        0 => {
            let (X, anti) = any_digraph(g, &s);
            cx.label_if(anti, "antiparallel arcs");
            check_degeneracy(cx, "digraph", &X, &rg, &core, !anti)
        }
        1 => {
            let (_, ord) = order(g, &rg);
            check_degeneracy(cx, "ord", &ord_any(g, &G, &ord), &rg, &core, true)
        }
        _ => {
            let (_, ord) = order(g, &rg);
            check_degeneracy(cx, "degen", &degen_any(g, &G, &ord), &rg, &core, true)
        }
    }
    // the two structures that build on the ordering
    let O = OrdGraph::by_degeneracy(&G);
    let D = DegenGraph::from_graph(&G);
    if maxdeg <= 128 {
        cx.eq("by_degeneracy/max-left", (O.max_left_degree(), D.max_left_degree()), (d, d));
    }
    cx.eq("by_degeneracy/vertices", sorted(O.vertices().copied()), rg.vertices());
    cx.eq("from_graph/vertices", sorted(D.vertices().copied()), rg.vertices());
}

// ------------------------------------------------------------------ C23

/// A graph built by unions and joins: unions add the numbers of maximal cliques, joins multiply them.
/// Returns that number and the number of all cliques (the empty one included); `limit` bounds the
/// latter, since counting takes time proportional to it.
fn cograph(g: &mut Gen, lo: usize, n: usize, limit: u64, edges: &mut Vec<(usize, usize)>) -> (u64, u64) {
    if n <= 1 {
        return (n as u64, n as u64 + 1);
    }
    let a = if g.chance(1, 3) { 1 } else { g.range(1, n - 1) };
    let (x, tx) = cograph(g, lo, a, limit, edges);
    let (y, ty) = cograph(g, lo + a, n - a, limit, edges);
    if tx * ty <= limit && g.chance(2, 3) {
        for u in lo..lo + a {
            for v in lo + a..lo + n {
                edges.push((u, v));
            }
        }
        (x * y, tx * ty)
    } else {
        (x + y, tx + ty - 1)
    }
}

pub fn c23(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(13);
    const BIG: Cfg = Cfg::new(40).sparse().giant(1100, 10_000);
    let mut s = if g.chance(1, 20) { graph(g, &BIG) } else { graph(g, &CFG) };
    let mut closed: Option<u64> = None;
    if g.chance(1, 12) {
        // complete multipartite graphs: the number of maximal cliques is the product of the sizes
        let sizes: Vec<u32> = (0..g.range(1, 5)).map(|_| g.range(1, 4) as u32).collect();
        let n: u32 = sizes.iter().sum();
        let lab = labels(g, n as usize, true);
        let part: Vec<usize> = sizes.iter().enumerate().flat_map(|(i, k)| vec![i; *k as usize]).collect();
        let mut edges = vec![];
        for u in 0..n as usize {
            for v in u + 1..n as usize {
                if part[u] != part[v] {
                    edges.push((lab[u], lab[v]));
                }
            }
        }
        s = Spec { shape: "multipartite", verts: lab, edges, verts_first: true };
        closed = Some(sizes.iter().map(|x| *x as u64).product());
        cx.label("complete multipartite");
    }
    let large = g.chance(1, 500);
    if large {
        let n = g.range(14, 140);
        let lab = labels(g, n, true);
        let mut es = vec![];
        let limit = *g.pick(&[300u64, 1000, 6000, 20_000]);
        closed = Some(cograph(g, 0, n, limit, &mut es).0);
        let mut edges: Vec<(u32, u32)> = es.into_iter().map(|(u, v)| (lab[u], lab[v])).collect();
        if g.bool() {
            g.shuffle(&mut edges);
        }
        s = Spec { shape: "cograph", verts: lab, edges, verts_first: g.bool() };
        cx.label("cograph with 14-140 vertices");
    }
    let rg = s.rg();
    let (oname, ord) = order(g, &rg);
    cx.input(&s);
    cx.input(&(oname, &ord));
    let want = if large {
        cx.nontrivial_if(closed > Some(1));
        closed.unwrap()
    } else {
        let cl = rg.max_cliques();
        let want = closed.unwrap_or(cl.len() as u64);
        if closed.is_some() {
            cx.eq("oracle-agrees", cl.len() as u64, want);
        }
        let big = cl.iter().filter(|c| c.len() >= 3).count();
        cx.nontrivial_if(big >= 2);
        want
    };
    cx.label_if(rg.n() > 0 && rg.adj.values().any(|n| n.is_empty()), "isolated vertices");
    let G = s.edit();
    let O = ord_any(g, &G, &ord);
    cx.eq("ord", O.count_max_cliques(), want);
    cx.eq("degen", degen_any(g, &G, &ord).count_max_cliques(), want);
    match if rg.n() > 2500 { 0 } else { g.draw(2) } {
        0 => cx.eq("wreach1", O.to_wreach_graph::<1>().count_max_cliques(), want),
        1 => cx.eq("wreach2", O.to_wreach_graph::<2>().count_max_cliques(), want),
        _ => cx.eq("sreach2", O.to_sreach_graph::<2>().count_max_cliques(), want),
    };
    cx.eq("by_degeneracy", OrdGraph::by_degeneracy(&G).count_max_cliques(), want);
}

// ------------------------------------------------------------------ C24

fn check_colouring<L: LinearGraph>(cx: &mut Cx, sig: &str, L: &L, rg: &RG, ord: &[u32]) {
    let col: BTreeMap<u32, u32> = L.colour_greedy().iter().map(|(v, c)| (*v, *c)).collect();
    if !cx.eq(&format!("{sig}/coloured"), col.keys().copied().collect::<Vec<_>>(), rg.vertices()) {
        return;
    }
    for (u, v) in rg.edges() {
        cx.ok(&format!("{sig}/proper"), col[&u] != col[&v], || format!("{u} and {v} are adjacent and both have colour {}", col[&u]));
    }
    let pos: BTreeMap<u32, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let max_left = rg.adj.iter().map(|(v, n)| n.iter().filter(|x| pos[x] < pos[v]).count()).max();
    let used: BTreeSet<u32> = col.values().copied().collect();
    let bound = max_left.map(|x| x + 1).unwrap_or(0);
    cx.ok(&format!("{sig}/number"), used.len() <= bound, || format!("{} colours used, the largest left degree is {}", used.len(), bound - 1));
}

pub fn c24(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(16).big(300, 40).giant(70_000, 40_000);
    let s = graph(g, &CFG);
    let rg = s.rg();
    let (oname, ord) = order(g, &rg);
    cx.input(&s);
    cx.input(&(oname, &ord));
    cx.label(oname);
    cx.nontrivial_if(rg.m() >= 3);
    let G = s.edit();
    let O = ord_any(g, &G, &ord);
    check_colouring(cx, "ord", &O, &rg, &ord);
    check_colouring(cx, "degen", &degen_any(g, &G, &ord), &rg, &ord);
    // the reachable sets of a giant graph can be of quadratic size
    match if rg.n() > 2500 { 0 } else { g.draw(2) } {
        0 => check_colouring(cx, "wreach1", &O.to_wreach_graph::<1>(), &rg, &ord),
        1 => check_colouring(cx, "wreach3", &O.to_wreach_graph::<3>(), &rg, &ord),
        _ => check_colouring(cx, "sreach2", &O.to_sreach_graph::<2>(), &rg, &ord),
    }
}
