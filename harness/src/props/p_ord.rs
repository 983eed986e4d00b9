//! C17 ordered graphs, C18 swap histories, C19 normalize, C20 strong and C21 weak reachability,
//! C22 reachability graphs.

use super::p_edit::check_graph;
use crate::engine::*;
use crate::gens::*;
use crate::refgraph::*;
use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::*;
use std::collections::{BTreeMap, BTreeSet};

/// An ordered graph: the model for everything in this file.
pub struct OM {
    pub rg: RG,
    pub ord: Vec<u32>,
    pub pos: BTreeMap<u32, usize>,
}

impl OM {
    pub fn new(rg: RG, ord: Vec<u32>) -> OM {
        let pos = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        OM { rg, ord, pos }
    }
    pub fn by_pos(&self, xs: impl IntoIterator<Item = u32>) -> Vec<u32> {
        let mut v: Vec<u32> = xs.into_iter().collect();
        v.sort_by_key(|x| self.pos[x]);
        v
    }
    pub fn left(&self, u: u32) -> Vec<u32> {
        self.by_pos(self.rg.adj[&u].iter().copied().filter(|x| self.pos[x] < self.pos[&u]))
    }
    pub fn right(&self, u: u32) -> Vec<u32> {
        self.by_pos(self.rg.adj[&u].iter().copied().filter(|x| self.pos[x] > self.pos[&u]))
    }
}

/// Everything the LinearGraph trait offers, except neighbour iteration.
/// `sorted_left`: left neighbourhoods must come in order.
pub fn check_linear<L: LinearGraph>(g: &mut Gen, cx: &mut Cx, sig: &str, L: &L, m: &OM, sorted_left: bool) {
    let n = m.ord.len();
    if !cx.eq(&format!("{sig}/vertices"), L.vertices().take(n + 5).copied().collect::<Vec<_>>(), m.ord.clone()) {
        return;
    }
    cx.eq(&format!("{sig}/counts"), (L.num_vertices(), L.len(), L.is_empty(), L.num_edges()), (n, n, n == 0, m.rg.m()));
    let fix = |v: Vec<u32>| if sorted_left { v } else { m.by_pos(v) };
    for u in &m.ord {
        cx.ok(&format!("{sig}/contains"), L.contains(u), || format!("{u} missing"));
        let (l, r) = (m.left(*u), m.right(*u));
        cx.eq(&format!("{sig}/degrees-of"), (u, L.left_degree(u), L.right_degree(u), L.degree(u)), (u, l.len() as u32, r.len() as u32, (l.len() + r.len()) as u32));
        cx.eq(&format!("{sig}/left_neighbours"), (u, fix(L.left_neighbours(u))), (u, l));
    }
    let idx: Vec<usize> = m.ord.iter().map(|u| L.index_of(u)).collect();
    cx.ok(&format!("{sig}/index-monotone"), idx.windows(2).all(|w| w[0] < w[1]), || format!("indices {idx:?} do not follow the ordering"));
    let lefts: BTreeMap<u32, u32> = m.ord.iter().map(|u| (*u, m.left(*u).len() as u32)).collect();
    let rights: BTreeMap<u32, u32> = m.ord.iter().map(|u| (*u, m.right(*u).len() as u32)).collect();
    cx.eq(&format!("{sig}/max-degrees"), (L.max_left_degree(), L.max_right_degree()), (lefts.values().copied().max().unwrap_or(0), rights.values().copied().max().unwrap_or(0)));
    cx.eq(&format!("{sig}/left_degrees"), map_of(&L.left_degrees()), lefts);
    cx.eq(&format!("{sig}/right_degrees"), map_of(&L.right_degrees()), rights);
    let ln: Vec<(u32, Vec<u32>)> = L.left_neighbourhoods().take(n + 5).map(|(v, l)| (v, fix(l))).collect();
    cx.eq(&format!("{sig}/left_neighbourhoods"), ln, m.ord.iter().map(|v| (*v, m.left(*v))).collect::<Vec<_>>());
    // a sample of pairs, including absent vertices
    let absent: Vec<u32> = [0u32, 1, 7, u32::MAX, 1000].into_iter().filter(|x| !m.rg.has(*x)).take(2).collect();
    let mut pool: Vec<u32> = m.ord.iter().copied().take(14).collect();
    pool.extend(&absent);
    for u in &pool {
        for v in &pool {
            cx.eq(&format!("{sig}/adjacent"), (u, v, L.adjacent(u, v)), (u, v, m.rg.adjacent(*u, *v)));
        }
    }
    for u in &absent {
        cx.eq(&format!("{sig}/absent"), (u, L.contains(u), L.left_degree(u), L.right_degree(u), L.degree(u)), (u, false, 0, 0, 0));
    }
    let sub = subset(g, &m.ord);
    let sub_sorted = m.by_pos(sub.iter().copied());
    cx.eq(&format!("{sig}/leftmost"), L.leftmost(sub.iter()), sub_sorted.first().copied());
    cx.eq(&format!("{sig}/rightmost"), L.rightmost(sub.iter()), sub_sorted.last().copied());
}

pub fn check_ord(g: &mut Gen, cx: &mut Cx, sig: &str, O: &OrdGraph, m: &OM) {
    check_linear(g, cx, sig, O, m, true);
    let pool: Vec<u32> = m.ord.iter().copied().take(6).collect();
    check_graph(cx, sig, O, &m.rg, &pool);
    for (i, u) in m.ord.iter().enumerate() {
        cx.eq(&format!("{sig}/index_of"), O.index_of(u), i);
        cx.eq(&format!("{sig}/right_neighbours"), (u, O.right_neighbours(u)), (u, m.right(*u)));
    }
}

pub fn check_degen(g: &mut Gen, cx: &mut Cx, sig: &str, D: &DegenGraph, m: &OM, sorted_left: bool) {
    check_linear(g, cx, sig, D, m, sorted_left);
    let pool: Vec<u32> = m.ord.iter().copied().take(6).collect();
    check_graph(cx, sig, D, &m.rg, &pool);
    let fix = |v: Vec<u32>| if sorted_left { v } else { m.by_pos(v) };
    for u in &m.ord {
        cx.eq(&format!("{sig}/slice"), (u, fix(D.left_neighbours_slice(u).to_vec())), (u, m.left(*u)));
        cx.eq(&format!("{sig}/right_neighbours"), (u, m.by_pos(D.right_neighbours(u).iter().copied())), (u, m.right(*u)));
    }
    let mut pool: Vec<u32> = m.ord.iter().copied().take(14).collect();
    pool.extend([0u32, 2, 9, u32::MAX, 500].into_iter().filter(|x| !m.rg.has(*x)).take(1));
    for u in &pool {
        for v in &pool {
            let want = m.rg.adjacent(*u, *v) && m.pos[u] < m.pos[v];
            cx.eq(&format!("{sig}/adjacent_ordered"), (u, v, D.adjacent_ordered(u, v)), (u, v, want));
        }
    }
    let it: Vec<(u32, Vec<u32>)> = D.iter().take(m.ord.len() + 5).map(|(v, l)| (v, fix(l.to_vec()))).collect();
    cx.eq(&format!("{sig}/iter"), it, m.ord.iter().map(|v| (*v, m.left(*v))).collect::<Vec<_>>());
    cx.eq(&format!("{sig}/first"), D.first(), m.ord.first().copied());
}

pub fn c17(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(14).big(200, 60).huge(420, 2500).giant(70_000, 20_000);
    let s = graph(g, &CFG);
    let rg = s.rg();
    let (oname, ord) = order(g, &rg);
    cx.input(&s);
    cx.input(&(oname, &ord));
    cx.label(oname);
    cx.nontrivial_if(rg.m() >= 2);
    let m = OM::new(rg.clone(), ord.clone());
    let G = edit_with_history(g, &s);
    let source_digraph = g.chance(1, 4);
    cx.label_if(source_digraph, "source is a digraph");
    let (O, D) = if source_digraph {
        let (X, anti) = any_digraph(g, &s);
        cx.label_if(anti, "antiparallel arcs");
        (OrdGraph::with_ordering(&X, ord.iter()), DegenGraph::with_ordering(&X, ord.iter()))
    } else {
        (OrdGraph::with_ordering(&G, ord.iter()), DegenGraph::with_ordering(&G, ord.iter()))
    };
    check_ord(g, cx, "ord", &O, &m);
    check_degen(g, cx, "degen", &D, &m, true);
    match g.draw(5) {
        0 => check_degen(g, cx, "to_degen", &O.to_degeneracy_graph(), &m, true),
        1 => check_degen(g, cx, "degen-clone", &D.clone(), &m, true),
        2 => check_ord(g, cx, "ord-of-degen", &OrdGraph::with_ordering(&D, ord.iter()), &m),
        3 => check_degen(g, cx, "degen-of-ord", &DegenGraph::with_ordering(&O, ord.iter()), &m, true),
        4 => {
            // automatic ordering: whatever it is, the structure must be faithful to it
            let A = OrdGraph::by_degeneracy(&G);
            let own: Vec<u32> = A.vertices().copied().collect();
            if cx.eq("by_degeneracy/permutation", sorted(own.iter().copied()), rg.vertices()) {
                check_ord(g, cx, "by_degeneracy", &A, &OM::new(rg.clone(), own));
            }
            let A = DegenGraph::from_graph(&G);
            let own: Vec<u32> = A.vertices().copied().collect();
            if cx.eq("from_graph/permutation", sorted(own.iter().copied()), rg.vertices()) {
                check_degen(g, cx, "from_graph", &A, &OM::new(rg, own), true);
            }
        }
        _ => {
            // built by hand, left neighbours in any order
            let B = build_by_hand(g, &m);
            check_degen(g, cx, "builder", &B, &m, false);
        }
    }
}

fn build_by_hand(g: &mut Gen, m: &OM) -> DegenGraph {
    let mut b = if g.bool() { DegenGraphBuilder::new() } else { DegenGraphBuilder::default() };
    for u in &m.ord {
        let mut l = m.left(*u);
        g.shuffle(&mut l);
        b.append(u, &l);
    }
    b.build()
}

// ------------------------------------------------------------------ C18

pub fn c18(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(12).big(80, 80).huge(420, 2500).giant(1100, 30_000);
    let s = graph(g, &CFG);
    let rg = s.rg();
    let (_, mut ord) = order(g, &rg);
    cx.input(&s);
    cx.input(&ord);
    let G = s.edit();
    let mut O = OrdGraph::with_ordering(&G, ord.iter());
    let mut trace = vec![];
    let n = ord.len();
    let steps = if g.chance(1, 10) { g.range(10, 60) } else { g.range(1, 8) };
    let every = steps < 12;
    for _ in 0..steps {
        let (u, v) = match g.weighted(&[6, 3, 3, 1, 1]) {
            _ if n == 0 => (3, 4),
            0 => (ord[g.below(n)], ord[g.below(n)]),
            1 => {
                let i = g.below(n);
                (ord[i], ord[(i + 1) % n])
            }
            2 => {
                // an edge, if there is one
                let u = ord[g.below(n)];
                let ns = rg.nbrs(u);
                if ns.is_empty() { (u, u) } else { (u, ns[g.below(ns.len())]) }
            }
            3 => {
                let u = ord[g.below(n)];
                (u, u)
            }
            _ => {
                let x = (0..).find(|x| !rg.has(*x)).unwrap();
                let u = ord[g.below(n)];
                if g.bool() { (u, x) } else { (x, u) }
            }
        };
        trace.push((u, v));
        O.swap(&u, &v);
        if rg.has(u) && rg.has(v) && u != v {
            let (i, j) = (ord.iter().position(|x| *x == u).unwrap(), ord.iter().position(|x| *x == v).unwrap());
            ord.swap(i, j);
            cx.label_if(rg.adjacent(u, v), "adjacent swap");
            cx.label_if(rg.adj[&u].iter().any(|x| rg.adjacent(*x, v)), "common neighbour");
            cx.nontrivial_if(rg.degree(u) + rg.degree(v) > 0);
        } else if u != v {
            cx.label("absent vertex");
        }
        if every {
            check_ord(g, cx, "swap", &O, &OM::new(rg.clone(), ord.clone()));
            if !cx.failures.is_empty() {
                break;
            }
        }
    }
    cx.input(&trace);
    let m = OM::new(rg.clone(), ord.clone());
    check_ord(g, cx, "swap", &O, &m);
    // everything derived from it behaves as if built afresh
    let r = 1 + g.draw(3) as u32;
    let w: BTreeMap<u32, BTreeMap<u32, u32>> = O.wreach_sets(r).iter().map(|(k, v)| (*k, map_of(v))).collect();
    cx.eq("swap/wreach", w, wreach_def(&rg, &ord, r));
    check_degen(g, cx, "swap/to_degen", &O.to_degeneracy_graph(), &m, true);
    let R = O.to_wreach_graph::<2>();
    check_linear(g, cx, "swap/to_wreach", &R, &m, true);
}

// ------------------------------------------------------------------ C19

pub fn c19(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(14).big(150, 60).huge(420, 2500).giant(5000, 20_000);
    let s = graph(g, &CFG);
    let rg = s.rg();
    let (oname, ord) = order(g, &rg);
    cx.input(&s);
    cx.input(&(oname, &ord));
    let G = s.edit();
    let m = OM::new(rg.clone(), ord.clone());
    let mut D = match g.draw(4) {
        4 => DegenGraph::with_ordering(&any_digraph(g, &s).0, ord.iter()),
        0 => DegenGraph::with_ordering(&G, ord.iter()),
        1 => OrdGraph::with_ordering(&G, ord.iter()).to_degeneracy_graph(),
        2 => {
            cx.label("built by hand");
            build_by_hand(g, &m)
        }
        _ => DegenGraph::from_graph(&G),
    };
    let before = D.clone();
    let own: Vec<u32> = D.vertices().take(ord.len() + 5).copied().collect();
    let om = OM::new(rg.clone(), own.clone());
    cx.nontrivial_if(rg.m() >= 2 && own.iter().enumerate().any(|(i, v)| i as u32 != *v));
    cx.label_if(own.is_empty(), "empty");
    cx.label_if(own.iter().any(|v| (*v as usize) < own.len()), "labels overlap the new ones");
    let map = D.normalize();
    let want_map: BTreeMap<u32, u32> = own.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect();
    cx.eq("map", map_of(&map), want_map);
    let p = |v: &u32| om.pos[v] as u32;
    let wrg = RG::from_parts(own.iter().map(p), rg.edges().iter().map(|(u, v)| (p(u), p(v))));
    let wm = OM::new(wrg, (0..own.len() as u32).collect());
    check_degen(g, cx, "normalized", &D, &wm, true);
    check_degen(g, cx, "clone-kept", &before, &om, false);
    let again = D.normalize();
    cx.eq("again/map", map_of(&again), (0..own.len() as u32).map(|i| (i, i)).collect());
    check_degen(g, cx, "again", &D, &wm, true);
}

// ------------------------------------------------------------------ C20, C21

fn radius(g: &mut Gen, n: usize) -> u32 {
    match g.weighted(&[10, 2, 1]) {
        0 => g.draw(5) as u32,
        1 => 4 + g.draw(6) as u32,
        _ => n as u32 + g.draw(2) as u32,
    }
}

pub fn c20(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(14).big(70, 80).huge(320, 8000).giant(1100, 80_000);
    let long = g.chance(1, 4000);
    let (s, oname, ord, r) = if long {
        let (s, ord) = lengthy(g, 330);
        let r = long_radius(g, ord.len());
        (s, "along a long path", ord, r)
    } else {
        let s = graph(g, &CFG);
        let rg = s.rg();
        let (oname, ord) = order(g, &rg);
        let r = radius(g, rg.n());
        (s, oname, ord, r)
    };
    let rg = s.rg();
    cx.label_if(long, "distances beyond 255");
    cx.input(&s);
    cx.input(&(oname, &ord, r));
    let G = s.edit();
    let want: BTreeMap<u32, BTreeMap<u32, u32>> = ord.iter().map(|u| (*u, sreach_def(&rg, &ord, *u, r))).collect();
    let wr = wreach_def(&rg, &ord, r);
    cx.nontrivial_if(want.values().any(|w| w.values().any(|d| *d >= 2)));
    cx.label_if(want != wr, "differs from weak reachability");
    cx.label_if(r == 0, "radius 0");
    check_sreach(cx, "ord", &ord_any(g, &G, &ord), &rg, &ord, r, &want);
    check_sreach(cx, "degen", &degen_any(g, &G, &ord), &rg, &ord, r, &want);
}

fn check_sreach<L: LinearGraph>(cx: &mut Cx, sig: &str, L: &L, rg: &RG, ord: &[u32], r: u32, want: &BTreeMap<u32, BTreeMap<u32, u32>>) {
    for u in ord {
        cx.eq(&format!("{sig}/sreach_set"), (u, map_of(&L.sreach_set(u, r))), (u, want[u].clone()));
    }
    let sets: BTreeMap<u32, BTreeMap<u32, u32>> = L.sreach_sets(r).iter().map(|(k, v)| (*k, map_of(v))).collect();
    cx.eq(&format!("{sig}/sreach_sets"), &sets, want);
    cx.eq(&format!("{sig}/sreach_sizes"), map_of(&L.sreach_sizes(r)), want.iter().map(|(u, w)| (*u, w.len() as u32)).collect());
    // layers of the right-hand search
    for (i, u) in ord.iter().enumerate().take(20) {
        let right: BTreeSet<u32> = ord[i..].iter().copied().collect();
        let d = rg.induced(&right).bfs([*u]);
        let mut layers = vec![BTreeSet::new(); r as usize + 1];
        for (v, dv) in d {
            if dv <= r {
                layers[dv as usize].insert(v);
            }
        }
        let got: Vec<BTreeSet<u32>> = L.right_bfs(u, r).iter().map(|l| bset(l)).collect();
        cx.eq(&format!("{sig}/right_bfs"), (u, got), (u, layers));
    }
}

pub fn c21(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(14).big(90, 60).huge(320, 8000).giant(1100, 80_000);
    let long = g.chance(1, 3000);
    let (s, oname, ord, r) = if long {
        let (s, ord) = lengthy(g, 330);
        let r = long_radius(g, ord.len());
        (s, "along a long path", ord, r)
    } else {
        let s = graph(g, &CFG);
        let rg = s.rg();
        let (oname, ord) = order(g, &rg);
        let r = radius(g, rg.n());
        (s, oname, ord, r)
    };
    let rg = s.rg();
    cx.label_if(long, "distances beyond 255");
    cx.input(&s);
    cx.input(&(oname, &ord, r));
    let G = s.edit();
    let want = wreach_def(&rg, &ord, r);
    cx.nontrivial_if(want.values().any(|w| w.values().any(|d| *d >= 2)));
    cx.label_if(r == 0, "radius 0");
    fn go<L: LinearGraph>(cx: &mut Cx, sig: &str, L: &L, r: u32, want: &BTreeMap<u32, BTreeMap<u32, u32>>) {
        let sets: BTreeMap<u32, BTreeMap<u32, u32>> = L.wreach_sets(r).iter().map(|(k, v)| (*k, map_of(v))).collect();
        cx.eq(&format!("{sig}/wreach_sets"), &sets, want);
        cx.eq(&format!("{sig}/wreach_sizes"), map_of(&L.wreach_sizes(r)), want.iter().map(|(u, w)| (*u, w.len() as u32)).collect());
    }
    go(cx, "ord", &ord_any(g, &G, &ord), r, &want);
    go(cx, "degen", &degen_any(g, &G, &ord), r, &want);
}

// ------------------------------------------------------------------ C22

fn check_reach<const D: usize>(g: &mut Gen, cx: &mut Cx, sig: &str, R: &ReachGraph<D>, m: &OM, want: &BTreeMap<u32, BTreeMap<u32, u32>>) {
    check_linear(g, cx, sig, R, m, true);
    let n = m.ord.len();
    cx.eq(&format!("{sig}/depth"), R.depth(), D);
    cx.eq(&format!("{sig}/first"), R.first(), m.ord.first().copied());
    let at = |u: &u32, d: usize| m.by_pos(want[u].iter().filter(|(_, x)| **x as usize == d).map(|(v, _)| *v));
    let segs = |r: &Reachables<D>| -> Vec<Vec<u32>> { (1..=D).map(|d| r.at(d).to_vec()).collect() };
    for (i, u) in m.ord.iter().enumerate() {
        let w: Vec<Vec<u32>> = (1..=D).map(|d| at(u, d)).collect();
        let flat: Vec<u32> = w.concat();
        let r = R.reachables(u);
        cx.eq(&format!("{sig}/at"), (u, segs(&r)), (u, w.clone()));
        cx.eq(&format!("{sig}/len"), (u, r.len(), r.is_empty()), (u, flat.len(), flat.is_empty()));
        cx.eq(&format!("{sig}/reachables_all"), (u, R.reachables_all(u).to_vec()), (u, flat));
        match (R.next_reachables(u), m.ord.get(i + 1)) {
            (None, None) => {}
            (Some(x), Some(next)) => {
                let y = R.reachables(next);
                cx.ok(&format!("{sig}/next_reachables"), x == y, || format!("after {u}: got {x:?}, expected {y:?}"));
            }
            (x, y) => cx.fail(&format!("{sig}/next_reachables"), format!("after {u}: got {x:?}, the next vertex is {y:?}")),
        }
    }
    let it: Vec<(u32, Vec<Vec<u32>>)> = R.iter().take(n + 5).map(|(v, r)| (v, segs(&r))).collect();
    let wit: Vec<(u32, Vec<Vec<u32>>)> = m.ord.iter().map(|u| (*u, (1..=D).map(|d| at(u, d)).collect())).collect();
    cx.eq(&format!("{sig}/iter"), it, wit);
}

fn c22_depth<const D: usize>(g: &mut Gen, cx: &mut Cx, O: &OrdGraph, m: &OM) {
    let w = wreach_def(&m.rg, &m.ord, D as u32);
    cx.nontrivial_if(w.values().any(|x| x.values().any(|d| *d as usize == D)));
    check_reach::<D>(g, cx, "wreach", &O.to_wreach_graph::<D>(), m, &w);
    let s: BTreeMap<u32, BTreeMap<u32, u32>> = m.ord.iter().map(|u| (*u, sreach_def(&m.rg, &m.ord, *u, D as u32))).collect();
    check_reach::<D>(g, cx, "sreach", &O.to_sreach_graph::<D>(), m, &s);
    // by hand, with arbitrary distances for the pairs that are not edges
    if D >= 2 && g.chance(1, 3) {
        cx.label("built by hand");
        let mut want: BTreeMap<u32, BTreeMap<u32, u32>> = BTreeMap::new();
        let index: VertexMap<usize> = m.pos.iter().map(|(v, i)| (*v, 3 * i + 1)).collect();
        let mut b = if g.bool() { ReachGraphBuilder::<D>::new() } else { ReachGraphBuilder::<D>::default() };
        for (i, u) in m.ord.iter().enumerate() {
            let mut row = VertexMap::default();
            for v in &m.ord[..i] {
                if m.rg.adjacent(*u, *v) {
                    row.insert(*v, 1);
                } else if g.chance(1, 3) {
                    row.insert(*v, 2 + g.draw(D as u64 - 2) as u32);
                }
            }
            b.append(u, &row, &index);
            want.insert(*u, map_of(&row));
        }
        check_reach::<D>(g, cx, "builder", &b.build(), m, &want);
    }
}

pub fn c22(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(13).big(60, 80).huge(320, 8000).giant(1100, 80_000);
    let s = graph(g, &CFG);
    let rg = s.rg();
    let (oname, ord) = order(g, &rg);
    cx.input(&s);
    cx.input(&(oname, &ord));
    let G: EditGraph = s.edit();
    let O = ord_any(g, &G, &ord);
    let m = OM::new(rg, ord);
    let d = 1 + g.draw(5);
    cx.input(&d);
    match d {
        1 => c22_depth::<1>(g, cx, &O, &m),
        2 => c22_depth::<2>(g, cx, &O, &m),
        3 => c22_depth::<3>(g, cx, &O, &m),
        4 => c22_depth::<4>(g, cx, &O, &m),
        5 => c22_depth::<5>(g, cx, &O, &m),
        _ => c22_depth::<7>(g, cx, &O, &m),
    }
}
