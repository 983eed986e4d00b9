//! C01 edit histories, C02 digraph histories, C03 contraction, C04 named generators,
//! C05 equality and cloning.

use crate::engine::*;
use crate::gens::*;
use crate::refgraph::RG;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use std::collections::{BTreeMap, BTreeSet};

/// Compares everything observable about an undirected graph with the model.
pub fn check_graph<G: Graph>(cx: &mut Cx, sig: &str, g: &G, rg: &RG, pool: &[u32]) -> bool {
    let mut ok = true;
    ok &= cx.eq(&format!("{sig}/num_vertices"), g.num_vertices(), rg.n());
    ok &= cx.eq(&format!("{sig}/len"), g.len(), rg.n());
    ok &= cx.eq(&format!("{sig}/is_empty"), g.is_empty(), rg.n() == 0);
    ok &= cx.eq(&format!("{sig}/num_edges"), g.num_edges(), rg.m());
    let cap = rg.n() + 8;
    let vs = sorted(g.vertices().take(cap).copied());
    ok &= cx.eq(&format!("{sig}/vertices"), vs, rg.vertices());
    if !ok {
        return false;
    }
    for v in rg.vertices() {
        ok &= cx.ok(&format!("{sig}/contains"), g.contains(&v), || format!("vertex {v} missing"));
        ok &= cx.eq(&format!("{sig}/degree"), (v, g.degree(&v)), (v, rg.degree(v)));
        let ns = sorted(g.neighbours(&v).take(cap).copied());
        ok &= cx.eq(&format!("{sig}/neighbours"), (v, ns), (v, rg.nbrs(v)));
    }
    for u in pool {
        if !rg.has(*u) {
            ok &= cx.ok(&format!("{sig}/contains"), !g.contains(u), || format!("vertex {u} should be absent"));
            ok &= cx.eq(&format!("{sig}/degree-absent"), (*u, g.degree(u)), (*u, 0));
        }
        for v in pool {
            ok &= cx.eq(&format!("{sig}/adjacent"), ((*u, *v), g.adjacent(u, v)), ((*u, *v), rg.adjacent(*u, *v)));
        }
    }
    let degs: BTreeMap<u32, u32> = map_of(&g.degrees());
    let want: BTreeMap<u32, u32> = rg.vertices().into_iter().map(|v| (v, rg.degree(v))).collect();
    ok &= cx.eq(&format!("{sig}/degrees"), degs, want);
    let es = norm_edges(g.edges().take(rg.m() + 8));
    ok &= cx.eq(&format!("{sig}/edges"), es, rg.edges());
    ok
}

/// Sizes for histories that start from a large graph.
const START: Cfg = Cfg::new(500).giant(70_000, 1).loops();

fn pick_pool(g: &mut Gen) -> Vec<u32> {
    let k = if g.chance(1, 40) { g.range(20, 300) } else { g.range(1, 12) };
    labels(g, k, true)
}

/// A vertex: usually from the front of the pool so that operations collide.
fn pv(g: &mut Gen, pool: &[u32]) -> u32 {
    pool[g.below(pool.len())]
}

pub fn c01(g: &mut Gen, cx: &mut Cx) {
    let mut pool = pick_pool(g);
    let giant = g.chance(1, 12_000);
    let big = pool.len() > 14 || giant;
    let mut rg = RG::new();
    let mut G = match g.draw(2) {
        _ if giant => {
            let s = graph(g, &START);
            cx.label("starts from over 500 vertices");
            cx.input(&("start", &s));
            rg = s.rg();
            pool.truncate(30);
            let hub = *rg.adj.iter().max_by_key(|(_, n)| n.len()).unwrap().0;
            pool.insert(0, hub);
            for _ in 0..60 {
                pool.push(s.verts[g.below(s.verts.len())]);
            }
            s.edit()
        }
        0 => EditGraph::new(),
        1 => EditGraph::with_capacity(g.range(0, 40)),
        _ => {
            let es: Vec<(u32, u32)> = (0..g.range(0, 2 * pool.len())).map(|_| (pv(g, &pool), pv(g, &pool))).collect();
            for (u, v) in &es {
                rg.add_edge(*u, *v);
            }
            cx.input(&("from_iter", &es));
            EditGraph::from_iter(es)
        }
    };
    let steps = if big { g.range(if giant { 5 } else { 50 }, 400) } else { g.range(1, 60) };
    let bias = g.draw(2); // 0: balanced, 1: growing, 2: one hub
    let hub = pool[0];
    let mut trace: Vec<String> = vec![];
    let (mut removed_adj, mut loops_used, mut dup) = (false, false, false);
    for step in 0..steps {
        let w: &[u64] = if bias == 1 { &[3, 1, 12, 2, 1, 1, 1, 1, 1] } else { &[4, 4, 8, 5, 1, 1, 1, 1, 1] };
        match g.weighted(w) {
            0 => {
                let u = pv(g, &pool);
                trace.push(format!("+{u}"));
                cx.eq("add_vertex/return", (u, G.add_vertex(&u)), (u, rg.add_vertex(u)));
            }
            1 => {
                let u = pv(g, &pool);
                trace.push(format!("-{u}"));
                removed_adj |= rg.degree(u) > 0;
                cx.eq("remove_vertex/return", (u, G.remove_vertex(&u)), (u, rg.remove_vertex(u)));
            }
            2 => {
                let (u, v) = (if bias == 2 && g.bool() { hub } else { pv(g, &pool) }, pv(g, &pool));
                trace.push(format!("+{u}-{v}"));
                loops_used |= u == v;
                dup |= rg.adjacent(u, v);
                cx.eq("add_edge/return", ((u, v), G.add_edge(&u, &v)), ((u, v), rg.add_edge(u, v)));
            }
            3 => {
                // mostly an existing edge
                let es = if giant { vec![] } else { rg.edges() };
                let (u, v) = if giant {
                    let u = pv(g, &pool);
                    match rg.adj.get(&u) {
                        Some(n) if !n.is_empty() => (u, *n.iter().nth(g.below(n.len())).unwrap()),
                        _ => (u, pv(g, &pool)),
                    }
                } else if !es.is_empty() && g.chance(2, 3) {
                    let e = *g.pick(&es);
                    if g.bool() { (e.1, e.0) } else { e }
                } else {
                    (pv(g, &pool), pv(g, &pool))
                };
                trace.push(format!("-{u}-{v}"));
                cx.eq("remove_edge/return", ((u, v), G.remove_edge(&u, &v)), ((u, v), rg.remove_edge(u, v)));
            }
            4 => {
                let vs: Vec<u32> = (0..g.range(0, 5)).map(|_| pv(g, &pool)).collect();
                trace.push(format!("+{vs:?}"));
                let want = vs.iter().filter(|v| rg.add_vertex(**v)).count() as u32;
                let got = if g.bool() { G.add_vertices(vs.iter()) } else { G.add_vertices(vs.iter().copied()) };
                cx.eq("add_vertices/return", got, want);
            }
            5 => {
                let es: Vec<(u32, u32)> = (0..g.range(0, 6)).map(|_| (pv(g, &pool), pv(g, &pool))).collect();
                trace.push(format!("+{es:?}"));
                let want = es.iter().filter(|(u, v)| rg.add_edge(*u, *v)).count() as u32;
                cx.eq("add_edges/return", G.add_edges(es.iter()), want);
            }
            6 => {
                trace.push("remove_loops".into());
                let ls = rg.loops();
                for l in &ls {
                    rg.remove_edge(*l, *l);
                }
                cx.eq("remove_loops/return", G.remove_loops(), ls.len());
            }
            7 => {
                trace.push("remove_isolates".into());
                let iso: Vec<u32> = rg.vertices().into_iter().filter(|v| rg.degree(*v) == 0).collect();
                for v in &iso {
                    rg.remove_vertex(*v);
                }
                cx.eq("remove_isolates/return", G.remove_isolates(), iso.len());
            }
            _ => {
                trace.push("clone".into());
                G = G.clone();
            }
        }
        if !cx.failures.is_empty() {
            break;
        }
        if (!big || (!giant && step % 64 == 63)) && !check_graph(cx, "state", &G, &rg, if big { &pool[..10] } else { &pool }) {
            break;
        }
    }
    if big && cx.failures.is_empty() {
        check_graph(cx, "state", &G, &rg, &pool[..pool.len().min(40)]);
    }
    cx.label_if(big, "big pool");
    cx.label_if(loops_used, "loops added");
    cx.label_if(removed_adj, "vertex with edges removed");
    cx.label_if(dup, "edge added twice");
    cx.nontrivial_if(removed_adj || (dup && loops_used));
    if big {
        cx.input(&("pool", pool.len(), hash_str(&trace.join(" ")), "steps", trace.len()));
    } else {
        cx.input(&trace.join(" "));
    }
}

// ------------------------------------------------------------------ digraphs

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct DG {
    pub vs: BTreeSet<u32>,
    pub arcs: BTreeSet<(u32, u32)>,
}

impl DG {
    pub fn add_vertex(&mut self, u: u32) -> bool {
        self.vs.insert(u)
    }
    pub fn add_arc(&mut self, u: u32, v: u32) -> bool {
        self.vs.insert(u);
        self.vs.insert(v);
        self.arcs.insert((u, v))
    }
    pub fn remove_vertex(&mut self, u: u32) -> bool {
        if !self.vs.remove(&u) {
            return false;
        }
        self.arcs.retain(|(a, b)| *a != u && *b != u);
        true
    }
    pub fn out(&self, u: u32) -> Vec<u32> {
        self.arcs.range((u, 0)..=(u, u32::MAX)).map(|a| a.1).collect()
    }
    pub fn inn(&self, u: u32) -> Vec<u32> {
        self.arcs.iter().filter(|a| a.1 == u).map(|a| a.0).collect()
    }
    /// In-neighbours of every vertex.
    pub fn inn_map(&self) -> BTreeMap<u32, Vec<u32>> {
        let mut m: BTreeMap<u32, Vec<u32>> = self.vs.iter().map(|v| (*v, vec![])).collect();
        for (u, v) in &self.arcs {
            m.get_mut(v).unwrap().push(*u);
        }
        m
    }
    pub fn degree(&self, u: u32) -> u32 {
        (self.out(u).len() + self.inn(u).len()) as u32
    }
    pub fn undirected(&self) -> RG {
        RG::from_parts(self.vs.iter().copied(), self.arcs.iter().copied())
    }
}

pub fn check_digraph(cx: &mut Cx, sig: &str, g: &EditDigraph, d: &DG, pool: &[u32]) -> bool {
    let mut ok = true;
    let n = d.vs.len();
    let cap = n + 8;
    ok &= cx.eq(&format!("{sig}/num_vertices"), g.num_vertices(), n);
    ok &= cx.eq(&format!("{sig}/len"), (g.len(), g.is_empty()), (n, n == 0));
    ok &= cx.eq(&format!("{sig}/num_edges"), g.num_edges(), d.arcs.len());
    ok &= cx.eq(&format!("{sig}/vertices"), sorted(g.vertices().take(cap).copied()), d.vs.iter().copied().collect::<Vec<_>>());
    if !ok {
        return false;
    }
    let und = d.undirected();
    let inn = d.inn_map();
    for v in &d.vs {
        ok &= cx.eq(&format!("{sig}/out_neighbours"), (*v, sorted(g.out_neighbours(v).take(cap).copied())), (*v, d.out(*v)));
        ok &= cx.eq(&format!("{sig}/in_neighbours"), (*v, sorted(g.in_neighbours(v).take(cap).copied())), (*v, inn[v].clone()));
        let ns: BTreeSet<u32> = Graph::neighbours(g, v).take(2 * cap).copied().collect();
        ok &= cx.eq(&format!("{sig}/neighbours"), (*v, ns.into_iter().collect::<Vec<_>>()), (*v, und.nbrs(*v)));
        let ns: BTreeSet<u32> = Digraph::neighbours(g, v).take(2 * cap).copied().collect();
        ok &= cx.eq(&format!("{sig}/digraph-neighbours"), (*v, ns.into_iter().collect::<Vec<_>>()), (*v, und.nbrs(*v)));
        ok &= cx.eq(&format!("{sig}/in_degree"), (*v, g.in_degree(v)), (*v, inn[v].len() as u32));
        ok &= cx.eq(&format!("{sig}/out_degree"), (*v, g.out_degree(v)), (*v, d.out(*v).len() as u32));
        ok &= cx.eq(&format!("{sig}/degree"), (*v, g.degree(v)), (*v, (d.out(*v).len() + inn[v].len()) as u32));
        ok &= cx.ok(&format!("{sig}/contains"), g.contains(v), || format!("{v} missing"));
    }
    for u in pool {
        if !d.vs.contains(u) {
            ok &= cx.ok(&format!("{sig}/contains"), !g.contains(u), || format!("{u} should be absent"));
            ok &= cx.eq(&format!("{sig}/degree-absent"), (*u, g.degree(u)), (*u, 0));
        }
        for v in pool {
            ok &= cx.eq(&format!("{sig}/has_arc"), ((*u, *v), g.has_arc(u, v)), ((*u, *v), d.arcs.contains(&(*u, *v))));
            ok &= cx.eq(&format!("{sig}/adjacent"), ((*u, *v), g.adjacent(u, v)), ((*u, *v), und.adjacent(*u, *v)));
        }
    }
    let ins: BTreeMap<u32, u32> = d.vs.iter().map(|v| (*v, inn[v].len() as u32)).collect();
    let outs: BTreeMap<u32, u32> = d.vs.iter().map(|v| (*v, d.out(*v).len() as u32)).collect();
    ok &= cx.eq(&format!("{sig}/in_degrees"), map_of(&g.in_degrees()), ins);
    ok &= cx.eq(&format!("{sig}/out_degrees"), map_of(&g.out_degrees()), outs);
    let degs: BTreeMap<u32, u32> = d.vs.iter().map(|v| (*v, (d.out(*v).len() + inn[v].len()) as u32)).collect();
    ok &= cx.eq(&format!("{sig}/degrees"), map_of(&g.degrees()), degs);
    let mut arcs: Vec<(u32, u32)> = g.arcs().take(d.arcs.len() + 8).collect();
    arcs.sort_unstable();
    ok &= cx.eq(&format!("{sig}/arcs"), arcs, d.arcs.iter().copied().collect::<Vec<_>>());
    ok
}

pub fn c02(g: &mut Gen, cx: &mut Cx) {
    let mut pool = pick_pool(g);
    let giant = g.chance(1, 8_000);
    let big = pool.len() > 14 || giant;
    let mut d = DG::default();
    let mut G = match g.draw(2) {
        _ if giant => {
            let s = graph(g, &START);
            cx.label("starts from over 500 vertices");
            cx.input(&("start", &s));
            s.verts.iter().for_each(|v| drop(d.vs.insert(*v)));
            s.edges.iter().for_each(|(u, v)| drop(d.add_arc(*u, *v)));
            pool.truncate(30);
            let hub = *s.rg().adj.iter().max_by_key(|(_, n)| n.len()).unwrap().0;
            pool.insert(0, hub);
            for _ in 0..60 {
                pool.push(s.verts[g.below(s.verts.len())]);
            }
            s.digraph()
        }
        0 => <EditDigraph as MutableDigraph>::new(),
        1 => <EditDigraph as MutableDigraph>::with_capacity(g.range(0, 40)),
        _ => {
            let es: Vec<(u32, u32)> = (0..g.range(0, 2 * pool.len())).map(|_| (pv(g, &pool), pv(g, &pool))).collect();
            for (u, v) in &es {
                d.add_arc(*u, *v);
            }
            cx.input(&("from_iter", &es));
            EditDigraph::from_iter(es)
        }
    };
    let steps = if big { g.range(if giant { 5 } else { 50 }, if giant { 120 } else { 300 }) } else { g.range(1, 50) };
    let mut trace: Vec<String> = vec![];
    let (mut removed_adj, mut anti) = (false, false);
    for step in 0..steps {
        match g.weighted(&[4, 4, 8, 5, 1, 1, 1, 1, 1]) {
            0 => {
                let u = pv(g, &pool);
                trace.push(format!("+{u}"));
                cx.eq("add_vertex/return", (u, MutableDigraph::add_vertex(&mut G, &u)), (u, d.add_vertex(u)));
            }
            1 => {
                let u = pv(g, &pool);
                trace.push(format!("-{u}"));
                removed_adj |= d.degree(u) > 0;
                cx.eq("remove_vertex/return", (u, MutableDigraph::remove_vertex(&mut G, &u)), (u, d.remove_vertex(u)));
            }
            2 => {
                let (mut u, mut v) = (pv(g, &pool), pv(g, &pool));
                if !d.arcs.is_empty() && g.chance(1, 4) {
                    let i = g.below(d.arcs.len());
                    let a = *d.arcs.iter().nth(i).unwrap();
                    (u, v) = (a.1, a.0);
                }
                trace.push(format!("+{u}>{v}"));
                anti |= u != v && d.arcs.contains(&(v, u));
                cx.eq("add_arc/return", ((u, v), G.add_arc(&u, &v)), ((u, v), d.add_arc(u, v)));
            }
            3 => {
                let (mut u, mut v) = (pv(g, &pool), pv(g, &pool));
                if !d.arcs.is_empty() && g.chance(2, 3) {
                    let i = g.below(d.arcs.len());
                    (u, v) = *d.arcs.iter().nth(i).unwrap();
                    if g.chance(1, 4) {
                        (u, v) = (v, u);
                    }
                }
                trace.push(format!("-{u}>{v}"));
                cx.eq("remove_arc/return", ((u, v), G.remove_arc(&u, &v)), ((u, v), d.arcs.remove(&(u, v))));
            }
            4 => {
                let vs: Vec<u32> = (0..g.range(0, 5)).map(|_| pv(g, &pool)).collect();
                trace.push(format!("+{vs:?}"));
                let want = vs.iter().filter(|v| d.add_vertex(**v)).count() as u32;
                cx.eq("add_vertices/return", MutableDigraph::add_vertices(&mut G, vs.iter()), want);
            }
            5 => {
                let es: Vec<(u32, u32)> = (0..g.range(0, 6)).map(|_| (pv(g, &pool), pv(g, &pool))).collect();
                trace.push(format!("+{es:?}"));
                let want = es.iter().filter(|(u, v)| d.add_arc(*u, *v)).count() as u32;
                cx.eq("add_arcs/return", G.add_arcs(es.iter()), want);
            }
            6 => {
                trace.push("remove_loops".into());
                let before = d.arcs.len();
                d.arcs.retain(|(u, v)| u != v);
                cx.eq("remove_loops/return", MutableDigraph::remove_loops(&mut G), before - d.arcs.len());
            }
            7 => {
                trace.push("remove_isolates".into());
                let inn = d.inn_map();
                let iso: Vec<u32> = d.vs.iter().copied().filter(|v| inn[v].is_empty() && d.out(*v).is_empty()).collect();
                for v in &iso {
                    d.vs.remove(v);
                }
                cx.eq("remove_isolates/return", MutableDigraph::remove_isolates(&mut G), iso.len());
            }
            _ => {
                trace.push("clone".into());
                G = G.clone();
            }
        }
        if !cx.failures.is_empty() {
            break;
        }
        if (!big || (!giant && step % 64 == 63)) && !check_digraph(cx, "state", &G, &d, if big { &pool[..10] } else { &pool }) {
            break;
        }
    }
    if cx.failures.is_empty() {
        check_digraph(cx, "state", &G, &d, &pool[..pool.len().min(30)]);
        // directed and undirected neighbourhoods of vertex sets
        let vs: Vec<u32> = d.vs.iter().copied().collect();
        let X = subset(g, &vs);
        let xs: BTreeSet<u32> = X.iter().copied().collect();
        let out: BTreeSet<u32> = d.arcs.iter().filter(|(u, v)| xs.contains(u) && !xs.contains(v)).map(|a| a.1).collect();
        let inn: BTreeSet<u32> = d.arcs.iter().filter(|(u, v)| xs.contains(v) && !xs.contains(u)).map(|a| a.0).collect();
        cx.eq("out_neighbourhood", bset(&G.out_neighbourhood(X.iter())), out.clone());
        cx.eq("in_neighbourhood", bset(&G.in_neighbourhood(X.iter())), inn.clone());
        cx.eq("neighbourhood", bset(&G.neighbourhood(X.iter())), out.union(&inn).copied().collect());
    }
    cx.label_if(big, "big pool");
    cx.label_if(anti, "antiparallel arcs");
    cx.label_if(removed_adj, "vertex with arcs removed");
    cx.nontrivial_if(removed_adj || anti);
    if big {
        cx.input(&("pool", pool.len(), hash_str(&trace.join(" ")), "steps", trace.len()));
    } else {
        cx.input(&trace.join(" "));
    }
}

// ------------------------------------------------------------------ contraction

fn model_contract_into(rg: &mut RG, c: u32, xs: &BTreeSet<u32>) {
    let mut xs = xs.clone();
    xs.remove(&c);
    let mut n = rg.open_nbh(&xs);
    n.remove(&c);
    for u in n {
        rg.add_edge(c, u);
    }
    for x in xs {
        rg.remove_vertex(x);
    }
}

pub fn c03(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(16).big(150, 60).huge(420, 2500).giant(5000, 60_000).loops();
    let s = graph(g, &CFG);
    cx.input(&s);
    let mut rg = s.rg();
    let mut G = edit_with_history(g, &s);
    let pool = s.verts.clone();
    let small = pool.len() <= 20;
    for _ in 0..g.range(1, 6) {
        let vs = rg.vertices();
        if vs.is_empty() {
            break;
        }
        match g.weighted(&[4, 3, 3, 1, 1]) {
            0 => {
                if vs.len() < 2 {
                    continue;
                }
                let u = vs[g.below(vs.len())];
                let nb: Vec<u32> = rg.nbrs(u).into_iter().filter(|x| *x != u).collect();
                let v = if !nb.is_empty() && g.bool() { *g.pick(&nb) } else { vs[g.below(vs.len())] };
                if u == v {
                    continue;
                }
                cx.input(&format!("pair({u},{v})"));
                G.contract_pair(&u, &v);
                cx.nontrivial_if(rg.degree(v) > 0);
                cx.label_if(rg.adjacent(u, v), "adjacent pair");
                cx.label_if(rg.nbrs(u).iter().any(|x| rg.adjacent(v, *x)), "common neighbour");
                model_contract_into(&mut rg, u, &[v].into());
            }
            1 => {
                let xs = subset(g, &vs);
                let c = vs[g.below(vs.len())];
                cx.input(&format!("into({c},{xs:?})"));
                G.contract_into(&c, xs.iter());
                let xs: BTreeSet<u32> = xs.into_iter().collect();
                cx.label_if(xs.contains(&c), "centre listed");
                cx.nontrivial_if(xs.len() > 1);
                model_contract_into(&mut rg, c, &xs);
            }
            2 => {
                let mut xs = subset(g, &vs);
                if xs.is_empty() {
                    continue;
                }
                if g.chance(1, 4) {
                    xs.push(xs[0]); // repeated vertex
                }
                if g.bool() {
                    g.shuffle(&mut xs);
                }
                cx.input(&format!("contract({xs:?})"));
                let r = if g.bool() { G.contract(xs.iter()) } else { G.contract(xs.clone()) };
                cx.eq("contract/return", r, xs[0]);
                cx.nontrivial_if(xs.len() > 2);
                let c = xs[0];
                model_contract_into(&mut rg, c, &xs.into_iter().collect());
            }
            3 => {
                // documented panics
                let mut absent = g.draw(u32::MAX as u64) as u32;
                while rg.has(absent) {
                    absent = absent.wrapping_add(1);
                }
                let u = vs[g.below(vs.len())];
                let (a, b) = if g.bool() { (u, absent) } else { (absent, u) };
                cx.label("panicking call");
                let r = guarded(|| G.contract_pair(&a, &b));
                cx.ok("contract_pair/no-panic", r.is_err(), || format!("contract_pair({a},{b}) with a missing vertex did not panic"));
                let r = guarded(|| G.contract(Vec::<u32>::new()));
                cx.ok("contract/no-panic", r.is_err(), || "contract of an empty sequence did not panic".into());
            }
            _ => {
                // ordinary edits in between
                let (u, v) = (vs[g.below(vs.len())], pool[g.below(pool.len())]);
                cx.input(&format!("+{u}-{v}"));
                cx.eq("add_edge/return", G.add_edge(&u, &v), rg.add_edge(u, v));
            }
        }
        if !check_graph(cx, "contract", &G, &rg, if small { &pool } else { &pool[..12] }) {
            return;
        }
    }
}

// ------------------------------------------------------------------ named generators

fn sz(g: &mut Gen, max: usize) -> u32 {
    if g.chance(1, 150) {
        let m = if g.chance(1, 60) { max } else { max.min(1100) };
        return if g.bool() { threshold(g, m) } else { g.range(m.min(240), m) } as u32;
    }
    match g.weighted(&[6, 3, 1]) {
        0 => g.range(0, 8) as u32,
        1 => g.range(0, 30) as u32,
        _ => g.range(20, 140) as u32,
    }
}
/// The two sides of a grid or biclique.
fn sides(g: &mut Gen, max: usize) -> (u32, u32) {
    if g.chance(1, 120) {
        let s = if g.bool() { g.range(1, 4) } else { g.range(1, 40) };
        let m = if g.chance(1, 60) { max } else { max.min(2400) } / s;
        let t = if g.bool() { threshold(g, m) } else { g.range(1, m) };
        return if g.bool() { (s as u32, t as u32) } else { (t as u32, s as u32) };
    }
    if max > 66_000 && g.chance(1, 8000) {
        return (g.range(250, 262) as u32, g.range(250, 262) as u32);
    }
    let mut one = || match g.weighted(&[6, 2]) {
        0 => g.range(0, 6) as u32,
        _ => g.range(0, 20) as u32,
    };
    (one(), one())
}

pub fn c04(g: &mut Gen, cx: &mut Cx) {
    let mut d = DG::default();
    let range = |d: &mut DG, n: u32| {
        for u in 0..n {
            d.add_vertex(u);
        }
    };
    let kind = g.below(9);
    let (name, und, dir): (&'static str, EditGraph, Option<EditDigraph>) = match kind {
        0 => {
            let n = sz(g, 70000);
            cx.input(&("path", n));
            range(&mut d, n);
            for u in 1..n {
                d.add_arc(u - 1, u);
            }
            ("path", EditGraph::path(n), Some(EditDigraph::path(n)))
        }
        1 => {
            let n = sz(g, 70000);
            cx.input(&("cycle", n));
            range(&mut d, n);
            for u in 0..n {
                d.add_arc(u, if u + 1 == n { 0 } else { u + 1 });
            }
            ("cycle", EditGraph::cycle(n), Some(EditDigraph::cycle(n)))
        }
        2 => {
            let n = sz(g, 35000);
            cx.input(&("matching", n));
            range(&mut d, 2 * n);
            for u in 0..n {
                d.add_arc(u, u + n);
            }
            ("matching", EditGraph::matching(n), Some(EditDigraph::matching(n)))
        }
        3 => {
            let n = sz(g, 70000);
            cx.input(&("star", n));
            range(&mut d, n + 1);
            for u in 1..=n {
                d.add_arc(0, u);
            }
            ("star", EditGraph::star(n), Some(EditDigraph::star(n)))
        }
        4 => {
            let n = sz(g, 300);
            cx.input(&("clique", n));
            range(&mut d, n);
            for u in 0..n {
                for v in u + 1..n {
                    d.add_arc(u, v);
                }
            }
            ("clique", EditGraph::clique(n), Some(EditDigraph::clique(n)))
        }
        5 => {
            let n = sz(g, 70000);
            cx.input(&("independent", n));
            range(&mut d, n);
            ("independent", EditGraph::independent(n), Some(EditDigraph::independent(n)))
        }
        6 => {
            let (s, t) = sides(g, 20_000);
            cx.input(&("biclique", s, t));
            range(&mut d, s + t);
            for u in 0..s {
                for v in 0..t {
                    d.add_arc(u, s + v);
                }
            }
            cx.label_if((s == 0) != (t == 0), "degenerate biclique");
            ("biclique", EditGraph::biclique(s, t), Some(EditDigraph::biclique(s, t)))
        }
        7 => {
            let (s, t) = sides(g, 70_000);
            cx.input(&("grid", s, t));
            range(&mut d, s * t);
            for y in 0..s {
                for x in 0..t {
                    if x + 1 < t {
                        d.add_arc(y * t + x, y * t + x + 1);
                    }
                    if y + 1 < s {
                        d.add_arc(y * t + x, (y + 1) * t + x);
                    }
                }
            }
            ("grid", EditGraph::grid(s, t), Some(EditDigraph::grid(s, t)))
        }
        _ => {
            let sizes: Vec<u32> = match g.weighted(&[120, 1, 1]) {
                0 => (0..g.range(0, 6)).map(|_| g.range(0, 6) as u32).collect(),
                1 => (0..g.range(7, 300)).map(|_| g.weighted(&[2, 5, 1]) as u32).collect(),
                _ => {
                    let mut v: Vec<u32> = (0..g.range(0, 3)).map(|_| g.range(0, 4) as u32).collect();
                    v.push(g.range(100, 600) as u32);
                    g.shuffle(&mut v);
                    v
                }
            };
            cx.input(&("complete_kpartite", &sizes));
            let n: u32 = sizes.iter().sum();
            range(&mut d, n);
            let part: Vec<usize> = sizes.iter().enumerate().flat_map(|(i, s)| vec![i; *s as usize]).collect();
            for u in 0..n {
                for v in u + 1..n {
                    if part[u as usize] != part[v as usize] {
                        d.add_arc(u, v);
                    }
                }
            }
            cx.label_if(sizes.len() == 1, "single part");
            cx.label_if(sizes.contains(&0), "empty part");
            ("complete_kpartite", EditGraph::complete_kpartite(sizes.iter()), None)
        }
    };
    cx.label(name);
    cx.nontrivial_if(!d.arcs.is_empty());
    let rg = d.undirected();
    let pool: Vec<u32> = (0..(d.vs.len() as u32 + 2).min(16)).collect();
    check_graph(cx, name, &und, &rg, &pool);
    if let Some(dg) = dir {
        check_digraph(cx, &format!("di-{name}"), &dg, &d, &pool);
    }
}

// ------------------------------------------------------------------ equality and cloning

pub fn c05(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(14).big(120, 80).huge(420, 2500).giant(5000, 20_000).loops();
    let s = graph(g, &CFG);
    cx.input(&s);
    let rg = s.rg();
    // a second construction of the same graph, possibly with one change
    let mut s2 = s.clone();
    g.shuffle(&mut s2.edges);
    g.shuffle(&mut s2.verts);
    s2.verts_first = g.bool();
    let mut changed = "none";
    if !s2.verts.is_empty() {
        match g.draw(8) {
            0 | 1 => {}
            2 if !s2.edges.is_empty() => {
                s2.edges.pop();
                changed = "edge removed";
            }
            3 => {
                let (u, v) = (s2.verts[g.below(s2.verts.len())], s2.verts[g.below(s2.verts.len())]);
                if !rg.adjacent(u, v) {
                    s2.edges.push((u, v));
                    changed = "edge added";
                }
            }
            4 => {
                let x = (0..).find(|x| !rg.has(*x)).unwrap();
                s2.verts.push(x);
                changed = "vertex added";
            }
            5 if !s2.edges.is_empty() => {
                // move one end of an edge
                let i = g.below(s2.edges.len());
                let (u, w) = (s2.edges[i].0, s2.verts[g.below(s2.verts.len())]);
                if !rg.adjacent(u, w) {
                    s2.edges[i] = (u, w);
                    changed = "edge moved";
                }
            }
            6 => {
                // isolated vertices with different labels
                let iso: Vec<u32> = rg.vertices().into_iter().filter(|v| rg.degree(*v) == 0).collect();
                if !iso.is_empty() {
                    let old = iso[g.below(iso.len())];
                    let x = (0..).find(|x| !rg.has(*x)).unwrap();
                    s2.verts.retain(|v| *v != old);
                    s2.verts.push(x);
                    changed = "isolated vertex renamed";
                }
            }
            7 => {
                // a vertex more and another one less
                let x = (0..).find(|x| !rg.has(*x)).unwrap();
                let old = s2.verts[g.below(s2.verts.len())];
                s2.verts.retain(|v| *v != old);
                s2.edges.retain(|e| e.0 != old && e.1 != old);
                s2.verts.push(x);
                changed = "vertex replaced by an isolated one";
            }
            _ => {
                // replace an edge by a non-edge (same counts); prefer to keep all degrees equal
                let es = s2.edges.clone();
                let mut done = false;
                'o: for i in 0..es.len().min(12) {
                    for j in i + 1..es.len().min(12) {
                        let ((a, b), (c, d)) = (es[i], es[j]);
                        let distinct: BTreeSet<u32> = [a, b, c, d].into();
                        if distinct.len() == 4 && !rg.adjacent(a, c) && !rg.adjacent(b, d) {
                            s2.edges[i] = (a, c);
                            s2.edges[j] = (b, d);
                            done = true;
                            break 'o;
                        }
                    }
                }
                if done {
                    changed = "degree-preserving switch";
                } else if let Some(x) = (0..).find(|x| !rg.has(*x)) {
                    let old = s2.verts[0];
                    for v in s2.verts.iter_mut() {
                        if *v == old {
                            *v = x
                        }
                    }
                    for e in s2.edges.iter_mut() {
                        if e.0 == old {
                            e.0 = x
                        }
                        if e.1 == old {
                            e.1 = x
                        }
                    }
                    changed = "vertex renamed";
                }
            }
        }
    }
    cx.label(changed);
    cx.input(&changed);
    cx.nontrivial_if(!s.edges.is_empty());
    let same = rg == s2.rg();
    let A = edit_with_history(g, &s);
    let B = edit_with_history(g, &s2);
    cx.eq("eq", (A == B, B == A, A != B), (same, same, !same));
    cx.ok("eq-self", A == A && B == B, || "graph differs from itself".into());
    // clone: equal, same observations, independent
    let mut C = A.clone();
    cx.ok("clone-eq", C == A && A == C, || "clone differs from the original".into());
    let pool: Vec<u32> = s.verts.iter().copied().take(12).collect();
    check_graph(cx, "clone", &C, &rg, &pool);
    let mut crg = rg.clone();
    for _ in 0..g.range(1, 4) {
        if pool.is_empty() {
            break;
        }
        let (u, v) = (pool[g.below(pool.len())], pool[g.below(pool.len())]);
        match g.draw(2) {
            0 => {
                C.add_edge(&u, &v);
                crg.add_edge(u, v);
            }
            1 => {
                C.remove_edge(&u, &v);
                crg.remove_edge(u, v);
            }
            _ => {
                C.remove_vertex(&u);
                crg.remove_vertex(u);
            }
        }
    }
    check_graph(cx, "clone-original", &A, &rg, &pool);
    check_graph(cx, "clone-edited", &C, &crg, &pool);
    cx.eq("clone-eq-after-edit", C == A, crg == rg);

    // digraphs: equality distinguishes orientation
    let mut d1 = DG::default();
    for v in &s.verts {
        d1.add_vertex(*v);
    }
    for (u, v) in &s.edges {
        d1.add_arc(*u, *v);
        if g.chance(1, 4) {
            d1.add_arc(*v, *u);
        }
    }
    let mut d2 = d1.clone();
    {
        let arcs: Vec<(u32, u32)> = d1.arcs.iter().copied().collect();
        let vs: Vec<u32> = d1.vs.iter().copied().collect();
        let fresh = (0..).find(|x| !rg.has(*x)).unwrap();
        match g.draw(8) {
            0 => {}
            1 if !arcs.is_empty() => {
                let (u, v) = *g.pick(&arcs);
                d2.arcs.remove(&(u, v));
                d2.arcs.insert((v, u));
                cx.label("arc reversed");
            }
            2 if !arcs.is_empty() => {
                d2.arcs.remove(g.pick(&arcs));
            }
            3 => {
                d2.vs.insert(fresh);
            }
            4 if arcs.len() >= 2 => {
                // exchange the heads of two arcs: all in- and out-degrees stay
                let i = g.below(arcs.len());
                let ((a, b), (c, d)) = (arcs[i], arcs[g.below(arcs.len())]);
                if !d2.arcs.contains(&(a, d)) && !d2.arcs.contains(&(c, b)) {
                    d2.arcs.remove(&(a, b));
                    d2.arcs.remove(&(c, d));
                    d2.arcs.insert((a, d));
                    d2.arcs.insert((c, b));
                    cx.label("heads exchanged");
                }
            }
            5 => {
                // all arcs reversed
                d2.arcs = arcs.iter().map(|(u, v)| (*v, *u)).collect();
                cx.label("all arcs reversed");
            }
            6 if !vs.is_empty() => {
                // the same with one vertex (preferably an isolated one) renamed
                let iso: Vec<u32> = vs.iter().copied().filter(|v| !arcs.iter().any(|(a, b)| a == v || b == v)).collect();
                let old = if iso.is_empty() || g.chance(1, 3) { *g.pick(&vs) } else { *g.pick(&iso) };
                let f = |v: u32| if v == old { fresh } else { v };
                d2.vs = vs.iter().map(|v| f(*v)).collect();
                d2.arcs = arcs.iter().map(|(u, v)| (f(*u), f(*v))).collect();
                cx.label("digraph vertex renamed");
            }
            7 if !arcs.is_empty() && !vs.is_empty() => {
                // move one end of an arc
                let (u, v) = *g.pick(&arcs);
                let w = *g.pick(&vs);
                let b = if g.bool() { (u, w) } else { (w, v) };
                if !d2.arcs.contains(&b) {
                    d2.arcs.remove(&(u, v));
                    d2.arcs.insert(b);
                    cx.label("arc moved");
                }
            }
            _ => {}
        }
    }
    let build = |g: &mut Gen, d: &DG| {
        let mut vs: Vec<u32> = d.vs.iter().copied().collect();
        let mut arcs: Vec<(u32, u32)> = d.arcs.iter().copied().collect();
        g.shuffle(&mut vs);
        g.shuffle(&mut arcs);
        let mut G = <EditDigraph as MutableDigraph>::new();
        for v in &vs {
            MutableDigraph::add_vertex(&mut G, v);
        }
        for (u, v) in &arcs {
            G.add_arc(u, v);
            if g.chance(1, 8) {
                G.remove_arc(u, v);
                G.add_arc(u, v);
            }
        }
        G
    };
    let D1 = build(g, &d1);
    let D2 = build(g, &d2);
    let same = d1 == d2;
    cx.eq("di-eq", (D1 == D2, D2 == D1, D1 != D2), (same, same, !same));
    let mut D3 = D1.clone();
    cx.ok("di-clone-eq", D3 == D1, || "digraph clone differs".into());
    check_digraph(cx, "di-clone", &D3, &d1, &pool);
    if let Some((u, v)) = d1.arcs.iter().next() {
        D3.remove_arc(u, v);
        check_digraph(cx, "di-clone-original", &D1, &d1, &pool);
        cx.ok("di-clone-differs", D3 != D1, || "clone with an arc removed still equal".into());
    }
}
