//! C28 short distances, C29 structure of augmentations, C30 dominating sets of augmentations.

use crate::engine::*;
use crate::gens::*;
use crate::refgraph::RG;
use graphbench::degengraph::DegenGraph;
use graphbench::dtfgraph::*;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet};

fn oriented<G: Graph>(g: &mut Gen, cx: &mut Cx, G: &G) -> DTFGraph {
    match g.weighted(&[6, 1, 1, 1]) {
        0 => DTFGraph::orient(G),
        1 => {
            cx.label("orient_deep 2");
            DTFGraph::orient_deep(G, 2)
        }
        2 => {
            cx.label("orient_deep 3");
            DTFGraph::orient_deep(G, 3)
        }
        _ => {
            cx.label("orient_deep <= 1");
            let d = g.range(0, 1);
            DTFGraph::orient_deep(G, d)
        }
    }
}

fn build(g: &mut Gen, cx: &mut Cx, s: &Spec, rg: &RG) -> DTFGraph {
    let G = s.edit();
    match g.weighted(&[4, 1, 1, 1]) {
        0 => oriented(g, cx, &G),
        3 => {
            let (X, anti) = any_digraph(g, s);
            cx.label("from EditDigraph");
            cx.label_if(anti, "antiparallel arcs");
            oriented(g, cx, &X)
        }
        1 => {
            let ord = order(g, rg).1;
            cx.label("from OrdGraph");
            let O = ord_any(g, &G, &ord);
            oriented(g, cx, &O)
        }
        _ => {
            let ord = order(g, rg).1;
            cx.label("from DegenGraph");
            let D = degen_any(g, &G, &ord);
            oriented(g, cx, &D)
        }
    }
}

/// All ordered pairs of a small graph, otherwise pairs around a few sources.
fn check_distances(g: &mut Gen, cx: &mut Cx, H: &DTFGraph, rg: &RG, exact_at: &mut bool) {
    let depth = H.get_depth() as u32;
    let vs = rg.vertices();
    let srcs: Vec<u32> = if vs.len() <= 24 { vs.clone() } else { (0..6).map(|_| vs[g.below(vs.len())]).collect() };
    for u in &srcs {
        let d = rg.bfs([*u]);
        for v in &vs {
            let want = d.get(v).copied().filter(|x| *x <= depth);
            *exact_at |= want == Some(depth) && depth >= 2;
            cx.eq("small_distance", ("depth", depth, u, v, H.small_distance(u, v)), ("depth", depth, u, v, want));
            if srcs.len() < vs.len() {
                cx.eq("small_distance", ("depth", depth, v, u, H.small_distance(v, u)), ("depth", depth, v, u, want));
            }
        }
    }
}

const DTF: Cfg = Cfg::new(14).big(70, 60);
const DTF_SPARSE: Cfg = Cfg::new(20).big(160, 20).sparse();

/// A path-like graph for very deep augmentations.
fn deep_graph(g: &mut Gen) -> (Spec, usize) {
    let very = g.chance(1, 12);
    if very {
        return (lengthy(g, 300).0, 265);
    }
    // path, cycle or spider on up to 40 vertices
    let n = g.range(8, 40);
    let lab = labels(g, n, true);
    let mut edges: Vec<(u32, u32)> = match g.draw(2) {
        0 => (1..n).map(|i| (lab[i - 1], lab[i])).collect(),
        1 => (0..n).map(|i| (lab[i], lab[(i + 1) % n])).collect(),
        _ => {
            let k = g.range(2, 3);
            (1..n).map(|i| (lab[i.saturating_sub(k)], lab[i])).collect()
        }
    };
    if g.bool() {
        g.shuffle(&mut edges);
    }
    (Spec { shape: "deep", verts: lab, edges, verts_first: g.bool() }, g.range(8, 24))
}

fn dtf_graph(g: &mut Gen) -> (Spec, usize) {
    if g.chance(1, 400) {
        return deep_graph(g);
    }
    if g.chance(1, 20_000) {
        const GIANT: Cfg = Cfg::new(500).giant(1100, 1).sparse();
        return (graph(g, &GIANT), 3);
    }
    let s = if g.bool() { graph(g, &DTF) } else { graph(g, &DTF_SPARSE) };
    let max_depth = if s.verts.len() > 24 { 4 } else { 7 };
    (s, max_depth)
}

pub fn c28(g: &mut Gen, cx: &mut Cx) {
    let (s, max_depth) = dtf_graph(g);
    let rg = s.rg();
    cx.input(&s);
    cx.label_if(rg.components().len() > 1, "disconnected");
    let mut H = build(g, cx, &s, &rg);
    cx.eq("depth-initial", H.get_depth(), 1);
    let mut exact = false;
    check_distances(g, cx, &H, &rg, &mut exact);
    let mut depth = 1;
    for _ in 0..g.range(1, 4) {
        match g.weighted(&[8, 2, 2]) {
            0 => {
                let d = if max_depth > 20 && g.bool() { max_depth } else { g.range(0, max_depth) };
                let frat = g.range(0, 3);
                cx.input(&("augment", d, frat));
                H.augment(d, frat);
                depth = depth.max(d);
            }
            1 => {
                let d = g.range(1, max_depth + 1);
                cx.input(&("layer", d));
                let l = H.layer(d);
                let _ = l.num_edges();
                cx.label("layer in between");
            }
            _ => {
                let r = g.range(0, max_depth.min(4));
                cx.input(&("domset", r));
                H.domset(r as u32);
                depth = depth.max(r);
                cx.label("domset in between");
            }
        }
        if !cx.eq("depth", H.get_depth(), depth) {
            return;
        }
        check_distances(g, cx, &H, &rg, &mut exact);
    }
    cx.label_if(depth >= 4, "depth >= 4");
    cx.nontrivial_if(exact);
}

// ------------------------------------------------------------------ C29

/// Reference model: arcs with weights.
struct DM {
    verts: BTreeSet<u32>,
    arcs: BTreeMap<(u32, u32), u32>,
    depth: usize,
}

impl DM {
    /// Reads an augmentation through point queries only.
    fn read(H: &DTFGraph) -> DM {
        let verts: BTreeSet<u32> = bset(H.vertices());
        let mut arcs = BTreeMap::new();
        for u in &verts {
            for v in &verts {
                if let Some(d) = H.get_arc_depth(u, v) {
                    arcs.insert((*u, *v), d);
                }
            }
        }
        DM { verts, arcs, depth: H.get_depth() }
    }
}

fn check_structure(g: &mut Gen, cx: &mut Cx, H: &mut DTFGraph, m: &DM) {
    let n = m.verts.len();
    let all = m.arcs.len();
    cx.eq("vertices", sorted(H.vertices().copied()), m.verts.iter().copied().collect::<Vec<_>>());
    cx.eq("depth", H.get_depth(), m.depth);
    let at = |d: u32| m.arcs.iter().filter(|(_, x)| **x == d).map(|(a, _)| *a).collect::<Vec<_>>();
    cx.eq("counts", (H.num_vertices(), H.len(), H.num_edges()), (n, n, at(1).len()));
    let arcs = |it: Vec<(u32, u32)>| {
        let mut v = it;
        v.sort_unstable();
        v
    };
    cx.eq("arcs", arcs(capped(H.arcs(), all + 9)), m.arcs.keys().copied().collect::<Vec<_>>());
    for d in 1..=m.depth {
        cx.eq("arcs_at", (d, arcs(capped(H.arcs_at(d), all + 9))), (d, at(d as u32)));
        cx.eq("num_arcs_at_depth", (d, H.num_arcs_at_depth(d)), (d, at(d as u32).len()));
    }
    cx.eq("num_arcs_at_depth", H.num_arcs_at_depth(m.depth + 1 + g.below(3)), 0);
    let probe: Vec<u32> = if n <= 20 { m.verts.iter().copied().collect() } else { let v: Vec<u32> = m.verts.iter().copied().collect(); (0..8).map(|_| v[g.below(v.len())]).collect() };
    let absent: Vec<u32> = [0, 5, 17, u32::MAX].into_iter().filter(|x| !m.verts.contains(x)).take(1).collect();
    for u in &probe {
        let ins: BTreeMap<u32, u32> = m.arcs.iter().filter(|((_, y), _)| y == u).map(|((x, _), d)| (*x, *d)).collect();
        let outs: BTreeMap<u32, u32> = m.arcs.iter().filter(|((x, _), _)| x == u).map(|((_, y), d)| (*y, *d)).collect();
        cx.eq("in_neighbours", (u, sorted(H.in_neighbours(u).copied())), (u, ins.keys().copied().collect()));
        cx.eq("weights", (u, H.in_neighbours_with_weights(u).into_iter().collect::<BTreeMap<_, _>>()), (u, ins.clone()));
        cx.eq("degrees-of", (u, H.in_degree(u), H.out_degree(u), H.degree(u)), (u, ins.len() as u32, outs.len() as u32, (ins.len() + outs.len()) as u32));
        for d in 1..=m.depth {
            cx.eq("in_neighbours_at", (u, d, sorted(H.in_neighbours_at(u, d).copied())), (u, d, ins.iter().filter(|(_, x)| **x == d as u32).map(|(x, _)| *x).collect()));
        }
        for v in probe.iter().chain(&absent) {
            let uv = m.arcs.get(&(*u, *v)).copied();
            let vu = m.arcs.get(&(*v, *u)).copied();
            cx.eq("has_arc", (u, v, H.has_arc(u, v), H.adjacent(u, v)), (u, v, uv.is_some(), uv.is_some() || vu.is_some()));
            if m.verts.contains(v) {
                cx.eq("arc_depth", (u, v, H.get_arc_depth(u, v)), (u, v, uv));
            }
            for d in 1..=m.depth + 1 {
                cx.eq("has_arc_at", (u, v, d, H.has_arc_at(u, v, d)), (u, v, d, uv == Some(d as u32)));
            }
        }
    }
    for u in &absent {
        cx.eq("contains", (u, H.contains(u)), (u, false));
    }
    for u in &probe {
        cx.eq("contains", (u, H.contains(u)), (u, true));
    }
    let mut nb: BTreeMap<u32, Vec<u32>> = m.verts.iter().map(|v| (*v, vec![])).collect();
    let mut nb_at = nb.clone();
    let dd = g.range(1, m.depth);
    for ((u, v), d) in &m.arcs {
        nb.get_mut(v).unwrap().push(*u);
        if *d == dd as u32 {
            nb_at.get_mut(v).unwrap().push(*u);
        }
    }
    let collect = |it: DTFNIterator| {
        let mut v: Vec<(u32, Vec<u32>)> = it.take(n + 5).map(|(v, i)| (v, sorted(i.copied()))).collect();
        v.sort();
        v
    };
    cx.eq("in_neighbourhoods_iter", collect(H.in_neighbourhoods_iter()), nb.into_iter().collect());
    cx.eq("in_neighbourhoods_iter_at", collect(H.in_neighbourhoods_iter_at(dd)), nb_at.into_iter().collect());

    // the underlying undirected graph
    let und = RG::from_parts(m.verts.iter().copied(), m.arcs.keys().copied());
    cx.eq("to_undirected", readback(&H.to_undirected::<EditGraph>()), und);

    // one layer, possibly deeper than the augmentation
    let d = g.range(1, m.depth + 1);
    let want = at(d as u32);
    let before = H.get_depth();
    check_layer(cx, "DTFLayer::new", &DTFLayer::new(H, d), m, &want, &probe, d);
    check_layer(cx, "layer", &H.layer(d), m, &want, &probe, d);
    cx.eq("depth-after-layer", H.get_depth(), before);
}

fn check_layer(cx: &mut Cx, name: &str, l: &DTFLayer, m: &DM, want: &[(u32, u32)], probe: &[u32], d: usize) {
    cx.eq(&format!("{name}/counts"), (d, l.num_vertices(), l.num_edges()), (d, m.verts.len(), want.len()));
    cx.eq(&format!("{name}/vertices"), sorted(l.vertices().copied()), m.verts.iter().copied().collect::<Vec<_>>());
    let set: BTreeSet<(u32, u32)> = want.iter().copied().collect();
    for u in probe {
        let ins: Vec<u32> = want.iter().filter(|a| a.1 == *u).map(|a| a.0).collect();
        let outs = want.iter().filter(|a| a.0 == *u).count() as u32;
        cx.eq(&format!("{name}/degrees"), (d, u, l.in_degree(u), l.out_degree(u), l.degree(u)), (d, u, ins.len() as u32, outs, ins.len() as u32 + outs));
        cx.eq(&format!("{name}/in_neighbours"), (d, u, sorted(l.in_neighbours(u).copied())), (d, u, sorted(ins)));
        for v in probe {
            let (uv, vu) = (set.contains(&(*u, *v)), set.contains(&(*v, *u)));
            cx.eq(&format!("{name}/arcs"), (d, u, v, l.has_arc(u, v), l.adjacent(u, v)), (d, u, v, uv, uv || vu));
        }
        cx.ok(&format!("{name}/contains"), l.contains(u), || format!("{u} missing"));
    }
}

/// What an augmentation of `rg` must look like besides being consistent.
fn check_augmentation(cx: &mut Cx, m: &DM, rg: &RG) {
    cx.eq("aug/vertices", m.verts.iter().copied().collect::<Vec<_>>(), rg.vertices());
    for (u, v) in rg.edges() {
        let (a, b) = (m.arcs.get(&(u, v)).copied(), m.arcs.get(&(v, u)).copied());
        cx.ok("aug/orientation", (a == Some(1)) != (b == Some(1)), || format!("edge {u}-{v} has arcs {a:?} and {b:?}"));
    }
    let dist = rg.all_dists();
    for ((u, v), d) in &m.arcs {
        cx.ok("aug/weight-range", *d >= 1 && *d as usize <= m.depth, || format!("arc {u}->{v} has weight {d}, depth {}", m.depth));
        cx.ok("aug/weight", dist[u].get(v).map_or(false, |x| x <= d), || format!("arc {u}->{v} has weight {d}, distance {:?}", dist[u].get(v)));
        cx.ok("aug/no-loop", u != v, || format!("arc {u}->{v} of weight {d}"));
        cx.ok("aug/weight-one", *d != 1 || rg.adjacent(*u, *v), || format!("arc {u}->{v} of weight 1 is no edge"));
    }
}

pub fn c29(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(12).big(50, 80);
    const SP: Cfg = Cfg::new(18).big(60, 60).sparse();
    let s = if g.bool() { graph(g, &CFG) } else { graph(g, &SP) };
    let rg = s.rg();
    cx.input(&s);
    let G = s.edit();
    match g.weighted(&[3, 2, 2]) {
        0 => {
            // augmentations
            let plain = g.bool();
            let mut H = if plain { DTFGraph::orient(&G) } else { build(g, cx, &s, &rg) };
            let m = DM::read(&H);
            check_augmentation(cx, &m, &rg);
            if plain && rg.adj.values().all(|n| n.len() <= 128) {
                let d = rg.degeneracy();
                for v in rg.vertices() {
                    cx.ok("orient/in-degree", H.in_degree(&v) <= d, || format!("{v} has in-degree {}, degeneracy {d}", H.in_degree(&v)));
                }
            }
            for _ in 0..g.range(1, 3) {
                let (d, frat) = (g.range(1, 5), g.range(0, 3));
                cx.input(&("augment", d, frat));
                H.augment(d, frat);
                let m = DM::read(&H);
                check_augmentation(cx, &m, &rg);
                check_structure(g, cx, &mut H, &m);
                cx.nontrivial_if(m.arcs.values().any(|d| *d >= 2));
            }
            cx.label("augmentation");
        }
        1 => {
            // edge subgraphs
            let mut H = build(g, cx, &s, &rg);
            if g.bool() {
                let d = g.range(2, 4);
                H.augment(d, 2);
            }
            let m = DM::read(&H);
            let vs = rg.vertices();
            let mut es: Vec<(u32, u32)> = rg.edges().into_iter().filter(|_| g.chance(2, 3)).collect();
            for e in es.iter_mut() {
                if g.bool() {
                    *e = (e.1, e.0);
                }
            }
            if vs.len() >= 2 {
                for _ in 0..g.range(0, 4) {
                    let (u, v) = (vs[g.below(vs.len())], vs[g.below(vs.len())]);
                    es.push((u, v));
                }
            }
            g.shuffle(&mut es);
            cx.input(&("edge_subgraph", H.get_depth(), &es));
            let mut arcs = BTreeMap::new();
            for (u, v) in &es {
                for a in [(*u, *v), (*v, *u)] {
                    if m.arcs.contains_key(&a) {
                        arcs.insert(a, 1);
                    }
                }
            }
            let mut S = H.edge_subgraph(es.into_iter());
            cx.nontrivial_if(!arcs.is_empty() && arcs.len() < m.arcs.len());
            check_structure(g, cx, &mut S, &DM { verts: m.verts.clone(), arcs, depth: 1 });
            check_structure(g, cx, &mut H, &m);
            cx.label("edge_subgraph");
        }
        _ => {
            // histories of single insertions
            let mut H = DTFGraph::orient(&G);
            if g.bool() {
                let d = g.range(1, 3);
                H.augment(d, 1);
            }
            let mut m = DM::read(&H);
            let mut pool: Vec<u32> = rg.vertices().into_iter().take(6).collect();
            pool.extend(labels(g, 4, true));
            let mut hist = vec![];
            for _ in 0..g.range(1, 10) {
                let u = pool[g.below(pool.len())];
                if g.chance(1, 5) {
                    hist.push((u, u, 0));
                    H.add_vertex(u);
                    m.verts.insert(u);
                } else {
                    let v = pool[g.below(pool.len())];
                    let d = *g.pick(&[1usize, 2, 1, 3, 5]);
                    if u == v || m.arcs.get(&(u, v)).map_or(false, |x| *x as usize != d) {
                        continue;
                    }
                    hist.push((u, v, d));
                    H.add_arc(&u, &v, d);
                    m.verts.extend([u, v]);
                    m.arcs.insert((u, v), d as u32);
                    m.depth = m.depth.max(d);
                }
                check_structure(g, cx, &mut H, &m);
            }
            cx.input(&("add_arc", &hist));
            cx.nontrivial_if(hist.iter().any(|(_, _, d)| *d >= 2));
            cx.label("add_arc history");
        }
    }
}

// ------------------------------------------------------------------ C30

pub fn c30(g: &mut Gen, cx: &mut Cx) {
    let (s, max_depth) = if g.chance(1, 8) {
        // trees of bounded depth with many leaves: the promotion counter is exceeded for radius 1 and 2
        let k = g.range(5, 24);
        let len = g.range(1, 2);
        let mut edges = vec![];
        let mut next = 1u32;
        for _ in 0..k {
            let mut prev = 0;
            for _ in 0..len {
                edges.push((prev, next));
                prev = next;
                next += 1;
            }
            for _ in 0..g.range(0, 3) {
                edges.push((prev, next));
                next += 1;
            }
        }
        if g.bool() {
            g.shuffle(&mut edges);
        }
        (Spec { shape: "broom", verts: (0..next).collect(), edges, verts_first: g.bool() }, 4)
    } else {
        dtf_graph(g)
    };
    let rg = s.rg();
    cx.input(&s);
    let mut H = build(g, cx, &s, &rg);
    let mut depth = 1;
    if g.chance(1, 3) {
        depth = g.range(1, max_depth.min(5));
        let frat = g.range(0, 3);
        cx.input(&("augment", depth, frat));
        H.augment(depth, frat);
    }
    for _ in 0..g.range(1, 2) {
        let r = if (8..=24).contains(&max_depth) {
            g.range(4, max_depth)
        } else if max_depth > 200 && g.bool() {
            g.range(250, max_depth)
        } else {
            g.range(0, max_depth.min(5))
        };
        cx.input(&("domset", r));
        let D = bset(&H.domset(r as u32));
        cx.ok("subset", D.iter().all(|v| rg.has(*v)), || format!("{D:?} contains foreign vertices"));
        let dist = rg.bfs(D.iter().copied().filter(|v| rg.has(*v)));
        for v in rg.vertices() {
            cx.ok("dominated", dist.get(&v).map_or(false, |d| *d as usize <= r), || format!("radius {r}: {v} has distance {:?} to {D:?}", dist.get(&v)));
        }
        depth = depth.max(r);
        cx.eq("depth", H.get_depth(), depth);
        cx.nontrivial_if(r >= 1 && D.len() >= 2 && D.len() < rg.n());
    }
    cx.eq("vertices", sorted(H.vertices().copied()), rg.vertices());
    cx.label_if(rg.components().len() > 1, "disconnected");
}
