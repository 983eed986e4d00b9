//! C35 safe calls never have undefined behaviour, whatever their arguments.
//!
//! Runs in the plain build only (no debug assertions, wrapping arithmetic), where
//! AddressSanitizer and the standard library's checks of unsafe preconditions turn undefined
//! behaviour into an abort. Panics are fine here.

use crate::engine::*;
use crate::gens::*;
use graphbench::algorithms::*;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::*;
use graphbench::dtfgraph::*;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::*;
use std::fmt::Debug;
use std::hint::black_box;

struct Log {
    calls: u32,
    panics: u32,
    odd: u32,
}

impl Log {
    /// Calls the code under test and reads the whole result.
    fn call<T: Debug>(&mut self, f: impl FnOnce() -> T) -> bool {
        self.calls += 1;
        let r = guarded(|| black_box(format!("{:?}", f())).len());
        self.panics += r.is_err() as u32;
        r.is_ok()
    }
    fn make<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        self.calls += 1;
        let r = guarded(f);
        self.panics += r.is_err() as u32;
        r.ok()
    }
}

fn list(g: &mut Gen, pool: &[u32], max: usize) -> Vec<u32> {
    let k = g.range(0, max);
    (0..k).map(|_| *g.pick(pool)).collect()
}

/// A DegenGraph made with or without regard for what its constructors expect.
fn degen(g: &mut Gen, cx: &mut Cx, log: &mut Log, pool: &[u32], G: &EditGraph) -> Option<DegenGraph> {
    match g.weighted(&[3, 2, 1, 1]) {
        0 => {
            let n = g.range(0, 8);
            let raw = g.bool();
            let mut app: Vec<(u32, Vec<u32>)> = vec![];
            for _ in 0..n {
                let u = *g.pick(pool);
                let seen: Vec<u32> = app.iter().map(|(u, _)| *u).collect();
                if raw || seen.is_empty() {
                    app.push((u, list(g, pool, 5)));
                } else if !seen.contains(&u) {
                    app.push((u, list(g, &seen, 5)));
                }
            }
            log.odd += raw as u32;
            cx.input(&("builder", &app));
            log.make(move || {
                let mut b = DegenGraphBuilder::new();
                for (u, l) in &app {
                    b.append(u, l);
                }
                b.build()
            })
        }
        1 => {
            let ord = list(g, pool, 10);
            cx.input(&("with_ordering", &ord));
            log.odd += 1;
            log.make(|| DegenGraph::with_ordering(G, ord.iter()))
        }
        2 => {
            cx.input(&"from_graph");
            log.make(|| DegenGraph::from_graph(G))
        }
        _ => {
            let mut ord: Vec<u32> = G.vertices().copied().collect();
            ord.sort_unstable();
            g.shuffle(&mut ord);
            cx.input(&("ordered", &ord));
            log.make(|| degen_any(g, G, &ord))
        }
    }
}

fn reach_queries<const D: usize>(g: &mut Gen, log: &mut Log, R: &ReachGraph<D>, pool: &[u32]) {
    log.call(|| R.vertices().copied().collect::<Vec<_>>());
    log.call(|| R.iter().map(|(u, r)| (u, (1..=D).map(|d| r.at(d).to_vec()).collect::<Vec<_>>())).collect::<Vec<_>>());
    log.call(|| R.first());
    for _ in 0..g.range(1, 6) {
        let (u, v) = (*g.pick(pool), *g.pick(pool));
        let d = g.range(0, D + 2);
        log.call(|| R.reachables(&u).at(d).to_vec());
        log.call(|| R.reachables_all(&u).to_vec());
        log.call(|| R.next_reachables(&u).map(|r| (r.len(), r.is_empty())));
        log.call(|| (R.left_neighbours(&u), R.left_degree(&u), R.right_degree(&u), R.degree(&u)));
        log.call(|| (R.adjacent(&u, &v), R.contains(&u), R.index_of(&v)));
    }
}

fn reach<const D: usize>(g: &mut Gen, cx: &mut Cx, log: &mut Log, pool: &[u32], O: Option<&OrdGraph>) {
    let R = match (O, g.bool()) {
        (Some(O), true) => log.make(|| O.to_wreach_graph::<D>()),
        (Some(O), false) => log.make(|| O.to_sreach_graph::<D>()),
        (None, _) => {
            let n = g.range(0, 6);
            let mut app: Vec<(u32, Vec<(u32, u32)>)> = vec![];
            for _ in 0..n {
                let u = *g.pick(pool);
                let l = list(g, pool, 4);
                app.push((u, l.into_iter().map(|v| (v, g.draw(D as u64 + 2) as u32)).collect()));
            }
            let order: VertexMap<usize> = list(g, pool, 14).into_iter().enumerate().map(|(i, u)| (u, i)).collect();
            cx.input(&("reach builder", D, &app, order.len()));
            log.odd += 1;
            let mut b = ReachGraphBuilder::<D>::new();
            for (u, l) in &app {
                let m: VertexMap<u32> = l.iter().copied().collect();
                // the builder is used on even after a call that panicked
                log.make(|| b.append(u, &m, &order));
            }
            log.make(|| b.build())
        }
    };
    if let Some(R) = R {
        reach_queries(g, log, &R, pool);
    }
}

pub fn c35(g: &mut Gen, cx: &mut Cx) {
    let n = g.range(1, 9);
    let mut pool = labels(g, n, true);
    if g.bool() {
        pool.sort_unstable();
    }
    // a graph on some of the labels, loops included
    let mut edges = vec![];
    for _ in 0..g.range(0, 2 * n) {
        let (u, v) = (*g.pick(&pool), *g.pick(&pool));
        if u != v || g.chance(1, 8) {
            edges.push((u, v));
        }
    }
    let verts = list(g, &pool, n);
    cx.input(&(&verts, &edges));
    let mut G = EditGraph::new();
    G.add_vertices(verts.iter());
    G.add_edges(edges.iter());
    // labels that are nowhere in the graph
    let extra = labels(g, 2, true);
    pool.extend(extra);
    pool.push(g.draw(12) as u32);
    let mut log = Log { calls: 0, panics: 0, odd: 0 };

    let mut graphs: Vec<DegenGraph> = vec![];
    for _ in 0..g.range(1, 3) {
        graphs.extend(degen(g, cx, &mut log, &pool, &G));
    }
    if graphs.is_empty() {
        graphs.extend(log.make(|| DegenGraph::with_ordering(&G, [].iter() as std::slice::Iter<u32>)));
    }
    let mut oracles: Vec<(usize, SReachTraceOracle)> = vec![];
    for i in 0..graphs.len() {
        if let Some(o) = log.make(|| SReachTraceOracle::for_graph(&graphs[i])) {
            oracles.push((i, o));
        }
    }
    for _ in 0..g.range(1, 14) {
        if graphs.is_empty() {
            break;
        }
        let i = g.below(graphs.len());
        let (u, v) = (*g.pick(&pool), *g.pick(&pool));
        match g.weighted(&[2, 2, 2, 2, 10, 3, 2, 2, 2]) {
            0 => {
                cx.input(&("queries", i, u, v));
                let D = &graphs[i];
                log.odd += !G.contains(&u) as u32;
                log.call(|| D.left_neighbours_slice(&u).to_vec());
                log.call(|| (D.left_neighbours(&u), D.left_degree(&u), D.right_degree(&u), D.degree(&u)));
                log.call(|| D.right_neighbours(&u).clone());
                log.call(|| (D.adjacent(&u, &v), D.adjacent_ordered(&u, &v), D.contains(&u)));
                log.call(|| D.neighbours(&u).copied().collect::<Vec<_>>());
                log.call(|| D.index_of(&u));
                log.call(|| (D.first(), D.num_edges(), D.num_vertices()));
                log.call(|| (D.leftmost([u, v].iter()), D.rightmost([v, u].iter())));
            }
            1 => {
                cx.input(&("iterate", i));
                let D = &graphs[i];
                log.call(|| {
                    let mut it = DegenIterator::new(D);
                    let mut r = vec![];
                    while let Some((u, l)) = it.next() {
                        r.push((u, l.to_vec()));
                    }
                    (r, it.next().is_none(), it.next().map(|x| x.1.to_vec()))
                });
                log.call(|| {
                    let mut it = DegenOrderIterator::new(D);
                    let mut r = vec![];
                    while let Some(u) = it.next() {
                        r.push(*u);
                    }
                    (r, it.next().copied(), it.next().copied())
                });
                log.call(|| D.vertices().zip(D.iter()).map(|(u, (v, l))| (*u, v, l.len())).collect::<Vec<_>>());
                log.call(|| D.edges().collect::<Vec<_>>());
                log.call(|| D.vertices_and_edges().count());
                log.call(|| D.left_neighbourhoods().collect::<Vec<_>>());
            }
            2 => {
                cx.input(&("normalize", i));
                // used on even if the call panicked half way
                let D = &mut graphs[i];
                log.call(move || D.normalize());
                pool.extend(0..3);
            }
            3 => {
                cx.input(&("clone", i));
                if let Some(D) = log.make(|| graphs[i].clone()) {
                    graphs.push(D);
                }
            }
            4 => {
                // an oracle asked about arbitrary lists, possibly with another graph or a graph changed since
                if oracles.is_empty() {
                    continue;
                }
                let (home, o) = &oracles[g.below(oracles.len())];
                let i = if g.chance(1, 4) { i } else { *home };
                let D = &graphs[i];
                let own: Vec<u32> = D.vertices().copied().collect();
                let mut l = if own.is_empty() || g.chance(1, 8) { list(g, &pool, 6) } else { list(g, &own, 6) };
                if g.chance(1, 3) {
                    let _ = guarded(|| l.sort_by_key(|u| D.index_of(u)));
                }
                if g.bool() {
                    l.dedup();
                }
                let k = *g.pick(&[0u32, 1, 2, 3, 4, 5, 6, 31, 63, 64, 70, u32::MAX]);
                cx.input(&("oracle", home, i, &l, k));
                log.odd += 1;
                log.call(|| o.compute_traces(&l, D));
                log.call(|| o.compute_neighbour_count(&l, D));
                log.call(|| o.is_shattered(l.iter(), k, D));
            }
            5 => {
                let ord = list(g, &pool, 10);
                let valid = g.bool();
                let O = if valid {
                    let mut o: Vec<u32> = G.vertices().copied().collect();
                    o.sort_unstable();
                    g.shuffle(&mut o);
                    log.make(|| OrdGraph::with_ordering(&G, o.iter()))
                } else {
                    log.make(|| OrdGraph::with_ordering(&G, ord.iter()))
                };
                cx.input(&("OrdGraph", valid, u, v, &ord));
                if let Some(mut O) = O {
                    log.call(|| O.swap(&u, &v));
                    log.call(|| (O.left_neighbours(&u), O.right_neighbours(&u), O.right_degree(&v), O.degree(&v)));
                    log.call(|| (O.adjacent(&u, &v), O.index_of(&u)));
                    log.call(|| O.neighbours(&u).copied().collect::<Vec<_>>());
                    log.call(|| O.sreach_set(&u, 3));
                    log.call(|| O.right_bfs(&u, 3));
                    graphs.extend(log.make(|| O.to_degeneracy_graph()));
                    match g.draw(2) {
                        0 => reach::<1>(g, cx, &mut log, &pool, Some(&O)),
                        1 => reach::<2>(g, cx, &mut log, &pool, Some(&O)),
                        _ => reach::<4>(g, cx, &mut log, &pool, Some(&O)),
                    }
                }
            }
            6 => match g.draw(2) {
                0 => reach::<1>(g, cx, &mut log, &pool, None),
                1 => reach::<2>(g, cx, &mut log, &pool, None),
                _ => reach::<3>(g, cx, &mut log, &pool, None),
            },
            7 => {
                let depth = g.range(0, 4);
                cx.input(&("DTFGraph", u, v, depth));
                let Some(mut T) = log.make(|| DTFGraph::orient(&G)) else { continue };
                log.call(|| T.add_arc(&u, &v, depth));
                log.call(|| T.augment(depth, 1));
                log.call(|| T.small_distance(&u, &v));
                log.call(|| (T.get_arc_depth(&u, &v), T.has_arc_at(&u, &v, depth), T.num_arcs_at_depth(depth)));
                log.call(|| T.in_neighbours_at(&u, depth).copied().collect::<Vec<_>>());
                log.call(|| (T.arcs().collect::<Vec<_>>(), T.arcs_at(depth).collect::<Vec<_>>()));
                log.call(|| (T.in_degree(&u), T.out_degree(&u), T.degree(&v), T.adjacent(&u, &v)));
                log.call(|| {
                    let l = T.layer(depth);
                    (l.num_edges(), l.has_arc(&u, &v), l.degree(&u))
                });
            }
            _ => {
                cx.input(&("sreach", i, u));
                let D = &graphs[i];
                log.call(|| D.sreach_set(&u, 2));
                log.call(|| D.wreach_sets(2));
                log.call(|| D.left_degrees());
                graphs.extend(log.make(|| DegenGraph::with_ordering(&graphs[i], pool.iter())));
            }
        }
    }
    cx.subchecks += log.calls as u64;
    cx.nontrivial_if(log.odd > 0 && log.panics < log.calls);
    cx.label_if(log.panics > 0, "some call panicked");
    cx.label_if(log.odd > 0, "arguments outside the documented domain");
    cx.label_if(graphs.len() > 1, "several graphs");
}
