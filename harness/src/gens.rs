//! Generators for graphs, labels, orderings and vertex sets.

use crate::engine::Gen;
use crate::refgraph::RG;
use graphbench::degengraph::{DegenGraph, DegenGraphBuilder};
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy)]
pub struct Cfg {
    /// largest number of vertices in ordinary cases
    pub max: usize,
    /// largest number of vertices in the occasional big case (0 = never)
    pub big: usize,
    /// one case in `big_den` is big
    pub big_den: u64,
    /// one case in `huge_den` has between 250 and `huge` vertices (0 = never)
    pub huge: usize,
    pub huge_den: u64,
    /// one case in `giant_den` has between 500 and `giant` vertices (0 = never)
    pub giant: usize,
    pub giant_den: u64,
    pub loops: bool,
    pub isolates: bool,
    /// labels may reach u32::MAX
    pub huge_labels: bool,
    pub sparse_only: bool,
}

impl Cfg {
    pub const fn new(max: usize) -> Cfg {
        Cfg { max, big: 0, big_den: 1, huge: 0, huge_den: 1, giant: 0, giant_den: 1, loops: false, isolates: true, huge_labels: true, sparse_only: false }
    }
    pub const fn big(mut self, big: usize, den: u64) -> Cfg {
        self.big = big;
        self.big_den = den;
        self
    }
    pub const fn huge(mut self, huge: usize, den: u64) -> Cfg {
        self.huge = huge;
        self.huge_den = den;
        self
    }
    pub const fn giant(mut self, giant: usize, den: u64) -> Cfg {
        self.giant = giant;
        self.giant_den = den;
        self
    }
    pub const fn loops(mut self) -> Cfg {
        self.loops = true;
        self
    }
    pub const fn small_labels(mut self) -> Cfg {
        self.huge_labels = false;
        self
    }
    pub const fn sparse(mut self) -> Cfg {
        self.sparse_only = true;
        self
    }
}

/// A generated graph: vertex labels, edges in insertion order and orientation.
#[derive(Clone)]
pub struct Spec {
    pub shape: &'static str,
    /// all vertices, in insertion order
    pub verts: Vec<u32>,
    /// distinct undirected edges, oriented as generated
    pub edges: Vec<(u32, u32)>,
    /// vertices are inserted before the edges
    pub verts_first: bool,
}

impl std::fmt::Debug for Spec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}(n={} m={}) V={:?} E=", self.shape, self.verts.len(), self.edges.len(), self.verts)?;
        for (i, (u, v)) in self.edges.iter().enumerate() {
            write!(f, "{}{u}-{v}", if i > 0 { " " } else { "" })?;
        }
        write!(f, " vfirst={}", self.verts_first)
    }
}

impl Spec {
    pub fn rg(&self) -> RG {
        RG::from_parts(self.verts.iter().copied(), self.edges.iter().copied())
    }
    pub fn edit(&self) -> EditGraph {
        let mut g = EditGraph::new();
        if self.verts_first {
            for v in &self.verts {
                g.add_vertex(v);
            }
        }
        for (u, v) in &self.edges {
            g.add_edge(u, v);
        }
        for v in &self.verts {
            g.add_vertex(v);
        }
        g
    }
    /// Arcs as oriented in the edge list (never antiparallel).
    pub fn digraph(&self) -> EditDigraph {
        let mut g = <EditDigraph as MutableDigraph>::new();
        if self.verts_first {
            for v in &self.verts {
                MutableDigraph::add_vertex(&mut g, v);
            }
        }
        for (u, v) in &self.edges {
            g.add_arc(u, v);
        }
        for v in &self.verts {
            MutableDigraph::add_vertex(&mut g, v);
        }
        g
    }
}

/// The graph as a digraph in which some arcs are accompanied by the opposite one (half of the calls: none).
pub fn any_digraph(g: &mut Gen, s: &Spec) -> (EditDigraph, bool) {
    let mut d = s.digraph();
    let mut anti = false;
    if g.bool() {
        let share = g.range(1, 8) as u32;
        for (u, v) in &s.edges {
            if u != v && g.draw(8) < share as u64 {
                d.add_arc(v, u);
                anti = true;
            }
        }
    }
    (d, anti)
}

/// The ordered graph with this ordering, made in one of the ways there are: directly, from another
/// ordered graph, or from another ordering by swaps.
pub fn ord_any(g: &mut Gen, G: &EditGraph, ord: &[u32]) -> OrdGraph {
    match g.weighted(&[7, 2, 1]) {
        1 if ord.len() >= 2 => {
            let mut other = ord.to_vec();
            let k = g.range(1, 6.min(ord.len()));
            let swaps: Vec<(usize, usize)> = (0..k).map(|_| (g.below(ord.len()), g.below(ord.len()))).collect();
            for (i, j) in &swaps {
                other.swap(*i, *j);
            }
            let mut O = OrdGraph::with_ordering(G, other.iter());
            for (i, j) in swaps.iter().rev() {
                O.swap(&other[*i], &other[*j]);
                other.swap(*i, *j);
            }
            O
        }
        2 => OrdGraph::with_ordering(&DegenGraph::with_ordering(G, ord.iter()), ord.iter()),
        _ => OrdGraph::with_ordering(G, ord.iter()),
    }
}

/// The DegenGraph with this ordering, made in one of the ways there are: directly, by conversion, as a
/// clone, or with the builder (left neighbours in any order).
pub fn degen_any(g: &mut Gen, G: &EditGraph, ord: &[u32]) -> DegenGraph {
    match g.weighted(&[6, 1, 1, 1, 2]) {
        1 => OrdGraph::with_ordering(G, ord.iter()).to_degeneracy_graph(),
        2 => DegenGraph::with_ordering(&OrdGraph::with_ordering(G, ord.iter()), ord.iter()),
        3 => DegenGraph::with_ordering(G, ord.iter()).clone(),
        4 => {
            let mut done: HashSet<u32> = HashSet::new();
            let mut b = DegenGraphBuilder::new();
            for u in ord {
                let mut l: Vec<u32> = G.neighbours(u).copied().filter(|v| done.contains(v)).collect();
                l.sort_unstable();
                g.shuffle(&mut l);
                b.append(u, &l);
                done.insert(*u);
            }
            b.build()
        }
        _ => DegenGraph::with_ordering(G, ord.iter()),
    }
}

pub fn size(g: &mut Gen, cfg: &Cfg) -> usize {
    if cfg.giant > 500 && g.chance(1, cfg.giant_den) {
        return match g.draw(6) {
            0 | 1 => g.range(500, cfg.giant.min(2500)),
            2 => g.range(500, cfg.giant),
            3..=5 => {
                let b = *g.pick(&[511usize, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 65535, 65536, 65537]);
                b.min(cfg.giant)
            }
            _ => cfg.giant,
        };
    }
    if cfg.huge > 250 && g.chance(1, cfg.huge_den) {
        return match g.draw(2) {
            0 => g.range(250, 270.min(cfg.huge)),
            1 => g.range(250, cfg.huge),
            _ => cfg.huge,
        };
    }
    if cfg.big > cfg.max && g.chance(1, cfg.big_den) {
        return match g.weighted(&[3, 3, 2]) {
            0 => g.range(cfg.max, cfg.big),
            1 => {
                // around word and bucket boundaries
                let b = *g.pick(&[31usize, 32, 63, 64, 65, 127, 128, 129, 130, 131, 192, 255, 256, 257, 258, 260, 300, 383, 384, 385, 400, 511, 512, 513, 600]);
                b.min(cfg.big)
            }
            _ => cfg.big,
        };
    }
    match g.weighted(&[5, 5, 2]) {
        0 => g.range(0, cfg.max.min(6)),
        1 => g.range(cfg.max.min(3), cfg.max.min(14)),
        _ => g.range(cfg.max.min(8), cfg.max),
    }
}

pub fn labels(g: &mut Gen, n: usize, huge: bool) -> Vec<u32> {
    let modes: &[u64] = if huge { &[4, 3, 2, 2, 2, 2] } else { &[4, 3, 2] };
    match g.weighted(modes) {
        0 => (0..n as u32).collect(),
        1 => g.permutation(n).into_iter().map(|x| x as u32).collect(),
        2 => {
            // increasing with gaps, then maybe shuffled
            let mut v = vec![];
            let mut cur = g.draw(40) as u32;
            for _ in 0..n {
                v.push(cur);
                cur += 1 + g.draw(5) as u32;
            }
            if g.bool() {
                g.shuffle(&mut v);
            }
            v
        }
        3 => {
            // multiples of a power of two (hash-unfriendly)
            let k = if n > 1200 { g.range(1, 4) } else { g.range(1, 20) } as u32; // Fx hashes of multiples of 2^k collide
            let mut v: Vec<u32> = (0..n as u32).map(|i| i << k.min((n as u32).leading_zeros())).collect();
            if g.bool() {
                g.shuffle(&mut v);
            }
            v
        }
        4 => {
            let mut seen = HashSet::new();
            let mut v = vec![];
            while v.len() < n {
                let mut x = g.draw(u32::MAX as u64) as u32;
                while !seen.insert(x) {
                    x = x.wrapping_add(1);
                }
                v.push(x);
            }
            v
        }
        _ => {
            // around boundaries, including 0 and u32::MAX
            const B: [u32; 12] = [u32::MAX, 0, 1, 255, 256, 65535, 65536, 1 << 31, (1 << 31) - 1, u32::MAX - 1, 1 << 16, 1 << 24];
            let mut seen = HashSet::new();
            let mut v = vec![];
            while v.len() < n {
                let mut x = if v.len() > 200 { v[v.len() - 1] } else { g.pick(&B).wrapping_add(g.draw(6) as u32).wrapping_sub(3) };
                while !seen.insert(x) {
                    x = x.wrapping_add(1);
                }
                v.push(x);
            }
            v
        }
    }
}

struct ES {
    n: usize,
    set: BTreeSet<(usize, usize)>,
}
impl ES {
    fn add(&mut self, u: usize, v: usize) {
        if u != v && u < self.n && v < self.n {
            self.set.insert((u.min(v), u.max(v)));
        }
    }
    fn clear_between(&mut self, u: usize, v: usize) {
        self.set.remove(&(u.min(v), u.max(v)));
    }
}

/// Edges over `0..n`.
pub fn shape_edges(g: &mut Gen, n: usize, sparse_only: bool, depth: usize) -> (&'static str, BTreeSet<(usize, usize)>) {
    let mut e = ES { n, set: BTreeSet::new() };
    if n < 2 {
        return ("tiny", e.set);
    }
    let big = n > 48;
    let noise = |g: &mut Gen, e: &mut ES, k: usize| {
        for _ in 0..g.range(0, k) {
            let (u, v) = (g.below(n), g.below(n));
            e.add(u, v);
        }
    };
    let w: [u64; 16] = if sparse_only {
        [0, 5, 3, 3, 4, 3, 0, 2, 4, 3, 0, 2, 3, 2, 5, 4]
    } else {
        [5, 4, 2, 2, 3, 4, 3, 3, 2, 3, 2, 2, 2, 3, 3, 2]
    };
    let name = match g.weighted(&w) {
        0 if !big => {
            let p = 1 + g.draw(9);
            for u in 0..n {
                for v in u + 1..n {
                    if g.chance(p, 10) {
                        e.add(u, v);
                    }
                }
            }
            "gnp"
        }
        0 | 1 => {
            let m = if g.bool() { g.range(0, n) } else { g.range(0, 3 * n) };
            for _ in 0..m {
                let (u, v) = (g.below(n), g.below(n));
                e.add(u, v);
            }
            "random"
        }
        2 => {
            for u in 0..n - 1 {
                e.add(u, u + 1);
            }
            noise(g, &mut e, 3);
            "path+"
        }
        3 => {
            for u in 0..n {
                e.add(u, (u + 1) % n);
            }
            noise(g, &mut e, 2);
            "cycle+"
        }
        4 => {
            for v in 1..n {
                let u = g.below(v);
                e.add(u, v);
            }
            noise(g, &mut e, 2);
            "tree+"
        }
        5 => {
            // hubs joined to (almost) everything, leaves possibly joined a little
            let h = g.range(1, 3.min(n - 1));
            for u in 0..h {
                for v in 0..n {
                    e.add(u, v);
                }
            }
            if g.bool() {
                for _ in 0..g.range(0, 3) {
                    let (u, v) = (g.below(h), g.below(n));
                    e.clear_between(u, v);
                }
            }
            let k = if g.bool() { n } else { 3 };
            noise(g, &mut e, k);
            "hubs"
        }
        6 => {
            let k = if n > 250 { g.range(40, 250) } else if big && !g.chance(1, 3) { n.min(40) } else { n };
            for u in 0..k {
                for v in u + 1..k {
                    e.add(u, v);
                }
            }
            for v in k..n {
                let u = g.below(v);
                e.add(u, v);
            }
            for _ in 0..g.range(0, n) {
                let (u, v) = (g.below(n), g.below(n));
                e.clear_between(u, v);
            }
            "nearclique"
        }
        7 => {
            let a = g.range(1, n - 1);
            if big {
                for _ in 0..2 * n {
                    let (u, v) = (g.below(a), g.range(a, n - 1));
                    e.add(u, v);
                }
            } else {
                let p = 1 + g.draw(9);
                for u in 0..a {
                    for v in a..n {
                        if g.chance(p, 10) {
                            e.add(u, v);
                        }
                    }
                }
            }
            noise(g, &mut e, 1);
            "bipartite+"
        }
        8 => {
            let w = g.range(2, ((n as f64).sqrt() as usize + 1).max(2));
            for i in 0..n {
                if (i + 1) % w != 0 {
                    e.add(i, i + 1);
                }
                e.add(i, i + w);
            }
            noise(g, &mut e, 2);
            "grid+"
        }
        9 if depth < 2 => {
            let a = g.range(1, n - 1);
            let (_, s1) = shape_edges(g, a, sparse_only, depth + 1);
            let (_, s2) = shape_edges(g, n - a, sparse_only, depth + 1);
            for (u, v) in s1 {
                e.add(u, v);
            }
            for (u, v) in s2 {
                e.add(u + a, v + a);
            }
            "union"
        }
        10 => {
            let k = g.range(2, 5);
            let part: Vec<usize> = (0..n).map(|_| g.below(k)).collect();
            if !big {
                for u in 0..n {
                    for v in u + 1..n {
                        if part[u] != part[v] {
                            e.add(u, v);
                        }
                    }
                }
            } else {
                let lim = if n > 450 { 150 } else { 40 };
                for u in 0..n.min(lim) {
                    for v in u + 1..n.min(lim) {
                        if part[u] != part[v] {
                            e.add(u, v);
                        }
                    }
                }
            }
            "kpartite"
        }
        11 => {
            let k = g.range(2, 4);
            let mut i = 1;
            while i < n {
                let hi = (i + k).min(n);
                for u in i..hi {
                    e.add(0, u);
                    for v in u + 1..hi {
                        e.add(u, v);
                    }
                }
                i = hi;
            }
            "windmill"
        }
        12 => {
            let spine = g.range(1, n);
            for u in 1..spine {
                e.add(u - 1, u);
            }
            for v in spine..n {
                let u = g.below(spine);
                e.add(u, v);
            }
            "caterpillar"
        }
        13 => {
            for _ in 0..g.range(1, 2 + n / 4) {
                let k = g.range(2, 5);
                let c: Vec<usize> = (0..k).map(|_| g.below(n)).collect();
                for i in 0..k {
                    for j in i + 1..k {
                        e.add(c[i], c[j]);
                    }
                }
            }
            "cliques"
        }
        14 => {
            let d = g.range(1, 4);
            for v in 1..n {
                for _ in 0..d {
                    let u = if g.bool() { v - 1 - g.below(v.min(4)) } else { g.below(v) };
                    e.add(u, v);
                }
            }
            "degenerate"
        }
        _ => {
            // subdivision of a small random graph: long induced paths between branch vertices
            let b = g.range(1, 5.min(n));
            let mut next = b;
            let mut last_branch = 0;
            while next < n {
                let (u, v) = (last_branch, g.below(b));
                last_branch = g.below(b);
                let len = g.range(1, 5).min(n - next);
                let mut prev = u;
                for _ in 0..len {
                    e.add(prev, next);
                    prev = next;
                    next += 1;
                }
                e.add(prev, v);
            }
            "subdivided"
        }
    };
    (name, e.set)
}

pub fn graph(g: &mut Gen, cfg: &Cfg) -> Spec {
    let n = size(g, cfg);
    graph_n(g, cfg, n)
}

pub fn graph_n(g: &mut Gen, cfg: &Cfg, n: usize) -> Spec {
    let (shape, set) = shape_edges(g, n, cfg.sparse_only, 0);
    let lab = labels(g, n, cfg.huge_labels);
    let mut edges: Vec<(u32, u32)> = set.into_iter().map(|(u, v)| (lab[u], lab[v])).collect();
    if cfg.loops && n > 0 && g.chance(1, 3) {
        let mut seen = BTreeSet::new();
        for _ in 0..g.range(1, 3) {
            let u = lab[g.below(n)];
            if seen.insert(u) {
                edges.push((u, u));
            }
        }
    }
    if g.bool() {
        g.shuffle(&mut edges);
    }
    match g.draw(2) {
        0 => {}
        1 => edges.iter_mut().for_each(|e| *e = (e.1, e.0)),
        _ => {
            for e in edges.iter_mut() {
                if g.bool() {
                    *e = (e.1, e.0)
                }
            }
        }
    }
    let mut verts = lab;
    if !cfg.isolates {
        let used: BTreeSet<u32> = edges.iter().flat_map(|(u, v)| [*u, *v]).collect();
        verts.retain(|v| used.contains(v));
    }
    let verts_first = g.bool();
    if verts_first && g.bool() {
        g.shuffle(&mut verts);
    }
    Spec { shape, verts, edges, verts_first }
}

/// An EditGraph equal to the spec, but reached through additions that are later undone, so that
/// its internal tables have a different history.
pub fn edit_with_history(g: &mut Gen, s: &Spec) -> EditGraph {
    if g.chance(2, 3) {
        return s.edit();
    }
    let rg = s.rg();
    let mut h = EditGraph::new();
    let mut junk_e = vec![];
    let mut junk_v = vec![];
    let vs = &s.verts;
    for v in vs {
        h.add_vertex(v);
        if g.chance(1, 6) {
            let mut x = g.draw(u32::MAX as u64) as u32;
            while rg.has(x) {
                x = x.wrapping_add(1);
            }
            h.add_edge(v, &x);
            h.add_edge(&x, &vs[g.below(vs.len())]);
            junk_v.push(x);
        }
    }
    for (u, v) in &s.edges {
        h.add_edge(u, v);
        if g.chance(1, 6) {
            let (a, b) = (vs[g.below(vs.len())], vs[g.below(vs.len())]);
            if !rg.adjacent(a, b) {
                h.add_edge(&a, &b);
                junk_e.push((a, b));
            }
        }
    }
    for (a, b) in junk_e {
        h.remove_edge(&a, &b);
    }
    for x in junk_v {
        h.remove_vertex(&x);
    }
    h
}

/// A number around a power of two, up to about 2^16.
pub fn threshold(g: &mut Gen, max: usize) -> usize {
    let k = g.range(5, 16);
    ((1usize << k) + g.range(0, 4)).saturating_sub(2).min(max)
}

/// A linear ordering of the vertices of `rg`.
pub fn order(g: &mut Gen, rg: &RG) -> (&'static str, Vec<u32>) {
    let vs = rg.vertices();
    match g.weighted(&[3, 2, 5, 4, 2, 2, 2]) {
        0 => ("sorted", vs),
        1 => ("reverse", vs.into_iter().rev().collect()),
        2 => {
            let p = g.permutation(vs.len());
            ("random", p.into_iter().map(|i| vs[i]).collect())
        }
        3 => ("degeneracy", rg.degeneracy_order()),
        4 => {
            let mut v = vs;
            v.sort_by_key(|u| rg.degree(*u));
            ("degree-asc", v)
        }
        5 => {
            let mut v = vs;
            v.sort_by_key(|u| std::cmp::Reverse(rg.degree(*u)));
            ("degree-desc", v)
        }
        _ => {
            let mut v = vec![];
            let mut seen = BTreeSet::new();
            for s in vs {
                if seen.contains(&s) {
                    continue;
                }
                let d = rg.bfs([s]);
                let mut l: Vec<(u32, u32)> = d.into_iter().map(|(x, dx)| (dx, x)).collect();
                l.sort();
                for (_, x) in l {
                    seen.insert(x);
                    v.push(x);
                }
            }
            if g.bool() {
                v.reverse();
            }
            ("bfs", v)
        }
    }
}

/// A graph with shortest paths of more than 255 (up to `max`) edges, and an ordering that follows
/// them, so that reachability at those distances is not cut off by the ordering.
pub fn lengthy(g: &mut Gen, max: usize) -> (Spec, Vec<u32>) {
    let n = g.range(258, max);
    let mut e: BTreeSet<(usize, usize)> = BTreeSet::new();
    let shape = match g.draw(3) {
        0 => {
            (1..n).for_each(|i| drop(e.insert((i - 1, i))));
            "long path"
        }
        1 => {
            // the last few vertices hang off the path
            let k = n - 1 - g.below(n - 257);
            (1..k).for_each(|i| drop(e.insert((i - 1, i))));
            for i in k..n {
                e.insert((g.below(k), i));
            }
            "long caterpillar"
        }
        2 => {
            let k = g.range(1, 4);
            (k..n).for_each(|i| drop(e.insert((i - k, i))));
            e.insert((0, k - 1));
            "long spider"
        }
        _ => {
            (1..n).for_each(|i| drop(e.insert((i - 1, i))));
            for _ in 0..g.range(1, 3) {
                let i = g.below(n - 3);
                e.insert((i, i + 2 + g.below(2)));
            }
            "long path with chords"
        }
    };
    e.retain(|(u, v)| u != v);
    let lab = labels(g, n, true);
    let mut ord: Vec<u32> = lab.clone();
    match g.weighted(&[3, 2, 2, 2, 1]) {
        0 => {}
        1 => ord.reverse(),
        2 => {
            let k = g.below(n);
            ord.rotate_left(k);
        }
        3 => {
            for _ in 0..g.range(1, 4) {
                let (i, j) = (g.below(n), g.below(n));
                ord.swap(i, j);
            }
        }
        _ => g.shuffle(&mut ord),
    }
    let edges = e.into_iter().map(|(u, v)| (lab[u], lab[v])).collect();
    (Spec { shape, verts: lab, edges, verts_first: g.bool() }, ord)
}

/// A radius around or beyond 255.
pub fn long_radius(g: &mut Gen, n: usize) -> u32 {
    match g.draw(3) {
        0 => n as u32,
        1 => g.range(254, 260) as u32,
        2 => g.range(1, n) as u32,
        _ => *g.pick(&[65535u32, 65536, 1000, 511, 512, 127, 128]),
    }
}

/// Random subset of `vs`; biased to include small, near-complete, clustered and empty sets.
pub fn subset(g: &mut Gen, vs: &[u32]) -> Vec<u32> {
    if vs.is_empty() {
        return vec![];
    }
    match g.weighted(&[3, 4, 2, 1]) {
        0 => {
            let k = g.range(0, vs.len().min(4));
            let p = g.permutation(vs.len());
            p[..k].iter().map(|i| vs[*i]).collect()
        }
        1 => {
            let den = 2 + g.draw(3);
            vs.iter().copied().filter(|_| g.chance(1, den)).collect()
        }
        2 => {
            let mut v = vs.to_vec();
            for _ in 0..g.range(0, vs.len().min(3)) {
                let i = g.below(v.len());
                v.swap_remove(i);
                if v.is_empty() {
                    break;
                }
            }
            v
        }
        _ => vs.to_vec(),
    }
}

/// Iterate with a cap so that an endless iterator shows up as a failure instead of a hang.
pub fn capped<T>(it: impl Iterator<Item = T>, cap: usize) -> Vec<T> {
    it.take(cap).collect()
}

pub fn sorted(it: impl IntoIterator<Item = u32>) -> Vec<u32> {
    let mut v: Vec<u32> = it.into_iter().collect();
    v.sort_unstable();
    v
}

pub fn bset<'a>(it: impl IntoIterator<Item = &'a u32>) -> BTreeSet<u32> {
    it.into_iter().copied().collect()
}

pub fn norm_edges(it: impl IntoIterator<Item = (u32, u32)>) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = it.into_iter().map(|(u, v)| (u.min(v), u.max(v))).collect();
    v.sort_unstable();
    v
}

/// Reads a graph back through its public interface, using only `vertices`, `neighbours`.
pub fn readback<G: Graph>(g: &G) -> RG {
    let mut r = RG::new();
    let cap = g.num_vertices() + 5;
    let vs: Vec<u32> = g.vertices().take(cap).copied().collect();
    for v in &vs {
        r.add_vertex(*v);
    }
    for v in &vs {
        for u in g.neighbours(v).take(2 * cap + 10) {
            // one-directional on purpose: asymmetry shows up when compared with the model
            r.adj.get_mut(v).unwrap().insert(*u);
        }
    }
    r
}

pub fn map_of<T: Copy>(m: &VertexMap<T>) -> BTreeMap<u32, T> {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}
