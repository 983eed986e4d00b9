//! Reference model: a deliberately naive undirected graph (loops allowed) and textbook
//! algorithms on it. Nothing here shares code or representation with graphbench.

use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RG {
    pub adj: BTreeMap<u32, BTreeSet<u32>>,
}

impl RG {
    pub fn new() -> RG {
        RG::default()
    }
    pub fn from_parts(vs: impl IntoIterator<Item = u32>, es: impl IntoIterator<Item = (u32, u32)>) -> RG {
        let mut r = RG::new();
        for v in vs {
            r.add_vertex(v);
        }
        for (u, v) in es {
            r.add_edge(u, v);
        }
        r
    }
    pub fn n(&self) -> usize {
        self.adj.len()
    }
    pub fn has(&self, u: u32) -> bool {
        self.adj.contains_key(&u)
    }
    pub fn adjacent(&self, u: u32, v: u32) -> bool {
        self.adj.get(&u).map_or(false, |n| n.contains(&v))
    }
    pub fn add_vertex(&mut self, u: u32) -> bool {
        if self.has(u) {
            return false;
        }
        self.adj.insert(u, BTreeSet::new());
        true
    }
    pub fn add_edge(&mut self, u: u32, v: u32) -> bool {
        self.add_vertex(u);
        self.add_vertex(v);
        let new = self.adj.get_mut(&u).unwrap().insert(v);
        self.adj.get_mut(&v).unwrap().insert(u);
        new
    }
    pub fn remove_edge(&mut self, u: u32, v: u32) -> bool {
        if !self.adjacent(u, v) {
            return false;
        }
        self.adj.get_mut(&u).unwrap().remove(&v);
        self.adj.get_mut(&v).unwrap().remove(&u);
        true
    }
    pub fn remove_vertex(&mut self, u: u32) -> bool {
        match self.adj.remove(&u) {
            None => false,
            Some(n) => {
                for v in n {
                    if v != u {
                        self.adj.get_mut(&v).unwrap().remove(&u);
                    }
                }
                true
            }
        }
    }
    /// Sorted list of edges (u <= v).
    pub fn edges(&self) -> Vec<(u32, u32)> {
        let mut r = vec![];
        for (u, n) in &self.adj {
            for v in n {
                if u <= v {
                    r.push((*u, *v));
                }
            }
        }
        r
    }
    pub fn m(&self) -> usize {
        self.edges().len()
    }
    /// Loops count twice.
    pub fn degree(&self, u: u32) -> u32 {
        match self.adj.get(&u) {
            Some(n) => n.len() as u32 + n.contains(&u) as u32,
            None => 0,
        }
    }
    pub fn loops(&self) -> Vec<u32> {
        self.adj.iter().filter(|(u, n)| n.contains(u)).map(|(u, _)| *u).collect()
    }
    pub fn vertices(&self) -> Vec<u32> {
        self.adj.keys().copied().collect()
    }
    pub fn nbrs(&self, u: u32) -> Vec<u32> {
        self.adj[&u].iter().copied().collect()
    }
    pub fn open_nbh(&self, xs: &BTreeSet<u32>) -> BTreeSet<u32> {
        let mut r = BTreeSet::new();
        for x in xs {
            r.extend(self.adj[x].iter().copied());
        }
        r.difference(xs).copied().collect()
    }
    pub fn induced(&self, xs: &BTreeSet<u32>) -> RG {
        let mut r = RG::new();
        for x in xs {
            r.add_vertex(*x);
            for y in &self.adj[x] {
                if xs.contains(y) {
                    r.add_edge(*x, *y);
                }
            }
        }
        r
    }
    /// Multi-source BFS distances.
    pub fn bfs(&self, srcs: impl IntoIterator<Item = u32>) -> BTreeMap<u32, u32> {
        let mut d = BTreeMap::new();
        let mut q = VecDeque::new();
        for s in srcs {
            if d.insert(s, 0).is_none() {
                q.push_back(s);
            }
        }
        while let Some(u) = q.pop_front() {
            let du = d[&u];
            for v in &self.adj[&u] {
                if !d.contains_key(v) {
                    d.insert(*v, du + 1);
                    q.push_back(*v);
                }
            }
        }
        d
    }
    pub fn all_dists(&self) -> BTreeMap<u32, BTreeMap<u32, u32>> {
        self.vertices().into_iter().map(|v| (v, self.bfs([v]))).collect()
    }
    pub fn components(&self) -> BTreeSet<BTreeSet<u32>> {
        let mut seen = BTreeSet::new();
        let mut r = BTreeSet::new();
        for v in self.adj.keys() {
            if !seen.contains(v) {
                let c: BTreeSet<u32> = self.bfs([*v]).into_keys().collect();
                seen.extend(c.iter().copied());
                r.insert(c);
            }
        }
        r
    }
    /// By BFS layering: a graph is bipartite iff no edge joins two vertices of equal parity.
    pub fn is_bipartite(&self) -> bool {
        for c in self.components() {
            let d = self.bfs([*c.iter().next().unwrap()]);
            for u in &c {
                for v in &self.adj[u] {
                    if d[u] % 2 == d[v] % 2 {
                        return false;
                    }
                }
            }
        }
        true
    }
    /// Exact core numbers of a loop-free graph, straight from the definition of k-cores
    /// (repeatedly delete vertices of degree < k).
    pub fn core_numbers(&self) -> BTreeMap<u32, u32> {
        let mut core: BTreeMap<u32, u32> = self.vertices().into_iter().map(|v| (v, 0)).collect();
        let mut deg: BTreeMap<u32, u32> = self.adj.iter().map(|(u, n)| (*u, n.len() as u32)).collect();
        let mut alive: BTreeSet<u32> = self.adj.keys().copied().collect();
        let mut k = 0;
        while !alive.is_empty() {
            k += 1;
            let mut stack: Vec<u32> = alive.iter().copied().filter(|v| deg[v] < k).collect();
            while let Some(v) = stack.pop() {
                if !alive.remove(&v) {
                    continue;
                }
                for u in &self.adj[&v] {
                    if alive.contains(u) {
                        let d = deg.get_mut(u).unwrap();
                        *d -= 1;
                        if *d < k {
                            stack.push(*u);
                        }
                    }
                }
            }
            for v in &alive {
                core.insert(*v, k);
            }
        }
        core
    }
    pub fn degeneracy(&self) -> u32 {
        self.core_numbers().into_values().max().unwrap_or(0)
    }
    /// Smallest-degree-last ordering (so left degrees are small).
    pub fn degeneracy_order(&self) -> Vec<u32> {
        let mut deg: BTreeMap<u32, u32> = self.adj.iter().map(|(u, n)| (*u, n.len() as u32)).collect();
        let mut queue: BTreeSet<(u32, u32)> = deg.iter().map(|(v, d)| (*d, *v)).collect();
        let mut r = vec![];
        while let Some((_, v)) = queue.pop_first() {
            deg.remove(&v);
            for u in &self.adj[&v] {
                if let Some(d) = deg.get_mut(u) {
                    queue.remove(&(*d, *u));
                    *d -= 1;
                    queue.insert((*d, *u));
                }
            }
            r.push(v);
        }
        r.reverse();
        r
    }
    /// All maximal cliques by Bron-Kerbosch without pivoting (loop-free graphs).
    pub fn max_cliques(&self) -> BTreeSet<BTreeSet<u32>> {
        fn rec(g: &RG, r: &mut BTreeSet<u32>, p: BTreeSet<u32>, mut x: BTreeSet<u32>, out: &mut BTreeSet<BTreeSet<u32>>) {
            if p.is_empty() {
                if x.is_empty() && !r.is_empty() {
                    out.insert(r.clone());
                }
                return;
            }
            let mut rest = p.clone();
            for v in p {
                r.insert(v);
                rec(
                    g,
                    r,
                    rest.intersection(&g.adj[&v]).copied().collect(),
                    x.intersection(&g.adj[&v]).copied().collect(),
                    out,
                );
                r.remove(&v);
                rest.remove(&v);
                x.insert(v);
            }
        }
        let mut out = BTreeSet::new();
        rec(self, &mut BTreeSet::new(), self.adj.keys().copied().collect(), BTreeSet::new(), &mut out);
        out
    }
}

/// Weakly reachable sets by definition: for every `w`, shortest walks from `w` that stay inside
/// the vertices not left of `w` (so `w` is the leftmost vertex of the path).
/// Result: u -> (w -> dist), w != u, dist <= r.
pub fn wreach_def(g: &RG, order: &[u32], r: u32) -> BTreeMap<u32, BTreeMap<u32, u32>> {
    let pos: BTreeMap<u32, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut res: BTreeMap<u32, BTreeMap<u32, u32>> = order.iter().map(|v| (*v, BTreeMap::new())).collect();
    for w in order {
        let pw = pos[w];
        let mut d: BTreeMap<u32, u32> = [(*w, 0)].into();
        let mut q: VecDeque<(u32, u32)> = [(*w, 0)].into();
        while let Some((x, dx)) = q.pop_front() {
            for y in &g.adj[&x] {
                if pos[y] > pw && !d.contains_key(y) {
                    d.insert(*y, dx + 1);
                    q.push_back((*y, dx + 1));
                }
            }
        }
        for (u, du) in d {
            if u != *w && du <= r {
                res.get_mut(&u).unwrap().insert(*w, du);
            }
        }
    }
    res
}

/// Strongly reachable set of `u`: `x` left of `u`, all inner vertices of the path right of `u`.
/// Dynamic programme over walk length: `cur` = vertices right of `u` (or `u` itself) reachable by
/// a walk of exactly/at most `d` steps whose vertices are `u` or right of `u`.
pub fn sreach_def(g: &RG, order: &[u32], u: u32, r: u32) -> BTreeMap<u32, u32> {
    let pos: BTreeMap<u32, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let iu = pos[&u];
    // vertices right of `u` reached by walks of exactly d-1 new steps, level by level
    let mut seen: BTreeSet<u32> = [u].into();
    let mut cur = vec![u];
    let mut res = BTreeMap::new();
    for d in 1..=r {
        let mut nxt = vec![];
        for x in &cur {
            for y in &g.adj[x] {
                if pos[y] < iu {
                    res.entry(*y).or_insert(d);
                } else if seen.insert(*y) {
                    nxt.push(*y);
                }
            }
        }
        if nxt.is_empty() {
            break;
        }
        cur = nxt;
    }
    res
}
