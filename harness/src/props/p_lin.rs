//! C25 dominating sets, C26 their scattered witnesses, C27 scattered colourings.

use crate::engine::*;
use crate::gens::*;
use crate::refgraph::RG;
use graphbench::algorithms::*;
use graphbench::degengraph::DegenGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet};

struct Case {
    s: Spec,
    rg: RG,
    ord: Vec<u32>,
    radius: u32,
    /// `None`: all vertices
    target: Option<Vec<u32>>,
}

impl Case {
    fn target_set(&self) -> BTreeSet<u32> {
        match &self.target {
            None => self.rg.vertices().into_iter().collect(),
            Some(t) => t.iter().copied().collect(),
        }
    }
}

/// Many vertices that all see one common vertex at exactly distance `r`, and are processed before it:
/// the counter that promotes a vertex into the dominating set is exceeded.
fn crowd(g: &mut Gen, r: u32) -> (Spec, Vec<u32>) {
    let legs = ((2 * r).pow(2) as usize + g.range(0, 4)).max(1);
    let pendants = g.range(2, 4);
    let mut edges = vec![];
    let mut next = 1u32;
    let mut inner = vec![];
    let mut left = vec![];
    let mut tips = vec![];
    for _ in 0..legs {
        let mut prev = 0;
        for i in 1..=r {
            let v = next;
            next += 1;
            edges.push((prev, v));
            if i == r {
                tips.push(v)
            } else {
                inner.push(v)
            }
            prev = v;
        }
        for _ in 0..pendants {
            edges.push((prev, next));
            left.push(next);
            next += 1;
        }
    }
    if g.bool() && legs > 2 {
        // a second crowd sharing part of the tips
        let c2 = next;
        next += 1;
        for t in tips.iter().step_by(2) {
            edges.push((c2, *t));
        }
        left.push(c2);
    }
    let lab = if g.bool() { labels(g, next as usize, true) } else { (0..next).collect() };
    let mut ord = vec![0u32];
    if g.bool() {
        g.shuffle(&mut left);
    }
    ord.extend(&inner);
    ord.extend(&left);
    ord.extend(&tips);
    let ord = ord.into_iter().map(|v| lab[v as usize]).collect();
    let edges = edges.into_iter().map(|(u, v)| (lab[u as usize], lab[v as usize])).collect();
    (Spec { shape: "crowd", verts: lab, edges, verts_first: false }, ord)
}

fn case(g: &mut Gen, cx: &mut Cx) -> Case {
    let (s, rg, oname, ord, radius) = if g.chance(1, 24) {
        let r = *g.pick(&[1u32, 1, 1, 2, 2, 3]);
        let (s, ord) = crowd(g, r);
        let rg = s.rg();
        (s, rg, "crowd", ord, r)
    } else if g.chance(1, 3000) {
        let (s, ord) = lengthy(g, 400);
        let rg = s.rg();
        let r = long_radius(g, ord.len()).min(2000);
        cx.label("distances beyond 255");
        (s, rg, "along a long path", ord, r)
    } else {
        const CFG: Cfg = Cfg::new(22).big(150, 50).huge(420, 2500).giant(1100, 60_000);
        let s = graph(g, &CFG);
        let rg = s.rg();
        let (oname, ord) = order(g, &rg);
        let n = rg.n() as u32;
        let radius = match g.weighted(&[10, 2, 1]) {
            0 => *g.pick(&[1u32, 2, 3, 0, 1, 2, 4, 5]),
            1 => g.range(0, n as usize + 2) as u32,
            _ => g.range(0, 600) as u32,
        };
        (s, rg, oname, ord, radius)
    };
    let target = match g.weighted(&[4, 3, 1]) {
        0 => None,
        1 => Some(subset(g, &ord)),
        _ => Some(s.verts.clone()),
    };
    cx.input(&s);
    cx.input(&(oname, &ord, "radius", radius, "target", &target));
    cx.label(oname);
    cx.label_if(radius == 0, "radius 0");
    cx.label_if(target.is_some(), "explicit target");
    let c = Case { s, rg, ord, radius, target };
    cx.label_if(c.target_set().is_empty(), "empty target");
    cx.label_if(c.rg.components().len() > 1, "disconnected");
    c
}

type Dom = (VertexSet, VertexMap<u32>, Option<VertexColouring<u32>>);

fn domset<L: LinearGraph>(L: &L, c: &Case, witness: bool, by_ref: bool) -> Dom {
    match &c.target {
        None => L.domset(c.radius, witness),
        Some(t) if by_ref => L.domset_with_target(c.radius, witness, t.iter()),
        Some(t) => L.domset_with_target(c.radius, witness, t.clone()),
    }
}

fn check_domset(cx: &mut Cx, sig: &str, d: &Dom, c: &Case) {
    let dom = bset(&d.0);
    let target = c.target_set();
    cx.ok(&format!("{sig}/subset"), dom.iter().all(|v| c.rg.has(*v)), || format!("{dom:?} contains foreign vertices"));
    if target.is_empty() {
        cx.ok(&format!("{sig}/empty-target"), dom.is_empty() && d.1.is_empty(), || format!("empty target, but {dom:?} / {:?} returned", d.1));
        return;
    }
    if !dom.iter().all(|v| c.rg.has(*v)) {
        return;
    }
    let dist = c.rg.bfs(dom.iter().copied());
    for v in &target {
        cx.ok(&format!("{sig}/dominated"), dist.get(v).map_or(false, |x| *x <= c.radius), || format!("{v} has distance {:?} to {dom:?}", dist.get(v)));
    }
    let got = map_of(&d.1);
    // every vertex that can reach the set, with its exact distance
    cx.eq(&format!("{sig}/distance"), got, dist);
}

pub fn c25(g: &mut Gen, cx: &mut Cx) {
    let c = case(g, cx);
    let G = c.s.edit();
    let witness = g.bool();
    let by_ref = g.bool();
    let O = ord_any(g, &G, &c.ord);
    let d = domset(&O, &c, witness, by_ref);
    cx.nontrivial_if(c.radius > 0 && d.0.len() < c.target_set().len() && d.0.len() >= 2);
    cx.label_if(d.0.len() >= 3, "three or more dominators");
    check_domset(cx, "ord", &d, &c);
    let D = degen_any(g, &G, &c.ord);
    check_domset(cx, "degen", &domset(&D, &c, witness, by_ref), &c);
    if g.chance(1, 3) {
        check_domset(cx, "by_degeneracy", &domset(&OrdGraph::by_degeneracy(&G), &c, !witness, by_ref), &c);
    }
}

fn check_witness(cx: &mut Cx, sig: &str, d: &Dom, c: &Case, dists: &BTreeMap<u32, BTreeMap<u32, u32>>, want: bool) {
    let dom = bset(&d.0);
    let target = c.target_set();
    let col = match &d.2 {
        None => {
            cx.ok(&format!("{sig}/requested"), !want, || "no witness returned".into());
            return;
        }
        Some(col) => col,
    };
    if !cx.ok(&format!("{sig}/requested"), want, || "witness returned without asking".into()) {
        return;
    }
    let m: BTreeMap<u32, u32> = col.iter().map(|(v, c)| (*v, *c)).collect();
    cx.ok(&format!("{sig}/coloured-in-domset"), m.keys().all(|v| dom.contains(v)), || format!("{m:?} colours vertices outside the dominating set {dom:?}"));
    cx.ok(&format!("{sig}/coloured-in-target"), m.keys().all(|v| target.contains(v)), || format!("{m:?} colours vertices outside the target"));
    cx.ok(&format!("{sig}/non-empty"), m.is_empty() == target.is_empty(), || format!("{} coloured vertices for a target of size {}", m.len(), target.len()));
    for (x, cx_) in &m {
        for (y, cy) in &m {
            if x < y && cx_ == cy {
                if let Some(dd) = dists[x].get(y) {
                    cx.ok(&format!("{sig}/scattered"), *dd > 2 * c.radius, || format!("{x} and {y} have colour {cx_} and distance {dd}, radius {}", c.radius));
                }
            }
        }
    }
    if let Some((set, colour)) = col.majority_set() {
        let set = bset(&set);
        cx.ok(&format!("{sig}/majority"), !set.is_empty() && set.iter().all(|v| m.get(v) == Some(&colour)), || format!("majority set {set:?} is not the class of colour {colour}"));
    }
}

pub fn c26(g: &mut Gen, cx: &mut Cx) {
    let c = case(g, cx);
    let G = c.s.edit();
    let by_ref = g.bool();
    let dists = c.rg.all_dists();
    let O = ord_any(g, &G, &c.ord);
    let d = domset(&O, &c, true, by_ref);
    if let Some(col) = &d.2 {
        let classes: BTreeSet<u32> = col.colours().copied().collect();
        cx.nontrivial_if(c.radius > 0 && classes.len() >= 2);
        cx.label_if(classes.len() < col.len() && classes.len() >= 2, "several classes, one of size >= 2");
        cx.label_if(col.len() < d.0.len(), "dominators outside the witness");
    }
    check_witness(cx, "ord", &d, &c, &dists, true);
    let D = degen_any(g, &G, &c.ord);
    check_witness(cx, "degen", &domset(&D, &c, true, by_ref), &c, &dists, true);
    if g.chance(1, 4) {
        check_witness(cx, "no-witness", &domset(&O, &c, false, by_ref), &c, &dists, false);
    }
}

// ------------------------------------------------------------------ C27

fn check_scattered<L: LinearGraph>(cx: &mut Cx, sig: &str, L: &L, distance: u32, target: &[u32], by_ref: bool, dists: &BTreeMap<u32, BTreeMap<u32, u32>>) -> usize {
    let classes: Vec<BTreeSet<u32>> = if by_ref { L.scattered_colouring(distance, target.iter()) } else { L.scattered_colouring(distance, target.to_vec()) }
        .iter()
        .map(|c| bset(c))
        .collect();
    let mut all = vec![];
    for c in &classes {
        cx.ok(&format!("{sig}/empty-class"), !c.is_empty(), || format!("empty class in {classes:?}"));
        all.extend(c.iter().copied());
        for x in c {
            for y in c {
                if x < y {
                    if let Some(dd) = dists.get(x).and_then(|m| m.get(y)) {
                        cx.ok(&format!("{sig}/distance"), *dd >= distance, || format!("{x} and {y} share a class, have distance {dd} < {distance}"));
                    }
                }
            }
        }
    }
    let want: BTreeSet<u32> = target.iter().copied().collect();
    cx.eq(&format!("{sig}/partition"), sorted(all), want.into_iter().collect::<Vec<_>>());
    classes.len()
}

pub fn c27(g: &mut Gen, cx: &mut Cx) {
    const CFG: Cfg = Cfg::new(18).big(90, 60).huge(420, 10000).giant(1100, 80_000);
    let mut crowded = g.chance(1, 30);
    let (s, ord, mut distance) = if crowded {
        let r = *g.pick(&[1u32, 1, 2]);
        let (s, ord) = crowd(g, r);
        (s, ord, 2 * r + g.draw(1) as u32)
    } else if g.chance(1, 12000) {
        crowded = true;
        let (s, ord) = lengthy(g, 330);
        let d = long_radius(g, ord.len()).min(2000);
        cx.label("distances beyond 255");
        (s, ord, d)
    } else {
        let s = graph(g, &CFG);
        let ord = order(g, &s.rg()).1;
        (s, ord, 0)
    };
    let rg = s.rg();
    if !crowded {
        distance = match g.weighted(&[12, 2, 1]) {
            0 => *g.pick(&[2u32, 3, 1, 4, 5, 6, 7, 0]),
            1 => g.range(0, rg.n() + 3) as u32,
            _ => g.range(0, 300) as u32,
        };
    }
    let target = if g.chance(2, 5) { ord.clone() } else { subset(g, &ord) };
    let by_ref = g.bool();
    cx.input(&s);
    cx.input(&(&ord, "distance", distance, "target", &target));
    cx.label(if distance % 2 == 1 { "odd distance" } else { "even distance" });
    cx.label_if(rg.components().len() > 1, "disconnected");
    let G = s.edit();
    let dists = rg.all_dists();
    let O = ord_any(g, &G, &ord);
    let k = check_scattered(cx, "ord", &O, distance, &target, by_ref, &dists);
    let distinct: BTreeSet<u32> = target.iter().copied().collect();
    cx.nontrivial_if(k >= 2 && k < distinct.len() && distance >= 2);
    check_scattered(cx, "degen", &degen_any(g, &G, &ord), distance, &target, by_ref, &dists);
    if g.chance(1, 3) {
        check_scattered(cx, "by_degeneracy", &OrdGraph::by_degeneracy(&G), distance, &target, by_ref, &dists);
    }
}
