use crate::engine::Prop;

mod p_alg;
mod p_dtf;
mod p_edit;
mod p_io;
mod p_lin;
mod p_misc;
mod p_ops;
mod p_ord;
mod p_safe;

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", run: p_edit::c01, quick: 230_000, thorough: 5_800_000, rule: "random edit histories (1-60 operations on a pool of 1-12 labels; 1 in 40 on a pool of 20-300 with up to 400 operations; 1 in 12 000 starting from a graph with 500-70 000 vertices), compared with a set model after every step; non-trivial = a vertex with incident edges was removed, or both a loop and a duplicate edge were added" },
    Prop { id: "C02", run: p_edit::c02, quick: 110_000, thorough: 2_800_000, rule: "random digraph edit histories (sizes as C01) compared with an arc-set model after every step; non-trivial = a vertex with incident arcs was removed or antiparallel arcs existed" },
    Prop { id: "C03", run: p_edit::c03, quick: 1_000_000, thorough: 26_000_000, rule: "random graphs (16 shapes, loops allowed) with 1-6 contractions/edits compared with a model; non-trivial = a vertex with edges was merged or a set of >1 vertices contracted" },
    Prop { id: "C04", run: p_edit::c04, quick: 220_000, thorough: 5_600_000, rule: "named generator and sizes drawn at random (0 included, occasionally hundreds or thousands, rarely beyond 65 536 vertices); non-trivial = the expected graph has an edge" },
    Prop { id: "C05", run: p_edit::c05, quick: 280_000, thorough: 7_100_000, rule: "pairs of constructions of equal or minimally different graphs; non-trivial = the graph has an edge" },
    Prop { id: "C06", run: p_ops::c06, quick: 450_000, thorough: 11_000_000, rule: "half: normalize of a random graph/digraph (arbitrary 32-bit labels), half: disjoint unions of 0-5 (rarely up to 300) graphs/digraphs, rarely with 500-70 000 vertices; non-trivial = relabelling is not the identity and there is an edge, or at least two operands have edges" },
    Prop { id: "C07", run: p_ops::c07, quick: 480_000, thorough: 12_000_000, rule: "random graphs (loops included) behind every graph type; non-trivial = at least two edges" },
    Prop { id: "C08", run: p_ops::c08, quick: 380_000, thorough: 9_400_000, rule: "random graph, vertex subset (possibly with repetitions) and radius; non-trivial = non-empty proper subset of a graph with at least two edges" },
    Prop { id: "C09", run: p_io::c09, quick: 64_000, thorough: 1_600_000, rule: "random graph / vertex list / vertex set written as text, gzip and into a buffer (some over existing longer files, some sinks writing short), text compared with the model and read back by every reader; non-trivial = at least two edges or entries" },
    Prop { id: "C10", run: p_io::c10, quick: 180_000, thorough: 4_600_000, rule: "generated text (one line damaged in two thirds), damaged gzip files, failing readers and sinks, unusable paths; compared with a hand-written parser; non-trivial = the input or the device is bad" },
    Prop { id: "C11", run: p_ops::c11, quick: 160_000, thorough: 4_000_000, rule: "pairs of overlapping random graphs, 0-4 (1 in 100: up to 300, rarely 70 000) new vertices per edge; non-trivial = both have edges and they differ" },
    Prop { id: "C12", run: p_ops::c12, quick: 380_000, thorough: 9_500_000, rule: "pairs of random graphs on 0-7 vertices, 1 in 500 with up to 300 on one side or 24-262 on both; non-trivial = both have an edge" },
    Prop { id: "C13", run: p_ops::c13, quick: 1_700_000, thorough: 43_000_000, rule: "pairs of related random graphs; non-trivial = both have an edge" },
    Prop { id: "C14", run: p_alg::c14, quick: 370_000, thorough: 9_200_000, rule: "random graph (loops, isolated vertices, many components) behind each graph type, components compared with BFS; non-trivial = at least two components and two edges" },
    Prop { id: "C15", run: p_alg::c15, quick: 400_000, thorough: 10_000_000, rule: "random graph (half made bipartite, some spoiled by one edge), witness validated against the edges; non-trivial = at least three edges" },
    Prop { id: "C16", run: p_alg::c16, quick: 300_000, thorough: 7_500_000, rule: "random loop-free graph, one in 400 with a dense core of 120-420 vertices; non-trivial = degeneracy at least 2 and several distinct core numbers" },
    Prop { id: "C17", run: p_ord::c17, quick: 160_000, thorough: 3_900_000, rule: "random loop-free graph with a random ordering (7 kinds); non-trivial = at least two edges" },
    Prop { id: "C18", run: p_ord::c18, quick: 150_000, thorough: 3_800_000, rule: "history of 1-60 swaps (adjacent, neighbouring, equal and absent vertices included), compared after every step with the model; non-trivial = a swap that moves an edge endpoint" },
    Prop { id: "C19", run: p_ord::c19, quick: 230_000, thorough: 5_800_000, rule: "random ordered graph, from the constructors and built by hand; non-trivial = at least two edges and the relabelling is not the identity" },
    Prop { id: "C20", run: p_ord::c20, quick: 300_000, thorough: 7_500_000, rule: "random ordered graph and radius 0-10 or n; compared with the definition; non-trivial = some vertex is strongly reachable at distance >= 2" },
    Prop { id: "C21", run: p_ord::c21, quick: 500_000, thorough: 12_000_000, rule: "random ordered graph and radius 0-10 or n; compared with the definition; non-trivial = some vertex is weakly reachable at distance >= 2" },
    Prop { id: "C22", run: p_ord::c22, quick: 320_000, thorough: 8_000_000, rule: "random ordered graph and depth 1-5 or 7; non-trivial = some vertex is reachable at exactly the full depth" },
    Prop { id: "C23", run: p_alg::c23, quick: 750_000, thorough: 19_000_000, rule: "random ordered graph (one in 12 complete multipartite, one in 500 a cograph with 14-140 vertices whose count is known in closed form), compared with Bron-Kerbosch over sets; non-trivial = at least two maximal cliques of size >= 3" },
    Prop { id: "C24", run: p_alg::c24, quick: 340_000, thorough: 8_600_000, rule: "random ordered graph, colouring validated; non-trivial = at least three edges" },
    Prop { id: "C25", run: p_lin::c25, quick: 440_000, thorough: 11_000_000, rule: "random ordered graph, radius (0-5, n, up to 600) and target set; one in 24 built so that the promotion counter is exceeded; non-trivial = radius >= 1, at least two dominators and fewer dominators than targets" },
    Prop { id: "C26", run: p_lin::c26, quick: 160_000, thorough: 4_000_000, rule: "as C25, with witness; non-trivial = radius >= 1 and at least two colour classes" },
    Prop { id: "C27", run: p_lin::c27, quick: 220_000, thorough: 5_500_000, rule: "random ordered graph, distance (0-7, n, up to 300) and target set; non-trivial = distance >= 2, at least two classes and fewer classes than targets" },
    Prop { id: "C28", run: p_dtf::c28, quick: 280_000, thorough: 7_000_000, rule: "random graph, augmentation and a history of augment/layer/domset calls, all distances compared with BFS after each; non-trivial = some pair at exactly the current depth >= 2" },
    Prop { id: "C29", run: p_dtf::c29, quick: 240_000, thorough: 6_100_000, rule: "augmentations, edge subgraphs and insertion histories compared with an arc-weight model; non-trivial = an arc of weight >= 2, or a proper edge subgraph with arcs" },
    Prop { id: "C30", run: p_dtf::c30, quick: 690_000, thorough: 17_000_000, rule: "random graph, augmentation and 1-2 radii; non-trivial = radius >= 1 and a dominating set with between 2 and n-1 vertices" },
    Prop { id: "C31", run: p_misc::c31, quick: 1_100_000, thorough: 28_000_000, rule: "random ordered graph and 1-3 sorted vertex sets; non-trivial = three different traces, one of size >= 2" },
    Prop { id: "C32", run: p_misc::c32, quick: 1_100_000, thorough: 28_000_000, rule: "random ordered graph and 1-3 vertex sets; non-trivial = at least two query vertices with at least two outside neighbours" },
    Prop { id: "C33", run: p_misc::c33, quick: 1_900_000, thorough: 47_000_000, rule: "random map/colouring and a history of 1-6 operations; non-trivial = an extension with both old and new vertices" },
    Prop { id: "C34", run: p_misc::c34, quick: 3_400_000, thorough: 86_000_000, rule: "all pairs among five random vertices/edges over 1-5 labels; non-trivial = two different edges that share a vertex" },
    Prop { id: "C35", run: p_safe::c35, quick: 400_000, thorough: 10_000_000, rule: "1-3 DegenGraphs made with and without regard for the documented arguments, their oracles, and 1-14 operations with arbitrary vertices and lists (absent, unsorted, repeated, of another graph), objects being used on after panics; release configuration under AddressSanitizer and unsafe-precondition checks; a violation is an abort; non-trivial = some argument was outside the documented domain and not every call panicked" },
];
