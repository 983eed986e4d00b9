#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(),
                  mech=mech, technique=technique, note=note, state=state))

G='src/graph.rs'; E='src/editgraph.rs'; D='src/editdigraph.rs'; I='src/iterators.rs'; O='src/ordgraph.rs'
N='src/degengraph.rs'; R='src/reachgraph.rs'; A='src/algorithms/graph.rs'; L='src/algorithms/lineargraph.rs'
T='src/dtfgraph.rs'; S='src/datastructures/sreach_trace_oracle.rs'; IO='src/io.rs'; OP='src/operations.rs'; C='src/compare.rs'

p('C01','Mutable graph behaves as a set of vertices and unordered edges',
  'After any sequence of adding and removing vertices, edges (loops allowed), batches of them, all loops, or all isolated vertices, an EditGraph contains exactly the vertices and edges a plain set model contains, and every mutator returns what the model returns (whether or how many elements changed). Every query agrees with that set: num_vertices, len, is_empty, num_edges, contains, adjacent (symmetric, false for absent vertices), degree and degrees (a loop counts twice, absent vertices have degree 0), vertices, neighbours and edges. Removing a vertex removes all incident edges, and re-adding it yields an isolated vertex.',
  'histories inputs','All operation histories over arbitrary 32-bit labels, with loops, duplicate operations and operations on absent vertices.',
  'The unit tests apply a handful of fixed operations; cached edge and degree counters only drift in particular orders (loop removal, re-adding, removing a vertex with loops).',
  f'{E} {G}', [('adjacency sets plus cached degree and edge counters updated by every mutator', f'{E} impl MutableGraph for EditGraph'), ('default batch operations', f'{G} trait MutableGraph')],
  'stateful model-based testing against a set model, with shrinking', 'Random histories; every query compared with the model after each operation.')
p('C02','Mutable digraph behaves as a set of vertices and arcs',
  'After any sequence of adding and removing vertices, arcs (loops and antiparallel arcs allowed), batches, all loops or all isolated vertices, an EditDigraph contains exactly what a plain set of vertices and ordered pairs contains, and each mutator returns what the model returns. has_arc, arcs, in/out-neighbours, in/out-degrees and in/out-neighbourhoods follow the arc set, and the undirected view follows the underlying undirected graph: adjacent is symmetric, neighbours are the union of in- and out-neighbours, degree is the sum of in- and out-degree. For absent vertices contains, adjacent and has_arc return false and degree returns 0.',
  'histories inputs','All operation histories over arbitrary 32-bit labels.',
  'Unit tests cover a few small digraphs; mirror-image in/out structures disagree only after particular removals.',
  f'{D} {G}', [('paired in/out adjacency sets and counters', f'{D} impl MutableDigraph for EditDigraph')],
  'stateful model-based testing against an arc-set model, with shrinking', 'Random histories; every query compared with the model after each operation.')
p('C03','Contraction merges vertices into one and keeps all outside edges',
  'contract_pair(u,v), contract(sequence) and contract_into(center, set) leave a graph in which the merged vertices other than the centre (u, the first of the sequence, or the given centre) are gone and the centre is adjacent to exactly those remaining vertices that some merged vertex was adjacent to; no loop is created at the centre (one it already had stays) and everything else is unchanged. contract returns the centre. contract_pair with a missing vertex and contract of an empty sequence panic, as documented, without altering the graph.',
  'histories inputs','All graphs (loops included), vertex sets (repetitions, centre listed or not) and sequences of contractions mixed with edits.',
  'Tests contract fixed small graphs; wrong edge counters or lost edges need shared neighbours, adjacency inside the set or loops.',
  f'{E} {G}', [('contract_pair / contract_into / contract', f'{E}')],
  'stateful model-based testing against a set model, with shrinking','Random graphs and contraction histories.')
p('C04','Named graph generators build exactly the graph they name',
  'For all sizes including zero, path, cycle, matching, star, clique, independent, biclique, grid and complete_kpartite produce exactly the vertices 0..n-1 and exactly the edges of the named graph (cycle(1) is a loop; star(n) has n leaves; sizes of zero leave the remaining vertices isolated; parts of complete_kpartite are consecutive label ranges). The digraph versions (all but complete_kpartite) orient every edge from the smaller to the larger label, except the closing arc of a cycle.',
  'inputs configurations','All sizes.','Tests use one or two sizes each; boundary sizes (0, 1, empty parts) behave differently.',
  f'{E} {D}', [('generator functions', f'{E} and {D} impl blocks')],
  'property-based testing against closed-form edge sets','Sizes 0..40 and beyond drawn at random; exact vertex and edge sets compared.')
p('C05','Equality is equality of vertex and edge sets; clones are independent',
  'Two EditGraphs are equal exactly if they have the same vertices and edges, regardless of the history that built them, and likewise EditDigraphs with arcs; equality is reflexive, symmetric and sensitive to any single vertex, edge or arc. A clone equals its original, and editing one never changes the other.',
  'histories inputs','All pairs of construction histories, including pairs that differ in a single element.',
  'Tests compare a few identical graphs; an equality that ignores isolated vertices, direction or counters passes them.',
  f'{E} {D}', [('PartialEq, Clone', f'{E} {D}')],
  'metamorphic property-based testing (equal sets by different histories, minimal differences)','Random pairs of histories.')
p('C06','Normalisation and disjoint unions are isomorphic copies',
  'normalize relabels an EditGraph or EditDigraph with 0..n-1 preserving the relative order of labels, returns the map from new to old labels, and the relabelled graph is isomorphic under it (arc directions and loops included), leaving the original unchanged. disj_union and disj_unions contain a copy of every operand on pairwise disjoint labels (the first operand keeps its labels when joined pairwise, operands follow each other in label order), with no edges between copies, provided the labels stay within 32 bits.',
  'inputs','All graphs and digraphs with arbitrary labels, and all lists of operands, including empty ones.',
  'Tests normalise one small graph; gaps in labels, isolated vertices, empty operands and arc directions are not covered.',
  f'{E} {D}', [('normalize', f'{E} {D}'), ('disj_union(s)', f'{E} {D}')],
  'property-based testing against an explicit isomorphism oracle','Random operands; the isomorphism is checked edge by edge. One recorded finding: later digraph operands are reoriented.')
p('C07','Iterators visit every vertex, edge, arc and neighbourhood exactly once',
  'For every graph type, edges() yields every edge exactly once with the smaller endpoint first (antiparallel arcs of a digraph count as two), vertices_and_edges() yields every vertex and every edge exactly once, and neighbourhoods() yields every vertex once with exactly its neighbours, loops and isolated vertices included. For digraphs arcs(), in_neighbourhoods() and out_neighbourhoods() do the same for arcs, and for ordered graphs left_neighbourhoods() yields the vertices in order with their left neighbours.',
  'inputs','All graphs behind every graph type.','Tests count the edges of a few graphs without loops or isolated vertices.',
  f'{I} {G}', [('EdgeIterator, MixedIterator, NeighIterator, ArcIterator, LeftNeighIterator', I)],
  'property-based differential testing against a set model','Random graphs behind each type; multisets compared.')
p('C08','Neighbourhoods, balls and induced subgraphs match their definitions',
  'For every vertex set X and radius r, on every graph type: neighbourhood(X) is the set of vertices outside X with a neighbour in X, closed_neighbourhood(X) adds X, r_neighbours(u,r) and r_neighbourhood(X,r) are exactly the vertices at distance at most r, and subgraph(X) has vertex set X and exactly the edges with both endpoints in X.',
  'inputs','All graphs, vertex sets (empty, repeated members) and radii.',
  'Tests use two or three graphs and small radii.',
  f'{G}', [('Graph default methods', f'{G} trait Graph')],
  'property-based testing against BFS and set definitions','Random graphs, subsets, radii 0..12.')
p('C09','Writing and reading back returns the same graph, list or set',
  'Writing a graph, a vertex sequence or a vertex set as text, gzip (write_txt, write_gzipped) or into any Write sink - also one that accepts short writes or is interrupted - and reading it with from_txt, from_gzipped, from_file or from_buf yields the same edges (isolated vertices are not stored), the same sequence in order, or the same set. The text has one line per edge or vertex, each edge once, and writing over an existing file replaces its contents entirely.',
  'inputs fault_sequences','All graphs, sequences and sets with arbitrary 32-bit labels; all chunkings of reads and writes.',
  'Tests load fixed resource files; nothing is ever written and compared by them.',
  f'{IO}', [('WriteToFile, LoadFromFile implementations', IO)],
  'round-trip property-based testing with a flaky in-memory device','Real files in a scratch directory plus short-writing/interrupting devices.')
p('C10','Malformed input and failing devices give errors, not panics or wrong data',
  'Reading text in which some line is not exactly two (graphs) or one (sequences, sets) decimal numbers within 32 bits separated by white space, a damaged or truncated gzip file, a file with unknown extension, a missing path, or from a reader that fails, returns Err: it neither panics nor returns partial or different data; well-formed text (also with CRLF, extra blanks, no final newline, multi-member gzip) is accepted with exactly its contents. Writing to a sink or path that fails, even only on flushing, returns Err.',
  'inputs fault_sequences','All byte strings as file contents, all single failures of reader and writer. (Numbers with a leading plus sign are left unspecified.)',
  'Tests read only well-formed files and never make a device fail.',
  f'{IO}', [('line parsing and error propagation', IO)],
  'grammar-based fuzzing with fault injection against a reference parser','Generated and mutated files, fault positions over the whole stream.')
p('C11','Complement, merge, intersection and subdivision match their definitions',
  'invert has the same vertices and exactly the missing edges between distinct vertices; merge has all vertices and edges of both graphs; intersect has exactly the common vertices and edges. subdivide(t) of a loop-free graph keeps all original vertices with their labels and replaces every edge by a path with exactly t new inner vertices, distinct for every edge, so the result has n+tm vertices and m(t+1) edges.',
  'inputs','All pairs of graphs, all subdivision counts (0 included).',
  'Tests exercise one example each.',f'{OP}', [('GraphOperations', OP)],
  'property-based testing against set definitions','Random overlapping pairs behind several graph types.')
p('C12','Graph products match their definitions and the returned map',
  'cartesian_product and lexicographic_product of loop-free graphs A and B have one vertex for every pair in V(A)xV(B), and the returned map is a bijection from the product vertices onto these pairs. In the cartesian product (a,b) and (c,d) are adjacent iff a=c and bd is an edge of B or b=d and ac is an edge of A; in the lexicographic product iff bd is an edge of B, or b=d and ac is an edge of A.',
  'inputs','All pairs of loop-free graphs, with isolated vertices and empty factors.',
  'Tests multiply two small graphs without isolated vertices.',f'{OP}', [('GraphOperations products', OP)],
  'property-based testing against the definition over all pairs','Factors up to 7 vertices, all pairs of product vertices compared.')
p('C13','Subgraph comparison decides the exact relation',
  'compare_subgraph returns Eq iff both graphs have the same vertices and edges, Sub iff the first is a proper subgraph of the second, Sup iff it is a proper supergraph, and Incomp otherwise; swapping the arguments swaps Sub and Sup.',
  'inputs','All pairs of graphs, in particular pairs differing in one vertex or edge.',
  'Tests compare three or four fixed pairs.',f'{C}', [('CompareGraphs', C)],
  'property-based testing with near-miss pairs against set inclusion','Random related pairs.')
p('C14','Connected components partition the vertices correctly',
  'components() of any graph returns pairwise disjoint non-empty sets covering all vertices such that two vertices are in the same set iff a path joins them; isolated vertices form singletons and the empty graph has none.',
  'inputs','All graphs behind every graph type.','The components test is empty.',f'{A}', [('union-find over edges', f'{A} components')],
  'property-based testing against BFS','Random graphs up to 500 vertices.')
p('C15','The bipartiteness test returns a valid witness',
  'is_bipartite returns a bipartition (two disjoint sets covering all vertices, no edge inside a side) iff the graph has no odd cycle, and otherwise a list of an odd number of distinct vertices in which consecutive vertices and the last and first are adjacent (a single vertex if it carries a loop).',
  'inputs','All graphs, disconnected ones and ones with loops included.',
  'Tests check a few cycles; malformed cycle witnesses need particular search trees.',f'{A}', [('two-colouring with parent pointers', f'{A} is_bipartite')],
  'property-based testing with witness validation and an independent verdict','Random graphs, half made bipartite.')
p('C16','Degeneracy order, bounds and core numbers are valid',
  'For loop-free graphs degeneracy() returns (lower, upper, order, core) with order a permutation of the vertices, lower <= degeneracy <= upper, every vertex having at most core[v] <= upper earlier neighbours in the order, and core[v] at least the true core number; if no vertex has more than 128 neighbours all values are exact (for digraphs with antiparallel arcs only the upper bounds hold, since these arcs count twice). OrdGraph::by_degeneracy and DegenGraph::from_graph contain all vertices and, in that case, have maximum left-degree equal to the degeneracy.',
  'inputs','All loop-free graphs, including ones with cores beyond 128.',
  'Tests compare the bounds for a few sparse graphs; the coarse buckets above 128 are not reached.',f'{A} {O} {N}', [('bucket queue with exponential buckets', f'{A} degeneracy')],
  'property-based testing against exact core numbers','Random graphs, one in 400 with a dense core of 120-420 vertices.')
p('C17','Ordered graphs are faithful to their graph and their ordering',
  'OrdGraph, DegenGraph (from with_ordering, automatic degeneracy ordering, conversion or the builder) have exactly the vertices and edges of the loop-free source graph (antiparallel arcs of a source digraph are one edge); vertices() follows the ordering and index_of increases along it. left/right_neighbours, left/right degrees (single, map and maximum), left_neighbours_slice, adjacent, adjacent_ordered, leftmost and rightmost of any vertex set, first and iteration are those determined by graph and ordering, with left neighbours sorted by the ordering.',
  'inputs','All loop-free graphs and all orderings of their vertices.',
  'Tests compare structures for one or two orderings.',f'{O} {N} {G}', [('index maps and left/right sets', f'{O} {N}'), ('LinearGraph default methods', G)],
  'property-based testing against a graph-plus-permutation model','Random graphs and seven kinds of orderings.')
p('C18','Swapping two vertices of an ordered graph exchanges only their positions',
  'After any sequence of swap(u,v) calls an OrdGraph is indistinguishable from one freshly built from the same graph with the positions of u and v exchanged each time: ordering, indices, left and right neighbourhoods, degrees and everything derived from it (reachable sets, conversions). Swapping a vertex with itself or with an absent vertex changes nothing.',
  'histories inputs','All loop-free graphs and all sequences of swaps, including adjacent vertices and common neighbours.',
  'Tests swap once in two graphs.',f'{O}', [('swap', f'{O}')],
  'stateful model-based testing against rebuilding','Histories of 1-60 swaps.')
p('C19','Normalising a DegenGraph relabels it along its ordering',
  'DegenGraph::normalize relabels the i-th vertex of the ordering as i and returns the map from new to old labels; the graph afterwards is isomorphic under this map and behaves in every query like one built with the ordering 0,1,...,n-1 and sorted left neighbourhoods. A clone taken before is unaffected and normalising again changes nothing.',
  'inputs histories','All ordered loop-free graphs, arbitrary labels, all ways of constructing them.',
  'One test relabels one graph.',f'{N}', [('normalize (in-place rewriting of the compact representation)', N)],
  'property-based testing against a relabelled model','Random ordered graphs, also built by hand.')
p('C20','Strongly reachable sets match their definition',
  'For ordered loop-free graphs and every r >= 0, sreach_set(u,r) and sreach_sets(r) contain exactly the vertices v left of u that can be reached from u by a path of length at most r whose inner vertices are all right of u, each with the length of the shortest such path; sreach_sizes gives their numbers. right_bfs(u,d) returns d+1 layers, layer i holding the vertices at distance exactly i from u in the subgraph of u and all vertices right of u.',
  'inputs','All ordered loop-free graphs (OrdGraph and DegenGraph) and radii.',
  'Tests compare with a slow computation on one or two graphs for small r.',f'{L}', [('right_bfs, sreach_set', L)],
  'property-based testing against the definition','Random ordered graphs, radii 0-10 and n.')
p('C21','Weakly reachable sets match their definition',
  'For ordered loop-free graphs and every r >= 0, wreach_sets(r) maps every vertex u to exactly the vertices v left of u for which there is a u-v-path of length at most r with v as leftmost vertex, each with the length of the shortest such path, and wreach_sizes gives their numbers.',
  'inputs','All ordered loop-free graphs (OrdGraph and DegenGraph) and radii.',
  'Tests use a few fixed graphs.',f'{L}', [('right_bfs from every vertex', f'{L} wreach_sets')],
  'property-based testing against the definition','Random ordered graphs, radii 0-10 and n.')
p('C22','Reachability graphs store exactly the weak or strong reachability',
  'to_wreach_graph::<D> and to_sreach_graph::<D> of an ordered graph keep vertices, ordering, edges, degrees and left neighbours, and reachables(u).at(d) lists exactly the vertices weakly (strongly) reachable from u at distance d for 1 <= d <= D in ordering order; reachables_all is their concatenation. iter and next_reachables walk the vertices in order with the same contents, and a graph made with the builder returns what was appended.',
  'inputs','All ordered loop-free graphs and depths.',
  'Tests check depths up to 3 on few graphs; the packed encoding has boundary cases (empty segments, last vertex).',f'{R} {O}', [('packed vector of segments', R)],
  'property-based testing against the definition','Depths 1-5 and 7, random ordered graphs.')
p('C23','The number of maximal cliques is exact for every ordering',
  'count_max_cliques of a loop-free ordered graph (OrdGraph, DegenGraph, ReachGraph) is the number of inclusion-maximal cliques, isolated vertices and non-extendable edges included, independent of the ordering.',
  'inputs','All loop-free graphs and orderings.','Tests count a few structured graphs under one ordering.',f'{L}', [('pivoting clique enumeration', f'{L} bk_pivot_count')],
  'property-based differential testing against Bron-Kerbosch on sets','Random graphs up to 13 (sparse: 40) vertices, complete multipartite graphs with closed form.')
p('C24','Greedy colouring is proper and uses few colours',
  'colour_greedy of a loop-free ordered graph (OrdGraph, DegenGraph, ReachGraph) colours exactly the vertices of the graph, gives adjacent vertices different colours and uses at most one colour more than the largest left-degree.',
  'inputs','All loop-free graphs and orderings.','One clique and one path are tested.',f'{L}', [('colour_greedy', L)],
  'property-based testing with result validation','Random ordered graphs up to 300 vertices.')
p('C25','Dominating sets dominate and their distances are exact',
  'domset(r,_) and domset_with_target(r,_,T) of a loop-free ordered graph (OrdGraph, DegenGraph) return a set of vertices such that every vertex (every vertex of T) has distance at most r to it, for every r >= 0 (small enough that (2r)^2 fits 32 bits), and a map with the exact distance to this set for every vertex that can reach it. For an empty target set and map are empty.',
  'inputs','All ordered loop-free graphs, radii and target sets, disconnected graphs and many far-away dominators included.',
  'Tests verify domination on one network for radii 1-4.',f'{L}', [('greedy over weakly reachable sets with promotion counter', f'{L} domset_with_target')],
  'property-based testing with result validation by BFS','Random ordered graphs; constructed crowds exceed the promotion counter.')
p('C26','The witness colouring of a dominating set is scattered',
  'When a witness is requested, domset(r,true) and domset_with_target(r,true,T) of a loop-free ordered graph (OrdGraph, DegenGraph) also return a colouring of a subset of dominating set and target, non-empty unless the target is empty, in which any two vertices of equal colour have distance at least 2r+1; without request no colouring is returned.',
  'inputs','All ordered loop-free graphs, radii and target sets.',
  'Tests check one network and a few radii.',f'{L}', [('auxiliary conflict graph over 2r-weak reachability, greedily coloured', f'{L} domset_with_target')],
  'property-based testing with result validation by BFS','All same-coloured pairs compared with true distances.')
p('C27','Scattered colouring partitions the target into far-apart classes',
  'scattered_colouring(d,T) of a loop-free ordered graph (OrdGraph, DegenGraph) returns non-empty pairwise disjoint sets whose union is T, and any two different vertices of one set have distance at least d, for every d >= 0 and every set T of vertices.',
  'inputs','All ordered loop-free graphs, distances (odd and even) and target sets.',
  'Tests check one network for few distances.',f'{L}', [('iterated dominating sets, conflict colouring, class merging', f'{L} scattered_colouring')],
  'property-based testing with result validation by BFS','All same-class pairs compared with true distances.')
p('C28','Short-distance queries of an augmentation are exact',
  'For a DTFGraph made by orient or orient_deep from a loop-free graph and brought to depth d by any sequence of augment (any lookahead parameter), domset and layer calls, small_distance(u,v) is Some(distance) iff the distance of u and v in the original graph is at most d, and None otherwise; it is symmetric and 0 for u=v. get_depth is the largest depth requested from augment or domset (at least 1); viewing a layer never changes it.',
  'inputs histories','All loop-free graphs and all call histories.',
  'The only distance test is disabled; others compare one network.',f'{T}', [('transitive-fraternal augmentation', f'{T} augment, small_distance')],
  'stateful property-based testing against BFS distances','Random graphs and histories, all pairs for small graphs.')
p('C29','Augmentations are consistent weighted orientations of the graph',
  'In every DTFGraph derived from a loop-free graph by orient, orient_deep and augment each edge of the graph is exactly one arc of weight 1 in one direction, all other arcs have weight between 2 and the depth, and no weight is below the true distance of its ends, and no arc joins a vertex to itself; orient gives in-degrees of at most the degeneracy (if no vertex has more than 128 neighbours). All views agree on the same arcs: arcs, arcs_at, num_arcs_at_depth, has_arc, has_arc_at, get_arc_depth, in-neighbours (all, by depth, with weights), degrees, neighbourhood iterators, layers (degrees and adjacency of that depth only), to_undirected and edge_subgraph, also after add_vertex and add_arc.',
  'inputs histories','All loop-free graphs, depths and histories (each ordered pair inserted with one weight only).',
  'Only one two-edge subgraph and one iteration are tested.',f'{T} {I}', [('per-vertex in-arc sets by depth with counters', T), ('DTFArcIterator, DTFNIterator', I)],
  'stateful model-based testing against an arc-weight model','Random augmentations, edge subgraphs and insertion histories.')
p('C30','Dominating sets from augmentations dominate',
  'DTFGraph::domset(r), called on any augmentation of a loop-free graph for any r >= 0, returns a set of vertices such that every vertex of the graph has distance at most r to it, and leaves an augmentation of depth at least r with the same vertices.',
  'inputs histories','All loop-free graphs, prior depths and radii.','One network is tested for radii 1-4.',f'{T}', [('greedy with promotion counter', f'{T} domset')],
  'property-based testing with result validation by BFS','Random graphs and brooms, radii 0-5.')
p('C31','Neighbourhood traces are counted exactly',
  'For a DegenGraph and any list X of distinct vertices sorted by the ordering, compute_traces of its oracle assigns to every subset Y of X (as list sorted by the ordering) the number of vertices outside X whose neighbourhood intersects X in exactly Y; subsets that do not occur are absent or have count 0.',
  'inputs','All loop-free graphs, orderings and query sets.','Tests check two graphs.',f'{S}', [('counts of left-neighbourhood prefixes over strong 2-reachability, corrected by left neighbours', S)],
  'property-based testing against direct counting','Random ordered graphs with planted centres.')
p('C32','Neighbour counts and shatteredness queries are exact',
  'compute_neighbour_count(X) (X distinct and sorted by the ordering) is the number of vertices outside X with a neighbour in X, and is_shattered(X,k) for distinct X in any order and k >= |X| is true iff every subset of X is the exact intersection of X with the neighbourhoods of at least 2^(k-|X|) vertices outside X.',
  'inputs','All loop-free graphs, orderings, query sets and k.','Tests check one network.',f'{S}', [('compute_neighbour_count, is_shattered', S)],
  'property-based testing against direct counting','Random ordered graphs, exactly and nearly shattered sets.')
p('C33','Vertex maps and colourings follow their set semantics',
  'invert groups the vertices of a map or colouring by value, majority_set returns a largest such group with its value (None iff empty), from_sets colours by position with later sets overriding, subset restricts, insert returns the former colour, and len, vertices, colours (each once), iter, get, contains, indexing and equality agree with the contents. disjoint_extend keeps the colours of coloured vertices and gives each new vertex its colour in the argument shifted by one more than the previous largest colour (by 0 if there was none), so old and new colours never coincide (non-negative colours, sums within range).',
  'inputs histories','All maps with non-negative colours and operation histories.','One example of each is tested.',f'{G}', [('VertexColouring, VertexMapOperations', G)],
  'stateful model-based testing against a map model','Random colourings and histories of 1-6 operations.')
p('C34','Intersections of vertices and edges follow their endpoint sets',
  'Two vertex-or-edge objects intersect iff they share a vertex; the intersection of two edges with the same endpoints is that edge, any other non-empty intersection is a shared vertex, and the intersection is symmetric up to the order of endpoints. as_vertex, as_edge, is_vertex and is_edge reflect the kind.',
  'inputs','All pairs of vertices and edges, loops included.','Not tested.',f'{G}', [('VertexOrEdge', G)],
  'property-based testing against endpoint sets','All pairs among random objects over few labels.')
p('C35','Safe calls never have undefined behaviour, whatever their arguments',
  'No sequence of calls of the public (safe) functions of DegenGraph, OrdGraph, ReachGraph, DTFGraph, their builders and iterators, and SReachTraceOracle has undefined behaviour, not even in a release build: with whatever arguments - absent vertices, unsorted or repeated lists, incomplete orderings, inconsistent builder input, an oracle asked about another or a relabelled graph, objects used on after a call that panicked - every call returns or panics; it never reads or writes outside its buffers or relies unchecked on an entry that does not exist.',
  'inputs histories','All call sequences with arbitrary arguments.',
  'Tests only make valid calls in a debug build; unchecked accesses go wrong only for particular invalid arguments in a release build.',
  f'{N} {S} {R} {O} {I} {T}', [('get_unchecked on the packed contents', f'{N} normalize, left_neighbours_slice, DegenOrderIterator, DegenIterator'), ('corrections of the trace of a prefix', f'{S} compute_traces')],
  'random call-sequence fuzzing of the safe API under AddressSanitizer and unsafe-precondition checks','Wild call sequences in a build without debug assertions; the oracle is that the process is not aborted.')

with open(os.path.join(ROOT,'properties.jsonl'),'w') as f:
    for x in P:
        f.write(json.dumps(dict(id=x['id'],title=x['title'],statement=x['statement'],quantifier=dict(over=x['over'],text=x['text']),
            why_tests_cant=x['why'],anchors=dict(files=x['files'],mechanism=[dict(name=a,where=b) for a,b in x['mech']],hook_needed=None)))+'\n')
TRUST=' Trusts the reference model (harness/src/refgraph.rs) and the oracle of the property; explores only generated cases, cases are reproducible from VERIF_SEED. 12% of the cases run in a release configuration under AddressSanitizer.'
man=dict(version=1,setup_cmd='bash check.sh build',
  checks=[dict(property=x['id'],quick_cmd=f"bash check.sh {x['id']} quick",thorough_cmd=f"bash check.sh {x['id']} thorough",
     technique=x['technique'],level='exploration',level_note=x['note']+TRUST) for x in P],
  not_applicable=[],
  notes='No hooks in /repo: the harness uses the public API only. fix: commits and the remaining known finding are listed in known_findings.txt.')
json.dump(man,open(os.path.join(ROOT,'MANIFEST.json'),'w'),indent=1)
for x in P: assert len(x['title'])<=80, x['title']
print(len(P))
