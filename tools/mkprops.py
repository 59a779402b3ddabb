#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
A='include/graph/algorithm/'; C='include/graph/container/'; V='include/graph/views/'; L='include/graph/adj_list/'

# ---------------------------------------------------------------- traversal
p('T01','Breadth-first search: each reachable vertex once, level by level, edges once',
 'A breadth-first search from any set of source vertices discovers every vertex reachable from a source exactly once and no other vertex, examines and finishes vertices in order of non-decreasing distance from the nearest source, and reports every out-edge of every reached vertex exactly once. Each vertex gets its callbacks in the order initialize (sources only), discover, examine, its edges, finish, with a discovery of a new vertex directly following the edge that leads to it. A source mentioned several times repeats its own callbacks once per mention, nothing else is repeated, and the graph is unchanged.',
 ['inputs'], 'every directed graph (self-loops, parallel edges, isolated and unreachable vertices), every source list including empty and repeated sources, every supported graph representation and visitor subset',
 'The tests check a dozen fixed graphs and mostly count callbacks; order, per-edge and per-source obligations on arbitrary graphs are not sampled.',
 [A+'breadth_first_search.hpp', A+'traversal_common.hpp'], [('visited marking before enqueue; FIFO queue','breadth_first_search')], ['visitor callbacks of breadth_first_search (multi- and single-source)'])
p('T02','Depth-first search: nested visits and truthful edge classification',
 'A depth-first search from a source discovers and finishes every vertex reachable from it exactly once and no other vertex, with discover/finish intervals properly nested along the tree edges it reports. Every out-edge of every reached vertex is examined exactly once, and is reported as tree edge if its target is new, back edge if its target is still being visited (including self-loops), and forward-or-cross edge if its target is finished. The graph is unchanged.',
 ['inputs'], 'every directed graph with self-loops and parallel edges, every source, every supported graph representation and visitor subset',
 'Edge classification depends on the whole stack of suspended vertices; tests use a handful of small graphs with counted callbacks.',
 [A+'depth_first_search.hpp'], [('three-colour iterative DFS','depth_first_search')], ['visitor callbacks of depth_first_search'])
p('T03','Topological sort succeeds exactly on acyclic input and orders every edge',
 'Topological sorting of a whole graph, or of the part reachable from one or several sources, reports success exactly when that part has no directed cycle (a self-loop is a cycle). On success it outputs each vertex of that part exactly once and nothing else, with the source of every edge before its target. The graph is unchanged.',
 ['inputs'], 'every directed graph, every source list (empty, repeated, overlapping), every supported graph representation',
 'Tests cover chosen DAGs and cycles; whether a cycle is noticed depends on visiting order over all graphs.',
 [A+'topological_sort.hpp'], [('shared colour array with back-edge detection, reversed finish order','topological_sort')], ['return value and output sequence of the three topological_sort overloads'])

# ---------------------------------------------------------------- shortest paths
p('S01','Dijkstra: exact shortest distances and a consistent shortest-path tree',
 'For non-negative edge weights, after Dijkstra’s algorithm the distance of every vertex reachable from a source equals the least total weight of a path from a source, and every other vertex keeps the infinite distance. The predecessor of each reached non-source vertex is joined to it by an edge whose weight is exactly the difference of their distances, and following predecessors leads to a source; sources and unreached vertices keep themselves as predecessor. The same distances result from the distances-only and the single- and multi-source forms and with a custom comparison and combination that describe the same ordering.',
 ['inputs'], 'every directed graph with non-negative integer or floating weights including zero-weight edges, self-loops, parallel edges, every source set, every overload and supported graph representation',
 'Tests compare a few textbook graphs; wrong relaxations or queue order need specific weight patterns.',
 [A+'dijkstra_shortest_paths.hpp', A+'traversal_common.hpp'], [('priority-queue relaxation','dijkstra_shortest_paths'),('relax_target','dijkstra_shortest_paths.hpp')], ['distance and predecessor ranges after the call'])
p('S02','Shortest-path visitor events describe the actual search',
 'Visitor callbacks of Dijkstra’s algorithm tell the truth about the search: sources are initialized and discovered first, a vertex is discovered once when first reached and examined once, after being discovered and in order of non-decreasing final distance, every out-edge of every reached vertex is examined then, and the vertex is finished after its edges. In both Dijkstra’s and the Bellman-Ford algorithm an examined edge is reported as relaxed exactly when it strictly improved its target’s distance and as not relaxed otherwise; Bellman-Ford’s final report of each edge as minimized or not is true of the final distances. The graph is unchanged.',
 ['inputs'], 'every directed graph with weights allowed for the algorithm, every set of distinct sources, every visitor subset and supported graph representation',
 'Tests only count callbacks on fixed graphs; the relation between each event and the distance table is not observed.',
 [A+'dijkstra_shortest_paths.hpp', A+'bellman_ford_shortest_paths.hpp'], [('visitor dispatch around relax_target','dijkstra_shortest_paths, bellman_ford_shortest_paths')], ['visitor callbacks together with the distance range after the call'])
p('S03','Bellman-Ford: exact distances; reachable negative cycles always reported',
 'If no negative-weight cycle is reachable from a source, the Bellman-Ford algorithm reports none and leaves the exact least path weight for every reachable vertex and the infinite distance for every other vertex, with predecessors forming a shortest-path tree rooted at the sources. If a negative-weight cycle is reachable from a source, a vertex is reported. Negative weights in parts of the graph that are not reachable have no effect.',
 ['inputs'], 'every directed graph with positive, zero and negative weights, unreachable parts, self-loops and parallel edges, every source set, every overload and supported graph representation',
 'The interesting cases need negative weights combined with unreachable vertices, edge order and iteration counts that fixed examples do not hit.',
 [A+'bellman_ford_shortest_paths.hpp'], [('|V|-1 relaxation rounds plus detection round','bellman_ford_shortest_paths')], ['returned optional vertex, distance and predecessor ranges'])
p('S04','Extracting a negative cycle terminates and yields a real negative cycle',
 'Whenever Bellman-Ford reports a negative cycle, extracting it from the reported vertex and the predecessors terminates and outputs the distinct vertices of one directed cycle of the graph whose total weight can be made negative by choosing among its parallel edges. When no cycle was reported the extraction outputs nothing and says so.',
 ['inputs'], 'every directed graph with a reachable negative cycle, including vertices downstream of the cycle and several cycles, and every vertex numbering',
 'Tests use one or two cycles whose reported vertex happens to lie on the cycle.',
 [A+'bellman_ford_shortest_paths.hpp'], [('predecessor walk','find_negative_cycle')], ['output of find_negative_cycle after bellman_ford_shortest_paths'])

# ---------------------------------------------------------------- components
p('K01','Strongly connected components are exactly the mutual-reachability classes',
 'After the strongly-connected-components algorithm, two vertices have the same component number exactly when each is reachable from the other, and the numbers used are 0,1,…,k-1 without gaps. This holds both when a separate transposed graph is supplied and when incoming edges of the graph itself are used.',
 ['inputs'], 'every directed graph, every supported representation of the graph and its transpose',
 'A wrong finishing order only merges components on particular edge orders that the fixed graphs do not contain.',
 [A+'connected_components.hpp'], [('two-pass search over finish order','kosaraju')], ['component range after both kosaraju overloads'])
p('K02','Connected components are exactly the undirected reachability classes',
 'After computing connected components of an undirected graph, two vertices have the same component number exactly when a path of edges joins them, the numbers are 0,1,…,k-1 and the returned count is k. Isolated vertices and vertices with only self-loops are components of their own.',
 ['inputs'], 'every undirected graph (edges visible from both ends), including empty graph, self-loops, parallel edges, every supported representation',
 'Tests sample a few graphs; component numbering across arbitrary shapes is not covered.',
 [A+'connected_components.hpp'], [('iterative DFS labelling','connected_components')], ['returned count and component range'])
p('K03','Afforest sampling labels exactly the undirected reachability classes',
 'After the sampling-based connected-components algorithm, for any number of sampling rounds, two vertices have the same label exactly when they are joined by a path of edges regardless of direction, and each label is itself a vertex of that component. This holds for the one-graph form on graphs whose edges are visible from both ends and for the form that is also given the transposed graph on any directed graph, including empty graphs.',
 ['inputs','configurations'], 'every graph, every number of neighbor rounds from zero to beyond the maximum degree, graphs with several large components so that the skipped component varies',
 'The shortcut that skips the most frequent component is only wrong for particular graph/round/sample combinations.',
 [A+'connected_components.hpp'], [('link','connected_components.hpp'),('compress','connected_components.hpp'),('sample_frequent_element','connected_components.hpp')], ['component range after both afforest overloads'])
p('B01','Articulation points are exactly the vertices whose removal disconnects',
 'The articulation-point algorithm outputs, each exactly once, precisely those vertices whose removal increases the number of connected components of the undirected graph. Self-loops and parallel edges do not change the answer except through connectivity.',
 ['inputs'], 'every undirected graph with self-loops, parallel edges and several components, every vertex numbering and adjacency order, every supported representation',
 'Low-link mistakes appear only for particular combinations of DFS order, parallel edges and roots.',
 [A+'articulation_points.hpp'], [('iterative low-link DFS','articulation_points')], ['output sequence of articulation_points'])
p('B02','Biconnected components are exactly the maximal biconnected vertex sets',
 'The biconnected-components algorithm outputs exactly the vertex sets of the blocks of the undirected graph: every edge between distinct vertices lies inside exactly one output set, two sets share at most one vertex, and no set has repeated vertices. Every vertex with no edge to another vertex forms a set of its own, and the set of vertices that occur in several sets is exactly the set of articulation points.',
 ['inputs'], 'every undirected graph with self-loops, parallel edges and several components, every vertex numbering and adjacency order, every supported representation',
 'Edge-stack mistakes only show for particular nesting of blocks and parallel edges.',
 [A+'biconnected_components.hpp'], [('edge stack with low-link DFS','biconnected_components')], ['output container of biconnected_components'])

# ---------------------------------------------------------------- spanning trees and others
p('M01','Kruskal: a minimum spanning forest with truthful totals',
 'Kruskal’s algorithm, in the copying and the in-place form, outputs edges of the input that form a spanning forest of minimum total weight (or of optimal weight under a supplied edge ordering), and returns exactly that total weight and the number of connected components among all vertex ids up to the largest one mentioned. The copying form leaves its input unchanged and the in-place form only permutes it; inputs with no edge, one edge, self-loops, parallel edges and negative weights are included.',
 ['inputs'], 'every list of weighted edges in every order, every comparison',
 'Tests use connected textbook graphs; degenerate inputs and ties in special orders are missing.',
 [A+'mst.hpp'], [('disjoint-set union','disjoint_find / disjoint_union_find'),('sorted edge scan','kruskal, inplace_kruskal')], ['output edge list, returned pair, input after call'])
p('M02','Prim: a minimum spanning tree of the seed’s component',
 'For every undirected weighted graph and seed, Prim’s algorithm leaves the seed as its own predecessor and for every other vertex of the seed’s component a predecessor and weight naming an actual edge of that weight, so that these edges form a spanning tree of the component of minimum total weight (or optimal under a supplied comparison), and returns exactly that total. Predecessors of vertices outside the component are unchanged.',
 ['inputs'], 'every undirected weighted graph (parallel edges, self-loops, negative weights, ties, several components), every seed and comparison, every supported representation',
 'Tests use graphs where a wrong queue order or re-attachment still happens to yield the same tree.',
 [A+'mst.hpp'], [('priority-queue growth','prim')], ['predecessor and weight ranges, returned total'])
p('N01','Maximal independent set is independent and maximal',
 'The maximal-independent-set algorithm outputs distinct vertices no two of which are adjacent, such that every vertex not output is adjacent to an output vertex or has a self-loop; vertices with self-loops are never output, a seed without self-loop always is, and the returned count is the number of output vertices.',
 ['inputs'], 'every undirected graph with self-loops and parallel edges, every seed, every supported representation',
 'Tests sample few graphs; self-loops away from the seed and particular seeds are missing.',
 [A+'mis.hpp'], [('greedy removal','maximal_independent_set')], ['output sequence and returned count'])
p('N02','Triangle count is exact',
 'For every simple undirected graph whose edges are stored at both ends in id order, with or without self-loops, the triangle count equals the number of unordered triples of distinct mutually adjacent vertices.',
 ['inputs'], 'every undirected graph without parallel edges, including self-loops and isolated vertices, every supported ordered representation',
 'Tests check a few well-known graphs.',
 [A+'tc.hpp'], [('sorted adjacency intersection','triangle_count')], ['returned count'])
p('N03','Jaccard coefficients are exact and reported once per edge',
 'For every graph the Jaccard callback is invoked exactly once for every stored directed edge that is not a self-loop and never otherwise, with that edge, its end points, and the number of common neighbours divided by the number of vertices neighbouring either end point, where a vertex’s neighbours are the distinct other vertices its edges lead to.',
 ['inputs'], 'every directed and undirected graph with self-loops and parallel edges, every supported representation and result type',
 'Tests check a few symmetrical graphs.',
 [A+'jaccard.hpp'], [('neighbour-set precomputation','jaccard_coefficient')], ['callback arguments of jaccard_coefficient'])
p('N04','Label propagation adopts most frequent neighbour labels until stable',
 'Each label-propagation sweep visits every vertex once in some order and gives it a label most frequent among the current labels of the targets of its out-edges, ignoring unlabelled targets when an unlabelled marker is given and leaving vertices without labelled out-neighbours alone. A run with iteration limit k performs at most k sweeps, stops earlier only when a whole sweep changed nothing, and so an unlimited run ends with every vertex holding one of its most frequent neighbour labels.',
 ['inputs','schedules'], 'every graph, every initial labelling, every random sequence (visiting order and tie-breaks) and iteration limit',
 'The outcome is random; tests can only check graphs where every schedule gives the same result.',
 [A+'label_propagation.hpp'], [('shuffled asynchronous sweeps','label_propagation')], ['label range after runs with successive iteration limits'])

# ---------------------------------------------------------------- containers
p('C01','A dynamic graph contains exactly the edges that were loaded',
 'After any sequence of constructions and edge loads, a dynamic graph contains exactly the loaded edges, each leaving its source vertex, leading to its target vertex and carrying its own value, in loading order per source vertex for sequence edge containers (reverse order for forward lists) and once per distinct target for unique-key edge containers; the vertices are all ids up to the largest mentioned or requested (or exactly the mentioned ids for associative vertex containers). The reported vertex count and, for sequence edge containers, the edge count are exactly those of the contents.',
 ['inputs','histories','configurations'], 'every edge list (any order, duplicates, self-loops, gaps in ids), every sequence of loads, every combination of vertex and edge container and value types',
 'Tests load a few lists per container type; sequences of loads and unusual id patterns are not covered.',
 [C+'dynamic_graph.hpp', C+'traits/'], [('edge loading','dynamic_graph_base::load_edges'),('constructors','dynamic_graph')], ['vertices, edges, values and counts through the public interface after each operation'])
p('C02','Dynamic graph vertex values and object semantics follow the history',
 'After any sequence of vertex loads, edge loads, resizes, clears, copies, moves and swaps, every vertex of a dynamic graph carries the value last given to its id (or the default), and edges, ids and graph value are what a plain model of the history predicts. A copy equals the original at that time and later changes to either do not affect the other; a moved-to or swapped graph holds exactly what the other held.',
 ['histories','configurations'], 'every sequence of operations on several graph objects, every container combination',
 'Tests exercise single operations, not histories over several objects.',
 [C+'dynamic_graph.hpp'], [('vertex loading and resizing','dynamic_graph_base::load_vertices, resize_vertices'),('defaulted copy/move/swap','dynamic_graph')], ['full projection of each object after each operation'])
p('C03','Incoming edges mirror outgoing edges exactly',
 'In every graph that offers incoming edges, after any history of loads, copies and moves, the incoming edges of a vertex are exactly the outgoing edges that lead to it: same multiplicity, same source, same value; in-degrees, and searches for and tests of an incoming edge between two vertices agree with that.',
 ['inputs','histories','configurations'], 'every edge list and load history, every bidirectional container combination and undirected graph',
 'Tests check chosen graphs per container; multiplicities and values on arbitrary lists are not covered.',
 [C+'dynamic_graph.hpp', L+'detail/graph_cpo.hpp'], [('paired in-edge insertion','dynamic_graph_base::load_edges'),('incoming-edge access','in_edges, in_degree, find_in_edge, contains_in_edge')], ['in_edges, in_degree, source_id, edge_value, find_in_edge, contains_in_edge'])
p('C04','A compressed graph is a faithful, order-preserving copy of its edge list',
 'A compressed graph built from edges grouped by ascending source has exactly the vertices 0..N (N the largest id mentioned, or more if requested or given values), and for each vertex exactly its input edges in input order with their targets and values; vertex values and graph value are those supplied. All count, degree, lookup and value queries agree with that, also for empty input, for ids without edges, and with narrow index types.',
 ['inputs','configurations'], 'every sorted edge list including gaps, empty rows, duplicates, self-loops, every construction and load path (constructors, load edges/vertices in either order, initializer lists), every value/void and index type combination',
 'Tests build a few graphs per constructor; empty and trailing rows, load order and narrow types are thinly sampled.',
 [C+'compressed_graph.hpp'], [('row index and column index construction','compressed_graph_base::load_edges, load_vertices')], ['vertices, edges, values and counts through the public interface'])
p('C05','Partitions split the vertices of a compressed graph exactly',
 'For every valid list of partition start ids, the partitions of a compressed graph are consecutive, disjoint and together contain every vertex exactly once: the number of partitions is the number given (or one), each partition’s vertex range and size are exactly those ids from its start to the next start, and the partition reported for a vertex is the one whose range contains it.',
 ['inputs','configurations'], 'every graph size and every valid partition start list including empty graphs and a single partition',
 'Tests check a couple of partitionings.',
 [C+'compressed_graph.hpp'], [('partition index','terminate_partitions, partition_id, vertices(g,pid)')], ['num_partitions, partition_id, vertices(g,pid), num_vertices(g,pid)'])
p('C06','An undirected graph shows each edge from both ends after any edits',
 'After any sequence of vertex creations, edge creations, edge erasures (through either end, by range, or through the whole-graph edge range), clears and resizes, an undirected adjacency list contains exactly the edges created and not yet erased; each edge between distinct vertices is visible exactly once from each of its ends with the other end as target and one shared value, in the same relative order in which it was created for that end, and vertex, edge and degree counts agree with that. No operation disturbs other edges or values, or accesses destroyed edges.',
 ['histories'], 'every sequence of create, erase, clear and resize operations with parallel edges, every position of the erased edge in both lists',
 'Doubly-threaded list bugs need particular positions in both endpoints’ lists across multi-step histories.',
 [C+'undirected_adjacency_list.hpp', C+'detail/undirected_adjacency_list_impl.hpp', C+'detail/undirected_adjacency_list_api.hpp'], [('edge link/unlink in two lists','ual_edge, ual_vertex_edge_list')], ['vertices, edges, values, counts through the public interface after each operation'])
p('C07','Copies and moves of undirected graphs are exact and independent',
 'Copy construction and assignment of an undirected adjacency list yield a graph with the same vertices, edges (whatever the order of their end points), values and counts, and later changes to either graph never affect the other; move construction, move assignment and swap transfer exactly the contents and leave the source usable for destruction and re-assignment.',
 ['histories'], 'every reachable graph content, every sequence of copies, moves, swaps and edits over several objects',
 'Tests copy graphs whose edges were created in ascending order only.',
 [C+'detail/undirected_adjacency_list_impl.hpp'], [('copy constructor','undirected_adjacency_list copy'),('move','undirected_adjacency_list move/swap')], ['full projection of each object after each operation'])

# ---------------------------------------------------------------- access and views
p('A01','All access functions agree with the stored graph in every representation',
 'For every graph representation the library accepts (its own containers and nested standard ranges), vertex ranges, ids, lookup by id, vertex and edge counts, out-edges by descriptor and by id, source and target ids and descriptors, edge and vertex values, degrees, edge lookup and edge tests all describe the same graph: exactly the vertices, edges, targets and values that were stored. Lookup of an edge finds one with that target exactly when one exists.',
 ['inputs','configurations'], 'every graph, every vertex pair, every supported representation',
 'Customisation points resolve differently for each type; tests check each resolution on a few values.',
 [L+'detail/graph_cpo.hpp', L+'edge_descriptor.hpp', L+'vertex_descriptor.hpp', 'include/graph/detail/edge_cpo.hpp'], [('default implementations','graph_cpo.hpp')], ['results of every access function against the stored graph'])
p('V01','Basic views enumerate exactly the graph’s vertices, edges and neighbours',
 'For every graph, the vertex-list, incidence, neighbour and edge-list views (and their id-only, sub-range, value-function and piped forms) enumerate exactly the vertices of the graph (or sub-range), the out-edges of the vertex, the targets of the out-edges, and all out-edges of all vertices respectively, each once, in the graph’s own order, with ids, descriptors and computed values that belong to that element. Their sizes, where offered, equal the number of elements enumerated, and they can be traversed repeatedly with the same result.',
 ['inputs','configurations'], 'every graph including empty graph and empty rows (leading, trailing, consecutive), every supported representation, every value function',
 'Flattening across empty rows and value/descriptors pairing are sampled on a few graphs.',
 [V+'vertexlist.hpp',V+'incidence.hpp',V+'neighbors.hpp',V+'edgelist.hpp',V+'adaptors.hpp'], [('lazy iterators','views')], ['sequence of elements of each view'])
p('V02','Incoming-edge views and the transposed view show the reversed graph',
 'For every graph with incoming edges, incoming incidence and neighbour views enumerate exactly the incoming edges of the vertex with their source ids, descriptors and values. A transposed view (of a graph whose edges are in random-access containers, the documented limit) behaves in every access function, view and algorithm as the graph with every edge reversed and the same values; transposing twice gives the original graph.',
 ['inputs','configurations'], 'every bidirectional graph, every vertex',
 'Tests check a few functions of the transposed view on one or two graphs.',
 [V+'transpose.hpp',V+'edge_accessor.hpp',V+'incidence.hpp',V+'neighbors.hpp'], [('forwarding with swapped roles','transpose_view')], ['access functions and views on transpose(g), in_incidence, in_neighbors'])
p('V03','Breadth-first views go level by level; cancelling a branch cuts exactly it',
 'Iterating a breadth-first vertex or edge view yields each vertex reachable from the seed exactly once (respectively, one tree edge into each such vertex other than the seed) in order of non-decreasing distance, forward or over incoming edges. Cancelling a branch excludes exactly what is reachable only through the vertex just yielded, however often this is done, cancelling everything ends the iteration, and the reported depth and number of visited vertices agree with what has been discovered.',
 ['inputs','histories'], 'every graph and seed, every sequence of continue/cancel-branch/cancel-all decisions during iteration, with and without value function, both directions',
 'Cancellation sequences multiply with graphs; tests do single cancellations on trees.',
 [V+'bfs.hpp', V+'search_base.hpp'], [('queue with visited tracker and skip marks','vertices_bfs_view, edges_bfs_view')], ['sequence of yielded elements, depth(), num_visited()'])
p('V04','Depth-first views go depth-first over the reachable part; cancellation is exact',
 'Iterating a depth-first vertex or edge view yields each vertex reachable from the seed exactly once (respectively, one tree edge into each such vertex other than the seed), each step going to an unvisited neighbour of the most recently yielded vertex that still has one, forward or over incoming edges. Cancelling a branch never explores out of the vertex just yielded and continues elsewhere, cancelling everything ends the iteration, and the reported depth and number of visited vertices agree with the current path and the vertices discovered.',
 ['inputs','histories'], 'every graph and seed, every sequence of continue/cancel-branch/cancel-all decisions during iteration, with and without value function, both directions',
 'Cancellation sequences multiply with graphs; tests do single cancellations on trees.',
 [V+'dfs.hpp', V+'search_base.hpp'], [('stack of edge iterators','vertices_dfs_view, edges_dfs_view')], ['sequence of yielded elements, depth(), num_visited()'])
p('V05','Topological views order every edge of a DAG; checked forms reject cycles',
 'For every acyclic graph the topological vertex view yields each vertex exactly once with every edge leading forward in the order (backward over incoming edges), and the edge view yields every edge exactly once, grouped by source in such an order; both can be iterated again with the same result, and a cancelled view yields nothing further. The cycle-checking forms succeed exactly on acyclic graphs and otherwise report a vertex that lies on a cycle.',
 ['inputs','configurations'], 'every directed graph, with and without value function, both directions, multi-pass iteration',
 'Tests check chosen DAGs and single cycles.',
 [V+'topological_sort.hpp'], [('post-order DFS with recursion marks','topo_state')], ['sequence of yielded elements, success or reported vertex'])
p('E01','Edge-list elements report their own source, target and value in every form',
 'For every accepted edge-list form (pairs, tuples, library edge records, edge-list descriptors, flattened adjacency lists), access to source, target and value of each element returns exactly the stored ids and value, the edge-list views over it enumerate each element once in order, and a graph built from it contains exactly those edges.',
 ['inputs','configurations'], 'every edge list, every element form and id type',
 'Access resolution differs per element type; tests check one or two values each.',
 ['include/graph/detail/edge_cpo.hpp','include/graph/edge_list/edge_list.hpp','include/graph/edge_list/edge_list_descriptor.hpp','include/graph/graph_data.hpp',V+'edgelist.hpp'], [('access resolution','edge_cpo.hpp')], ['source_id, target_id, edge_value per element; edgelist views'])
p('F01','A failure inside an algorithm reaches the caller and leaves nothing behind',
 'When an allocation, visitor, weight, comparison or other user-supplied function called by an algorithm fails, the call ends with exactly that exception, all storage it took is released, the graph is unchanged, and repeating the call with fresh outputs gives the undisturbed result. Shortest-path functions and prim throw std::out_of_range, instead of proceeding, when an output range is too short or a source or seed is not a vertex; Dijkstra also does so when a negative weight is reachable from the sources.',
 ['inputs','fault_sequences'], 'every algorithm, graph and representation; failure of every allocation and of every callback call',
 'Tests never make an allocation or a callback fail, and each algorithm has many points where either can happen.',
 ['include/graph/algorithm/dijkstra_shortest_paths.hpp','include/graph/algorithm/bellman_ford_shortest_paths.hpp','include/graph/algorithm/mst.hpp','include/graph/algorithm/breadth_first_search.hpp','include/graph/algorithm/depth_first_search.hpp','include/graph/algorithm/connected_components.hpp'],
 [('argument checks','dijkstra_shortest_paths.hpp, bellman_ford_shortest_paths.hpp, mst.hpp'),('Graph g remains unchanged after exception','documentation comments of the algorithms')],
 ['exception delivered, storage balance, graph contents, result of a repeated call'])
p("F02","A failure inside a container operation loses, invents and leaks nothing",
 "When an allocation or the copying of a value fails inside a constructor, copy, assignment, load or creating operation of a graph container, the caller gets exactly that exception, all storage and values taken are released, what the operation read is unchanged, and the target can be cleared and refilled as if new. A failed load keeps everything the graph had and adds only edges of its input, with num_vertices and num_edges telling what is there; a failed create_vertex, create_edge or copy assignment leaves an undirected_adjacency_list as it was. Moving, swapping and clearing (of vector, list and map based graphs) do not allocate or copy and cannot fail.",
 ["inputs","fault_sequences"], "every container, contents and operation; failure of every allocation and of every copy of a value",
 "Tests never make an allocation or a copy fail, and every operation has many points where either can happen.",
 ["include/graph/container/dynamic_graph.hpp","include/graph/container/compressed_graph.hpp","include/graph/container/undirected_adjacency_list.hpp","include/graph/container/detail/undirected_adjacency_list_impl.hpp"],
 [("noexcept only on move; values could throw in other cases","undirected_adjacency_list.hpp: ual_edge, ual_vertex"),("copy-and-swap assignment","undirected_adjacency_list_impl.hpp: operator="),("load_edges, load_vertices","dynamic_graph.hpp, compressed_graph.hpp")],
 ["exception delivered, storage balance, live values, contents after the failure and after refilling"])
p("C08","Containers refuse input that does not fit and accept all that does",
 "Loading edges or vertex values into a dynamic graph is refused exactly when an id lies outside the vertices that the call itself establishes (by a count, a sized range, or the edges where these may be read twice), and never for map-based vertices; constructors refuse a largest id without successor, and partition starts that do not ascend from 0 or exceed the vertices; compressed and undirected graphs refuse edges that are not ordered by source. Each refusal throws the documented exception type, keeps what was there and adds at most elements that fit; vertex_at, operator[], try_find_vertex and contains_vertex answer for every id, known or not.",
 ["inputs","histories","configurations"], "every history of loads, constructions and lookups, valid and invalid, every container combination",
 "Tests reject a handful of fixed inputs; whether an input fits depends on what the history established before.",
 ["include/graph/container/dynamic_graph.hpp","include/graph/container/compressed_graph.hpp","include/graph/container/detail/undirected_adjacency_list_impl.hpp"],
 [("bounds checks of load_edges and load_vertices","dynamic_graph.hpp"),("terminate_partitions","dynamic_graph.hpp"),("source id ... is not ordered","compressed_graph.hpp: load_edges"),("throw std::invalid_argument","undirected_adjacency_list_impl.hpp")],
 ["exception type or success, contents after the call, answers of lookups"])
p("V06","View iterators are positions in one fixed sequence, also after failures",
 "Every iterator of a multi-pass view is an independent position in the one sequence of elements of that view: reading, advancing, copying, post-incrementing and comparing any of them in any order never affects another, and copies of a view or views moved elsewhere show the same. The value function is called exactly once per reading and never otherwise; if it throws, that exception reaches the caller and nothing is skipped or repeated when the passage goes on. Basic views take no storage; when search and topological views cannot get theirs, std::bad_alloc reaches the caller, what was given before is a true prefix, and everything is released.",
 ["inputs","histories","fault_sequences"], "every view form, graph and container; every interleaving of operations on several iterators; failure of any reading or allocation",
 "Tests pass over each view once with one iterator and a value function that never fails.",
 ["include/graph/views/vertexlist.hpp","include/graph/views/incidence.hpp","include/graph/views/neighbors.hpp","include/graph/views/edgelist.hpp","include/graph/views/bfs.hpp","include/graph/views/dfs.hpp","include/graph/views/topological_sort.hpp"],
 [("Iteration may propagate exceptions from the value function","documentation comments of the views"),("advance_to_valid_edge","edgelist.hpp"),("O(1) space","documentation comments of the views")],
 ["elements given, outcome of each operation, comparisons, calls of the value function, storage balance"])
p("G01","Answers stay exact beyond 2^16 vertices, edges, degrees and path lengths",
 "Every algorithm, view and container gives the same exact answers on graphs with more than 2^16 vertices, edges, edges at one vertex, parallel edges, components, partitions or steps in a path, with as many vertices as the id type can number, and with sparse ids of 64 bits: no counter, index, id or label wraps or is narrowed to a smaller type, and no search depth exhausts the call stack.",
 ["inputs","configurations"], "every size that the id type and memory allow, every algorithm, view and container",
 "Tests use graphs of a few dozen vertices with small ids, on which a narrowed counter, a recursive search or a quadratic walk behaves like the right one.",
 ["include/graph/algorithm","include/graph/views","include/graph/container","include/graph/adj_list/detail/graph_cpo.hpp"],
 [("vertex_id_t, edge_index_type, size_t counters","containers and algorithms"),("explicit stacks","depth_first_search.hpp, articulation_points.hpp, biconnected_components.hpp, views/dfs.hpp, views/topological_sort.hpp"),("find_vertex: O(1) for random-access containers","graph_cpo.hpp")],
 ["results, orders, counts and ids on graphs with known answers"])
p("G02","Work, storage and stack depth stay within the documented bounds",
 "On every graph an algorithm takes the time and auxiliary storage its documentation promises (e.g. O(V+E) time and O(V) storage for a search, components or articulation points; O((V+E) log V), O(E log E), O(V*E), O(E) per round for the others), a view costs nothing to make and O(1) per element to walk, and an access function of any container costs what its table says: O(1) for edges, degree, target_id, find_vertex, num_edges and the like whatever the degree or the size, O(degree) to find an edge, O(log V) or O(1) to find a vertex by key, O(1) to move or swap a graph, to insert or to remove an undirected edge, linear to copy, clear or traverse. No call uses the call stack in proportion to the graph. Constant factors are free, an additional factor of V, E or a degree is not.",
 ["inputs","configurations"], "every graph, container, algorithm, view and access function; asymptotic growth is observed on graphs of 3000 to 40000 vertices",
 "A test that passes says nothing about how the cost of a call grows; on the graphs of a few vertices that tests use, quadratic work, a queue as long as the edges or a recursive search cannot be told from the right one.",
 ["include/graph/algorithm","include/graph/views","include/graph/container","include/graph/adj_list","docs/reference/algorithm-complexity.md","docs/user-guide/containers.md"],
 [("Complexity tables","docs/reference/algorithm-complexity.md, docs/reference/adjacency-list-interface.md, docs/user-guide/containers.md, docs/user-guide/views.md"),("@par Complexity of each algorithm","include/graph/algorithm/*.hpp"),("edge_descriptor_view: size kept or counted on demand","include/graph/adj_list/edge_descriptor_view.hpp")],
 ["basic blocks executed, bytes held and stack depth of every call"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
