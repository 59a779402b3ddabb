SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-g1"]
DBG = ["-D_GLIBCXX_ASSERTIONS"]
def drv(src, n=1, flags=DBG, prop=None, **kw):
    """n parts of one source, selected with -DPART=k (and -DPROP=prop)"""
    base = src.replace(".cpp", "")
    parts = range(n) if isinstance(n, int) else n
    return [dict(name="%s_%d" % (base, k), src=src, flags=list(flags) + ["-DPART=%d" % k] + (["-DPROP=%s" % prop] if prop else []), **kw) for k in parts]
def mcs(mod, *cfgs, **kw):
    return [dict(module=mod, cfg=c, **kw) for c in cfgs]
TABLE = {
 "T01": dict(level="model_checking", drivers=drv("T01.cpp"), mc=[dict(module="BFSMC", cfg="BFSMC.cfg", cfg_thorough="BFSMC_T.cfg", workers=4)], trace="BFSTrace",
   rule="one run of the algorithm per (graph, sources, container, callback form): every digraph with up to 3 vertices, random and structured graphs up to 400 vertices with loops, parallel edges, unreachable parts, repeated sources; non-trivial = record longer than 160 bytes (a search that examines something)"),
 "T02": dict(level="model_checking", drivers=drv("T02.cpp", 2), mc=[dict(module="DFSMC", cfg="DFSMC.cfg", cfg_thorough="DFSMC_T.cfg", workers=4)], trace="DFSTrace",
   rule="one run of the algorithm per (graph, source, container, callback form): every digraph with up to 3 vertices, random and structured graphs up to 400 vertices with loops, parallel edges, unreachable parts; non-trivial = record longer than 160 bytes"),
 "T03": dict(level="model_checking", drivers=drv("T03.cpp", 2), mc=[dict(module="TopoMC", cfg="TopoMC.cfg", workers=4)], trace="TopoTrace",
   rule="one call per (graph, form, sources, container): every digraph with up to 3 vertices, random DAGs with and without an arc closing a cycle (in and outside the sorted part), shapes up to 300 vertices; non-trivial = record longer than 160 bytes"),
 "S01": dict(level="model_checking", drivers=drv("S.cpp", [0, 2], prop=1), mc=[dict(module="PathsMC", cfg="PathsMC.cfg", cfg_thorough="PathsMC_T.cfg", workers=4)], trace="PathsTrace",
   rule="one call (four forms: multi/single source, with and without predecessors, custom functions, default weight; int, double, long long, unsigned distances) per (graph, weights, sources, container)"),
 "S02": dict(level="model_checking", drivers=drv("S.cpp", [0, 2], prop=2) + drv("S.cpp", [1, 3], prop=2, trace="BFTrace"),
   mc=[dict(module="DijkstraMC", cfg="DijkstraMC.cfg", cfg_thorough="DijkstraMC_T.cfg", workers=4), dict(module="BFMC", cfg="BFMC.cfg")], trace="DijkstraTrace",
   rule="one visited run of Dijkstra's or the Bellman-Ford algorithm per (graph, weights, sources, container, callback form)"),
 "S03": dict(level="model_checking", drivers=drv("S.cpp", [0, 2], prop=3), mc=[dict(module="PathsMC", cfg="PathsMC.cfg", cfg_thorough="PathsMC_T.cfg", workers=4), dict(module="BFMC", cfg="BFMC.cfg")], trace="PathsTrace",
   rule="one call (four forms) per (graph, weights possibly negative, sources, container), with and without negative cycles inside and outside the reachable part"),
 "S04": dict(level="model_checking", drivers=drv("S.cpp", [0, 2], prop=4), mc=[dict(module="PathsMC", cfg="PathsMC.cfg", cfg_thorough="PathsMC_T.cfg", workers=4)], trace="PathsTrace",
   rule="one run of Bellman-Ford plus cycle extraction per (graph, weights, sources, container)"),
 "K01": dict(level="model_checking", drivers=drv("K.cpp", 3, prop=1), mc=[dict(module="SccMC", cfg="SccMC.cfg", cfg_thorough="SccMC_T.cfg", workers=4)], trace="CompTrace",
   rule="one call per (graph, form: incoming edges or transposed graph, container, label type): every digraph with up to 3 vertices, sampled 4 and 5 vertices, random, structured and clustered graphs up to 200 vertices"),
 "K02": dict(level="model_checking", drivers=drv("K.cpp", 2, prop=2), mc=[dict(module="AffMC", cfg="AffMC.cfg", cfg_thorough="AffMC_T.cfg", workers=4)], trace="CompTrace",
   rule="one call per (undirected graph, container, label type): every graph with up to 4 vertices, random, structured and clustered graphs up to 300 vertices"),
 "K03": dict(level="model_checking", drivers=drv("K.cpp", 2, prop=3), mc=[dict(module="AffMC", cfg="AffMC.cfg", cfg_thorough="AffMC_T.cfg", workers=4)], trace="CompTrace",
   rule="one call per (graph, form, sampling rounds 0-4, container, label type): every undirected graph with up to 4 and digraph with up to 3 vertices, random, structured and clustered graphs up to 300 vertices"),
 "B01": dict(level="model_checking", drivers=drv("B.cpp", 2, prop=1), mc=[dict(module="LowMC", cfg="LowMC.cfg", cfg_thorough="LowMC_T.cfg", workers=4)], trace="BlocksTrace",
   rule="one call per (undirected graph, container): every graph with up to 4 vertices (5 without loops), random, structured and block-tree graphs with loops and parallel edges up to 70 vertices"),
 "B02": dict(level="model_checking", drivers=drv("B.cpp", 2, prop=2), mc=[dict(module="LowMC", cfg="LowMC.cfg", cfg_thorough="LowMC_T.cfg", workers=4)], trace="BlocksTrace",
   rule="one call per (undirected graph, container, output container): every graph with up to 4 vertices (5 without loops), random, structured and block-tree graphs with loops and parallel edges up to 70 vertices"),
 "M01": dict(level="model_checking", drivers=drv("M.cpp", 1, prop=1), mc=[dict(module="MstMC", cfg="MstMC.cfg", cfg_thorough="MstMC_T.cfg", workers=4)], trace="MstTrace",
   rule="one call (copying or in-place form) per (edge list, element type, id and weight type, comparison): every list of up to two edges over three vertices, degenerate lists, random and structured lists up to 70 edges"),
 "M02": dict(level="model_checking", drivers=drv("M.cpp", 2, prop=2), mc=[dict(module="MstMC", cfg="MstMC.cfg", cfg_thorough="MstMC_T.cfg", workers=4)], trace="MstTrace",
   rule="one call (default or full form) per (undirected weighted graph, seed, comparison, weight type, container): every graph with up to 3 vertices (4 without loops), random and structured graphs up to 25 vertices"),
 "N01": dict(level="model_checking", drivers=drv("N.cpp", 2, prop=1), mc=[dict(module="NbrMC", cfg="NbrMC.cfg", cfg_thorough="NbrMC_T.cfg", workers=4)], trace="NbrTrace",
   rule="one call per (undirected graph, seed, container, output iterator): every graph with up to 4 vertices, random and structured graphs up to 120 vertices with loops and parallel edges"),
 "N02": dict(level="model_checking", drivers=drv("N.cpp", 2, prop=2), mc=[dict(module="NbrMC", cfg="NbrMC.cfg", cfg_thorough="NbrMC_T.cfg", workers=4)], trace="NbrTrace",
   rule="one call per (simple undirected graph with or without loops, container): every graph with up to 4 vertices (5 without loops), random and structured graphs up to 40 vertices"),
 "N03": dict(level="model_checking", drivers=drv("N.cpp", 2, prop=3), mc=[dict(module="NbrMC", cfg="NbrMC.cfg", cfg_thorough="NbrMC_T.cfg", workers=4)], trace="NbrTrace",
   rule="one call per (graph, container, value type): every undirected graph and digraph with up to 3 vertices, random and structured graphs up to 40 vertices with loops and parallel edges"),
 "N04": dict(level="model_checking", drivers=drv("N.cpp", 2, prop=4), mc=[dict(module="LPMC", cfg="LPMC_T.cfg", workers=4)], trace="LPTrace",
   rule="one run (with and without unlabelled marker, limits 0-40 and none) per (graph, initial labels, random engine, container); every assignment to a label is one trace event"),
 "C01": dict(level="model_checking", drivers=drv("D.cpp", 5, prop=1), mc=[dict(module="StoreMC", cfg="StoreMC.cfg", cfg_thorough="StoreMC_T.cfg", workers=4)], trace="StoreTrace",
   rule="one history of loads (all range kinds, projections, with and without vertex count), constructions, resizes, clears and copies on three graphs of one type, fully observed after each step; 27 combinations of vertex and edge container, several id and value types"),
 "C02": dict(level="model_checking", drivers=drv("D.cpp", 4, prop=2), mc=[dict(module="StoreMC", cfg="StoreMC.cfg", cfg_thorough="StoreMC_T.cfg", workers=4)], trace="StoreTrace",
   rule="one history of vertex and edge loads, resizes, clears, copies, moves, swaps and value changes on three graphs of one type, fully observed after each step"),
 "C03": dict(level="model_checking", drivers=drv("D.cpp", 3, prop=3), mc=[dict(module="StoreMC", cfg="StoreMC.cfg", cfg_thorough="StoreMC_T.cfg", workers=4)], trace="StoreTrace",
   rule="one history of loads, clears, copies, moves and swaps on three bidirectional graphs of one type, out- and in-edges observed after each step"),
 "C04": dict(level="model_checking", drivers=drv("C.cpp", 2, prop=4), mc=[dict(module="CsrMC", cfg="CsrMC.cfg", cfg_thorough="CsrMC_T.cfg", workers=4)], trace="CsrTrace",
   rule="one history of loads, constructions, clears, copies, moves and swaps on three compressed graphs of one type (five id/index type combinations, with and without edge, vertex and graph values), fully observed after each step"),
 "C05": dict(level="model_checking", drivers=drv("C.cpp", 2, prop=5), mc=[dict(module="CsrMC", cfg="CsrMC.cfg", cfg_thorough="CsrMC_T.cfg", workers=4)], trace="CsrTrace",
   rule="one history of loads with partition lists (none, one, many, empty partitions), copies, moves and swaps on compressed graphs, every partition observed after each step"),
 "C06": dict(level="model_checking", drivers=drv("U.cpp", 2, flags=SAN, prop=6), mc=[dict(module="UalMC", cfg="UalMC.cfg", cfg_thorough="UalMC_T.cfg", workers=4)], trace="UalTrace",
  rule="TLC: for every history of creations, erasures (single, ranges), resizes up to the bound the two links of each edge represent the abstract lists, forwards and backwards, with the right sizes, and the lists are the living edges in creation order.  Every recorded history of edits on real graphs of four value/id configurations is a run of Ual in which each observation (all enumeration and lookup forms, const and non-const, identities of edges, whole-graph edges, what erasures return) matches the abstract graph."),
 "C07": dict(level="model_checking", drivers=drv("U.cpp", 2, flags=SAN, prop=7), mc=[dict(module="UalMC", cfg="UalCopyMC.cfg", cfg_thorough="UalCopyMC_T.cfg", workers=4)], trace="UalTrace",
  rule="TLC: copying each edge of the whole-graph order once gives the same edges at every vertex.  In every recorded history of copies, moves and swaps among several real graphs, mixed with edits, each graph shows the contents the model carries for it; addresses of edges never link a copy with its source; sanitizers report no misuse of memory."),
 "A01": dict(level="model_checking", drivers=drv("A.cpp", 8), mc=[dict(module="AccessMC", cfg="AccessMC.cfg", cfg_thorough="AccessMC_T.cfg", workers=4)], trace="AccessTrace",
  rule="TLC: the default access functions, as programs over the primitive ones, give what the stored graph says on every stored graph up to the bound.  For 59 representations (nested standard ranges with every edge element form, dynamic_graph with several containers, incoming edges, compressed, undirected, user-defined graphs answering through vertex members, graph members or free functions) every access function's answer, on const and non-const graphs, before and after writes through value references, is what the model says of the stored graph."),
 "V01": dict(level="model_checking", drivers=drv("V.cpp", 5, prop=1), mc=[dict(module="ViewsMC", cfg="ViewsMC.cfg", cfg_thorough="ViewsMC_T.cfg", workers=4)], trace="ViewsTrace", rule="TLC: the edge-list walk over vertices with and without edges passes every edge once in order and iterators compare equal exactly when as many edges remain, with several traversals at once. For 24 representations, every form of the vertex-list, incidence, neighbours and edge-list view (id-only, sub-ranges, value functions, piped, direct, traversed again, copied, moved, chained) on const and non-const graphs gives the elements the model gives."),
 "V02": dict(level="model_checking", drivers=drv("V.cpp", 2, prop=2), mc=[dict(module="TransposeMC", cfg="TransposeMC.cfg", cfg_thorough="TransposeMC_T.cfg", workers=4)], trace="ViewsTrace", rule="TLC: a graph that stores every edge at both ends and a transposed view stacked up to 3 times: the view always describes the reversed graph, sources own outgoing and targets own incoming edges. For 7 bidirectional representations every form of the incoming-edge views (of the graph) and, where edges are in random access containers, every access function and every basic view of the transposed, const transposed and twice transposed graph gives what the model gives for the reversed graph."),
 "V03": dict(level="model_checking", drivers=drv("W.cpp", 4, prop=3), mc=[dict(module="SearchViewsMC", cfg="SearchViewsB.cfg", cfg_thorough="SearchViewsB_T.cfg", workers=4)], trace="SearchViewsTrace",
   rule="one iteration of the breadth-first vertex view and one of the edge view (12 construction forms each; also over incoming edges) with random decisions to cut, cancel or continue, per (graph, seed, container): digraphs with 2 and 3 vertices, random and structured graphs up to 12 vertices with loops and parallel edges, a long path; 18 containers"),
 "V04": dict(level="model_checking", drivers=drv("W.cpp", 4, prop=4), mc=[dict(module="SearchViewsMC", cfg="SearchViewsD.cfg", cfg_thorough="SearchViewsD_T.cfg", workers=4)], trace="SearchViewsTrace",
   rule="one iteration of the depth-first vertex view and one of the edge view (12 construction forms each; also over incoming edges) with random decisions to cut, cancel or continue, per (graph, seed, container): digraphs with 2 and 3 vertices, random and structured graphs up to 12 vertices with loops and parallel edges, a long path; 18 containers"),
 "V05": dict(level="model_checking", drivers=drv("W.cpp", 4, prop=5), mc=[dict(module="TopoViewsMC", cfg="TopoViewsMC.cfg", cfg_thorough="TopoViewsMC_T.cfg", workers=4)], trace="TopoViewsTrace",
   rule="one to three topological views (vertices, edges, checked forms, with and without value function and allocator, over incoming edges) of each graph, each passed over once or twice, perhaps cancelled: digraphs with 2 and 3 vertices, random DAGs and cyclic graphs up to 12 vertices, a path longer than the call stack; 18 containers"),
 "E01": dict(level="model_checking", drivers=drv("E.cpp", 2), mc=[dict(module="EdgeListMC", cfg="EdgeListMC.cfg", cfg_thorough="EdgeListMC_T.cfg", workers=4)], trace="EdgeListTrace",
   rule="26 element forms (pairs, tuples, library records, descriptors, own structs by data members, by free functions and by functions of the list; numbers and texts as ids; list, deque, span, array, sets, transform views and flattened graphs as lists); per form: elements read, view enumerated in every form, graphs built and flattened, elements compared; the empty list and random lists up to 25 edges over up to 9 ids, with and without duplicates"),
 "F01": dict(level="model_checking", drivers=drv("F.cpp", 2), mc=[dict(module="FaultMC", cfg="FaultMC.cfg", cfg_thorough="FaultMC_T.cfg", workers=4)], trace="FaultTrace",
   rule="one episode per (algorithm, graph, container): an undisturbed call, calls in which the k-th allocation or the k-th call of a caller's function fails (every k up to 8, then first, last and random ones), calls with nothing failing, a last undisturbed call; and episodes of ten shortest-path and prim calls each with outputs too short, sources outside the graph, negative weights"),
 "F02": dict(level="model_checking", drivers=drv("X.cpp", 2), mc=[dict(module="ContMC", cfg="ContMC.cfg", cfg_thorough="ContMC_T.cfg", workers=4)], trace="ContTrace",
   rule="one episode per (container, operation, contents): the undisturbed operation, then the operation on the same contents with the k-th allocation or the k-th copy of a value failing (every k up to 14, first, last and random ones beyond), then with nothing failing; the contents before and after and after clearing and refilling the target are logged with the storage and the values still alive in the end"),
 "C08": dict(level="model_checking", drivers=drv("Y.cpp", 2), mc=[dict(module="RefuseMC", cfg="RefuseMC.cfg", cfg_thorough="RefuseMC_T.cfg", workers=2), dict(module="RefuseMC", cfg="RefuseMCA.cfg", cfg_thorough="RefuseMCA_T.cfg", workers=2)], trace="RefuseTrace",
   rule="one episode per history of one container: loads of edges and vertex values with and without counts, ids beyond the vertices, ranges traversed once, sized or not; constructions from ranges, from the largest id and with partitions, valid and not; ranges that are ordered by source or not; lookups of known and unknown ids; after each step the outcome and the whole content are logged"),
 "V06": dict(level="model_checking", drivers=drv("Z.cpp", 3), mc=[dict(module="CursorMC", cfg="CursorMC.cfg", cfg_thorough="CursorMC_T.cfg", workers=4)], trace="CursorTrace",
   rule="one episode per (graph, view form): up to three iterators over one view (itself perhaps a copy or moved) are read, advanced, copied, compared and restarted in random order while the value function fails at random readings; then whole passes with every allocation failing in turn; all basic, incoming, search and topological views with and without value function over 12 containers and the transposed view"),
 "G01": dict(level="model_checking", drivers=drv("G.cpp", 3, opt="-O1"), mc=[dict(module="BigMC", cfg="BigMC.cfg", cfg_thorough="BigMC_T.cfg", workers=2)], trace="BigTrace",
   rule="one call, view or container on one large member of a family of graphs with known answers (65 600 to 70 000 vertices, edges, edges at one vertex, parallel edges, parts or steps of a path; 65 535 vertices with 16-bit ids; ids from 2^32 and near 2^63 in map-based graphs): every search, path, order, component, tree, independent-set, triangle, similarity and label algorithm, and every kind of container with its views, copies and removals; distinct_nonproduct counts distinct episodes; TLC: the closed forms equal the general definitions on every member up to the bound"),
 "G02": dict(level="model_checking", drivers=drv("H.cpp", 3, flags=["-fsanitize-coverage=trace-pc"], opt="-O1"), mc=[dict(module="WorkMC", cfg="WorkMC.cfg", cfg_thorough="WorkMC_T.cfg", workers=4)], trace="WorkTrace",
   rule="one call each on a graph of 3 000 to 40 000 vertices (stars, paths, two hubs, combs, fans, grids, parallel and dense graphs, graphs without edges, graphs on which distances are improved again and again), with the basic blocks it executed, the bytes it held at most and the depth of the call stack: every algorithm, every access function on every kind of container (from both sides of the longest and of short rows), loads, copies, moves, clears, insertions and removals, every view; distinct_nonproduct counts distinct episodes; TLC: on every graph up to the bound the search disciplines keep to the bounds in steps and storage, and no bound would let another order of growth pass on the driver's graphs"),
}
