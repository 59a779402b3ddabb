// Bidirectional containers, and the transposed view of a graph that holds every edge reversed.
#pragma once
#include "common.hpp"
#include <graph/views/transpose.hpp>
static AG reversed(const AG& a) { AG b = a; for (auto& e : b.arcs) std::swap(e[0], e[1]); return b; }
template <class EV, class VV, class GV, class VId, bool> struct bvov {
  using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
  static constexpr bool bidirectional = true;
  using edge_type = gc::dynamic_out_edge<EV, VV, GV, VId, true, bvov>; using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, VId, true, bvov>;
  using vertex_type = gc::dynamic_vertex<EV, VV, GV, VId, true, bvov>; using graph_type = gc::dynamic_graph<EV, VV, GV, VId, true, bvov>;
  using edges_type = std::vector<edge_type>; using in_edges_type = std::vector<in_edge_type>; using vertices_type = std::vector<vertex_type>;
};
template <class EV, class VV, class GV, class VId, bool> struct bvol {
  using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = VId;
  static constexpr bool bidirectional = true;
  using edge_type = gc::dynamic_out_edge<EV, VV, GV, VId, true, bvol>; using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, VId, true, bvol>;
  using vertex_type = gc::dynamic_vertex<EV, VV, GV, VId, true, bvol>; using graph_type = gc::dynamic_graph<EV, VV, GV, VId, true, bvol>;
  using edges_type = std::list<edge_type>; using in_edges_type = std::list<in_edge_type>; using vertices_type = std::vector<vertex_type>;
};
using BVOV = gc::dynamic_graph<int, void, void, uint32_t, true, bvov<int, void, void, uint32_t, true>>;
using BVOL = gc::dynamic_graph<int, void, void, uint32_t, true, bvol<int, void, void, uint32_t, true>>;
template <> struct rep<BVOV> { static constexpr const char* name = "bvov"; static constexpr bool multi = true, undirected = false; static BVOV make(const AG& g) { return load_dyn<BVOV>(g); } };
template <> struct rep<BVOL> { static constexpr const char* name = "bvol"; static constexpr bool multi = true, undirected = false; static BVOL make(const AG& g) { return load_dyn<BVOL>(g); } };
using TV = graph::views::transpose_view<BVOV>;
template <> struct rep<TV> {
  static constexpr const char* name = "transposed"; static constexpr bool multi = true, undirected = false;
  static TV make(const AG& g) {
    static std::list<BVOV> keep;
    if (keep.size() > 7) keep.pop_front();
    keep.push_back(load_dyn<BVOV>(reversed(g)));
    return TV(keep.back());
  }
};
