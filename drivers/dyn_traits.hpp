// dynamic_graph with every choice of vertex and edge container, selected by letters; also with incoming edges
#pragma once
#include "obs.hpp"
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/dod_graph_traits.hpp>
#include <graph/container/traits/dos_graph_traits.hpp>
#include <graph/container/traits/dous_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/mofl_graph_traits.hpp>
#include <graph/container/traits/mod_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/uol_graph_traits.hpp>
#include <graph/container/traits/uofl_graph_traits.hpp>
#include <graph/container/traits/uod_graph_traits.hpp>
#include <graph/container/traits/uos_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>
#include <memory>
#include <unordered_map>
#include <unordered_set>
// containers selected by a letter
template <char K, class T, class Id> struct EdgeCont;
template <class T, class Id> struct EdgeCont<'v', T, Id> { using type = std::vector<T>; };
template <class T, class Id> struct EdgeCont<'l', T, Id> { using type = std::list<T>; };
template <class T, class Id> struct EdgeCont<'f', T, Id> { using type = std::forward_list<T>; };
template <class T, class Id> struct EdgeCont<'d', T, Id> { using type = std::deque<T>; };
template <class T, class Id> struct EdgeCont<'s', T, Id> { using type = std::set<T>; };
template <class T, class Id> struct EdgeCont<'u', T, Id> { using type = std::unordered_set<T>; };
template <class T, class Id> struct EdgeCont<'m', T, Id> { using type = std::map<Id, T>; };
template <char K, class T, class Id> struct VertCont;
template <class T, class Id> struct VertCont<'v', T, Id> { using type = std::vector<T>; };
template <class T, class Id> struct VertCont<'d', T, Id> { using type = std::deque<T>; };
template <class T, class Id> struct VertCont<'m', T, Id> { using type = std::map<Id, T>; };
template <class T, class Id> struct VertCont<'u', T, Id> { using type = std::unordered_map<Id, T>; };
// bidirectional traits with incoming edges that know their source
template <char VK, char EK> struct BiTr {
  template <class EV, class VV, class GV, class Id, bool> struct T {
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = Id;
    static constexpr bool bidirectional = true;
    using edge_type    = gc::dynamic_out_edge<EV, VV, GV, Id, true, T>;
    using in_edge_type = gc::dynamic_in_edge<EV, VV, GV, Id, true, T>;
    using vertex_type  = gc::dynamic_vertex<EV, VV, GV, Id, true, T>;
    using graph_type   = gc::dynamic_graph<EV, VV, GV, Id, true, T>;
    using edges_type = typename EdgeCont<EK, edge_type, Id>::type; using in_edges_type = typename EdgeCont<EK, in_edge_type, Id>::type;
    using vertices_type = typename VertCont<VK, vertex_type, Id>::type;
  };
};
