// Representations of a graph that the library accepts, each built from the same abstract graph.
#pragma once
#include "dyn_traits.hpp"
#include <graph/container/undirected_adjacency_list.hpp>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using str = std::string;
using Triple = std::array<long long, 3>;
struct St { // the graph to be stored: vertex ids in order, edges in order of storage
  std::vector<long long> ids; std::vector<Triple> arcs;
};
// --- edge elements ---------------------------------------------------------------------------------
struct CEdge { int v = 0; long to = 0; long target_id() const { return to; } bool operator==(const CEdge&) const = default; }; // knows its target
struct CIn { int v = 0; long src = 0; long source_id() const { return src; } };
namespace foreign { // knows nothing; the functions below do
struct Edge { int v; unsigned to; };
struct V2 { std::vector<Edge> es; const std::vector<Edge>& edges() const { return es; } std::vector<Edge>& edges() { return es; } };
template <class D> requires graph::edge_descriptor_type<D>
unsigned target_id(const std::vector<V2>& g, const D& uv) { return g[uv.source_id()].es[uv.value()].to; }
template <class D> requires graph::edge_descriptor_type<D>
int& edge_value(std::vector<V2>& g, const D& uv) { return g[uv.source_id()].es[uv.value()].v; }
template <class D> requires graph::edge_descriptor_type<D>
const int& edge_value(const std::vector<V2>& g, const D& uv) { return g[uv.source_id()].es[uv.value()].v; }
}
template <class E> constexpr bool simple_elem = std::integral<E>;
template <class E> E mkelem(long long t, long long w) {
  if constexpr (std::integral<E>) return (E)t;
  else if constexpr (requires(E e) { e.to; }) return E{(int)w, (decltype(E{}.to))t};
  else if constexpr (std::tuple_size_v<E> == 1) return E{(int)t};
  else if constexpr (std::tuple_size_v<E> == 2) return E{(std::tuple_element_t<0, E>)t, mkval<std::remove_cv_t<std::tuple_element_t<1, E>>>((int)w)};
  else return E{(int)t, (int)w, "x"};
}
template <class E> constexpr bool valued_elem() { // has a value of its own besides the target
  if constexpr (std::integral<E>) return false;
  else if constexpr (requires(E e) { e.to; }) return true;
  else return std::tuple_size_v<E> > 1;
}
template <class C, class E> void store(C& c, E&& e) {
  if constexpr (requires { c.push_back(e); }) c.push_back(std::move(e));
  else if constexpr (requires { c.push_front(e); }) c.push_front(std::move(e));
  else c.insert(std::move(e));
}
template <class C> constexpr const char* ordname() {
  if constexpr (requires(C c, typename C::value_type e) { c.push_back(e); }) return "seq";
  else if constexpr (requires(C c, typename C::value_type e) { c.push_front(e); }) return "rev";
  else if constexpr (requires { typename C::hasher; }) return "uset";
  else return "set";
}
// --- standard ranges of ranges ---------------------------------------------------------------------
template <class G_> struct Std {
  using G = G_;
  static constexpr bool assoc = requires { typename G::mapped_type; };
  template <class X> struct row { using type = typename X::value_type; };
  template <class X> requires requires { typename X::mapped_type; } struct row<X> { using type = typename X::mapped_type; };
  using C = typename row<G>::type; using E = typename C::value_type;
  static constexpr bool ev = true, own = valued_elem<std::conditional_t<std::integral<E>, E, E>>(), vv = false, und = false, bid = false;
  static constexpr const char* kind() { if constexpr (!assoc) return "idx"; else if constexpr (requires { typename G::hasher; }) return "umap"; else return "map"; }
  static constexpr const char* ord() { return ordname<C>(); }
  static void build(G& g, const St& s) {
    if constexpr (assoc) { for (auto id : s.ids) g[mid<typename G::key_type>(id)]; }
    else g.resize(s.ids.size());
    for (auto& a : s.arcs) {
      if constexpr (assoc) store(g[mid<typename G::key_type>(a[0])], elem(a));
      else store(g[(size_t)a[0]], elem(a));
    }
  }
  static auto elem(const Triple& a) {
    using E2 = std::conditional_t<requires { typename C::mapped_type; }, std::pair<int, int>, E>;
    if constexpr (requires { typename C::mapped_type; }) return std::pair<const typename C::key_type, typename C::mapped_type>((typename C::key_type)a[1], (typename C::mapped_type)a[2]);
    else return mkelem<E>(a[1], a[2]);
  }
};
// --- library containers ----------------------------------------------------------------------------
template <class G_, bool Bid, bool Multi, char Kind, char Ord> struct Dyn {
  using G = G_;
  static constexpr bool ev = true, own = true, vv = false, und = false, bid = Bid;
  static constexpr const char* kind() { return Kind == 'v' ? "idx" : Kind == 'm' ? "map" : "umap"; }
  static constexpr bool dyn = true; static constexpr const char* ord() { return Ord == 'q' ? "seq" : Ord == 'r' ? "rev" : Ord == 's' ? "set" : "uset"; }
  static void build(G& g, const St& s) {
    using Id = graph::vertex_id_t<G>;
    std::vector<graph::copyable_edge_t<Id, int>> es;
    for (auto& a : s.arcs) es.push_back({mid<Id>(a[0]), mid<Id>(a[1]), (int)a[2]});
    if constexpr (Kind == 'v') g.load_edges(es, std::identity{}, s.ids.size());
    else g.load_edges(es, std::identity{});
  }
};
struct Comp {
  using G = gc::compressed_graph<int, int, void>;
  static constexpr bool ev = true, own = true, vv = false, und = false, bid = false, sorted = true;
  static constexpr const char* kind() { return "idx"; }
  static constexpr const char* ord() { return "seq"; }
  static void build(G& g, const St& s) {
    std::vector<graph::copyable_edge_t<uint32_t, int>> es; std::vector<graph::copyable_vertex_t<uint32_t, int>> vs;
    for (auto& a : s.arcs) es.push_back({(uint32_t)a[0], (uint32_t)a[1], (int)a[2]});
    for (auto i : s.ids) vs.push_back({(uint32_t)i, 0});
    g.load_edges(es); g.load_vertices(vs);
  }
};
struct Und {
  using G = gc::undirected_adjacency_list<int, int>;
  static constexpr bool ev = true, own = true, vv = false, und = true, bid = true;
  static constexpr const char* kind() { return "idx"; }
  static constexpr const char* ord() { return "seq"; }
  static void build(G& g, const St& s) {
    for (size_t i = 0; i < s.ids.size(); ++i) g.create_vertex();
    std::set<long long> seen;
    for (auto& a : s.arcs) if (seen.insert(a[2]).second) g.create_edge((uint32_t)a[0], (uint32_t)a[1], (int)a[2]);
  }
};
// --- user-defined graphs: a range of vertex objects with edges() and in_edges() --------------------
struct Vtx {
  std::list<CEdge> o; std::vector<CIn> i;
  std::list<CEdge>& edges() { return o; } const std::list<CEdge>& edges() const { return o; }
  std::vector<CIn>& in_edges() { return i; } const std::vector<CIn>& in_edges() const { return i; }
};
struct Objects {
  using G = std::vector<Vtx>;
  static constexpr bool ev = true, own = true, vv = false, und = false, bid = true;
  static constexpr const char* kind() { return "idx"; }
  static constexpr const char* ord() { return "seq"; }
  static void build(G& g, const St& s) {
    g.resize(s.ids.size());
    for (auto& a : s.arcs) { g[(size_t)a[0]].o.push_back({(int)a[2], (long)a[1]}); g[(size_t)a[1]].i.push_back({(int)a[2], (long)a[0]}); }
  }
};
struct VtxR { // the same with all edges in vectors
  std::vector<CEdge> o; std::vector<CIn> i;
  std::vector<CEdge>& edges() { return o; } const std::vector<CEdge>& edges() const { return o; }
  std::vector<CIn>& in_edges() { return i; } const std::vector<CIn>& in_edges() const { return i; }
};
struct ObjectsR : Objects {
  using G = std::deque<VtxR>;
  static void build(G& g, const St& s) {
    g.resize(s.ids.size());
    for (auto& a : s.arcs) { g[(size_t)a[0]].o.push_back({(int)a[2], (long)a[1]}); g[(size_t)a[1]].i.push_back({(int)a[2], (long)a[0]}); }
  }
};
template <class C_> struct VtxOf { // vertex objects with edges in any standard range
  C_ o;
  C_& edges() { return o; } const C_& edges() const { return o; }
};
template <class C_, template <class...> class Outer = std::vector> struct ObjectsOf {
  using G = Outer<VtxOf<C_>>; using Cn = C_; using E = typename C_::value_type;
  static constexpr bool ev = true, own = valued_elem<E>(), vv = false, und = false, bid = false;
  static constexpr const char* kind() { return "idx"; }
  static constexpr const char* ord() { return ordname<C_>(); }
  static void build(G& g, const St& s) {
    g.resize(s.ids.size());
    for (auto& a : s.arcs) store(g[(size_t)a[0]].o, mkelem<E>(a[1], a[2]));
  }
};
template <class C_, class I_> struct VtxIO : VtxOf<C_> { // and the incoming edges in another
  I_ i;
  I_& in_edges() { return i; } const I_& in_edges() const { return i; }
};
template <class C_, class I_, template <class...> class Outer = std::vector> struct ObjectsIO : ObjectsOf<C_, Outer> {
  using G = Outer<VtxIO<C_, I_>>;
  static constexpr bool bid = true;
  static void build(G& g, const St& s) {
    g.resize(s.ids.size());
    for (auto& a : s.arcs) { store(g[(size_t)a[0]].o, mkelem<typename C_::value_type>(a[1], a[2])); store(g[(size_t)a[1]].i, mkelem<typename I_::value_type>(a[0], a[2])); }
  }
};
struct Foreign {
  using G = std::vector<foreign::V2>;
  static constexpr bool ev = true, own = true, vv = false, und = false, bid = false;
  static constexpr const char* kind() { return "idx"; }
  static constexpr const char* ord() { return "seq"; }
  static void build(G& g, const St& s) {
    g.resize(s.ids.size());
    for (auto& a : s.arcs) g[(size_t)a[0]].es.push_back({(int)a[2], (unsigned)a[1]});
  }
};
// --- user-defined graphs that answer the questions themselves (from the plain list of edges) -------
struct Plain {
  std::vector<std::vector<std::pair<int, int>>> rows; std::vector<int> vals; std::vector<Triple> arcs; int gv = 0;
  template <class U> static long long at(const U& u) { return (long long)u.vertex_id(); }
  long long deg(long long u) const { long long k = 0; for (auto& a : arcs) k += a[0] == u; return k; }
  bool has(long long u, long long v) const { for (auto& a : arcs) if (a[0] == u && a[1] == v) return true; return false; }
  const Triple& arc(long long u, size_t k) const { for (auto& a : arcs) if (a[0] == u && k-- == 0) return a; std::abort(); }
  void fill(const St& s) {
    rows.resize(s.ids.size()); vals.assign(s.ids.size(), 0); arcs = s.arcs;
    for (auto& a : arcs) rows[(size_t)a[0]].push_back({(int)a[1], (int)a[2]});
  }
};
// through member functions
template <int K> struct IdName {};
template <> struct IdName<0> { using vertex_id_type = std::size_t; };
// K = 0: the ids have a named type; K = 1: they have not, and there are members for lookups and ends of edges
template <int K> class MembersOf : public Plain, public IdName<K> {
public:
  using VI = std::vector<std::vector<std::pair<int, int>>>::iterator; using CVI = std::vector<std::vector<std::pair<int, int>>>::const_iterator;
  auto& vertices() { return rows; }
  const auto& vertices() const { return rows; }
  template <class P> requires std::integral<P> auto vertices(const P& p) const { return graph::vertex_descriptor_view<std::vector<std::vector<std::pair<int, int>>>::const_iterator>(half(p).first, half(p).second); }
  std::pair<size_t, size_t> half(long long p) const { size_t n = rows.size(), h = n / 2; return p == 0 ? std::pair{(size_t)0, h} : p == 1 ? std::pair{h, n} : std::pair{n, n}; }
  auto find_vertex(size_t id) requires(K == 1) { graph::vertex_descriptor_view v(rows); return std::ranges::next(v.begin(), (std::ptrdiff_t)std::min(id, rows.size())); }
  auto find_vertex(size_t id) const requires(K == 1) { graph::vertex_descriptor_view v(rows); return std::ranges::next(v.begin(), (std::ptrdiff_t)std::min(id, rows.size())); }
  template <class D> requires(K == 1 && graph::edge_descriptor_type<D>) auto target(const D& e) { return graph::vertex_descriptor<VI>((size_t)arc((long long)e.source_id(), e.value())[1]); }
  template <class D> requires(K == 1 && graph::edge_descriptor_type<D>) auto target(const D& e) const { return graph::vertex_descriptor<CVI>((size_t)arc((long long)e.source_id(), e.value())[1]); }
  template <class D> requires(K == 1 && graph::edge_descriptor_type<D>) auto source(const D& e) { return find_vertex((size_t)e.source_id()); } // an iterator
  template <class D> requires(K == 1 && graph::edge_descriptor_type<D>) auto source(const D& e) const { return find_vertex((size_t)e.source_id()); }
  template <class F, class U> static auto nth(F& g, const U& u, long long v) { auto r = edges(g, u); auto it = r.begin(); for (; it != r.end(); ++it) if ((long long)target_id(g, *it) == v) return *it; return *it; }
  template <class U, class W> requires(K == 1 && graph::vertex_descriptor_type<U> && graph::vertex_descriptor_type<W>) auto find_vertex_edge(const U& u, const W& w) { return nth(*this, u, at(w)); }
  template <class U, class W> requires(K == 1 && graph::vertex_descriptor_type<U> && graph::vertex_descriptor_type<W>) auto find_vertex_edge(const U& u, const W& w) const { return nth(*this, u, at(w)); }
  template <class U, std::integral I> requires(K == 1 && graph::vertex_descriptor_type<U>) auto find_vertex_edge(const U& u, const I& w) { return nth(*this, u, (long long)w); }
  template <class U, std::integral I> requires(K == 1 && graph::vertex_descriptor_type<U>) auto find_vertex_edge(const U& u, const I& w) const { return nth(*this, u, (long long)w); }
  template <std::integral I, std::integral J> requires(K == 1) auto find_vertex_edge(const I& u, const J& w) { return nth(*this, *find_vertex((size_t)u), (long long)w); }
  template <std::integral I, std::integral J> requires(K == 1) auto find_vertex_edge(const I& u, const J& w) const { return nth(*this, *find_vertex((size_t)u), (long long)w); }
  size_t num_vertices() const { return rows.size(); }
  template <class P> requires std::integral<P> size_t num_vertices(const P& p) const { return half(p).second - half(p).first; }
  size_t num_edges() const { return arcs.size(); }
  template <class U> requires graph::vertex_descriptor_type<U> size_t num_edges(const U& u) const { return (size_t)deg(at(u)); }
  size_t num_edges(size_t u) const { return (size_t)deg((long long)u); }
  template <class U> requires graph::vertex_descriptor_type<U> size_t degree(const U& u) const { return (size_t)deg(at(u)); }
  size_t degree(size_t u) const { return (size_t)deg((long long)u); }
  bool has_edge() const { return !arcs.empty(); }
  template <class U, class V> requires(graph::vertex_descriptor_type<U> && graph::vertex_descriptor_type<V>) bool contains_edge(const U& u, const V& v) const { return has(at(u), at(v)); }
  bool contains_edge(size_t u, size_t v) const { return has((long long)u, (long long)v); }
  template <class D> requires graph::edge_descriptor_type<D> int edge_value(const D& e) const { return (int)arc((long long)e.source_id(), e.value())[2]; }
  template <class D> requires graph::edge_descriptor_type<D> size_t source_id(const D& e) const { return (size_t)arc((long long)e.source_id(), e.value())[0]; }
  template <class U> requires graph::vertex_descriptor_type<U> int& vertex_value(const U& u) { return vals[(size_t)at(u)]; }
  template <class U> requires graph::vertex_descriptor_type<U> const int& vertex_value(const U& u) const { return vals[(size_t)at(u)]; }
  int& graph_value() { return gv; }
  const int& graph_value() const { return gv; }
  size_t num_partitions() const { return 2; }
  template <class U> requires graph::vertex_descriptor_type<U> size_t partition_id(const U& u) const { return (size_t)at(u) < rows.size() / 2 ? 0 : 1; }
  friend auto edges(MembersOf& g, const graph::vertex_descriptor<std::vector<std::vector<std::pair<int, int>>>::iterator>& u) { return graph::edge_descriptor_view(g.rows[u.value()], u); }
  friend auto edges(const MembersOf& g, const graph::vertex_descriptor<std::vector<std::vector<std::pair<int, int>>>::const_iterator>& u) { return graph::edge_descriptor_view(g.rows[u.value()], u); }
  template <class D> requires graph::edge_descriptor_type<D> friend size_t target_id(const MembersOf& g, const D& e) { return (size_t)g.arc((long long)e.source_id(), e.value())[1]; }
};
using Members = MembersOf<0>; using Members1 = MembersOf<1>;
// through free functions
namespace freefn {
class Free : public Plain {};
template <class U> concept VD = graph::vertex_descriptor_type<U>;
template <class D> concept ED = graph::edge_descriptor_type<D>;
using R = std::vector<std::vector<std::pair<int, int>>>;
inline auto vertices(Free& g) { return graph::vertex_descriptor_view(g.rows); }
inline auto vertices(const Free& g) { return graph::vertex_descriptor_view(g.rows); }
inline auto find_vertex(Free& g, size_t id) { return std::ranges::next(std::ranges::begin(vertices(g)), (std::ptrdiff_t)std::min(id, g.rows.size())); }
inline auto find_vertex(const Free& g, size_t id) { return std::ranges::next(std::ranges::begin(vertices(g)), (std::ptrdiff_t)std::min(id, g.rows.size())); }
inline auto edges(Free& g, const graph::vertex_descriptor<R::iterator>& u) { return graph::edge_descriptor_view(g.rows[u.value()], u); }
inline auto edges(const Free& g, const graph::vertex_descriptor<R::const_iterator>& u) { return graph::edge_descriptor_view(g.rows[u.value()], u); }
template <VD U> size_t vertex_id(const Free&, const U& u) { return u.value(); }
template <ED D> size_t target_id(const Free& g, const D& e) { return (size_t)g.arc((long long)e.source_id(), e.value())[1]; }
template <ED D> size_t source_id(const Free& g, const D& e) { return (size_t)g.arc((long long)e.source_id(), e.value())[0]; }
template <ED D> int edge_value(const Free& g, const D& e) { return (int)g.arc((long long)e.source_id(), e.value())[2]; }
template <ED D> auto target(const Free& g, const D& e) { return *find_vertex(g, target_id(g, e)); }
template <ED D> auto target(Free& g, const D& e) { return *find_vertex(g, target_id(g, e)); }
template <ED D> auto source(const Free& g, const D& e) { return *find_vertex(g, source_id(g, e)); }
template <ED D> auto source(Free& g, const D& e) { return *find_vertex(g, source_id(g, e)); }
inline size_t num_vertices(const Free& g) { return g.rows.size(); }
template <std::integral P> auto vertices(const Free& g, const P& p) { size_t n = g.rows.size(), h = n / 2; return graph::vertex_descriptor_view<R::const_iterator>(p == 0 ? 0 : p == 1 ? h : n, p == 0 ? h : n); }
template <std::integral P> size_t num_vertices(const Free& g, const P& p) { size_t n = g.rows.size(), h = n / 2; return p == 0 ? h : p == 1 ? n - h : 0; }
inline size_t num_edges(const Free& g) { return g.arcs.size(); }
template <VD U> size_t num_edges(const Free& g, const U& u) { return (size_t)g.deg(Plain::at(u)); }
template <std::integral I> size_t num_edges(const Free& g, const I& u) { return (size_t)g.deg((long long)u); }
template <VD U> size_t degree(const Free& g, const U& u) { return (size_t)g.deg(Plain::at(u)); }
template <std::integral I> size_t degree(const Free& g, const I& u) { return (size_t)g.deg((long long)u); }
inline bool has_edge(const Free& g) { return !g.arcs.empty(); }
template <VD U, VD V> bool contains_edge(const Free& g, const U& u, const V& v) { return g.has(Plain::at(u), Plain::at(v)); }
template <std::integral I, std::integral J> bool contains_edge(const Free& g, const I& u, const J& v) { return g.has((long long)u, (long long)v); }
template <VD U> int& vertex_value(Free& g, const U& u) { return g.vals[(size_t)Plain::at(u)]; }
template <VD U> const int& vertex_value(const Free& g, const U& u) { return g.vals[(size_t)Plain::at(u)]; }
inline int& graph_value(Free& g) { return g.gv; }
inline const int& graph_value(const Free& g) { return g.gv; }
inline size_t num_partitions(const Free&) { return 2; }
template <VD U> size_t partition_id(const Free& g, const U& u) { return (size_t)Plain::at(u) < g.rows.size() / 2 ? 0 : 1; }
template <class F, VD U> auto nth(F& g, const U& u, long long v) { auto r = edges(g, u); auto it = r.begin(); for (; it != r.end(); ++it) if ((long long)target_id(g, *it) == v) return *it; return *it; }
template <class F> concept IsFree = std::same_as<std::remove_const_t<F>, Free>;
template <IsFree F, VD U, VD W> auto find_vertex_edge(F& g, const U& u, const W& v) { return nth(g, u, Plain::at(v)); }
template <IsFree F, VD U, std::integral I> auto find_vertex_edge(F& g, const U& u, const I& v) { return nth(g, u, (long long)v); }
template <IsFree F, std::integral I, std::integral J> auto find_vertex_edge(F& g, const I& u, const J& v) { return nth(g, *find_vertex(g, (size_t)u), (long long)v); }
}
template <class G_> struct Own {
  using G = G_;
  static constexpr bool ev = true, own = true, vv = true, und = false, bid = false, halves = true, rov = true; // rov: edge values are read-only
  static constexpr const char* kind() { return "idx"; }
  static constexpr const char* ord() { return "seq"; }
  static void build(G& g, const St& s) { g.fill(s); }
};
// rows of lists that free functions give by reference, with incoming edges; K = 0: lookups among incoming edges are members, K = 1: free functions
namespace infree {
using L = std::list<std::pair<int, int>>;
template <int K> struct GIn : std::vector<L> {
  std::vector<L> ins;
  using VI = std::vector<L>::iterator; using CVI = std::vector<L>::const_iterator;
  static auto ind(auto& g, size_t u, size_t v) { // the first edge that comes from v, or the end
    auto r = graph::in_edges(g, u); auto it = r.begin();
    for (; it != r.end(); ++it) if ((size_t)graph::source_id(g, *it) == v) break;
    return *it;
  }
  static size_t at(const auto& u) { if constexpr (graph::vertex_descriptor_type<std::remove_cvref_t<decltype(u)>>) return u.value(); else return (size_t)u; }
  size_t count(size_t u) const { return ins[u].size(); }
  bool has(size_t u, size_t v) const { for (auto& e : ins[u]) if ((size_t)e.first == v) return true; return false; }
  size_t in_degree(const auto& u) requires(K == 0) { return count(at(u)); }
  size_t in_degree(const auto& u) const requires(K == 0) { return count(at(u)); }
  auto find_in_edge(const auto& u, const auto& v) requires(K == 0) { return ind(*this, at(u), at(v)); }
  auto find_in_edge(const auto& u, const auto& v) const requires(K == 0) { return ind(*this, at(u), at(v)); }
  bool contains_in_edge(const auto& u, const auto& v) const requires(K == 0) { return has(at(u), at(v)); }
  template <class D> static size_t from(const D& e) { if constexpr (D::is_in_edge) return (size_t)e.value()->first; else return e.source_id(); }
  template <class D> requires(K == 0 && graph::edge_descriptor_type<D>) size_t source_id(const D& e) const { return from(e); }
  template <class D> requires(K == 0 && graph::edge_descriptor_type<D>) int edge_value(const D& e) const { return e.value()->second; }
};
template <class X> concept Is = std::same_as<std::remove_const_t<X>, GIn<0>> || std::same_as<std::remove_const_t<X>, GIn<1>>;
template <class X> concept Is1 = std::same_as<std::remove_const_t<X>, GIn<1>>;
template <Is X> auto& edges(X& g, std::integral auto u) { return g[(size_t)u]; }
template <Is X, class U> requires graph::vertex_descriptor_type<U> auto& in_edges(X& g, const U& u) { return g.ins[u.value()]; }
template <Is X> auto& in_edges(X& g, std::integral auto u) { return g.ins[(size_t)u]; }
template <Is1 X, class D> requires graph::edge_descriptor_type<D> size_t source_id(X&, const D& e) { return X::from(e); }
template <Is1 X, class D> requires graph::edge_descriptor_type<D> int edge_value(X&, const D& e) { return e.value()->second; }
template <Is1 X> size_t in_degree(X& g, const auto& u) { return g.count(X::at(u)); }
template <Is1 X> auto find_in_edge(X& g, const auto& u, const auto& v) { return X::ind(g, X::at(u), X::at(v)); }
template <Is1 X> bool contains_in_edge(X& g, const auto& u, const auto& v) { return g.has(X::at(u), X::at(v)); }
}
template <int K> struct OwnIn {
  using G = infree::GIn<K>;
  static constexpr bool ev = true, own = true, vv = false, und = false, bid = true;
  static constexpr const char* kind() { return "idx"; }
  static constexpr const char* ord() { return "seq"; }
  static void build(G& g, const St& s) {
    g.resize(s.ids.size()); g.ins.resize(s.ids.size());
    for (auto& a : s.arcs) { g[(size_t)a[0]].push_back({(int)a[1], (int)a[2]}); g.ins[(size_t)a[1]].push_back({(int)a[0], (int)a[2]}); }
  }
};
// abstract graphs
inline St from(const AG& g, Rng& r, bool sparse) {
  St s; std::vector<long long> id(g.n);
  long long x = sparse ? rnd(r, 0, 2) : 0;
  for (int i = 0; i < g.n; ++i) { id[(size_t)i] = x; x += sparse ? rnd(r, 1, 2) : 1; }
  s.ids = id;
  for (auto& a : g.arcs) s.arcs.push_back({id[(size_t)a[0]], id[(size_t)a[1]], a[2]});
  return s;
}
#define S(NAME, ...) with<Std<__VA_ARGS__>>(r, NAME, Std<__VA_ARGS__>::assoc, false)
#define D(ALIAS, KIND, ORD) with<Dyn<gc::dynamic_graph<int, void, void, uint32_t, false, gc::ALIAS##_graph_traits<int, void, void, uint32_t, false>>, false, true, KIND, ORD>>(r, #ALIAS, KIND != 'v', KIND != 'v')
#define B(VK, EK, ORD) with<Dyn<gc::dynamic_graph<int, void, void, uint32_t, true, BiTr<VK, EK>::template T<int, void, void, uint32_t, true>>, true, true, VK, ORD>>(r, (std::string{VK, 'o', EK} + "-bi").c_str(), VK != 'v', VK != 'v')
#define DS(ALIAS, KIND, ORD) with<Dyn<gc::dynamic_graph<int, void, void, str, false, gc::ALIAS##_graph_traits<int, void, void, str, false>>, false, true, KIND, ORD>>(r, #ALIAS "-strid", true, true)
template <class... T> using V = std::vector<T...>;
