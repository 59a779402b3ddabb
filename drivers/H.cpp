// Work and storage of every call on graphs of a few thousand vertices: basic blocks executed, bytes held at most.
// PART 0: algorithms; 1: access functions and containers; 2: views
#include "treps.hpp"
#if PART == 1
#include "dyn_traits.hpp"
#endif
#include <malloc.h>
#include <graph/views/vertexlist.hpp>
#include <graph/views/incidence.hpp>
#if PART == 0
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#else
#include <graph/views/edgelist.hpp>
#include <graph/views/neighbors.hpp>
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#endif
#define PLAIN __attribute__((no_sanitize_coverage))
volatile unsigned long long blocks_run = 0;
static const char* deepest = nullptr;
extern "C" PLAIN void __sanitizer_cov_trace_pc() { blocks_run = blocks_run + 1; const char* here = (const char*)__builtin_frame_address(0); if (here < deepest) deepest = here; }
// a step for every eight bytes that the C library fills, copies or moves
extern "C" {
PLAIN __attribute__((used, noipa)) void* memset(void* d, int c, size_t n) { blocks_run = blocks_run + n / 8; void* q = d; __asm__ volatile("rep stosb" : "+D"(q), "+c"(n) : "a"(c) : "memory"); return d; }
PLAIN __attribute__((used, noipa)) void* memcpy(void* d, const void* s, size_t n) { blocks_run = blocks_run + n / 8; void* q = d; __asm__ volatile("rep movsb" : "+D"(q), "+S"(s), "+c"(n) : : "memory"); return d; }
PLAIN __attribute__((used, noipa)) void* memmove(void* d, const void* s, size_t n) {
  if ((size_t)((char*)d - (const char*)s) >= n) return memcpy(d, s, n);
  blocks_run = blocks_run + n / 8; char* q = (char*)d + n - 1; const char* p = (const char*)s + n - 1;
  __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(q), "+S"(p), "+c"(n) : : "memory"); return d;
}
}
static long long held = 0, most = 0, taken = 0;
PLAIN static void* take(size_t n) { void* p = std::malloc(n); if (!p) std::abort(); held += (long long)malloc_usable_size(p); taken += (long long)n; if (held > most) most = held; return p; }
PLAIN static void drop(void* p) noexcept { if (p) { held -= (long long)malloc_usable_size(p); std::free(p); } }
PLAIN void* operator new(size_t n) { return take(n); }
PLAIN void* operator new[](size_t n) { return take(n); }
PLAIN void operator delete(void* p) noexcept { drop(p); }
PLAIN void operator delete[](void* p) noexcept { drop(p); }
PLAIN void operator delete(void* p, size_t) noexcept { drop(p); }
PLAIN void operator delete[](void* p, size_t) noexcept { drop(p); }
struct Cost { long long steps, bytes, stack; }; // storage asked for counts as work too, a step for every eight bytes: it has to be filled
template <class F> PLAIN Cost cost(F&& f) {
  const auto s = blocks_run; const long long h = held, t = taken; most = held;
  const char* base = deepest = (const char*)__builtin_frame_address(0);
  f();
  return {std::min<long long>((long long)(blocks_run - s) + (taken - t) / 8, 2000000000), std::max<long long>(0, most - h), std::min<long long>(base - deepest, 2000000000)};
}
static std::vector<int> weights; // by edge
// what the bounds are made of
struct Size { long long n, m, dmax, smin, nr, mr; } S;
static std::string fam, vk = "seq", ek = "list"; // what the vertices and the edges of a vertex are kept in: seq | map | hash, list | forward | set | hash
static std::vector<int> degs;
static void measure(const AG& a) {
  S = {a.n, (long long)a.arcs.size(), 0, 0, 0, 0}; weights = a.w;
  degs.assign((size_t)a.n, 0);
  std::vector<std::vector<int>> out((size_t)a.n);
  for (auto& e : a.arcs) { ++degs[(size_t)e[0]]; out[(size_t)e[0]].push_back(e[1]); }
  for (int d : degs) S.dmax = std::max<long long>(S.dmax, d);
  for (auto& e : a.arcs) S.smin += std::min(degs[(size_t)e[0]], degs[(size_t)e[1]]);
  std::vector<char> seen((size_t)a.n, 0); std::vector<int> st; // reached from the last vertex
  if (a.n) { st.push_back(a.n - 1); seen[(size_t)a.n - 1] = 1; }
  while (!st.empty()) { int u = st.back(); st.pop_back(); ++S.nr; S.mr += degs[(size_t)u]; for (int v : out[(size_t)u]) if (!seen[(size_t)v]) { seen[(size_t)v] = 1; st.push_back(v); } }
}
// deg: of the vertex in question; it: iterations or calls
static std::string FIND_KEY; // the known finding this measurement belongs to
static void tell(const char* what, Cost c, long long deg = 0, long long it = 1) {
  Obj o; o.kv("k", what); if (!FIND_KEY.empty()) o.kv("kf", FIND_KEY);
  emit(o.kv("rep", OUT.rep).kv("fam", fam).kv("n", S.n).kv("m", S.m).kv("dmax", S.dmax).kv("smin", S.smin).kv("nr", S.nr).kv("mr", S.mr).kv("deg", deg).kv("it", it).kv("vk", vk).kv("ek", ek)
         .raw("ev", "[[\"work\"," + std::to_string(c.steps) + "," + std::to_string(c.bytes) + "," + std::to_string(c.stack) + "]]").done());
}
static AG family(Rng& r, const std::string& f, bool und) {
  AG g; g.und = und;
  int n = rnd(r, 3000, 4000); if (f == "lone") n *= 10;
  auto w = [&] { return rnd(r, 1, 100); };
  auto e = [&](int u, int v) { g.add(u, v, w()); };
  fam = f; g.n = n;
  if (f == "star") for (int i = 1; i < n; ++i) e(0, i);
  if (f == "path") for (int i = 1; i < n; ++i) e(i - 1, i);
  if (f == "two") { for (int i = 2; i < n; ++i) { e(0, i); e(i, 1); } } // everything between two hubs
  if (f == "comb") for (int i = 0; i + 2 < n; i += 2) { e(i, i + 1); e(i, i + 2); }
  if (f == "multi") { g.n = n = 50; for (int i = 0; i < 3500; ++i) e(0, 1 + i % 3); }
  if (f == "grid") { const int q = 60; g.n = q * q; for (int i = 0; i < q; ++i) for (int j = 0; j < q; ++j) { if (j + 1 < q) e(i * q + j, i * q + j + 1); if (i + 1 < q) e(i * q + j, i * q + j + q); if (i + 1 < q && j + 1 < q) e(i * q + j, i * q + j + q + 1); } }
  if (f == "dense") { const int q = 200; g.n = q; for (int i = 0; i < q; ++i) for (int j = i + 1; j < q; ++j) e(i, j); }
  if (f == "fan") { for (int i = 1; i + 1 < n; ++i) { e(i, i + 1); } for (int i = 1; i < n; ++i) e(0, i); }
  if (f == "lone") { g.n = n; }
  if (f == "worse") { // the way to vertex i is improved i times by longer and longer paths
    const int q = 400; g.n = q; for (int i = 0; i < q; ++i) for (int j = q - 1; j > i; --j) g.add(i, j, 2 * (j - i) * (j - i) - (j - i));
  }
  return g;
}
static auto wf = [](const auto& g, const auto& uv) -> int { return weights[(size_t)graph::edge_value(g, uv)]; };
#if PART == 0
struct Quiet {};
template <class G> void algs(const AG& a) {
  if (!fits<G>(a)) return;
  OUT.rep = rep<G>::name;
  Guard grd(Obj().kv("fam", fam).kv("rep", OUT.rep).done(), 200);
  G x = rep<G>::make(a);
  using VId = graph::vertex_id_t<G>;
  const size_t n = (size_t)a.n;
  if (!n) return;
  const VId last = (VId)(n - 1);
  std::vector<VId> p(n), o; o.reserve(n + 1);
  std::vector<int> d(n); std::vector<uint32_t> c(n);
  auto back = [&](auto&& f) { o.clear(); return cost(f); };
  tell("bfs", cost([&] { graph::breadth_first_search(x, (VId)0, Quiet{}); }));
  tell("dfs", cost([&] { graph::depth_first_search(x, (VId)0, Quiet{}); }));
  tell("cc", cost([&] { graph::connected_components(x, c); }));
  tell("art", back([&] { graph::articulation_points(x, std::back_inserter(o)); }));
  { std::vector<std::vector<VId>> b; tell("blocks", cost([&] { graph::biconnected_components(x, b); })); }
  tell("mis", back([&] { graph::maximal_independent_set(x, std::back_inserter(o), (VId)0); }));
  tell("af", cost([&] { graph::afforest(x, c); }));
  graph::init_shortest_paths(d, p);
  { const auto c1 = cost([&] { graph::dijkstra_shortest_paths(x, (VId)0, d, p, wf); });
    const auto c2 = cost([&] { graph::prim(x, p, d, std::less<int>(), std::numeric_limits<int>::max(), wf, (VId)0); });
    tell("dijkstra", c1); tell("prim", c2);
    FIND_KEY = "queue-holds-edges"; tell("queue", c1); tell("queue", c2); FIND_KEY.clear(); }
  if (S.n * S.m < 3000000) { graph::init_shortest_paths(d, p); tell("bf", cost([&] { graph::bellman_ford_shortest_paths(x, (VId)0, d, p, wf); })); }
  { // one round is enough to see that a star has no negative cycle, but not that a path has none
    std::iota(p.begin(), p.end(), VId(0)); std::optional<VId> none; std::vector<VId> cyc; cyc.reserve(n);
    if (n > 2) { std::optional<VId> on = last; for (size_t v = 0; v < n; ++v) p[v] = (VId)(v ? v - 1 : n - 1); tell("cycle", cost([&] { graph::find_negative_cycle(x, p, on, std::back_inserter(cyc)); })); }
  }
  for (int it : {1, 3}) { for (size_t v = 0; v < n; ++v) d[v] = (int)(v % 3); std::mt19937 rng(1); tell("lp", cost([&] { graph::label_propagation(x, d, rng, (size_t)it); }), 0, it);
    for (size_t v = 0; v < n; ++v) d[v] = (int)v; tell("lp", cost([&] { graph::label_propagation(x, d, rng, (size_t)it); }), 0, it);
    for (size_t v = 0; v < n; ++v) d[v] = (int)(v % 3 ? v : 0); tell("lp", cost([&] { graph::label_propagation(x, d, 0, rng, (size_t)it); }), 0, it); }
  if (S.smin < 20000000) tell("jac", cost([&] { size_t k = 0; graph::jaccard_coefficient(x, [&](auto, auto, auto&, double) { ++k; }); }));
  if constexpr (requires { graph::triangle_count(x); }) if (S.n * S.dmax * S.dmax < 100000000) tell("tri", cost([&] { (void)graph::triangle_count(x); }));
}
template <class G> void dags(const AG& a) { // arcs from lower to higher numbers
  if (!fits<G>(a)) return;
  OUT.rep = rep<G>::name;
  Guard grd(Obj().kv("fam", fam).kv("rep", OUT.rep).done(), 200);
  G x = rep<G>::make(a);
  const G& cx = x;
  using VId = graph::vertex_id_t<G>;
  const size_t n = (size_t)a.n;
  if (!n) return;
  const VId last = (VId)(n - 1);
  std::vector<VId> p(n), o; o.reserve(n + 1);
  std::vector<int> d(n); std::vector<uint32_t> c(n);
  tell("topo", cost([&] { graph::topological_sort(cx, std::back_inserter(o)); }));
  o.clear(); tell("topofrom", cost([&] { graph::topological_sort(cx, last, std::back_inserter(o)); }));
  o.clear(); std::vector<VId> ss{last, last}; tell("topofrom", cost([&] { graph::topological_sort(cx, ss, std::back_inserter(o)); }));
  tell("bfs", cost([&] { graph::breadth_first_search(x, std::vector<VId>{0, last}, Quiet{}); }));
  std::vector<VId> many(n); std::iota(many.begin(), many.end(), VId(0)); // every vertex a source, then the same in reverse
  for (int k = 0; k < 2; ++k, std::reverse(many.begin(), many.end())) {
    tell("bfs", cost([&] { graph::breadth_first_search(x, many, Quiet{}); }));
    o.clear(); tell("topo", cost([&] { graph::topological_sort(cx, many, std::back_inserter(o)); }));
    graph::init_shortest_paths(d, p); tell("dijkstra", cost([&] { graph::dijkstra_shortest_paths(x, many, d, p, wf); }));
  }
  tell("dfs", cost([&] { graph::depth_first_search(x, (VId)0, Quiet{}); }));
  graph::init_shortest_paths(d, p);
  tell("dijkstra", cost([&] { graph::dijkstra_shortest_paths(x, (VId)0, d, p, wf); }));
  if (S.n * S.m < 3000000) { graph::init_shortest_paths(d, p); tell("bf", cost([&] { graph::bellman_ford_shortest_paths(x, (VId)0, d, p, wf); })); }
  if constexpr (std::is_same_v<G, BVOV> || std::is_same_v<G, TV>) tell("scc", cost([&] { graph::kosaraju(x, c); }));
  else { auto t = rep<G>::make(reversed(a)); tell("scc", cost([&] { graph::kosaraju(x, t, c); })); }
}
static void mst(const AG& a) {
  OUT.rep = "edgelist";
  using CE = graph::copyable_edge_t<uint32_t, int>;
  std::vector<CE> in, t; t.reserve((size_t)a.n);
  for (auto& e : a.arcs) in.push_back({(uint32_t)e[0], (uint32_t)e[1], e[2]});
  tell("kruskal", cost([&] { (void)graph::kruskal(in, t); }));
  t.clear(); tell("inplace", cost([&] { (void)graph::inplace_kruskal(in, t); }));
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 131 + 7);
  const int rounds = OUT.thorough ? 6 : 1;
  long t = (long)OUT.seed;
  for (int c = 0; c < rounds; ++c) {
    for (const char* f : {"star", "path", "two", "comb", "multi", "grid", "dense", "fan", "lone", "worse"}) {
      AG u = family(r, f, true); measure(u);
      for (int k = 0; k < (OUT.thorough ? 8 : 2); ++k, ++t) switch (t % 8) {
        case 0: algs<VOV>(u); break; case 1: algs<VOL>(u); break; case 2: algs<UAL>(u); break; case 3: algs<VOS>(u); break;
        case 4: algs<CG>(u); break; case 5: algs<VVP>(u); break; case 6: algs<TV>(u); break; case 7: algs<VOFL>(u); break;
      }
      AG d = family(r, f, false); measure(d);
      for (int k = 0; k < (OUT.thorough ? 8 : 2); ++k, ++t) switch (t % 8) {
        case 0: dags<VOV>(d); break; case 1: dags<VOL>(d); break; case 2: dags<BVOV>(d); break; case 3: dags<VOS>(d); break;
        case 4: dags<CG>(d); break; case 5: dags<VVP>(d); break; case 6: dags<TV>(d); break; case 7: dags<DLT>(d); break;
      }
      mst(d);
    }
  }
  return finish();
}
#elif PART == 1
// dynamic_graph over containers chosen by letters
template <char VK, char EK> struct OneTr {
  template <class EV, class VV, class GV, class Id, bool> struct T {
    using edge_value_type = EV; using vertex_value_type = VV; using graph_value_type = GV; using vertex_id_type = Id;
    static constexpr bool bidirectional = false;
    using edge_type   = gc::dynamic_out_edge<EV, VV, GV, Id, false, T>;
    using vertex_type = gc::dynamic_vertex<EV, VV, GV, Id, false, T>;
    using graph_type  = gc::dynamic_graph<EV, VV, GV, Id, false, T>;
    using edges_type = typename EdgeCont<EK, edge_type, Id>::type; using vertices_type = typename VertCont<VK, vertex_type, Id>::type;
  };
};
template <char VK, char EK> using One = gc::dynamic_graph<int, int, void, uint32_t, false, typename OneTr<VK, EK>::template T<int, int, void, uint32_t, false>>;
template <char VK, char EK> using Both = gc::dynamic_graph<int, int, void, uint32_t, true, typename BiTr<VK, EK>::template T<int, int, void, uint32_t, true>>;
volatile long long sink = 0;
template <class G> void access(const std::string& name, char v, char e, G& x, const AG& a, bool member_counts) {
  OUT.rep = name.c_str();
  vk = v == 'm' ? "map" : v == 'u' ? "hash" : "seq"; ek = e == 'f' ? "forward" : e == 's' || e == 'm' ? "set" : e == 'u' ? "hash" : "list";
  const G& cx = x;
  using VId = graph::vertex_id_t<G>;
  tell("num_vertices", cost([&] { sink = (long long)graph::num_vertices(cx); }));
  tell(member_counts ? "num_edges" : "count_edges", cost([&] { sink = (long long)graph::num_edges(cx); }));
  tell(member_counts ? "has_edges" : "seek_edges", cost([&] { sink = graph::has_edges(cx); }));
  tell("vertices", cost([&] { auto r = graph::vertices(x); sink = r.begin() == r.end(); }));
  tell("walk", cost([&] { long long k = 0; for (auto u : graph::vertices(x)) for (auto uv : graph::edges(x, u)) k += (long long)graph::target_id(x, uv); sink = k; }));
  size_t hub = 0;
  for (size_t i = 0; i < degs.size(); ++i) if (degs[i] > degs[hub]) hub = i;
  for (size_t p : {hub, (size_t)0, (size_t)(a.n - 1), (size_t)(a.n / 2)}) {
    if (graph::num_vertices(cx) < (size_t)a.n) break;
    const VId id = (VId)p;
    tell("find_vertex", cost([&] { sink = (long long)graph::vertex_id(x, *graph::find_vertex(x, id)); }));
    auto u = *graph::find_vertex(x, id);
    long long k = 0;
    for (auto uv : graph::edges(x, u)) { (void)uv; ++k; }
    tell("vertex_id", cost([&] { sink = (long long)graph::vertex_id(cx, u); }), k);
    if constexpr (!std::is_same_v<G, CG> && !std::is_same_v<G, VVP> && !std::is_same_v<G, DLT> && !std::is_same_v<G, TV>) tell("vertex_value", cost([&] { sink = (long long)(size_t)&graph::vertex_value(x, u); }), k);
    tell("edges", cost([&] { auto r = graph::edges(x, u); sink = r.begin() == r.end(); }), k);
    tell("edges_by_id", cost([&] { auto r = graph::edges(x, id); sink = r.begin() == r.end(); }), k);
    tell("degree", cost([&] { sink = (long long)graph::degree(cx, u); }), k);
    tell("degree_by_id", cost([&] { sink = (long long)graph::degree(cx, id); }), k);
    tell("row", cost([&] { long long s = 0; for (auto uv : graph::edges(x, u)) s += (long long)graph::target_id(x, uv); sink = s; }), k);
    if (k) {
      auto r = graph::edges(x, u);
      auto uv = *r.begin();
      VId far = 0;
      for (auto w : r) { uv = w; far = (VId)graph::target_id(x, w); }
      tell("target_id", cost([&] { sink = (long long)graph::target_id(x, uv); }), k);
      tell("target", cost([&] { sink = (long long)graph::vertex_id(x, graph::target(x, uv)); }), k);
      tell("edge_value", cost([&] { sink = (long long)(size_t)&graph::edge_value(x, uv); }), k);
      if constexpr (requires { graph::source_id(x, uv); }) tell("source_id", cost([&] { sink = (long long)graph::source_id(x, uv); }), k);
      if constexpr (requires { graph::source(x, uv); }) tell("source", cost([&] { sink = (long long)graph::vertex_id(x, graph::source(x, uv)); }), k);
      const auto find = cost([&] { sink = (long long)graph::target_id(x, graph::find_vertex_edge(x, u, far)); });
      const auto has = cost([&] { sink = graph::contains_edge(x, id, far); });
      tell("find_edge", find, k); tell("contains_edge", has, k);
      if (e == 's' || e == 'm' || e == 'u') { FIND_KEY = "find-edge-scans-row"; tell("find_keyed_edge", find, k); FIND_KEY.clear(); }
    }
    tell("contains_edge", cost([&] { sink = graph::contains_edge(x, id, id); }), k);
    if constexpr (requires { graph::in_edges(x, u); }) {
      long long q = 0; VId from = id; bool any = false;
      for (auto vu : graph::in_edges(x, u)) { ++q; any = true; if constexpr (requires { graph::source_id(x, vu); }) from = (VId)graph::source_id(x, vu); }
      tell("in_edges", cost([&] { auto r = graph::in_edges(x, u); sink = r.begin() == r.end(); }), q);
      tell("in_degree", cost([&] { sink = (long long)graph::in_degree(x, u); }), q);
      if constexpr (requires { graph::find_in_edge(x, u, from); }) if (any) tell("find_in_edge", cost([&] { auto it = graph::find_in_edge(x, u, from); (void)it; }), q + degs[(size_t)from]);
      if constexpr (requires { graph::contains_in_edge(x, u, from); }) tell("contains_in_edge", cost([&] { sink = graph::contains_in_edge(x, u, from); }), q + degs[(size_t)from]);
    }
  }
  if constexpr (requires { graph::num_partitions(x); }) tell("num_partitions", cost([&] { sink = (long long)graph::num_partitions(x); }));
  if constexpr (std::is_default_constructible_v<G>) {
    { std::optional<G> y; tell("copy", cost([&] { y.emplace(cx); })); tell("move", cost([&] { G z(std::move(*y)); y.emplace(std::move(z)); }));
      tell("swap", cost([&] { std::swap(*y, x); std::swap(*y, x); }));
      G w; tell("assign", cost([&] { w = cx; }));
      tell("move_assign", cost([&] { w = std::move(*y); })); // the target's old contents go
      if constexpr (requires { w.clear(); }) tell("clear", cost([&] { w.clear(); })); }
  }
}
template <char VK, char EK> void one(const AG& a) {
  using G = One<VK, EK>;
  std::vector<EDv> es; for (auto& q : a.arcs) es.push_back({(uint32_t)q[0], (uint32_t)q[1], q[2]});
  const std::string name = std::string(1, VK) + "o" + EK;
  Guard grd(Obj().kv("fam", fam).kv("rep", name).done(), 100);
  OUT.rep = name.c_str(); G x;
  tell("load", cost([&] { x.load_edges(es, std::identity{}, (size_t)a.n); }));
  access(name, VK, EK, x, a, true);
}
template <char VK, char EK> void both(const AG& a) {
  using G = Both<VK, EK>;
  std::vector<EDv> es; for (auto& q : a.arcs) es.push_back({(uint32_t)q[0], (uint32_t)q[1], q[2]});
  const std::string name = std::string("bi-") + VK + "o" + EK;
  Guard grd(Obj().kv("fam", fam).kv("rep", name).done(), 100);
  OUT.rep = name.c_str(); G x;
  tell("load", cost([&] { x.load_edges(es, std::identity{}, (size_t)a.n); }));
  access(name, VK, EK, x, a, true);
}
template <class G> void plain(const AG& a, char v, char e, bool member_counts) {
  if (!fits<G>(a)) return;
  OUT.rep = rep<G>::name;
  Guard grd(Obj().kv("fam", fam).kv("rep", OUT.rep).done(), 100);
  std::optional<G> x;
  if (member_counts) tell("load", cost([&] { x.emplace(rep<G>::make(a)); })); else x.emplace(rep<G>::make(a));
  access(rep<G>::name, v, e, *x, a, member_counts);
}
static void ual(const AG& a) { // built and taken down edge by edge
  OUT.rep = "undirected"; vk = "seq"; ek = "list";
  Guard grd(Obj().kv("fam", fam).kv("rep", OUT.rep).done(), 100);
  gc::undirected_adjacency_list<int, int> x;
  tell("add_vertices", cost([&] { for (int i = 0; i < a.n; ++i) x.create_vertex(); }), 0, a.n);
  std::vector<std::array<int, 2>> es; std::set<int> seen;
  for (auto& q : a.arcs) if (seen.insert(q[2]).second) es.push_back({q[0], q[1]});
  if (es.empty()) return;
  tell("add_edges", cost([&] { for (auto& q : es) x.create_edge((uint32_t)q[0], (uint32_t)q[1], 1); }), 0, (long long)es.size());
  Cost worst{0, 0, 0}; // taking any edge out, from either end, first or last of its row
  size_t k = 0;
  for (auto& q : es) {
    if (++k > 400) break;
    auto u = x.vertices().begin() + q[k % 2];
    if (u->edges_begin(x, (uint32_t)q[k % 2]) == u->edges_end(x, (uint32_t)q[k % 2])) continue;
    auto it = u->edges_begin(x, (uint32_t)q[k % 2]);
    auto c = cost([&] { u->erase_edge(x, it); });
    if (c.steps > worst.steps) worst = c;
  }
  tell("erase_edge", worst);
  tell("add_edge", cost([&] { x.create_edge((uint32_t)es[0][0], (uint32_t)es[0][1], 1); }));
  tell("clear", cost([&] { x.clear(); }));
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 131 + 8);
  const int rounds = OUT.thorough ? 12 : 1;
  for (int c = 0; c < rounds; ++c)
    for (const char* f : {"star", "path", "two", "multi", "dense", "fan", "lone"}) {
      AG d = family(r, f, false); measure(d);
      one<'v', 'v'>(d); one<'v', 'l'>(d); one<'v', 'f'>(d); one<'v', 'd'>(d); one<'v', 's'>(d); one<'v', 'u'>(d); one<'v', 'm'>(d);
      one<'d', 'v'>(d); one<'m', 'v'>(d); one<'m', 'l'>(d); one<'m', 's'>(d); one<'u', 'v'>(d); one<'u', 'f'>(d);
      both<'v', 'v'>(d); both<'v', 'l'>(d); both<'m', 'v'>(d); both<'d', 's'>(d);
      plain<CG>(d, 'v', 'v', true); plain<VVP>(d, 'v', 'v', false); plain<DLT>(d, 'v', 'l', false); plain<TV>(d, 'v', 'v', false);
      AG u = family(r, f, true); measure(u);
      ual(u); plain<UAL>(u, 'v', 'l', true);
    }
  return finish();
}
#else
volatile long long sink = 0;
namespace gv = graph::views;
template <class R> static void run(const char* make, const char* use, R&& mk, long long deg = 0) {
  using V = decltype(mk());
  std::optional<V> v;
  tell(make, cost([&] { v.emplace(mk()); }), deg);
  tell(use, cost([&] { long long k = 0; auto& w = *v; auto e = w.end(); for (auto it = w.begin(); it != e; ++it) { auto&& t = *it; (void)t; ++k; } sink = k; }), deg);
}
template <class G> void seen(const AG& a, bool acyclic) {
  if (!fits<G>(a)) return;
  OUT.rep = rep<G>::name;
  Guard grd(Obj().kv("fam", fam).kv("rep", OUT.rep).done(), 200);
  G x = rep<G>::make(a);
  using VId = graph::vertex_id_t<G>;
  auto vf = [](const auto& g, auto u) { return (long long)graph::vertex_id(g, u); };
  auto ef = [](const auto& g, auto uv) { return (long long)graph::target_id(g, uv); };
  run("make", "each_vertex", [&] { return gv::vertexlist(x); });
  run("make", "each_vertex", [&] { return gv::vertexlist(x, vf); });
  run("make", "each_vertex", [&] { return gv::basic_vertexlist(x); });
  run("make", "each_edge", [&] { return gv::edgelist(x); });
  run("make", "each_edge", [&] { return gv::edgelist(x, ef); });
  run("make", "each_edge", [&] { return gv::basic_edgelist(x); });
  size_t hub = 0;
  for (size_t i = 0; i < degs.size(); ++i) if (degs[i] > degs[hub]) hub = i;
  for (size_t p : {hub, (size_t)0, (size_t)(a.n - 1)}) {
    const VId id = (VId)p;
    auto u = *graph::find_vertex(x, id);
    const long long k = degs[p];
    run("make", "each_of_row", [&] { return gv::incidence(x, u); }, k);
    run("make", "each_of_row", [&] { return gv::incidence(x, u, ef); }, k);
    run("make", "each_of_row", [&] { return gv::basic_incidence(x, id); }, k);
    run("make", "each_of_row", [&] { return gv::neighbors(x, u); }, k);
    run("make", "each_of_row", [&] { return gv::neighbors(x, u, vf); }, k);
    run("make", "each_of_row", [&] { return gv::basic_neighbors(x, id); }, k);
    run("make_search", "search_view", [&] { return gv::vertices_bfs(x, id); });
    run("make_search", "search_view", [&] { return gv::edges_bfs(x, id); });
    run("make_search", "search_view", [&] { return gv::vertices_dfs(x, id); });
    run("make_search", "search_view", [&] { return gv::edges_dfs(x, id); });
    run("make_search", "search_view", [&] { return gv::vertices_dfs(x, id, vf); });
    run("make_search", "search_view", [&] { return gv::edges_bfs(x, id, ef); });
  }
  if (acyclic) {
    run("make_order", "each_vertex", [&] { return gv::vertices_topological_sort(x); });
    run("make_order", "each_edge", [&] { return gv::edges_topological_sort(x); });
    tell("make_order", cost([&] { auto s = gv::vertices_topological_sort_safe(x); sink = (bool)s; }));
  } else tell("make_order", cost([&] { auto s = gv::vertices_topological_sort_safe(x); sink = (bool)s; }));
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 131 + 9);
  const int rounds = OUT.thorough ? 10 : 1;
  long t = (long)OUT.seed;
  for (int c = 0; c < rounds; ++c)
    for (const char* f : {"star", "path", "two", "comb", "multi", "grid", "dense", "fan", "lone"}) for (bool und : {true, false}) {
      AG u = family(r, f, und); measure(u);
      for (int k = 0; k < (OUT.thorough ? 10 : 5); ++k, ++t) switch (t % 10) {
        case 0: seen<VOV>(u, !und); break; case 1: seen<VOL>(u, !und); break; case 2: seen<UAL>(u, !und); break; case 3: seen<VOS>(u, !und); break;
        case 4: seen<CG>(u, !und); break; case 5: seen<VVP>(u, !und); break; case 6: seen<TV>(u, !und); break; case 7: seen<DLT>(u, !und); break;
        case 8: seen<VOFL>(u, !und); break; case 9: seen<BVOV>(u, !und); break;
      }
    }
  return finish();
}
#endif
