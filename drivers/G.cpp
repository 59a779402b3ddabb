// Large members of families of graphs with known answers.  PART 0: searches, paths, orders; 1: undirected algorithms; 2: containers and views
#include "treps.hpp"
#include <graph/views/vertexlist.hpp>
#include <graph/views/incidence.hpp>
#include <sys/resource.h>
#include <unistd.h>
// a search that recurses needs more than this for a path of 65 600 vertices
static void small_stack(char** argv) {
  rlimit l;
  if (!getrlimit(RLIMIT_STACK, &l) && l.rlim_cur > (1u << 20)) { l.rlim_cur = 1u << 20; if (!setrlimit(RLIMIT_STACK, &l)) execv("/proc/self/exe", argv); }
}
#if PART == 0
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/connected_components.hpp>
#elif PART == 1
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <cmath>
#else
#include <graph/views/edgelist.hpp>
#include <graph/views/neighbors.hpp>
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#endif
using VLL = std::vector<long long>;
static std::string fam; static long long N;
static std::string arr(const VLL& v) { std::string s; s.reserve(v.size() * 7); js(s, v); return s; }
template <class... A> void episode(const char* what, A&&... a) { // one event
  std::string e = "[[\""; e += what; e += '"';
  ((e += ',', e += a), ...);
  e += "]]";
  emit(Obj().kv("k", what).kv("rep", OUT.rep).kv("fam", fam).kv("n", N).raw("ev", e).done());
}
static std::string num(long long x) { return std::to_string(x); }
static AG family(const std::string& f, long long n, bool und) {
  AG g; g.und = und;
  int k = 0;
  auto e = [&](long long u, long long v) { g.add((int)u, (int)v, 1 + k++ % 3); };
  if (f == "path") { g.n = (int)n; for (long long i = 0; i + 1 < n; ++i) e(i, i + 1); }
  if (f == "ring") { g.n = (int)n; for (long long i = 0; i < n; ++i) e(i, (i + 1) % n); }
  if (f == "star") { g.n = (int)n; for (long long i = 1; i < n; ++i) e(0, i); }
  if (f == "multi") { g.n = 2; for (long long i = 0; i < n; ++i) e(0, 1); }
  if (f == "tri") { g.n = (int)(2 * n + 1); for (long long j = 0; j < n; ++j) { e(2 * j, 2 * j + 1); e(2 * j + 1, 2 * j + 2); e(2 * j, 2 * j + 2); } }
  if (f == "isles") { g.n = (int)(3 * n); for (long long j = 0; j < n; ++j) { e(3 * j, 3 * j + 1); e(3 * j + 1, 3 * j + 2); e(3 * j + 2, 3 * j); } }
  return g;
}
template <class F> void on(const char* f, long long n, bool und, F&& run) {
  fam = f; N = n;
  AG a = family(fam, n, und);
  run(a);
}
using CG16 = gc::compressed_graph<int, void, void, uint16_t, uint32_t>;
template <> struct rep<CG16> {
  static constexpr const char* name = "compressed-16"; static constexpr bool multi = true, undirected = false;
  static CG16 make(const AG& g) {
    std::vector<graph::copyable_edge_t<uint16_t, int>> es;
    for (auto& a : g.sorted()) es.push_back({(uint16_t)a[0], (uint16_t)a[1], a[2]});
    CG16 x; x.load_edges(es, std::identity{}, (size_t)g.n); return x;
  }
};
using UAL16 = gc::undirected_adjacency_list<int, int, int, uint16_t>;
template <> struct rep<UAL16> {
  static constexpr const char* name = "undirected-16"; static constexpr bool multi = true, undirected = true;
  static UAL16 make(const AG& g) {
    UAL16 x;
    for (int i = 0; i < g.n; ++i) x.create_vertex();
    std::set<int> seen;
    for (auto& a : g.arcs) if (seen.insert(a[2]).second) x.create_edge((uint16_t)a[0], (uint16_t)a[1], a[2]);
    return x;
  }
};
using VOV16 = gc::dynamic_graph<int, void, void, uint16_t, false, gc::vov_graph_traits<int, void, void, uint16_t, false>>;
template <> struct rep<VOV16> {
  static constexpr const char* name = "vov-16"; static constexpr bool multi = true, undirected = false;
  static VOV16 make(const AG& g) {
    std::vector<graph::copyable_edge_t<uint16_t, int>> es;
    for (auto& a : g.arcs) es.push_back({(uint16_t)a[0], (uint16_t)a[1], a[2]});
    VOV16 x; x.load_edges(es, std::identity{}, (size_t)g.n); return x;
  }
};
static auto wf = [](const auto& g, const auto& uv) -> int { return 1 + graph::edge_value(g, uv) % 3; };
struct Sink { VLL v; };
#if PART == 0
template <class G> struct Vis {
  VLL &d, &f;
  void on_discover_vertex(const G& g, const graph::vertex_t<G>& u) { d.push_back((long long)graph::vertex_id(g, u)); }
  void on_finish_vertex(const G& g, const graph::vertex_t<G>& u) { f.push_back((long long)graph::vertex_id(g, u)); }
};
template <class G> struct VisX { VLL& d; void on_examine_vertex(const G& g, const graph::vertex_t<G>& u) { d.push_back((long long)graph::vertex_id(g, u)); } };
template <class G> void alg(const char* what, const AG& a) {
  OUT.rep = rep<G>::name;
  Guard grd(Obj().kv("fam", fam).kv("n", N).kv("call", what).done(), 100);
  G x = rep<G>::make(a);
  using VId = graph::vertex_id_t<G>;
  std::string w = what;
  VLL o, f;
  if (w == "bfs") { graph::breadth_first_search(x, (VId)0, VisX<G>{o}); episode(what, arr(o)); }
  if (w == "dfs") { graph::depth_first_search(x, (VId)0, Vis<G>{o, f}); episode(what, arr(o), arr(f)); }
  if (w == "topo") {
    std::vector<VId> t; bool ok = graph::topological_sort(std::as_const(x), std::back_inserter(t)); o.assign(t.begin(), t.end()); if (!ok) o.clear(); episode(what, num(ok), arr(o));
    if (fam != "isles") { t.clear(); o.clear(); ok = graph::topological_sort(std::as_const(x), (VId)0, std::back_inserter(t)); o.assign(t.begin(), t.end()); if (!ok) o.clear(); episode(what, num(ok), arr(o)); }
  }
  if (w == "sp" || w == "bf") {
    std::vector<int> d(a.n); std::vector<VId> p(a.n);
    graph::init_shortest_paths(d, p);
    long long res = -1;
    if (w == "sp") graph::dijkstra_shortest_paths(x, (VId)0, d, p, wf);
    else { auto r = graph::bellman_ford_shortest_paths(x, (VId)0, d, p, wf); if (r) res = (long long)*r; }
    for (int v = 0; v < a.n; ++v) { o.push_back(d[v] == std::numeric_limits<int>::max() ? -1 : d[v]); f.push_back((long long)p[v]); }
    if (w == "sp") episode(what, arr(o), arr(f)); else episode(what, num(res), arr(o), arr(f));
  }
  if (w == "scc") {
    std::vector<uint32_t> c(a.n);
    if constexpr (std::is_same_v<G, BVOV> || std::is_same_v<G, TV>) graph::kosaraju(x, c);
    else { auto t = rep<G>::make(reversed(a)); graph::kosaraju(x, t, c); }
    o.assign(c.begin(), c.end()); episode(what, arr(o));
  }
}
template <class... Gs> void some(const char* what, const AG& a, long turn) {
  int at = 0; const int want = (int)(turn % (long)sizeof...(Gs));
  ((at++ == want ? alg<Gs>(what, a) : void()), ...);
}
int main(int argc, char** argv) {
  small_stack(argv);
  init(argc, argv);
  Rng r(OUT.seed * 31 + 5);
  const int rounds = OUT.thorough ? 5 : 1;
  long t = (long)OUT.seed;
  for (int c = 0; c < rounds; ++c) {
    auto big = [&](int of = 1) { return (long long)rnd(r, 65600, 70000) / of; };
    for (const char* f : {"path", "star", "tri", "isles", "ring", "multi"}) {
      const std::string s = f;
      const int of = s == "tri" ? 2 : s == "isles" ? 3 : 1;
      for (const char* w : {"bfs", "dfs", "topo", "sp", "bf", "scc"}) {
        const std::string q = w;
        if (q == "dfs" && s == "tri") continue;                         // too many orders
        if (q == "bf" && s != "star" && s != "multi" && s != "isles") continue; // (a long path may take a round per vertex)
        if (s == "ring" && q != "topo" && q != "scc" && q != "dfs") continue;
        if (s == "multi" && q != "bf" && q != "topo" && q != "sp") continue;
        ++t;
        if (q == "scc") on(f, big(of), false, [&](const AG& a) { some<VOV, BVOV, CG, VVP, BVOV, TV>(w, a, t); });
        else on(f, big(of), false, [&](const AG& a) { some<VOV, VOL, CG, VVP, DLT, TV>(w, a, t); });
      }
    }
    // as many vertices as 16-bit ids allow
    for (const char* w : {"bfs", "dfs", "topo", "sp", "scc"}) {
      const std::string q = w;
      const char* f = std::array{"path", "star", "ring"}[(size_t)(t++ % (q == "topo" || q == "scc" ? 3 : 2))];
      on(f, 65535, false, [&](const AG& a) { alg<CG16>(w, a); });
      if (q != "scc") on(f, 65536, false, [&](const AG& a) { alg<VOV16>(w, a); });
    }
  }
  return finish();
}
#elif PART == 1
template <class G> void alg(const char* what, const AG& a) {
  OUT.rep = rep<G>::name;
  Guard grd(Obj().kv("fam", fam).kv("n", N).kv("call", what).done(), 100);
  G x = rep<G>::make(a);
  using VId = graph::vertex_id_t<G>;
  std::string w = what;
  VLL o;
  if (w == "cc" || w == "af") {
    std::vector<uint32_t> c(a.n);
    long long k = 0;
    if (w == "cc") k = (long long)graph::connected_components(x, c); else graph::afforest(x, c);
    o.assign(c.begin(), c.end());
    if (w == "cc") episode(what, arr(o), num(k)); else episode(what, arr(o));
  }
  if (w == "art") { graph::articulation_points(x, std::back_inserter(o)); episode(what, arr(o)); }
  if (w == "blocks") {
    std::vector<std::vector<VId>> c; graph::biconnected_components(x, c);
    std::string s = "["; for (auto& b : c) { if (s.size() > 1) s += ','; s += arr(VLL(b.begin(), b.end())); } episode(what, s + "]");
  }
  if (w == "prim") { std::vector<VId> p(a.n); std::vector<int> q(a.n); int tot = graph::prim(x, p, q, std::less<int>(), std::numeric_limits<int>::max(), wf, (VId)0); episode(what, num(tot)); }
  if (w == "mis") { auto k = graph::maximal_independent_set(x, std::back_inserter(o), (VId)0); episode(what, arr(o), num((long long)k)); }
  if (w == "tri") episode(what, num((long long)graph::triangle_count(x)));
  if (w == "jac") {
    std::string s = "[";
    graph::jaccard_coefficient(x, [&](auto u, auto v, auto&, double q) { if (s.size() > 1) s += ','; s += "[" + num((long long)u) + "," + num((long long)v) + "," + num(std::llround(q * 100000)) + "]"; });
    episode(what, s + "]");
  }
  if (w == "lp") {
    std::vector<int> l(a.n); for (int v = 0; v < a.n; ++v) l[v] = fam == "isles" ? (v % 3 == 0 ? v % 7 : v % 2) : 1 + v % 2 * 0;
    std::mt19937 e(7); graph::label_propagation(x, l, e); o.assign(l.begin(), l.end()); episode(what, arr(o));
  }
}
template <class Id> void kr(const char* f, long long n, bool inplace) {
  on(f, n, false, [&](const AG& a) {
    OUT.rep = inplace ? "inplace" : "copying";
    Guard grd(Obj().kv("fam", fam).kv("n", N).kv("call", "kruskal").done(), 100);
    using CE = graph::copyable_edge_t<Id, int>;
    std::vector<CE> in, t;
    for (auto& e : a.arcs) in.push_back({(Id)e[0], (Id)e[1], 1 + e[2] % 3});
    auto r = inplace ? graph::inplace_kruskal(in, t) : graph::kruskal(in, t);
    episode("kruskal", num(r.first), num((long long)r.second), num((long long)t.size()));
  });
}
template <class... Gs> void some(const char* what, const AG& a, long turn) {
  int at = 0; const int want = (int)(turn % (long)sizeof...(Gs));
  ((at++ == want ? alg<Gs>(what, a) : void()), ...);
}
int main(int argc, char** argv) {
  small_stack(argv);
  init(argc, argv);
  Rng r(OUT.seed * 31 + 6);
  const int rounds = OUT.thorough ? 5 : 1;
  long t = (long)OUT.seed;
  for (int c = 0; c < rounds; ++c) {
    auto big = [&](int of = 1) { return (long long)rnd(r, 65600, 70000) / of; };
    for (const char* f : {"path", "star", "tri", "isles", "ring", "multi"}) {
      const std::string s = f;
      const int of = s == "tri" ? 2 : s == "isles" ? 3 : 1;
      for (const char* w : {"cc", "af", "art", "blocks", "prim", "mis", "tri", "jac", "lp"}) {
        const std::string q = w;
        if (q == "jac" && s != "path" && s != "tri" && s != "isles") continue; // (quadratic around a hub)
        if (s == "multi" && q != "blocks" && q != "prim" && q != "art") continue;
        if (s == "ring" && q != "blocks" && q != "mis" && q != "prim") continue;
        if (q == "lp" && s != "isles" && s != "star") continue;
        ++t;
        on(f, big(of), true, [&](const AG& a) { if (q == "tri") some<VOV, CG, VVP, UAL, VOS>(w, a, t); else some<VOV, VOL, CG, VVP, UAL, TV>(w, a, t); });
      }
      kr<uint32_t>(f, big(of), c % 2);
    }
    kr<uint16_t>("path", 65535, true); kr<uint16_t>("star", 65536, false); // every id of 16 bits
    for (const char* w : {"art", "blocks", "mis"}) on("star", 65537 + t++ % 2, true, [&](const AG& a) { alg<VOV>(w, a); }); // 65536 leaves, or one more
    for (const char* w : {"cc", "af", "art", "blocks", "prim", "mis", "jac"}) { const char* f = ++t % 2 && w[0] != 'j' ? "star" : "path"; on(f, 65535, true, [&](const AG& a) { alg<CG16>(w, a); });
      f = w[0] == 'j' || t % 2 ? "path" : "star"; on(f, 65536, true, [&](const AG& a) { if ((t / 2) % 2) alg<VOV16>(w, a); else alg<UAL16>(w, a); }); }
  }
  return finish();
}
#else
namespace gv = graph::views;
static const char* ordn; static bool srt;
static unsigned long long base = 0, stride = 1; // vertex x of the family has the id base + stride * x
template <class Id> long long nid(const Id& id) {
  unsigned long long x = (unsigned long long)id - base;
  if (x % stride || x / stride > (unsigned long long)(3 * N + 1)) { emit(Obj().kv("k", "crash").kv("what", "an id that the graph does not have").kv("id", std::to_string(id)).raw("ev", "[]").done()); std::exit(finish()); }
  return (long long)(x / stride);
}
template <class G> void look(const G& g, bool brief = false) {
  auto ep = [&](const char* what, auto... a) {
    std::string e = "[[\""; e += what; e += '"'; ((e += ',', e += a), ...); e += "]]";
    emit(Obj().kv("k", what).kv("rep", OUT.rep).kv("fam", fam).kv("n", N).kv("ord", ordn).kv("sorted", (int)srt).raw("ev", e).done());
  };
  constexpr bool und = rep<G>::undirected;
  ep(und ? "unum" : "num", num((long long)graph::num_vertices(g)), num((long long)graph::num_edges(g)));
  VLL o, d;
  for (auto&& [id, u] : gv::vertexlist(g)) { o.push_back(nid(id)); }
  if (!brief) ep("vl", arr(o));
  d.assign((size_t)graph::num_vertices(g), -1);
  for (auto u : graph::vertices(g)) d[(size_t)nid(graph::vertex_id(g, u))] = (long long)graph::degree(g, u);
  ep(und ? "udeg" : "deg", arr(d));
  if constexpr (!und) {
    o.clear();
    std::string s = "[";
    if (!brief) for (auto&& [u, v, uv] : gv::edgelist(g)) { long long k = graph::edge_value(g, uv); o.push_back(k); if (s.size() > 1) s += ','; s += "[" + num(nid(u)) + "," + num(nid(v)) + "," + num(k) + "]"; }
    if (!brief) { if (fam == "path" || fam == "tri") ep("ends", s + "]"); else ep("el", arr(o)); }
    // every row through the incidence and neighbour views
    o.clear();
    for (auto u : graph::vertices(g)) for (auto&& [tid, uv] : gv::incidence(g, u)) o.push_back((long long)graph::edge_value(g, uv));
    ep("el", arr(o));
    if (brief) return;
    d.assign((size_t)graph::num_vertices(g), 0);
    for (auto u : graph::vertices(g)) for (auto&& [tid, v] : gv::neighbors(g, u)) ++d[(size_t)nid(graph::vertex_id(g, u))];
    ep("deg", arr(d));
  }
  { // single edges by the ids of their ends
    using VId = graph::vertex_id_t<G>;
    static Rng r(OUT.seed * 77 + 1);
    const long long nv = (long long)graph::num_vertices(g);
    std::string s = "[";
    for (int c = 0; c < 40; ++c) {
      long long u = c < 4 ? nv - 1 - c : rnd(r, 0, nv - 1), v = std::clamp<long long>(fam == "star" && c % 2 ? 0 : u + rnd(r, -2, 2), 0, nv - 1);
      if (c % 3 == 0) std::swap(u, v);
      if (c == 39) { u = 0; v = nv - 1; }
      const VId a = (VId)(base + stride * (unsigned long long)std::max(u, 0ll)), b = (VId)(base + stride * (unsigned long long)std::max(v, 0ll));
      const bool has = graph::contains_edge(g, a, b);
      long long val = -1, there = nid(graph::vertex_id(g, *graph::find_vertex(g, b)));
      if (has) val = graph::edge_value(g, graph::find_vertex_edge(g, a, b));
      if (s.size() > 1) s += ',';
      s += "[" + num(std::max(u, 0ll)) + "," + num(std::max(v, 0ll)) + "," + num(has) + "," + num(val) + "," + num(there) + "]";
    }
    ep(und ? "uhas" : "has", s + "]");
  }
  if constexpr (std::is_same_v<G, BVOV> || std::is_same_v<G, BVOL>) {
    d.assign((size_t)graph::num_vertices(g), 0);
    for (auto u : graph::vertices(g)) d[(size_t)nid(graph::vertex_id(g, u))] = (long long)graph::in_degree(g, u);
    ep("indeg", arr(d));
    d.assign((size_t)graph::num_vertices(g), 0);
    for (auto u : graph::vertices(g)) for (auto e : graph::in_edges(g, u)) { (void)e; ++d[(size_t)nid(graph::vertex_id(g, u))]; }
    ep("indeg", arr(d));
  }
}
template <class G> void views(G& g) {
  auto ep = [&](const char* what, auto... a) { episode(what, a...); };
  using VId = graph::vertex_id_t<G>;
  VLL o, f;
  if (fam == "isles") o.clear();
  { auto v = gv::vertices_bfs(g, (VId)0);
    for (auto&& [u] : v) o.push_back((long long)graph::vertex_id(g, u));
    ep("bfs", arr(o)); ep("bfssize", num((long long)v.depth()), num((long long)v.num_visited())); }
  { long long top = 0; auto v = gv::vertices_dfs(g, (VId)0);
    for (auto&& [u] : v) { (void)u; top = std::max(top, (long long)v.depth()); }
    ep("dfssize", num(top), num((long long)v.num_visited())); }
  if (fam == "path" || fam == "ring") { // the finishing order of one long path is not shown by a view: it is the discovery read backwards
    o.clear();
    for (auto&& [u] : gv::vertices_dfs(g, (VId)0)) o.push_back((long long)graph::vertex_id(g, u));
    f.assign(o.rbegin(), o.rend());
    ep("dfs", arr(o), arr(f));
  }
  if (fam != "ring" && fam != "isles") {
    o.clear();
    for (auto&& [u] : gv::vertices_topological_sort(g)) o.push_back((long long)graph::vertex_id(g, u));
    ep("topo", "1", arr(o));
    size_t k = 0; for (auto&& [uv] : gv::edges_topological_sort(g)) { (void)uv; ++k; }
    ep("num", num((long long)graph::num_vertices(g)), num((long long)k));
  }
  auto s = gv::vertices_topological_sort_safe(g);
  o.clear();
  if (s) for (auto&& [u] : *s) o.push_back((long long)graph::vertex_id(g, u));
  ep("topo", num(s.has_value()), arr(o));
  size_t k = 0; for (auto&& [uv] : gv::edges_bfs(g, (VId)0)) { (void)uv; ++k; }
  size_t q = 0; for (auto&& [uv] : gv::edges_dfs(g, (VId)0)) { (void)uv; ++q; }
  if (fam == "path" || fam == "star") { ep("num", num((long long)graph::num_vertices(g)), num((long long)k)); ep("num", num((long long)graph::num_vertices(g)), num((long long)q)); }
}
template <class G> void box(const AG& a, const char* ord, bool sorted, bool vw) {
  OUT.rep = rep<G>::name; ordn = ord; srt = sorted;
  Guard grd(Obj().kv("fam", fam).kv("n", N).done(), 200);
  G x = rep<G>::make(a);
  look<G>(x);
  if constexpr (graph::index_adjacency_list<G> && !std::is_same_v<G, UAL> && !std::is_same_v<G, UAL16>) if (vw) views(x);
  if constexpr (!std::is_same_v<G, VVP> && !std::is_same_v<G, TV>) {
    G y = x; OUT.rep = "copy"; look<G>(y, true); // a copy, and what is left after clear
    x.clear();
    emit(Obj().kv("k", "cleared").kv("rep", rep<G>::name).kv("fam", fam).kv("n", N).raw("ev", "[[\"cleared\"," + num((long long)graph::num_vertices(x)) + "," + num((long long)graph::num_edges(x)) + "]]").done());
  }
}
using MOV = gc::dynamic_graph<int, void, void, uint32_t, false, gc::mov_graph_traits<int, void, void, uint32_t, false>>;
using UOV = gc::dynamic_graph<int, void, void, uint32_t, false, gc::uov_graph_traits<int, void, void, uint32_t, false>>;
using VOM = gc::dynamic_graph<int, void, void, uint32_t, false, gc::vom_graph_traits<int, void, void, uint32_t, false>>;
template <class G> struct MapRep {
  static constexpr bool multi = true, undirected = false;
  static G make(const AG& g) { return load_dyn<G>(g); }
};
template <> struct rep<MOV> : MapRep<MOV> { static constexpr const char* name = "mov"; };
template <> struct rep<UOV> : MapRep<UOV> { static constexpr const char* name = "uov"; };
template <> struct rep<VOM> : MapRep<VOM> { static constexpr const char* name = "vom"; };
// numbers of vertices from 64 bits
template <template <class, class, class, class, bool> class Tr> using Wide = gc::dynamic_graph<int, void, void, uint64_t, false, Tr<int, void, void, uint64_t, false>>;
using WMOV = Wide<gc::mov_graph_traits>;
using WUOV = Wide<gc::uov_graph_traits>;
template <class G> struct WideRep {
  static constexpr bool multi = true, undirected = false;
  static G make(const AG& g) {
    std::vector<graph::copyable_edge_t<uint64_t, int>> es;
    for (auto& a : g.arcs) es.push_back({base + stride * (uint64_t)a[0], base + stride * (uint64_t)a[1], a[2]});
    G x; x.load_edges(es, std::identity{}); return x;
  }
};
template <> struct rep<WMOV> : WideRep<WMOV> { static constexpr const char* name = "mov-64"; };
template <> struct rep<WUOV> : WideRep<WUOV> { static constexpr const char* name = "uov-64"; };
static void parts(long long n, long long step) { // partitions of equal size
  on("path", n, false, [&](const AG& a) {
    OUT.rep = "compressed"; 
    Guard grd(Obj().kv("fam", fam).kv("n", N).kv("step", step).done(), 60);
    std::vector<EDv> es; for (auto& e : a.sorted()) es.push_back({(uint32_t)e[0], (uint32_t)e[1], e[2]});
    std::vector<uint32_t> ps; for (long long s = 0; s < n; s += step) ps.push_back((uint32_t)s);
    CG g(es, std::identity{}, ps);
    VLL o; for (size_t p = 0; p < (size_t)graph::num_partitions(g); ++p) o.push_back((long long)graph::num_vertices(g, p));
    episode("parts", arr(o), num(step));
  });
}
int main(int argc, char** argv) {
  small_stack(argv);
  init(argc, argv);
  Rng r(OUT.seed * 31 + 7);
  const int rounds = OUT.thorough ? 4 : 1;
  long t = (long)OUT.seed;
  for (int c = 0; c < rounds; ++c) {
    auto big = [&](int of = 1) { return (long long)rnd(r, 65600, 70000) / of; };
    for (const char* f : {"path", "star", "tri", "multi", "isles"}) {
      const std::string s = f;
      const int of = s == "tri" ? 2 : s == "isles" ? 3 : 1;
      for (int turns = 0; turns < (OUT.thorough ? 11 : 2); ++turns)
      on(f, big(of), false, [&](const AG& a) {
        const bool vw = s != "multi";
        switch ((t += OUT.thorough ? 1 : 3) % 11) {
        case 0: box<VOV>(a, "seq", true, vw); break;
        case 1: box<VOL>(a, "seq", true, vw); break;
        case 2: box<VOFL>(a, "rev", true, vw); break;
        case 3: box<CG>(a, "seq", true, vw); break;
        case 4: box<UAL>(a, "seq", true, false); break;
        case 5: if (s != "multi") box<MOV>(a, "seq", true, false); else box<VOD>(a, "seq", true, vw); break;
        case 6: box<UOV>(a, "seq", false, false); break;
        case 7: if (s != "multi") box<VOS>(a, "set", true, vw); else box<DLT>(a, "seq", true, false); break;
        case 8: box<BVOV>(a, "seq", true, vw); break;
        case 9: if (s != "multi") box<VOUS>(a, "set", true, false); else box<DOV>(a, "seq", true, vw); break;
        case 10: box<BVOL>(a, "seq", true, vw); break;
        }
      });
    }
    for (const char* f : {"path", "star", "tri", "isles"}) {
      const std::string s = f;
      base = std::array<unsigned long long, 3>{0xfffffff0ull, 0x7ffffffffff00000ull, 5}[(size_t)(t++ % 3)]; stride = base == 5 ? 1ull << 32 : 1 + t % 2 * 65536;
      on(f, rnd(r, 300, 3000), false, [&](const AG& a) { if (++t % 2) box<WMOV>(a, "seq", true, false); else box<WUOV>(a, "seq", false, false); });
      base = 0; stride = 1;
    }
    parts(big(), 1); parts(big(), 65536); parts(big(), 7);
    on("path", 65535, false, [&](const AG& a) { box<CG16>(a, "seq", true, true); });
    on("star", 65535, false, [&](const AG& a) { box<CG16>(a, "seq", true, true); });
    for (const char* f : {"path", "star"}) { on(f, 65536, false, [&](const AG& a) { box<UAL16>(a, "seq", true, false); }); on(f, 65536, false, [&](const AG& a) { box<VOV16>(a, "seq", true, false); }); }
  }
  return finish();
}
#endif
