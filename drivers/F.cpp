// Failures inside algorithms: every allocation and every call of a user-supplied function may fail; wrong arguments.
#include "treps.hpp"
#include "fault.hpp"
#include <graph/views/vertexlist.hpp>
#include <graph/views/incidence.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
static long turn = 0;
static Rng  R2;
using Row = std::vector<long long>;
struct Vis { // every event counts, and may fail
  template <class G, class T> void on_initialize_vertex(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_discover_vertex(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_start_vertex(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_examine_vertex(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_finish_vertex(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_examine_edge(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_edge_relaxed(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_edge_not_relaxed(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_edge_minimized(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_edge_not_minimized(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_tree_edge(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_back_edge(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_forward_or_cross_edge(const G&, const T&) { fault::tick(); }
  template <class G, class T> void on_finish_edge(const G&, const T&) { fault::tick(); }
};
struct Rnd { // a random source that counts, and may fail
  using result_type = uint32_t; uint32_t s = 12345;
  static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; }
  uint32_t operator()() { fault::tick(); s = s * 1664525u + 1013904223u; return s ^ (s >> 13); }
};
template <class C> void put(Row& r, const C& c) { for (auto&& x : c) r.push_back((long long)x); r.push_back(-99); }
enum Res { DONE = 0, NOMEM = 1, BOOM = 2, OTHERBOOM = 3, RANGE = 4, OTHER = 5 };
template <class F> static int outcome(F&& f, Row* res = nullptr) {
  int o = DONE;
  try { Row r = f(); fault::disarm(); if (res) *res = r; }
  catch (const std::bad_alloc&) { fault::disarm(); o = NOMEM; }
  catch (const fault::Boom& b) { fault::disarm(); o = b.k == fault::cbat ? BOOM : OTHERBOOM; }
  catch (const std::out_of_range&) { fault::disarm(); o = RANGE; }
  catch (...) { fault::disarm(); o = OTHER; }
  return o;
}
struct Runner {
  const AG& a;
  template <class G, class F> void faults(const char* alg, G& x, F f) {
    Guard grd(Obj().kv("alg", alg).raw("g", a.json()).done());
    auto pre = dump(x); Ev ev; Row ref, again;
    fault::plan(-1, -1);
    int o = outcome(f, &ref); long na = fault::na, nc = fault::ncb;
    ev.add("ref", na, nc, o, fault::bal, dump(x) == pre);
    auto one = [&](int kind, long k) {
      fault::plan(kind ? -1 : k, kind ? k : -1);
      Row r; int q = outcome(f, &r);
      ev.add("f", kind, k, q, fault::bal, dump(x) == pre, q != DONE || r == ref);
    };
    auto some = [&](int kind, long n) {
      if (n <= 8) { for (long k = 1; k <= n; ++k) one(kind, k); return; }
      one(kind, 1); one(kind, 2); one(kind, n); one(kind, n - 1);
      for (int c = 0; c < 4; ++c) one(kind, 1 + (long)(R2() % (uint64_t)n));
    };
    some(0, na); some(1, nc);
    one(0, na + 1); one(1, nc + 1);      // nothing fails
    fault::plan(-1, -1);
    o = outcome(f, &again);
    ev.add("again", o, fault::bal, again == ref);
    ev.add("same");
    emit(Obj().kv("k", "fault").kv("alg", alg).kv("rep", OUT.rep).raw("g", a.json()).raw("ev", ev.done()).kv("pre", pre).kv("post", dump(x)).done());
  }
  template <class G> void searches(G& x) {
    using VId = graph::vertex_id_t<G>;
    int s0 = rnd(R2, 0, a.n - 1), s1 = rnd(R2, 0, a.n - 1);
    std::vector<VId> src{(VId)s0, (VId)s1};
    switch (turn % 5) {
    case 0: faults("bfs", x, [&] { Row r; Vis v; fault::arm(); graph::breadth_first_search(x, src, v); fault::disarm(); return r; }); break;
    case 1: faults("dfs", x, [&] { Row r; Vis v; fault::arm(); graph::depth_first_search(x, (VId)s0, v); fault::disarm(); return r; }); break;
    case 2: faults("topo", x, [&] { Row r; std::vector<VId> o; fault::arm(); bool b = graph::topological_sort(std::as_const(x), std::back_inserter(o)); fault::disarm(); r.push_back(b); put(r, o); return r; }); break;
    case 3: faults("topo1", x, [&] { Row r; std::vector<VId> o; fault::arm(); bool b = graph::topological_sort(std::as_const(x), (VId)s0, std::back_inserter(o)); fault::disarm(); r.push_back(b); put(r, o); return r; }); break;
    case 4: faults("topoN", x, [&] { Row r; std::vector<VId> o; fault::arm(); bool b = graph::topological_sort(std::as_const(x), src, std::back_inserter(o)); fault::disarm(); r.push_back(b); put(r, o); return r; }); break;
    }
  }
  template <class G> void paths(G& x) {
    using VId = graph::vertex_id_t<G>;
    int s0 = rnd(R2, 0, a.n - 1), s1 = rnd(R2, 0, a.n - 1);
    std::vector<VId> src{(VId)s0, (VId)s1};
    auto wf = [&](const auto& g, const auto& uv) -> int { fault::tick(); return a.w[graph::edge_value(g, uv)]; };
    auto cmp = [](int l, int r) { fault::tick(); return l < r; };
    auto cmb = [](int l, int r) { fault::tick(); return l + r; };
    std::vector<int> d(a.n); std::vector<VId> p(a.n);
    bool neg = false; for (int w : a.w) neg |= w < 0;
    auto res = [&] { Row r; put(r, d); put(r, p); return r; };
    switch (turn % 4) {
    case 0: if (!neg) faults("dijkstra", x, [&] { graph::init_shortest_paths(d, p); Vis v; fault::arm(); graph::dijkstra_shortest_paths(x, src, d, p, wf, v, cmp, cmb); fault::disarm(); return res(); }); break;
    case 1: if (!neg) faults("dijkstra-d", x, [&] { graph::init_shortest_paths(d, p); Vis v; fault::arm(); graph::dijkstra_shortest_distances(x, (VId)s0, d, wf, v, cmp, cmb); fault::disarm(); return res(); }); break;
    case 2: faults("bellman-ford", x, [&] { graph::init_shortest_paths(d, p); Vis v; fault::arm(); auto o = graph::bellman_ford_shortest_paths(x, src, d, p, wf, v, cmp, cmb); fault::disarm(); Row r = res(); r.push_back(o ? (long long)*o : -1); return r; }); break;
    case 3: faults("bellman-ford-d", x, [&] { graph::init_shortest_paths(d, p); Vis v; fault::arm(); auto o = graph::bellman_ford_shortest_distances(x, (VId)s0, d, wf, v, cmp, cmb); fault::disarm(); Row r = res(); r.push_back(o ? (long long)*o : -1); return r; }); break;
    }
  }
  template <class G> void arguments(G& x) { // what the documentation promises to reject
    using VId = graph::vertex_id_t<G>;
    Guard grd(Obj().kv("alg", "arguments").raw("g", a.json()).done());
    auto pre = dump(x); Ev ev;
    auto wf = [&](const auto& g, const auto& uv) -> int { return a.w[graph::edge_value(g, uv)]; };
    std::vector<std::vector<int>> srcs;
    fault::plan(-1, -1);
    for (int c = 0; c < 10; ++c) {
      int form = rnd(R2, 0, 4), what = rnd(R2, 0, 3);
      std::vector<VId> src; int k = form % 2 ? 1 : rnd(R2, 0, 3);
      for (int j = 0; j < k; ++j) src.push_back((VId)(what == 0 && rnd(R2, 0, 2) == 0 ? a.n + rnd(R2, 0, 3) : a.n ? rnd(R2, 0, a.n - 1) : 0));
      int nd = a.n + (what == 1 ? rnd(R2, -2, 1) : 0), np = a.n + (what == 2 ? rnd(R2, -2, 1) : 0);
      if (nd < 0) nd = 0;
      if (np < 0) np = 0;
      std::vector<int> d(nd), pr(np); graph::init_shortest_paths(d); std::iota(pr.begin(), pr.end(), 0);
      int o = outcome([&] {
        switch (form) {
        case 0: graph::dijkstra_shortest_paths(x, src, d, pr, wf); break;
        case 1: graph::dijkstra_shortest_paths(x, src[0], d, pr, wf); break;
        case 2: graph::dijkstra_shortest_distances(x, src, d, wf); break;
        case 3: (void)graph::bellman_ford_shortest_paths(x, src[0], d, pr, wf); break;
        case 4: (void)graph::bellman_ford_shortest_paths(x, src, d, pr, wf); break;
        }
        return Row();
      });
      ev.add("sp", form, o, nd, form == 2 ? a.n : np, (long long)srcs.size(), dump(x) == pre);
      srcs.emplace_back(src.begin(), src.end());
      int seed = rnd(R2, 0, a.n + 1), pw = a.n + rnd(R2, -1, 1), pp = a.n + rnd(R2, -1, 1);
      if (rnd(R2, 0, 1)) { pw = pp = a.n; }
      if (pw >= 0 && pp >= 0) {
        std::vector<int> w(pw), q(pp);
        o = outcome([&] { if (c % 2) graph::prim(x, q, w, (VId)seed); else graph::prim(x, q, w, std::less<int>(), 1000000, [&](const auto& g, const auto& uv) -> int { return graph::edge_value(g, uv); }, (VId)seed); return Row(); });
        ev.add("prim", seed, pw, pp, o, dump(x) == pre);
      }
    }
    ev.add("same");
    emit(Obj().kv("k", "fault").kv("alg", "arguments").kv("rep", OUT.rep).raw("g", a.json()).kv("srcs", srcs).raw("ev", ev.done()).kv("pre", pre).kv("post", dump(x)).done());
  }
  template <class G> void global(G& x) {
    using VId = graph::vertex_id_t<G>;
    std::vector<int> c(a.n);
    using GN = std::remove_const_t<G>;
    switch (turn % 4) {
    case 0: { auto t = rep<GN>::make(reversed(a)); faults("kosaraju", x, [&] { Row r; fault::arm(); graph::kosaraju(x, t, c); fault::disarm(); put(r, c); return r; }); break; }
    case 1: if constexpr (std::is_same_v<GN, BVOV> || std::is_same_v<GN, BVOL> || std::is_same_v<GN, UAL>) faults("kosaraju-in", x, [&] { Row r; fault::arm(); graph::kosaraju(x, c); fault::disarm(); put(r, c); return r; }); break;
    case 2: { auto t = rep<GN>::make(reversed(a)); faults("afforest2", x, [&] { Row r; fault::arm(); graph::afforest(x, t, c); fault::disarm(); return r; }); break; } // (draws from a random device)
    case 3: faults("jaccard", x, [&] { Row r; long long s = 0; fault::arm(); graph::jaccard_coefficient(x, [&](auto u, auto v, auto&, double w) { fault::tick(); s = (s * 31 + (long long)u * 7 + (long long)v + std::llround(w * 1000)) % 1000003; }); fault::disarm(); r.push_back(s); return r; }); break;
    }
    std::vector<int> l(a.n); 
    faults("labels", x, [&] { Row r; for (int v = 0; v < a.n; ++v) l[v] = v % 3; Rnd e; fault::arm(); graph::label_propagation(x, l, e, (size_t)3); fault::disarm(); put(r, l); return r; });
    (void)sizeof(VId);
  }
  template <class G> void undirected(G& x) {
    using VId = graph::vertex_id_t<G>;
    std::vector<int> c(a.n);
    auto wf = [&](const auto& g, const auto& uv) -> int { fault::tick(); return a.w[graph::edge_value(g, uv)]; };
    int s0 = rnd(R2, 0, a.n - 1);
    switch (turn % 7) {
    case 0: faults("prim", x, [&] { Row r; std::vector<VId> p(a.n); std::vector<int> w(a.n); fault::arm(); int t = graph::prim(x, p, w, [](int i, int j) { fault::tick(); return i < j; }, 1000000, wf, (VId)s0); fault::disarm(); r.push_back(t); put(r, p); put(r, w); return r; }); break;
    case 1: faults("cc", x, [&] { Row r; fault::arm(); auto k = graph::connected_components(x, c); fault::disarm(); r.push_back((long long)k); put(r, c); return r; }); break;
    case 2: faults("afforest", x, [&] { Row r; fault::arm(); graph::afforest(x, c); fault::disarm(); return r; }); break;
    case 3: faults("art", x, [&] { Row r; std::vector<VId> o; fault::arm(); graph::articulation_points(x, std::back_inserter(o)); fault::disarm(); put(r, o); return r; }); break;
    case 4: faults("bicc", x, [&] { Row r; std::list<std::set<VId>> o; fault::arm(); graph::biconnected_components(x, o); fault::disarm(); for (auto& s : o) put(r, s); return r; }); break;
    case 5: faults("mis", x, [&] { Row r; std::vector<VId> o; fault::arm(); auto k = graph::maximal_independent_set(x, std::back_inserter(o), (VId)s0); fault::disarm(); r.push_back((long long)k); put(r, o); return r; }); break;
    case 6: faults("tri", x, [&] { Row r; fault::arm(); auto k = graph::triangle_count(x); fault::disarm(); r.push_back((long long)k); return r; }); break;
    }
  }
  template <class G> void go(G& x) {
    arguments(x);
    if (a.n) { searches(x); paths(x); global(x); if (a.und) undirected(x); }
  }
  template <class G> void operator()() {
    G x = rep<G>::make(a);
    const G& cx = x;
    if (turn % 3) go(x); else go(cx);
  }
};
struct KEdge { uint32_t source_id; uint32_t target_id; int value; bool operator==(const KEdge&) const = default; };
static void kruskals(const AG& a) { // the edge list is only read (copying form)
  std::vector<graph::copyable_edge_t<uint32_t, int>> el, t, keep;
  std::set<int> seen;
  for (auto& e : a.arcs) if (seen.insert(e[2]).second) el.push_back({(uint32_t)e[0], (uint32_t)e[1], a.w[e[2]]});
  auto key = [](const auto& l) { std::vector<std::array<int, 3>> r; for (auto& e : l) r.push_back({(int)e.source_id, (int)e.target_id, e.value}); return r; };
  OUT.rep = "edge list"; Guard grd(Obj().kv("alg", "kruskal").raw("g", a.json()).done());
  Ev ev; Row ref; auto pre = key(el);
  auto f = [&] { std::vector<graph::copyable_edge_t<uint32_t, int>> o; Row r; fault::arm(); auto p = graph::kruskal(el, o, [](int i, int j) { fault::tick(); return i < j; }); fault::disarm(); r.push_back(p.first); r.push_back((long long)p.second); for (auto& e : o) { r.push_back(e.source_id); r.push_back(e.target_id); r.push_back(e.value); } return r; };
  fault::plan(-1, -1); int o = outcome(f, &ref); long na = fault::na, nc = fault::ncb;
  ev.add("ref", na, nc, o, fault::bal, key(el) == pre);
  for (int kind = 0; kind < 2; ++kind) for (long k = 1; k <= (kind ? nc : na) + 1; k += 1 + k / 8) {
    fault::plan(kind ? -1 : k, kind ? k : -1); Row r; int q = outcome(f, &r);
    ev.add("f", kind, k, q, fault::bal, key(el) == pre, q != DONE || r == ref);
  }
  fault::plan(-1, -1); Row again; o = outcome(f, &again); ev.add("again", o, fault::bal, again == ref); ev.add("same");
  emit(Obj().kv("k", "fault").kv("alg", "kruskal").kv("rep", OUT.rep).raw("g", a.json()).raw("ev", ev.done()).kv("pre", pre).kv("post", key(el)).done());
}
#if PART == 0
using RR = Reps<VOV, VOL, CG, VVP, UAL, BVOV>;
#else
using RR = Reps<VOFL, VOS, VOD, DLT, VOUS, DOV, TV, BVOL>;
#endif
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + PART);
  R2.seed(OUT.seed * 31 + PART);
  long f = OUT.thorough ? 10 : 1;
  auto go = [&](const AG& a) { ++turn; RR::rotate(a, turn, 1, Runner{a}); if (PART == 0 && turn % 3 == 0) kruskals(a); };
  for (int u = 0; u < 2; ++u) {
    G.und = u;
    for (int neg = 0; neg < 2; ++neg) {
      G.wlo = neg ? -2 : 0; G.whi = 9;
      for (int n = 0; n <= 2; ++n) G.exhaustive(n, go);
      G.sampled(3, 30 * f, go); G.sampled(4, 60 * f, go);
      G.random(60 * f, 1, 10, 200, go);
      if (!neg) G.shapes((int)f, 2, 14, go);
      if (!neg) G.random(4 * f, 20, 40, 250, go);
    }
  }
  return finish();
}
