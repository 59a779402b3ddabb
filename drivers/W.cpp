// Search views: PROP 3 breadth-first (V03), PROP 4 depth-first (V04), PROP 5 topological (V05).
#include "reps.hpp"
#include <graph/views/adaptors.hpp>
#include <graph/views/transpose.hpp>
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
#include <graph/views/edge_accessor.hpp>
namespace gv = graph::views;
namespace ga = graph::views::adaptors;
using gv::cancel_search;
using InA = gv::in_edge_accessor;
using OutA = gv::out_edge_accessor;
#if PROP == 3
#define VS vertices_bfs
#define ES edges_bfs
#define WV "bv"
#define WE "be"
#elif PROP == 4
#define VS vertices_dfs
#define ES edges_dfs
#define WV "dv"
#define WE "de"
#endif
template <class C> struct One {
  using G = typename C::G;
  Rng& r;
  std::string nm;
  Ev* ev = nullptr;
  int mode = 0; // how often to cancel
  template <class Acc, class X, class E> Row edge_row(X& g, const E& e) { return {lid(e.source_id()), lid(Acc{}.neighbor_id(g, e)), eval_of<C::ev>(g, e)}; }
  static std::string join(std::initializer_list<long long> x) { std::string s; for (auto v : x) s += "," + std::to_string(v); return s; }
#if PROP != 5
  template <class V> bool decide(V& v) {
    if (mode == 0) return false;
    int k = rnd(r, 0, 99);
    if (mode == 1 ? k < 20 : mode == 2 ? k < 60 : k < 35) { v.cancel(cancel_search::cancel_branch); ev->raw("[\"cancel\",\"branch\"]"); return true; }
    if (mode == 3 && k < 45) { v.cancel(cancel_search::cancel_all); ev->raw("[\"cancel\",\"all\"]"); return true; }
    if (k > 95) { v.cancel(cancel_search::continue_search); ev->raw("[\"cancel\",\"continue\"]"); }
    return false;
  }
  template <class V, class F> void walk(V& v, F row) {
    auto it = v.begin(); auto e = v.end();
    while (!(it == e)) {
      row(v, *it);
      decide(v);
      switch (rnd(r, 0, 4)) {
        case 0: it++; break;
        case 1: { auto c = it; ++c; it = c; break; }
        default: ++it;
      }
    }
    ev->raw("[\"end\"" + join({(long long)v.depth(), (long long)v.num_visited()}) + "]");
  }
  template <class X> void start(const char* what, X&, long long seed, bool in) { ev->raw(std::string("[\"start\",\"") + what + "\"," + std::to_string(seed) + (in ? ",true]" : ",false]")); }
  template <class Acc, class X, class V> void vwalk(X& g, V&& v, long long seed, int k, bool in) {
    start(WV, g, seed, in);
    walk(v, [&](auto& w, auto&& x) {
      long long id, val = 0;
      if constexpr (requires { x.value; }) { auto& [u, y] = x; id = lid(graph::vertex_id(g, u)); val = y; } else { auto& [u] = x; id = lid(graph::vertex_id(g, u)); }
      ev->raw("[\"v\"" + join({id, val, k, (long long)w.depth(), (long long)w.num_visited()}) + "]");
    });
  }
  template <class Acc, class X, class V> void ewalk(X& g, V&& v, long long seed, int k, bool in) {
    start(WE, g, seed, in);
    walk(v, [&](auto& w, auto&& x) {
      Row e; long long val = 0;
      if constexpr (requires { x.value; }) { auto& [uv, y] = x; e = edge_row<Acc>(g, uv); val = y; } else { auto& [uv] = x; e = edge_row<Acc>(g, uv); }
      ev->raw("[\"e\"" + join({e[0], e[1], e[2], val, k, (long long)w.depth(), (long long)w.num_visited()}) + "]");
    });
  }
  template <class X> long long from_where(X& g, const std::vector<long long>& ids) { // often somewhere from where much is reached
    auto any = [&] { return ids[(size_t)rnd(r, 0, (int)ids.size() - 1)]; };
    long long best = any(); size_t most = 0;
    if (rnd(r, 0, 3)) for (int t = 0; t < 4; ++t) {
      long long c = any(); std::set<long long> seen{c}; std::vector<long long> todo{c};
      while (!todo.empty()) { auto u = *graph::find_vertex(g, (graph::vertex_id_t<X>)todo.back()); todo.pop_back(); for (auto e : graph::edges(g, u)) { long long w = lid(graph::target_id(g, e)); if (seen.insert(w).second) todo.push_back(w); } }
      if (seen.size() > most) { most = seen.size(); best = c; }
    }
    return best;
  }
  template <class X> void searches(X& g, const std::vector<long long>& ids) {
    int k = rnd(r, 1, 9);
    long long s = from_where(g, ids);
    auto sid = (graph::vertex_id_t<X>)s;
    auto sd = *graph::find_vertex(g, sid);
    auto vvf = [k](const auto& h, const auto& u) { return lid(graph::vertex_id(h, u)) * 10 + k; };
    auto evf = [k](const auto& h, const auto& uv) { return lid(uv.source_id()) * 10 + eval_of<C::ev>(h, uv) * 100 + k; };
    std::allocator<bool> al;
    auto one = [&] {
      switch (rnd(r, 0, 11)) {
        case 0: vwalk<OutA>(g, gv::VS(g, sid), s, 0, false); break;
        case 1: vwalk<OutA>(g, gv::VS(g, sd), s, 0, false); break;
        case 2: vwalk<OutA>(g, gv::VS(g, sid, vvf), s, k, false); break;
        case 3: vwalk<OutA>(g, gv::VS(g, sd, vvf), s, k, false); break;
        case 4: vwalk<OutA>(g, gv::VS(g, sid, al), s, 0, false); break;
        case 5: vwalk<OutA>(g, gv::VS(g, sd, vvf, al), s, k, false); break;
        case 6: vwalk<OutA>(g, gv::VS(g, sid, vvf, al), s, k, false); break;
        case 7: vwalk<OutA>(g, gv::VS(g, sd, al), s, 0, false); break;
        case 8: vwalk<OutA>(g, g | ga::VS(sid), s, 0, false); break;
        case 9: vwalk<OutA>(g, g | ga::VS(sid, vvf), s, k, false); break;
        case 10: vwalk<OutA>(g, g | ga::VS(sid, vvf, al), s, k, false); break;
        case 11: vwalk<OutA>(g, ga::VS(g, sid), s, 0, false); break;
      }
    };
    auto onee = [&] {
      switch (rnd(r, 0, 11)) {
        case 0: ewalk<OutA>(g, gv::ES(g, sid), s, 0, false); break;
        case 1: ewalk<OutA>(g, gv::ES(g, sd), s, 0, false); break;
        case 2: ewalk<OutA>(g, gv::ES(g, sid, evf), s, k, false); break;
        case 3: ewalk<OutA>(g, gv::ES(g, sd, evf), s, k, false); break;
        case 4: ewalk<OutA>(g, gv::ES(g, sid, al), s, 0, false); break;
        case 5: ewalk<OutA>(g, gv::ES(g, sd, evf, al), s, k, false); break;
        case 6: ewalk<OutA>(g, gv::ES(g, sid, evf, al), s, k, false); break;
        case 7: ewalk<OutA>(g, gv::ES(g, sd, al), s, 0, false); break;
        case 8: ewalk<OutA>(g, g | ga::ES(sid), s, 0, false); break;
        case 9: ewalk<OutA>(g, g | ga::ES(sid, evf), s, k, false); break;
        case 10: ewalk<OutA>(g, g | ga::ES(sid, evf, al), s, k, false); break;
        case 11: ewalk<OutA>(g, ga::ES(g, sid), s, 0, false); break;
      }
    };
    one(); onee();
    if constexpr (C::bid) if (rnd(r, 0, 1)) {
      switch (rnd(r, 0, 3)) {
        case 0: vwalk<InA>(g, gv::VS<InA>(g, sid), s, 0, true); break;
        case 1: vwalk<InA>(g, gv::VS<InA>(g, sd), s, 0, true); break;
        case 2: vwalk<InA>(g, gv::VS<InA>(g, sid, vvf), s, k, true); break;
        case 3: vwalk<InA>(g, gv::VS<InA>(g, sd, vvf), s, k, true); break;
      }
      switch (rnd(r, 0, 3)) {
        case 0: ewalk<InA>(g, gv::ES<InA>(g, sid), s, 0, true); break;
        case 1: ewalk<InA>(g, gv::ES<InA>(g, sd), s, 0, true); break;
        case 2: ewalk<InA>(g, gv::ES<InA>(g, sid, evf), s, k, true); break;
        case 3: ewalk<InA>(g, gv::ES<InA>(g, sd, evf), s, k, true); break;
      }
    }
  }
#else
  template <class V, class F> void passes(const char* what, V& v, int k, bool in, F row) { // several times, the last one perhaps cancelled
    ev->raw(std::string("[\"view\",\"") + what + "\"," + std::to_string(k) + (in ? ",true," : ",false,") + [&] { if constexpr (requires { v.size(); }) return std::to_string((long long)v.size()); else return std::string("-1"); }() + "]");
    int n = rnd(r, 1, 2);
    long long incs = 0;
    for (int p = 0; p < n; ++p) {
      long long stop = p == n - 1 && rnd(r, 0, 3) == 0 ? rnd(r, 0, 4) : -1, j = 0;
      std::vector<Row> rows;
      auto it = v.begin(); auto e = v.end();
      bool twice = rnd(r, 0, 3) == 0;
      while (!(it == e)) {
        rows.push_back(row(*it));
        if (j++ == stop) v.cancel(rnd(r, 0, 1) ? cancel_search::cancel_all : cancel_search::cancel_branch);
        if (twice) { auto c = it; auto old = it++; if (!(c == old)) rows.push_back({-7}); if (!(++c == it)) rows.push_back({-8}); incs += 2; } else { ++it; ++incs; }
      }
      std::string s; js(s, rows);
      ev->raw("[\"pass\"," + s + "," + std::to_string(stop >= 0 && j > stop ? stop + 1 : -1) + "," + std::to_string(what[0] == 'v' ? (long long)v.num_visited() - incs : 0) + "]");
      if (stop >= 0) break;
    }
  }
  template <class X, class V> void vt(X& g, V&& v, int k, bool in) {
    passes("v", v, k, in, [&](auto&& x) -> Row { if constexpr (requires { x.value; }) { auto& [u, y] = x; return {lid(graph::vertex_id(g, u)), (long long)y}; } else { auto& [u] = x; return {lid(graph::vertex_id(g, u)), 0}; } });
  }
  template <class Acc, class X, class V> void et(X& g, V&& v, int k, bool in) {
    passes("e", v, k, in, [&](auto&& x) -> Row { Row e; long long val = 0; if constexpr (requires { x.value; }) { auto& [uv, y] = x; e = edge_row<Acc>(g, uv); val = y; } else { auto& [uv] = x; e = edge_row<Acc>(g, uv); } e.push_back(val); return e; });
  }
  template <class Acc, class X, class V> void safe(X& g, V&& x, const char* what, int k, bool in) {
    ev->raw(std::string("[\"safe\",") + (x ? "true,-1]" : "false," + std::to_string(lid(graph::vertex_id(g, x.error()))) + "]"));
    if (x) { if constexpr (requires { x->size(); }) vt(g, *x, k, in); else et<Acc>(g, *x, k, in); }
  }
  template <class X> void searches(X& g, const std::vector<long long>&) {
    int k = rnd(r, 1, 9);
    auto vvf = [k](const auto& h, const auto& u) { return lid(graph::vertex_id(h, u)) * 10 + k; };
    auto evf = [k](const auto& h, const auto& uv) { return lid(uv.source_id()) * 10 + eval_of<C::ev>(h, uv) * 100 + k; };
    std::allocator<bool> al;
    switch (rnd(r, 0, 7)) {
      case 0: vt(g, gv::vertices_topological_sort(g), 0, false); break;
      case 1: vt(g, gv::vertices_topological_sort(g, vvf), k, false); break;
      case 2: vt(g, gv::vertices_topological_sort(g, al), 0, false); break;
      case 3: vt(g, gv::vertices_topological_sort(g, vvf, al), k, false); break;
      case 4: vt(g, g | ga::vertices_topological_sort(), 0, false); break;
      case 5: vt(g, g | ga::vertices_topological_sort(vvf), k, false); break;
      case 6: vt(g, g | ga::vertices_topological_sort(vvf, al), k, false); break;
      case 7: vt(g, ga::vertices_topological_sort(g), 0, false); break;
    }
    switch (rnd(r, 0, 7)) {
      case 0: et<OutA>(g, gv::edges_topological_sort(g), 0, false); break;
      case 1: et<OutA>(g, gv::edges_topological_sort(g, evf), k, false); break;
      case 2: et<OutA>(g, gv::edges_topological_sort(g, al), 0, false); break;
      case 3: et<OutA>(g, gv::edges_topological_sort(g, evf, al), k, false); break;
      case 4: et<OutA>(g, g | ga::edges_topological_sort(), 0, false); break;
      case 5: et<OutA>(g, g | ga::edges_topological_sort(evf), k, false); break;
      case 6: et<OutA>(g, g | ga::edges_topological_sort(evf, al), k, false); break;
      case 7: et<OutA>(g, ga::edges_topological_sort(g), 0, false); break;
    }
    switch (rnd(r, 0, 7)) {
      case 0: safe<OutA>(g, gv::vertices_topological_sort_safe(g), "v", 0, false); break;
      case 1: safe<OutA>(g, gv::vertices_topological_sort_safe(g, vvf), "v", k, false); break;
      case 2: safe<OutA>(g, gv::vertices_topological_sort_safe(g, al), "v", 0, false); break;
      case 3: safe<OutA>(g, gv::vertices_topological_sort_safe(g, vvf, al), "v", k, false); break;
      case 4: safe<OutA>(g, gv::edges_topological_sort_safe(g), "e", 0, false); break;
      case 5: safe<OutA>(g, gv::edges_topological_sort_safe(g, evf), "e", k, false); break;
      case 6: safe<OutA>(g, gv::edges_topological_sort_safe(g, al), "e", 0, false); break;
      case 7: safe<OutA>(g, gv::edges_topological_sort_safe(g, evf, al), "e", k, false); break;
    }
    if constexpr (C::bid) {
      switch (rnd(r, 0, 3)) {
        case 0: safe<InA>(g, gv::vertices_topological_sort_safe<InA>(g), "v", 0, true); break;
        case 1: safe<InA>(g, gv::vertices_topological_sort_safe<InA>(g, vvf), "v", k, true); break;
        case 2: safe<InA>(g, gv::edges_topological_sort_safe<InA>(g), "e", 0, true); break;
        case 3: safe<InA>(g, gv::edges_topological_sort_safe<InA>(g, evf), "e", k, true); break;
      }
      switch (rnd(r, 0, 3)) {
        case 0: vt(g, gv::vertices_topological_sort<InA>(g), 0, true); break;
        case 1: vt(g, gv::vertices_topological_sort<InA>(g, vvf), k, true); break;
        case 2: et<InA>(g, gv::edges_topological_sort<InA>(g), 0, true); break;
        case 3: et<InA>(g, gv::edges_topological_sort<InA>(g, evf), k, true); break;
      }
    }
  }
#endif
  void run(St s, const AG& ag) {
    OUT.rep = nm.c_str();
    Guard grd("{}");
    if (!C::own) for (auto& a : s.arcs) a[2] = a[1];
    if constexpr (requires { C::sorted; }) std::stable_sort(s.arcs.begin(), s.arcs.end(), [](auto& a, auto& b) { return a[0] < b[0]; });
    G g{};
    C::build(g, s);
    std::vector<long long> ids; Rows arcs;
    for (auto u : graph::vertices(g)) { ids.push_back(lid(graph::vertex_id(g, u))); for (auto e : graph::edges(g, u)) arcs.push_back({ids.back(), lid(graph::target_id(g, e)), eval_of<C::ev>(g, e)}); }
    Ev e; ev = &e;
    std::string sa, si; js(sa, arcs); js(si, ids);
    auto pend = [&] { OUT.pending = Obj().kv("cfg", nm).raw("ids", si).raw("arcs", sa).raw("ev", e.done()).done(); };
    pend();
    mode = rnd(r, 0, 3);
#if PROP == 5
    (void)ag;
    if (rnd(r, 0, 1)) { const G& c = g; searches(c, ids); } else searches(g, ids);
#else
    (void)ag;
    if (ids.empty()) return;
    for (int t = ids.size() > 5 ? 4 : 1; t--; mode = rnd(r, 0, 3)) if (rnd(r, 0, 1)) { const G& c = g; searches(c, ids); } else searches(g, ids);
#endif
    emit(Obj().kv("k", "search").kv("rep", nm).raw("ids", si).raw("arcs", sa).raw("ev", e.done()).done());
  }
};
template <class C> void with(Rng& r, const char* nm, bool, bool mentioned, bool undirected = false) {
  One<C> one{r, nm};
  Gen gen(r()); gen.und = undirected;
  auto go = [&](const AG& g0) {
    AG g = g0;
    St s = from(g, r, false);
    if (undirected) { std::set<long long> seen; std::vector<Triple> k; for (auto& a : s.arcs) if (seen.insert(a[2]).second) k.push_back(a); s.arcs = k; }
    (void)mentioned;
    one.run(s, g);
  };
  bool t = OUT.thorough;
  AG none; none.n = 0; go(none);
  gen.exhaustive(2, go); gen.exhaustive(2, go);
  gen.sampled(3, t ? 1500 : 30, go);
  gen.random(t ? 1500 : 40, 1, 7, 250, go);
  gen.random(t ? 200 : 6, 6, 12, 150, go);
  gen.shapes(t ? 12 : 1, 3, 9, go);
#if PROP != 5
  for (int j = t ? 400 : 12; j--;) { // nearly trees, with many places where nothing goes on
    AG g; g.n = rnd(r, 6, j % 4 ? 18 : 70); std::vector<int> p(g.n); std::iota(p.begin(), p.end(), 0); shuf(r, p);
    int few = rnd(r, 1, 6);
    for (int v = 1; v < (int)g.n; ++v) g.add(p[(size_t)rnd(r, std::max(0, v - 1 - few), v - 1)], p[(size_t)v], 0);
    for (int x = rnd(r, 0, 3); x--;) g.add(rnd(r, 0, (int)g.n - 1), rnd(r, 0, (int)g.n - 1), 0);
    go(g);
  }
#endif
#if PROP == 5
  auto dag = [&](const AG& g0) { AG g = g0; std::vector<int> p(g.n); std::iota(p.begin(), p.end(), 0); shuf(r, p); AG h; h.n = g.n; for (auto& a : g.arcs) { int u = p[(size_t)a[0]], v = p[(size_t)a[1]]; if (a[0] != a[1]) { if ((a[0] < a[1]) ) h.add(u, v, 0); else h.add(v, u, 0); } } go(h); };
  gen.random(t ? 1500 : 40, 1, 8, 250, dag);
  for (int j = t ? 300 : 10; j--;) { // many vertices, few edges
    AG g; g.n = rnd(r, 8, j % 4 ? 24 : 70); std::vector<int> p(g.n); std::iota(p.begin(), p.end(), 0); shuf(r, p);
    for (int x = rnd(r, 0, rnd(r, 1, 12)); x--;) { int a = rnd(r, 0, (int)g.n - 2), b = rnd(r, a + 1, (int)g.n - 1); g.add(p[(size_t)a], p[(size_t)b], 0); }
    if (rnd(r, 0, 5) == 0) g.add(rnd(r, 0, (int)g.n - 1), rnd(r, 0, (int)g.n - 1), 0);
    go(g);
  }
#endif
}
// A path far longer than the call stack of the thread is deep; what is given is written down as runs of ascending ids.
#include <pthread.h>
template <class F> void small_stack(F f) {
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 192 * 1024);
  pthread_t th;
  auto run = [](void* p) -> void* {
    static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    (*(F*)p)();
    ss.ss_flags = SS_DISABLE; sigaltstack(&ss, nullptr);
    return nullptr;
  };
  if (pthread_create(&th, &at, run, &f)) return;
  pthread_join(th, nullptr);
}
template <class G> void deep(const char* nm, Rng& r) {
  OUT.rep = nm;
  Guard grd("{}", 60);
  long long n = rnd(r, 6000, 9000);
  OUT.pending = Obj().kv("cfg", nm).raw("n", std::to_string(n)).done();
  G g((size_t)n);
  for (long long i = 0; i + 1 < n; ++i) { if constexpr (requires { g[0].push_back(0); }) g[(size_t)i].push_back((int)i + 1); else g[(size_t)i].insert((int)i + 1); }
  std::vector<std::pair<const char*, Rows>> res;
  bool cyc = false;
  small_stack([&] {
    auto runs = [&](const char* what, auto&& v, auto id) {
      Rows out;
      for (auto&& x : v) { long long u = id(x); if (!out.empty() && out.back()[0] + out.back()[1] == u) ++out.back()[1]; else out.push_back({u, 1}); }
      res.push_back({what, out});
    };
    auto vid = [&](auto&& x) { return lid(graph::vertex_id(g, x.vertex)); };
    auto eid = [&](auto&& x) { return lid(graph::source_id(g, x.edge)); };
#if PROP == 5
    runs("v", gv::vertices_topological_sort(g), vid);
    runs("e", gv::edges_topological_sort(g), eid);
    { auto x = gv::vertices_topological_sort_safe(g); if (x) runs("v", *x, vid); else cyc = true; }
    g[(size_t)n - 1].insert(g[(size_t)n - 1].end(), (int)(n / 2));
    { auto x = gv::edges_topological_sort_safe(g); if (x) cyc = true; else res.push_back({"on", {{lid(graph::vertex_id(g, x.error())), n / 2}}}); }
#else
    runs("v", gv::VS(g, 0), vid);
    runs("e", gv::ES(g, 0), eid);
#endif
  });
  Ev ev;
  for (auto& [w, o] : res) { std::string s; js(s, o); ev.raw(std::string("[\"") + w + "\"," + s + "]"); }
  if (cyc) ev.raw("[\"wrong\",[]]");
  emit(Obj().kv("k", "deep").kv("rep", nm).raw("n", std::to_string(n)).raw("ev", ev.done()).done());
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 2311 + PART + 10 * PROP);
  using PI = std::pair<int, int>; using T3 = std::tuple<int, int, str>;
#if PART == 0
  S("vec-vec-int", V<V<int>>); S("deque-list-tuple3", std::deque<std::list<T3>>); S("vec-flist-int", V<std::forward_list<int>>); S("vec-map", V<std::map<int, int>>); S("vec-set-int", V<std::set<int>>);
#elif PART == 1
  D(vov, 'v', 'q'); D(vofl, 'v', 'r'); D(vos, 'v', 's'); D(vous, 'v', 'u'); with<Comp>(r, "compressed", false, false); 
#elif PART == 2
  B('v', 'v', 'q'); B('v', 'l', 'q');
  with<Und>(r, "undirected", false, false, true);
#elif PART == 3
  with<ObjectsR>(r, "deque-objects", false, false); with<Objects>(r, "vec-objects", false, false); with<Foreign>(r, "vec-foreign", false, false);
  with<Own<Members>>(r, "own-members", false, false); with<Own<freefn::Free>>(r, "own-free", false, false);
#endif
#if PART == 0
  deep<V<V<int>>>("vec-vec-int", r); deep<std::deque<std::set<int>>>("deque-set-int", r);
#endif
  return finish();
}
