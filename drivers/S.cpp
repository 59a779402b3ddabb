// Shortest paths.  PROP 1: Dijkstra results, 2: callbacks of both algorithms, 3: Bellman-Ford results, 4: negative cycles.
#include "treps.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
static long turn = 0;
static Rng G_r; // choice of number types
static constexpr int INF = -1000000007;
// one: the distance that the traces call 1
template <class D> std::vector<long long> out_d(const std::vector<D>& d, int n, D one) {
  std::vector<long long> r;
  for (int v = 0; v < n; ++v) {
    if (d[v] == graph::shortest_path_infinite_distance<D>()) { r.push_back(INF); continue; }
    const auto q = (long long)(d[v] / one);
    r.push_back((D)(q * one) == d[v] ? q : INF + 1); // not a sum of weights
  }
  return r;
}
static long long total(const AG& a) { long long t = 0; for (auto w : a.w) t += std::abs((long long)w); return t; }
static const double TINY = std::ldexp(1.0, -50), HUGE_ = std::ldexp(1.0, 300);
template <class C> std::vector<long long> ints(const C& c, int n) { std::vector<long long> r; for (int v = 0; v < n; ++v) r.push_back((long long)c[v]); return r; }
template <class G, class V> int id(const G& g, const V& v) { return (int)graph::vertex_id(g, v); }
template <class G> using VD = graph::vertex_t<G>;
template <class G> using VI = graph::vertex_id_t<G>;
static AG unit(AG a) { for (auto& w : a.w) w = 1; return a; }

#if PROP == 1 || PROP == 3
// D: distance type, W: weight type, one: the weight that the traces call 1
template <class D, class W, class G> void results(const AG& a, const std::vector<int>& S, const G& x, std::type_identity_t<W> one_) {
  const D one = (D)one_;
  using VId = VI<G>;
  auto wf = [&](const auto& g, const auto& uv) -> W { return (W)((W)a.w[graph::edge_value(g, uv)] * one_); };
  std::vector<VId> src(S.begin(), S.end());
  std::list<VId> lsrc(S.begin(), S.end());
  size_t slack = turn % 3 == 0 ? 3 : 0; // result ranges may be larger than the graph
  std::vector<D> d(a.n + slack), d2(a.n + slack), d3(a.n + slack), d4(a.n + slack);
  std::vector<VId> p(a.n + slack);
  std::vector<int> p2(a.n + slack);
  graph::init_shortest_paths(d, p);
  graph::init_shortest_paths(d2);
  graph::init_shortest_paths(d3, p2);
  graph::init_shortest_paths(d4);
  auto cmp = [](D l, D r) { return l < r; };
  auto cmb = [](D l, W r) -> D { return (D)(l + r); };
  std::vector<std::string> ds;
  std::vector<int> rs;
  int res = -1;
  auto opt = [](auto o) { return o ? (int)*o : -1; };
#if PROP == 1
  graph::dijkstra_shortest_paths(x, src, d, p, wf);
  graph::dijkstra_shortest_distances(x, lsrc, d2, wf);
  graph::dijkstra_shortest_paths(x, lsrc, d3, p2, wf, graph::empty_visitor(), cmp, cmb);
  if (S.size() == 1) graph::dijkstra_shortest_distances(x, src[0], d4, wf, graph::empty_visitor(), cmp, cmb);
  else graph::dijkstra_shortest_distances(x, src, d4, wf, graph::empty_visitor(), std::less<D>(), std::plus<D>());
  if (S.size() == 1 && turn % 2) { graph::init_shortest_paths(d, p); graph::dijkstra_shortest_paths(x, src[0], d, p, wf); }
#else
  if (S.size() == 1 && turn % 2) res = opt(graph::bellman_ford_shortest_paths(x, src[0], d, p, wf));
  else res = opt(graph::bellman_ford_shortest_paths(x, src, d, p, wf));
  rs.push_back(opt(graph::bellman_ford_shortest_distances(x, lsrc, d2, wf)));
  rs.push_back(opt(graph::bellman_ford_shortest_paths(x, lsrc, d3, p2, wf, graph::empty_visitor(), cmp, cmb)));
  if (S.size() == 1) rs.push_back(opt(graph::bellman_ford_shortest_distances(x, src[0], d4, wf, graph::empty_visitor(), cmp, cmb)));
  else rs.push_back(opt(graph::bellman_ford_shortest_distances(x, src, d4, wf, graph::empty_visitor(), std::less<D>(), std::plus<D>())));
#endif
  std::string dss = "[";
  std::string t;
  js(t, out_d(d2, a.n, one)); dss += t + ","; t.clear();
  js(t, out_d(d3, a.n, one)); dss += t + ","; t.clear();
  js(t, out_d(d4, a.n, one)); dss += t + "]";
  bool alt = turn % 5 == 0; // report the run with the custom functions as the main one
  Ev ev;
  ev.add(PROP == 1 ? "dijkstra" : "bf");
  emit(Obj().kv("k", PROP == 1 ? "dijkstra" : "bf").kv("rep", OUT.rep).raw("g", a.json()).kv("S", S).raw("ev", ev.done())
             .kv("d", alt ? out_d(d3, a.n, one) : out_d(d, a.n, one)).kv("p", alt ? ints(p2, a.n) : ints(p, a.n))
             .raw("ds", dss).kv("res", res).kv("rs", rs).done());
}
struct Runner {
  const AG& a; const std::vector<int>& S;
  template <class G> void operator()() {
    AG b = turn % 7 == 0 ? unit(a) : a;
    Guard grd(Obj().raw("g", b.json()).kv("S", S).done());
    const G x = rep<G>::make(a);
    if (turn % 7 == 0) { // default weight function
      std::vector<int> d(a.n), d2(a.n); std::vector<VI<G>> p(a.n), src(S.begin(), S.end());
      graph::init_shortest_paths(d, p); graph::init_shortest_paths(d2);
      Ev ev; ev.add(PROP == 1 ? "dijkstra" : "bf");
      int res = -1; std::vector<int> rs;
#if PROP == 1
      graph::dijkstra_shortest_paths(x, src, d, p);
      graph::dijkstra_shortest_distances(x, src, d2);
#else
      auto o = graph::bellman_ford_shortest_paths(x, src, d, p); res = o ? (int)*o : -1;
      auto o2 = graph::bellman_ford_shortest_distances(x, src, d2); rs.push_back(o2 ? (int)*o2 : -1);
#endif
      std::string t; js(t, out_d(d2, a.n, 1));
      emit(Obj().kv("k", "unit").kv("rep", OUT.rep).raw("g", b.json()).kv("S", S).raw("ev", ev.done()).kv("d", out_d(d, a.n, 1)).kv("p", ints(p, a.n))
                 .raw("ds", "[" + t + "]").kv("res", res).kv("rs", rs).done());
      return;
    }
#if PROP == 1
    const long long t = total(a);
    switch (G_r() % 10) {
    case 0: results<int, int>(a, S, x, 1); break;
    case 1: results<double, double>(a, S, x, 0.5); break;
    case 2: results<long long, int>(a, S, x, 1); break;
    case 3: results<uint32_t, uint32_t>(a, S, x, 1); break;
    case 4: results<double, double>(a, S, x, TINY); break;
    case 5: results<double, double>(a, S, x, HUGE_); break;
    case 6: results<long long, long long>(a, S, x, 1ll << 33); break;
    case 7: if (t < (1 << 24)) results<float, float>(a, S, x, 0.125f); else results<double, float>(a, S, x, 0.5f); break;
    case 8: if (t < 255) results<uint8_t, uint8_t>(a, S, x, 1); else if (t < 32767) results<short, short>(a, S, x, 1); else results<uint64_t, uint32_t>(a, S, x, 1); break;
    case 9: if (t < 127) results<int8_t, int8_t>(a, S, x, 1); else if (t < 65535) results<uint16_t, uint16_t>(a, S, x, 1); else results<uint64_t, uint64_t>(a, S, x, 1ull << 40); break;
    }
#else
    // a path of up to n rounds along a negative cycle stays within n * total
    const long long t = total(a) * (a.n + 1);
    switch (G_r() % 7) {
    case 0: results<int, int>(a, S, x, 1); break;
    case 1: results<double, float>(a, S, x, 0.5f); break;
    case 2: results<long long, int>(a, S, x, 1); break;
    case 3: results<double, double>(a, S, x, TINY); break;
    case 4: results<long long, long long>(a, S, x, 1ll << 33); break;
    case 5: if (t < 32767) results<short, short>(a, S, x, 1); else results<double, double>(a, S, x, HUGE_); break;
    case 6: if (t < 127) results<int8_t, int8_t>(a, S, x, 1); else results<long long, long long>(a, S, x, 1); break;
    }
#endif
  }
};
#elif PROP == 2
#define EDGE(FN, NAME) void FN(const G& g, const graph::edge_t<G>& e) { auto a = arc_of(g, e); o.add(NAME, a[0], a[1], a[2]); }
#define VERD(FN, NAME) void FN(const G& g, const VD<G>& v) { o.add(NAME, id(g, v)); }
#define VERI(FN, NAME) void FN(const G&, const VI<G>& v) { o.add(NAME, v); }
#define EDGES EDGE(on_examine_edge, "e") EDGE(on_edge_relaxed, "r") EDGE(on_edge_not_relaxed, "nr") EDGE(on_edge_minimized, "m") EDGE(on_edge_not_minimized, "nm")
template <class G> struct FullD { Ev& o; VERD(on_initialize_vertex, "i") VERD(on_discover_vertex, "d") VERD(on_examine_vertex, "x") VERD(on_finish_vertex, "f") EDGES };
template <class G> struct FullI { Ev& o; VERI(on_initialize_vertex, "i") VERI(on_discover_vertex, "d") VERI(on_examine_vertex, "x") VERI(on_finish_vertex, "f") EDGES };
template <class G> struct Sub0 { Ev& o; VERD(on_examine_vertex, "x") VERI(on_discover_vertex, "d") EDGE(on_edge_relaxed, "r") EDGE(on_edge_minimized, "m") };
template <class G> struct Sub1 { Ev& o; VERI(on_initialize_vertex, "i") VERD(on_finish_vertex, "f") EDGE(on_edge_not_relaxed, "nr") EDGE(on_edge_not_minimized, "nm") };
template <class G> struct Sub2 { Ev& o; VERI(on_finish_vertex, "f") VERI(on_examine_vertex, "x") VERD(on_discover_vertex, "d") EDGE(on_examine_edge, "e") };
struct Runner {
  const AG& a; const std::vector<int>& S; bool id_form;
  template <class G> void operator()() { if (G_r() % 2) run<int, G>(1); else run<double, G>(TINY); }
  template <class T, class G> void run(const T one) {
    Guard grd(Obj().raw("g", a.json()).kv("S", S).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    auto pre = dump(x);
    auto wf = [&](const auto& g, const auto& uv) -> T { return a.w[graph::edge_value(g, uv)] * one; };
    std::vector<VI<G>> src(S.begin(), S.end()), p(a.n);
    std::vector<T> d(a.n), d2(a.n);
    graph::init_shortest_paths(d, p);
    graph::init_shortest_paths(d2);
    Ev full, sub;
    int res = -1, res2 = -1;
    auto opt = [](auto o) { return o ? (int)*o : -1; };
#if PART % 2 == 0
    if (id_form) { FullI<const G> v{full}; graph::dijkstra_shortest_paths(cx, src, d, p, wf, v); }
    else if (S.size() == 1) graph::dijkstra_shortest_paths(x, src[0], d, p, wf, FullD<G>{full});
    else graph::dijkstra_shortest_paths(x, src, d, p, wf, FullD<G>{full});
    switch (turn % 3) {
    case 0: { Sub0<const G> v{sub}; graph::dijkstra_shortest_distances(cx, src, d2, wf, v); break; }
    case 1: { Sub1<G> v{sub}; graph::dijkstra_shortest_distances(x, src, d2, wf, v); break; }
    case 2: graph::dijkstra_shortest_distances(cx, src, d2, wf, Sub2<const G>{sub}); break;
    }
#else
    if (id_form) { FullI<const G> v{full}; res = opt(graph::bellman_ford_shortest_paths(cx, src, d, p, wf, v)); }
    else if (S.size() == 1) res = opt(graph::bellman_ford_shortest_paths(x, src[0], d, p, wf, FullD<G>{full}));
    else res = opt(graph::bellman_ford_shortest_paths(x, src, d, p, wf, FullD<G>{full}));
    switch (turn % 3) {
    case 0: { Sub0<const G> v{sub}; (void)graph::bellman_ford_shortest_distances(cx, src, d2, wf, v); break; }
    case 1: { Sub1<G> v{sub}; (void)graph::bellman_ford_shortest_distances(x, src, d2, wf, v); break; }
    case 2: (void)graph::bellman_ford_shortest_distances(cx, src, d2, wf, Sub2<const G>{sub}); break;
    }
#endif
    full.add("end");
    const char* kinds[] = {"[\"x\",\"d\",\"r\",\"m\"]", "[\"i\",\"f\",\"nr\",\"nm\"]", "[\"f\",\"x\",\"d\",\"e\"]"};
    emit(Obj().kv("k", id_form ? "id" : "desc").kv("rep", OUT.rep).raw("g", a.json()).kv("S", S).raw("ev", full.done()).kv("d", out_d(d, a.n, one)).kv("res", res)
               .raw("subs", "[" + Obj().raw("kinds", kinds[turn % 3]).raw("ev", sub.done()).done() + "]").kv("pre", pre).kv("post", dump(x)).done());
  }
};
#else
struct Runner {
  const AG& a; const std::vector<int>& S;
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).kv("S", S).done(), 5);
    G x = rep<G>::make(a);
    auto wf = [&](const auto& g, const auto& uv) -> int { return a.w[graph::edge_value(g, uv)]; };
    std::vector<VI<G>> src(S.begin(), S.end()), p(a.n), c;
    std::vector<int> d(a.n);
    graph::init_shortest_paths(d, p);
    auto o = graph::bellman_ford_shortest_paths(x, src, d, p, wf);
    // bounded output: a run-away extraction ends here
    struct Lim { using difference_type = std::ptrdiff_t; std::vector<VI<G>>* c; size_t max;
                 Lim& operator*() { return *this; } Lim& operator=(VI<G> v) { c->push_back(v); if (c->size() > max) abort(); return *this; }
                 Lim& operator++() { return *this; } Lim operator++(int) { return *this; } };
    if (turn % 2) graph::find_negative_cycle(x, p, o, Lim{&c, (size_t)a.n + 5});
    else { std::vector<VI<G>> const& cp = p; graph::find_negative_cycle(x, cp, o, std::back_inserter(c)); }
    Ev ev; ev.add("cycle");
    emit(Obj().kv("k", o ? "cycle" : "none").kv("rep", OUT.rep).raw("g", a.json()).kv("S", S).raw("ev", ev.done()).kv("res", o ? (int)*o : -1).kv("c", ints(c, (int)c.size())).done());
  }
};
#endif
#if PART < 2
using RR = Reps<VOV, VOL, CG, VVP>;
#else
using RR = Reps<VOFL, VOS, DLT, DOV, UAL, TV>;
#endif
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + 10 * PROP + PART);
  bool th = OUT.thorough;
  G_r.seed(OUT.seed + 77);
  bool neg = PROP == 3 || PROP == 4 || (PROP == 2 && PART % 2 == 1);
  auto go = [&](const AG& a) {
    if (a.n == 0) return;
    ++turn;
    std::vector<int> S;
    int k = rnd(G.r, 0, 9);
    for (int c = k < 6 ? 1 : k < 9 ? 2 : rnd(G.r, 0, 3); c > 0; --c) S.push_back(rnd(G.r, 0, a.n - 1));
#if PROP == 2
    RR::rotate(a, turn, 1, Runner{a, S, (bool)(G.r() & 1)});
#else
    RR::rotate(a, turn, 1, Runner{a, S});
#endif
  };
  auto all = [&](int lo, int hi, long f) {
    G.wlo = lo; G.whi = hi;
    for (int n = 1; n <= 3; ++n) G.exhaustive(n, go);
    if (!th && PROP == 2) f /= 2;
    G.sampled(4, 400 * f, go);
    G.random(500 * f, 2, 9, 250, go);
    G.random(60 * f, 10, 30, 300, go);
    G.shapes((int)(2 * f), 2, 40, go);
    if (PROP != 2 || th) G.random(2 * f, 100, 250, 250, go);
  };
  long f = th ? 10 : 1;
  if (!neg) { all(0, 3, f); all(0, 20, f); all(1, 100000, f); }
  else {
    all(-1, 6, f); all(-3, 9, f); all(0, 9, 1); all(-100, 3000, f);
    // negative weights without negative cycles: non-negative weights changed by a potential
    auto pot = [&](const AG& a0) {
      AG a = a0; if (a.und || a.n == 0) return;
      std::vector<int> h(a.n); for (auto& y : h) y = rnd(G.r, -20, 20);
      for (auto& e : a.arcs) a.w[e[2]] += h[e[0]] - h[e[1]];
      go(a);
    };
    G.wlo = 0; G.whi = 5;
    G.random(600 * f, 2, 9, 300, pot); G.random(60 * f, 10, 30, 300, pot); G.shapes((int)(3 * f), 2, 40, pot);
  }
  G.wlo = 1; G.whi = 9; G.full(th ? 12 : PROP == 2 ? 2 : 4, go); // (no negative weights: the traces stay short)
  G.und = true; G.wlo = neg ? -1 : 0; G.whi = 12; G.loops = false;
  G.random(150 * f, 2, 12, 200, go); G.shapes(2, 2, 30, go);
  return finish();
}
