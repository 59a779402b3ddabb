// Minimum spanning trees.  PROP 1: kruskal, 2: prim
#include "treps.hpp"
#include <graph/views/incidence.hpp>
#include <graph/algorithm/mst.hpp>
static long turn = 0;
using L4 = std::vector<std::array<long long, 4>>;
static long long key_of(int cmp, long long w) { return cmp == 0 ? w : cmp == 1 ? -w : cmp == 2 ? (w < 0 ? -w : w) : ((w % 3) + 3) % 3; }
#if PROP == 1
template <class VId, class EV> struct Plain {
  using source_id_type = VId; using target_id_type = VId; using value_type = EV;
  VId source_id; VId target_id; EV value;
};
template <class C> L4 list_of(const C& c, int cmp, int scale) {
  L4 r;
  for (auto& e : c) { long long w = (long long)(e.value * scale); r.push_back({(long long)e.source_id, (long long)e.target_id, w, key_of(cmp, w)}); }
  return r;
}
template <class In, class OutT, class EV> void run(const L4& es, int cmp, int scale, bool inplace) {
  L4 in0;
  In in;
  for (auto& e : es) {
    typename In::value_type x{};
    x.source_id = (typename In::value_type::source_id_type)e[0];
    x.target_id = (typename In::value_type::source_id_type)e[1];
    x.value = (EV)(e[2] / (EV)scale);
    in.push_back(x);
    in0.push_back({e[0], e[1], e[2], key_of(cmp, e[2])});
  }
  Guard grd(Obj().kv("es", in0).kv("cmp", cmp).kv("inplace", inplace).done(), 10);
  OutT t;
  std::pair<EV, size_t> r;
  auto c3 = [&](EV a, EV b) { return key_of(cmp, (long long)(a * scale)) < key_of(cmp, (long long)(b * scale)); };
  if (inplace) {
    if constexpr (std::ranges::random_access_range<In>) {
      if (cmp == 0 && turn % 2) r = graph::inplace_kruskal(in, t);
      else if (cmp == 1 && turn % 2) r = graph::inplace_kruskal(in, t, std::greater<EV>());
      else r = graph::inplace_kruskal(in, t, c3);
    }
  } else {
    const In& cin = in;
    if (cmp == 0 && turn % 2) r = graph::kruskal(cin, t);
    else if (cmp == 1 && turn % 2) r = graph::kruskal(in, t, std::greater<EV>());
    else r = graph::kruskal(cin, t, c3);
  }
  Ev ev; ev.add("kruskal"); ev.add(inplace ? "permuted" : "unchanged");
  emit(Obj().kv("k", inplace ? "inplace" : "copying").kv("rep", OUT.rep).kv("es", in0).raw("ev", ev.done())
             .kv("t", list_of(t, cmp, scale)).kv("total", (long long)(r.first * scale)).kv("comps", (long long)r.second).kv("post", list_of(in, cmp, scale)).done());
}
static void kr(const L4& es, int form, int cmp, bool inplace) {
  ++turn;
  long long mx = 0; for (auto& e : es) mx = std::max({mx, e[0], e[1]});
  using CE = graph::copyable_edge_t<uint32_t, int>;
  switch (form % 5) {
  case 0: run<std::vector<CE>, std::vector<CE>, int>(es, cmp, 1, inplace); break;
  case 1: run<std::deque<Plain<uint16_t, double>>, std::vector<Plain<uint16_t, double>>, double>(es, cmp, 2, inplace); break;
  case 2: if (mx <= 255) run<std::vector<Plain<uint8_t, long long>>, std::vector<Plain<uint16_t, long long>>, long long>(es, cmp, 1, inplace); break;
  case 3: run<std::vector<Plain<int, int>>, std::vector<Plain<long, int>>, int>(es, cmp, 1, inplace); break;
  case 4: if (inplace) run<std::vector<CE>, std::vector<Plain<int, int>>, int>(es, cmp, 1, true); else run<std::list<Plain<size_t, long long>>, std::vector<Plain<size_t, long long>>, long long>(es, cmp, 1, false); break;
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 7919 + PART);
  OUT.rep = "edge list";
  long f = OUT.thorough ? 10 : 1;
  int ranges[][2] = {{1, 1}, {0, 2}, {-2, 2}, {-1000, 1000}, {1, 100000}};
  auto both = [&](L4 es) { int cmp = rnd(r, 0, 5); if (cmp > 3) cmp = 0; int form = rnd(r, 0, 4); kr(es, form, cmp, turn % 2); if (r() % 3 == 0) kr(es, rnd(r, 0, 4), cmp, !(turn % 2)); };
  for (int form = 0; form < 5; ++form) for (int ip = 0; ip < 2; ++ip) for (int cmp = 0; cmp < 4; ++cmp) {
    kr({}, form, cmp, ip); kr({{{0, 0, 3, 0}}}, form, cmp, ip); kr({{{0, 1, 3, 0}}}, form, cmp, ip); kr({{{1, 0, -3, 0}}}, form, cmp, ip); kr({{{2, 5, 3, 0}}}, form, cmp, ip); kr({{{5, 2, 3, 0}}}, form, cmp, ip);
    kr({{{1, 1, 3, 0}}}, form, cmp, ip); kr({{{0, 1, 3, 0}}, {{1, 0, 2, 0}}}, form, cmp, ip); kr({{{0, 0, 3, 0}}, {{0, 1, 2, 0}}}, form, cmp, ip); kr({{{250, 255, 1, 0}}, {{255, 251, 1, 0}}}, form, cmp, ip);
  }
  // every list of up to 3 edges over 3 vertices with weights from a small set
  for (int m = 1; m <= 2; ++m) { long tot = 1; for (int k = 0; k < m; ++k) tot *= 18; for (long x = 0; x < tot; ++x) { L4 es; long y = x; for (int k = 0; k < m; ++k) { es.push_back({y % 3, y / 3 % 3, y / 9 % 2, 0}); y /= 18; } both(es); } }
  for (long c = 0; c < 3000 * f; ++c) {
    int n = rnd(r, 1, 8), m = rnd(r, 0, 14); auto& w = ranges[rnd(r, 0, 4)];
    L4 es; for (int k = 0; k < m; ++k) es.push_back({rnd(r, 0, n - 1), rnd(r, 0, n - 1), rnd(r, w[0], w[1]), 0});
    both(es);
  }
  for (long c = 0; c < 60 * f; ++c) {
    int n = rnd(r, 8, 40), m = rnd(r, 5, 70); auto& w = ranges[rnd(r, 0, 4)];
    L4 es; for (int k = 0; k < m; ++k) es.push_back({rnd(r, 0, n - 1), rnd(r, 0, n - 1), rnd(r, w[0], w[1]), 0});
    both(es);
  }
  Gen G(OUT.seed + 5);
  for (int c = 0; c < 20 * f; ++c) { auto& w = ranges[rnd(r, 0, 4)]; AG a = shape(r, c, c % 9 == 3 ? 9 : rnd(r, 3, 35), true, w[0], w[1]); L4 es; std::set<int> s; for (auto& e : a.arcs) if (s.insert(e[2]).second) es.push_back({e[0], e[1], a.w[e[2]], 0}); both(es); }
  return finish();
}
#else
static Rng R2;
struct Runner {
  const AG& a; int seed, cmp;
  template <class P, class D, class G> void full(G& x, int scale) {
    using VId = graph::vertex_id_t<G>;
    P p(a.n), p0(a.n);
    for (int v = 0; v < a.n; ++v) p[v] = p0[v] = (typename P::value_type)((v * 7 + 3) % a.n);
    std::vector<D> w(a.n, (D)77);
    auto wf = [&](const auto& g, const auto& uv) -> D { return (D)(a.w[graph::edge_value(g, uv)] / (D)scale); };
    D tot;
    int c = cmp;
    if (c == 1) tot = graph::prim(x, p, w, std::greater<D>(), std::numeric_limits<D>::lowest(), wf, (VId)seed);
    else if (c == 2) tot = graph::prim(x, p, w, [](D i, D j) { return std::abs(i) < std::abs(j); }, std::numeric_limits<D>::max(), wf, (VId)seed);
    else if (c == 0) tot = graph::prim(x, p, w, [](auto&& i, auto&& j) { return i < j; }, std::numeric_limits<D>::max(), wf, (VId)seed);
    else tot = graph::prim(x, p, w, std::less<D>(), std::numeric_limits<D>::max(), wf, (VId)seed);
    out(x, a, p, p0, w, tot, scale);
  }
  template <class G, class P, class W, class D> void out(G& x, const AG& b, const P& p, const P& p0, const W& w, D tot, int scale) {
    std::vector<long long> key, vp, vp0, vw;
    for (int y : b.w) key.push_back(key_of(cmp, y));
    for (int v = 0; v < b.n; ++v) { vp.push_back((long long)p[v]); vp0.push_back((long long)p0[v]); vw.push_back((long long)(w[v] * scale)); }
    std::string gj = b.json(); gj.pop_back(); gj += ",\"key\":"; js(gj, key); gj += "}";
    Ev ev; ev.add("prim"); ev.add("same");
    emit(Obj().kv("k", "prim").kv("rep", OUT.rep).raw("g", gj).kv("seed", seed).raw("ev", ev.done()).kv("p", vp).kv("p0", vp0).kv("w", vw).kv("total", (long long)(tot * scale)).kv("cmp", cmp).kv("pre", pre).kv("post", dump(x)).done());
  }
  std::vector<std::array<int, 3>> pre;
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).kv("seed", seed).kv("cmp", cmp).done(), 10);
    G x = rep<G>::make(a);
    pre = dump(x);
    const G& cx = x;
    if (R2() % 5 == 0) { // default form: the weight is the edge value, which is the edge id here
      AG b = a; for (size_t k = 0; k < b.w.size(); ++k) b.w[k] = (int)k;
      cmp = 0;
      if (turn % 2 && !a.w.empty()) { // one weight is close to the largest, or all are below zero
        const int m = (int)a.w.size();
        if (turn % 4 == 1) b.w[(size_t)(turn % m)] = std::numeric_limits<int>::max() - 1 - m * m;
        else for (auto& y : b.w) y = 3 * y - 5 * m;
        AG c = a; for (auto& e : c.arcs) e[2] = b.w[(size_t)e[2]];
        G x2 = rep<G>::make(c);
        std::vector<graph::vertex_id_t<G>> p(a.n), p0(a.n); std::vector<int> w(a.n);
        for (int v = 0; v < a.n; ++v) p[v] = p0[v] = (v * 5 + 1) % a.n;
        int tot = graph::prim(x2, p, w, (graph::vertex_id_t<G>)seed);
        out(x, b, p, p0, w, tot, 1);
        return;
      }
      std::vector<graph::vertex_id_t<G>> p(a.n), p0(a.n); std::vector<int> w(a.n);
      for (int v = 0; v < a.n; ++v) p[v] = p0[v] = (v * 5 + 1) % a.n;
      int tot = seed == 0 ? graph::prim(x, p, w) : graph::prim(x, p, w, seed);
      out(x, b, p, p0, w, tot, 1);
      return;
    }
    long long t = 0; for (auto y : a.w) t += std::abs((long long)y);
    switch (turn % 5) {
    case 0: full<std::vector<uint32_t>, int>(x, 1); break;
    case 1: full<std::deque<int>, double>(cx, 2); break;
    case 2: full<std::vector<size_t>, long long>(x, 1); break;
    case 3: if (t < 127) full<std::vector<uint32_t>, int8_t>(x, 1); else if (t < 32767) full<std::vector<uint32_t>, short>(x, 1); else full<std::vector<uint32_t>, double>(x, 1); break;
    case 4: if (t < (1 << 22)) full<std::deque<size_t>, float>(cx, 2); else full<std::deque<size_t>, long long>(cx, 1); break;
    }
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, CG, UAL, VVP>;
#else
using RR = Reps<VOFL, VOS, DLT, VOD, UAL, TV>;
#endif
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + 10 * PROP + PART);
  G.und = true; R2.seed(OUT.seed + 3);
  long f = OUT.thorough ? 10 : 1;
  auto go = [&](const AG& a) { if (a.n == 0) return; ++turn; int c = rnd(G.r, 0, 4); RR::rotate(a, turn, 1, Runner{a, rnd(G.r, 0, a.n - 1), c > 2 ? 0 : c}); };
  G.wlo = 1; G.whi = 9; G.full((int)(4 * f), go);
  int ranges[][2] = {{1, 1}, {0, 2}, {-2, 2}, {-1000, 1000}, {1, 100000}};
  for (auto& w : ranges) {
    G.wlo = w[0]; G.whi = w[1]; G.loops = true;
    for (int n = 1; n <= 3; ++n) G.exhaustive(n, go);
    G.loops = false; G.exhaustive(4, go); G.loops = true;
    G.sampled(5, 200 * f, go);
    G.random(500 * f, 1, 8, 250, go);
    G.random(20 * f, 8, 25, 200, go);
    G.shapes((int)f, 2, 25, go);
    G.loops = false; G.random(200 * f, 1, 8, 200, go);
  }
  return finish();
}
#endif
