// Histories of compressed_graph.  PROP 4: contents (C04), 5: partitions (C05)
#include "obs.hpp"
#include <memory>
using str = std::string;
using Triple = std::array<long long, 3>;
using Pair   = std::array<long long, 2>;
struct Own { int a, b, w; };
struct OwnV { int k; int w; };
template <class EV_, class VV_, class GV_, class Id_, class EI_> struct Cfg {
  using EV = EV_; using VV = VV_; using GV = GV_; using Id = Id_; using EI = EI_;
  using G = gc::compressed_graph<EV, VV, GV, Id, EI>;
  static constexpr bool ev = !std::is_void_v<EV>, vv = !std::is_void_v<VV>, gv = !std::is_void_v<GV>;
};
template <class C> struct Hist {
  using G = typename C::G; using Id = typename C::Id; using EV = typename C::EV; using VV = typename C::VV; using GV = typename C::GV;
  using CE = graph::copyable_edge_t<Id, EV>; using CV = graph::copyable_vertex_t<Id, VV>;
  static constexpr int NR = 3;
  Rng& r; int span, maxm;
  std::unique_ptr<G> g[NR];
  bool live[NR] = {};
  std::vector<Id> parts[NR];
  long long ser = 0;
  Ev ev;
  Hist(Rng& r_, int s, int m) : r(r_), span(s), maxm(m) {}
  static CE ce(const Triple& e) {
    if constexpr (C::ev) return CE{(Id)e[0], (Id)e[1], mkval<EV>((int)e[2])};
    else return CE{(Id)e[0], (Id)e[1]};
  }
  static CV cv(const Pair& v) {
    if constexpr (C::vv) return CV{(Id)v[0], mkval<VV>((int)v[1])};
    else return CV{(Id)v[0]};
  }
  template <class... A> void op(const char* k, const A&... a) {
    std::string e = "[\""; e += k; e += '"';
    ((e += ',', js(e, a)), ...);
    ev.raw(e + "]");
    OUT.pending = Obj().kv("rep", OUT.rep).raw("ev", ev.done()).done();
  }
  std::vector<Triple> edge_list() {
    std::vector<Triple> es;
    int m = rnd(r, 0, 5) ? rnd(r, 1, maxm) : 0;
    for (int k = 0; k < m; ++k) {
      if (k && rnd(r, 0, 3) == 0) { auto e = es[(size_t)rnd(r, 0, k - 1)]; e[2] = C::ev ? ++ser : 0; es.push_back(e); continue; }
      es.push_back({rnd(r, 0, span - 1), rnd(r, 0, span - 1), C::ev ? ++ser : 0});
    }
    std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a[0] < b[0]; });
    return es;
  }
  std::vector<Pair> vert_list() {
    std::vector<Pair> vs;
    int m = rnd(r, 0, span + 2), mode = rnd(r, 0, 2);
    for (int k = 0; k < m; ++k) vs.push_back({mode == 0 ? k : rnd(r, 0, span + 1), C::vv ? ++ser : 0});
    if (mode == 1) shuf(r, vs);
    return vs;
  }
  std::vector<long long> part_list(long long n) {
    std::vector<long long> ps;
    switch (rnd(r, 0, PROP == 5 ? 6 : 2)) {
    case 0: case 1: return ps;
    case 2: return {0};
    case 3: if (n > 1) { ps = {0}; for (long long v = 1; v < n; ++v) if (rnd(r, 0, 2) == 0) ps.push_back(v); return ps; } return {0};
    case 4: for (long long v = 0; v < std::max(n, 1LL); ++v) ps.push_back(v); return ps; // one vertex each
    case 5: ps = {0}; if (n > 0) ps.push_back(n); return ps;                             // an empty last partition
    default: { static const std::vector<long long> bad[] = {{1}, {0, 0}, {0, 2, 1}, {0, 1, 1}, {2, 0}};  // not valid, or too large
               ps = bad[rnd(r, 0, 4)]; if (rnd(r, 0, 3) == 0) ps = {0, n + 1}; return ps; }
    }
  }
  void obs(int q, bool light) {
    if (!live[q]) return;
    Items it; ObsOpt o; o.light = light;
    G& x = *g[q]; const G& c = x;
    long long n = (long long)graph::num_vertices(x);
    if (!light && n) { for (int k = 0; k < 4; ++k) o.qs.push_back(rnd(r, 0, (int)n - 1));
      std::sort(o.qs.begin(), o.qs.end()); o.qs.erase(std::unique(o.qs.begin(), o.qs.end()), o.qs.end()); }
    if (rnd(r, 0, 1)) observe<C::vv, C::ev>(it, x, o); else observe<C::vv, C::ev>(it, c, o);
    // raw ids
    auto seq = [](auto&& rg) { Row v; for (auto k : rg) v.push_back((long long)k); return v; };
    it.add("vids", seq(c.vertex_ids()));
    it.add("eids", seq(c.edge_ids()));
    it.add("nv", (long long)c.size()); it.add("nv", (long long)c.num_vertices());
    for (long long u = 0; u < n && !light; ++u) it.add("veids", u, seq(c.edge_ids((Id)u)));
    it.add("veids", n, seq(c.edge_ids((Id)n)));
    Rows tv;
    for (auto k : c.edge_ids()) { long long w = 0; if constexpr (C::ev) w = ival(c.edge_value(k)); tv.push_back({(long long)c.target_id(k), w}); }
    it.add("etv", tv);
    if constexpr (C::vv) { Rows vv; for (auto k : c.vertex_ids()) vv.push_back({(long long)k, ival(rnd(r, 0, 1) ? c.vertex_value(k) : x.vertex_value(k))}); it.add("vv", vv); }
    // partitions
    long long np = (long long)graph::num_partitions(c);
    it.add("np", np);
    for (long long p = 0; p <= np; ++p) {
      Row ids;
      if (rnd(r, 0, 1)) for (auto u : graph::vertices(x, (int)p)) ids.push_back((long long)graph::vertex_id(x, u));
      else for (auto u : graph::vertices(c, (Id)p)) ids.push_back((long long)graph::vertex_id(c, u));
      it.add("pv", p, ids);
      it.add("pn", p, (long long)graph::num_vertices(c, (int)p));
    }
    for (auto u : graph::vertices(x)) it.add("pid", (long long)graph::vertex_id(x, u), (long long)graph::partition_id(x, u));
    ev.raw("[\"obs\"," + std::to_string(q + 1) + "," + it.done() + "]");
  }
  void create(int q) {
    live[q] = true;
    auto es = edge_list(); auto vs = vert_list();
    std::vector<CE> v; for (auto& e : es) v.push_back(ce(e));
    std::vector<CV> w; for (auto& x : vs) w.push_back(cv(x));
    std::vector<Own> ov; for (auto& e : es) ov.push_back({(int)e[0], (int)e[1], (int)e[2]});
    long long gvv = 0, n = 0;
    for (auto& e : es) n = std::max({n, e[0] + 1, e[1] + 1});
    int form = rnd(r, 0, 7);
    if (PROP == 5 && rnd(r, 0, 3)) form = rnd(r, 3, 6);
    auto prj = [](const Own& x) { return ce({x.a, x.b, x.w}); };
    using VSeq = std::vector<std::vector<Pair>>;
    std::string res = "ok";
    auto build = [&](auto mk, const VSeq& given, const std::vector<long long>& ps) {
      try { g[q] = mk(std::vector<Id>(ps.begin(), ps.end())); } catch (const graph::graph_error&) { res = "throw"; }
      op("build", q + 1, es, given, ps, gvv, res);
      live[q] = res == "ok";
    };
    auto gval = [&] { gvv = ++ser; };
    switch (form) {
    case 0: g[q] = std::make_unique<G>(); op("new", q + 1, 0); return;
    case 1: if constexpr (C::gv) { gval(); if (rnd(r, 0, 1)) { GV x = mkval<GV>((int)gvv); g[q] = std::make_unique<G>(x); } else g[q] = std::make_unique<G>(mkval<GV>((int)gvv)); op("new", q + 1, gvv); return; }
            else { g[q] = std::make_unique<G>(std::allocator<Id>{}); op("new", q + 1, 0); return; }
    case 2: { size_t k = std::min<size_t>(v.size(), (size_t)rnd(r, 0, 3)); es.resize(k);
              using IL = std::initializer_list<CE>;
              auto mk = [&](IL il) { return std::make_unique<G>(il); };
              build([&](auto) { return k == 0 ? mk(IL{}) : k == 1 ? mk({v[0]}) : k == 2 ? mk({v[0], v[1]}) : mk({v[0], v[1], v[2]}); }, {}, {});
              return; }
    case 3: { auto ps = part_list(n); build([&](auto p) { return std::make_unique<G>(v, std::identity{}, p); }, {}, ps); return; }
    case 4: { auto ps = part_list(n); build([&](auto p) { return std::make_unique<G>(ov, prj, p); }, {}, ps); return; }
    case 5: case 6: {
      for (auto& x : vs) n = std::max(n, x[0] + 1);
      auto ps = part_list(n);
      if constexpr (C::gv) if (form == 6) { gval(); build([&](auto p) { GV x = mkval<GV>((int)gvv); return std::make_unique<G>(x, v, w, std::identity{}, std::identity{}, p); }, {vs}, ps); return; }
      build([&](auto p) { return std::make_unique<G>(v, w, std::identity{}, std::identity{}, p); }, {vs}, ps);
      return; }
    case 7: if constexpr (C::gv) { gval(); auto ps = part_list(n); build([&](auto p) { return std::make_unique<G>(mkval<GV>((int)gvv), v, std::identity{}, p); }, {}, ps); return; }
            else { g[q] = std::make_unique<G>(); op("new", q + 1, 0); return; }
    }
  }
  void load(int q) {
    auto es = edge_list();
    std::vector<CE> v; for (auto& e : es) v.push_back(ce(e));
    size_t vc = rnd(r, 0, 2) == 0 ? (size_t)rnd(r, 1, span + 3) : 0;
    if (rnd(r, 0, 2) == 0) g[q]->reserve(es.size(), 3);
    switch (rnd(r, 0, 5)) {
    case 0: g[q]->load_edges(v, std::identity{}, vc); break;
    case 1: { const auto& c = v; g[q]->load_edges(c, std::identity{}, vc, es.size()); break; }
    case 2: g[q]->load_edges(std::move(v), std::identity{}, vc); break;
    case 3: { std::forward_list<CE> l(v.begin(), v.end()); g[q]->load_edges(std::as_const(l), std::identity{}, vc); break; }
    case 4: { std::list<Own> o; for (auto& e : es) o.push_back({(int)e[0], (int)e[1], (int)e[2]});
              g[q]->load_edges(o, [](const Own& x) { return ce({x.a, x.b, x.w}); }, vc); break; }
    case 5: { std::vector<Own> o; for (auto& e : es) o.push_back({(int)e[0], (int)e[1], (int)e[2]});
              g[q]->load_edges(o | std::views::transform([](const Own& x) { return ce({x.a, x.b, x.w}); }), std::identity{}, vc); break; }
    }
    op("le", q + 1, es, vc);
  }
  void loadv(int q) {
    auto vs = vert_list();
    std::vector<CV> v; for (auto& x : vs) v.push_back(cv(x));
    size_t vc = rnd(r, 0, 2) == 0 ? (size_t)rnd(r, 1, span + 3) : 0;
    switch (rnd(r, 0, 2)) {
    case 0: g[q]->load_vertices(v, std::identity{}, vc); break;
    case 1: { std::list<CV> l(v.begin(), v.end()); g[q]->load_vertices(l, std::identity{}, vc); break; }
    case 2: { std::vector<OwnV> o; for (auto& x : vs) o.push_back({(int)x[0], (int)x[1]});
              g[q]->load_vertices(o, [](const OwnV& x) { return cv({x.k, x.w}); }, vc); break; }
    }
    op("lv", q + 1, vs, vc);
  }
  void step(int w) {
    int q = rnd(r, 0, NR - 1), p = rnd(r, 0, NR - 1);
    if (!g[q] || !live[q]) { create(q); obs(q, true); return; }
    G& x = *g[q];
    switch (w) {
    case 0: case 1: if (graph::num_edges(x) || (graph::num_vertices(x) && rnd(r, 0, 1))) { x.clear(); op("clear", q + 1); if (rnd(r, 0, 1)) obs(q, true); } load(q); break;
    case 2: case 3: loadv(q); break;
    case 4: x.clear(); op("clear", q + 1); break;
    case 5: if (g[p] && rnd(r, 0, 1)) *g[p] = x; else if (p != q) g[p] = std::make_unique<G>(std::as_const(x)); else break;
      op("copy", q + 1, p + 1); live[p] = true; obs(p, false); break;
    case 6: if (p == q) break;
      if (g[p] && rnd(r, 0, 1)) *g[p] = std::move(x); else g[p] = std::make_unique<G>(std::move(x));
      op("move", q + 1, p + 1); live[p] = true; live[q] = false; obs(p, false); break;
    case 7: if (p == q || !g[p]) break;
      std::swap(x, *g[p]); op("swap", q + 1, p + 1); std::swap(live[p], live[q]); obs(p, true); break;
    case 8: if constexpr (C::vv) { size_t n = graph::num_vertices(x); if (!n) break;
        size_t u = (size_t)rnd(r, 0, (int)n - 1); ++ser;
        if (rnd(r, 0, 1)) x.vertex_value((Id)u) = mkval<VV>((int)ser); else graph::vertex_value(x, *graph::find_vertex(x, (Id)u)) = mkval<VV>((int)ser);
        op("setv", q + 1, u, ser); } break;
    case 9: if constexpr (C::ev) {
        for (auto u : graph::vertices(x)) {
          long long d = (long long)graph::degree(x, u);
          if (!d || rnd(r, 0, 1)) continue;
          long long want = rnd(r, 1, (int)d), at = 0;
          for (auto e : graph::edges(x, u)) if (++at == want) { ++ser;
            if (rnd(r, 0, 1)) graph::edge_value(x, e) = mkval<EV>((int)ser); else x.edge_value((typename C::EI)e.value()) = mkval<EV>((int)ser);
            op("sete", q + 1, (long long)graph::vertex_id(x, u), want, ser); }
          break;
        } } break;
    case 10: if constexpr (C::gv) { ++ser; graph::graph_value(x) = mkval<GV>((int)ser); op("setgv", q + 1, ser); } break;
    }
    obs(q, rnd(r, 0, 2) != 0);
  }
  void run(int steps) {
    for (int s = 0; s < steps; ++s) {
      static const int mix[] = {0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10};
      step(mix[rnd(r, 0, (int)std::size(mix) - 1)]);
    }
    for (int q = 0; q < NR; ++q) if (g[q]) obs(q, false);
    for (int q = 0; q + 1 < NR; ++q) { g[q].reset(); if (g[q + 1]) obs(q + 1, true); }
  }
};
template <class C> void histories(const char* nm, Rng& r, long count, int steps, int span, int maxm) {
  OUT.rep = nm;
  for (long c = 0; c < count; ++c) {
    Guard grd("{}");
    Hist<C> h(r, span, maxm);
    h.run(steps);
    emit(Obj().kv("k", "history").kv("rep", std::string(nm)).kv("nreg", Hist<C>::NR).raw("ev", h.ev.done()).done());
  }
}
template <class C> void one(const char* nm, Rng& r) {
  int f = PROP == 5 ? 1 : 1;
  histories<C>(nm, r, (OUT.thorough ? 800 : 50) * f, 6, 4, 6);
  histories<C>(nm, r, OUT.thorough ? 300 : 20, 10, 7, 12);
  histories<C>(nm, r, OUT.thorough ? 40 : 3, 4, 40, 90);
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 7919 + 31 * PROP + PART);
#if PART == 0
  one<Cfg<int, int, int, uint32_t, uint32_t>>("int/int/int/u32/u32", r);
  one<Cfg<str, str, void, int, uint16_t>>("str/str/void/int/u16", r);
  one<Cfg<int, void, void, uint32_t, uint32_t>>("int/void/void/u32/u32", r);
  histories<Cfg<int, int, void, uint8_t, uint16_t>>("wide/u8/u16", r, OUT.thorough ? 40 : 3, 4, 60, 400); // more edges than a vertex id can count
#else
  one<Cfg<void, int, str, uint16_t, uint32_t>>("void/int/str/u16/u32", r);
  one<Cfg<int, str, int, uint8_t, uint8_t>>("int/str/int/u8/u8", r);
  one<Cfg<void, void, void, uint64_t, uint64_t>>("void/void/void/u64/u64", r);
  one<Cfg<long long, void, int, int16_t, int>>("ll/void/int/i16/int", r);
#endif
  return finish();
}
