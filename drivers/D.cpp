// Histories of operations on dynamic_graph.  PROP 1: contents (C01), 2: values and object semantics (C02), 3: incoming edges (C03)
#include "obs.hpp"
#include "dyn_traits.hpp"
template <template <class, class, class, class, bool> class TR, char VK, char EK, class EV_, class VV_, class GV_, class Id_, bool B> struct Cfg {
  using EV = EV_; using VV = VV_; using GV = GV_; using Id = Id_;
  using G = gc::dynamic_graph<EV, VV, GV, Id, B, TR<EV, VV, GV, Id, B>>;
  static constexpr bool bid = B, assoc = VK == 'm' || VK == 'u', ev = !std::is_void_v<EV>, vv = !std::is_void_v<VV>, gv = !std::is_void_v<GV>;
  static constexpr bool uset = EK == 'u' || EK == 'n';
  static const char* kind() { return VK == 'm' ? "map" : VK == 'u' ? "umap" : "idx"; }
  static const char* ord() { return EK == 'f' ? "rev" : EK == 's' || EK == 'm' ? "set" : uset ? "uset" : "seq"; }
  static std::string name() { return std::string{VK, 'o', EK} + (B ? "-bi" : ""); }
};
#define LIB(TR, VK, EK, EV, VV, GV, ID) Cfg<gc::TR##_graph_traits, VK, EK, EV, VV, GV, ID, false>
#define BI(VK, EK, EV, VV, GV, ID) Cfg<BiTr<VK, EK>::template T, VK, EK, EV, VV, GV, ID, true>
using str = std::string;

// a range that can be traversed once
template <class T> struct OnePass {
  const std::vector<T>* v;
  size_t at = 0;
  struct It {
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
    OnePass* p = nullptr;
    T    operator*() const { return (*p->v)[p->at]; }
    It&  operator++() { ++p->at; return *this; }
    void operator++(int) { ++p->at; }
    bool operator==(std::default_sentinel_t) const { return p->at == p->v->size(); }
  };
  It begin() { return It{this}; }
  std::default_sentinel_t end() const { return {}; }
};
struct Own { int a, b, w; }; // user types, loaded through projections
struct OwnV { int k; int w; };
using Triple = std::array<long long, 3>;
using Pair   = std::array<long long, 2>;

template <class C> struct Hist {
  using G = typename C::G; using Id = typename C::Id; using EV = typename C::EV; using VV = typename C::VV; using GV = typename C::GV;
  using CE = graph::copyable_edge_t<Id, EV>; using CV = graph::copyable_vertex_t<Id, VV>;
  static constexpr int NR = 3;
  Rng& r; int idspan; bool big;
  std::unique_ptr<G> g[NR];
  bool live[NR] = {};
  long long gvs[NR] = {}, ser = 0;
  Ev ev; Obj head;
  Hist(Rng& r_, int span, bool big_) : r(r_), idspan(span), big(big_) {}

  static Id rid(long long x) { return (Id)x; }
  static CE ce(const Triple& e) {
    if constexpr (C::ev) return CE{(Id)e[0], (Id)e[1], mkval<EV>((int)e[2])};
    else return CE{(Id)e[0], (Id)e[1]};
  }
  static CV cv(const Pair& v) {
    if constexpr (C::vv) return CV{(Id)v[0], mkval<VV>((int)v[1])};
    else return CV{(Id)v[0]};
  }
  long long id() { return C::assoc && rnd(r, 0, 2) ? (rnd(r, 0, idspan) * 3) % (idspan + 5) : rnd(r, 0, idspan - 1); }
  std::vector<Triple> edges_upto(int mx) {
    std::vector<Triple> es;
    int m = rnd(r, 0, 4) ? rnd(r, 1, mx) : 0;
    for (int k = 0; k < m; ++k) {
      if (k && rnd(r, 0, 3) == 0) { auto e = es[(size_t)rnd(r, 0, k - 1)]; e[2] = C::ev ? ++ser : 0; if (rnd(r, 0, 2) == 0) std::swap(e[0], e[1]); es.push_back(e); continue; } // parallel or opposite
      es.push_back({id(), id(), C::ev ? ++ser : 0});
    }
    return es;
  }
  std::vector<Pair> verts_upto(int mx) {
    std::vector<Pair> vs;
    int m = rnd(r, 0, mx);
    for (int k = 0; k < m; ++k) vs.push_back({C::assoc || rnd(r, 0, 2) == 0 ? id() : k, C::vv ? ++ser : 0});
    if (rnd(r, 0, 1)) shuf(r, vs);
    return vs;
  }
  template <class... A> void op(const char* k, const A&... a) { // an event with arbitrary arguments
    std::string e = "[\""; e += k; e += '"';
    ((e += ',', js(e, a)), ...);
    ev.raw(e + "]");
    OUT.pending = Obj().kv("cfg", C::name()).raw("ev", ev.done()).done();
  }
  void obs(int q, bool light) {
    if (!live[q]) return;
    Items it;
    ObsOpt o; o.light = light; o.in = C::bid;
    if (!light) {
      o.qs = {id(), id(), 0, (long long)idspan + 1};
      if constexpr (!C::assoc) o.qs.push_back((long long)graph::num_vertices(*g[q])); // the first id that does not exist
      for (auto u : graph::vertices(*g[q])) { if (rnd(r, 0, 2) == 0 && o.qs.size() < 8) o.qs.push_back((long long)graph::vertex_id(*g[q], u)); }
      std::sort(o.qs.begin(), o.qs.end());
      o.qs.erase(std::unique(o.qs.begin(), o.qs.end()), o.qs.end());
    }
    if (rnd(r, 0, 1)) observe<C::vv, C::ev>(it, *g[q], o);
    else { const G& c = *g[q]; observe<C::vv, C::ev>(it, c, o); }
    ev.raw("[\"obs\"," + std::to_string(q + 1) + "," + it.done() + "]");
  }
  void load(int q, const std::vector<Triple>& es, size_t vc, int form) {
    std::string res = "ok"; bool multipass = true;
    std::vector<CE> v; for (auto& e : es) v.push_back(ce(e));
    try {
      switch (form % 8) {
      case 0: g[q]->load_edges(v, std::identity{}, vc); break;
      case 1: { const auto& c = v; g[q]->load_edges(c, std::identity{}, vc, es.size()); break; }
      case 2: g[q]->load_edges(std::move(v), std::identity{}, vc); break;
      case 3: { std::list<CE> l(v.begin(), v.end()); g[q]->load_edges(l, std::identity{}, vc); break; }
      case 4: { std::vector<Own> o; for (auto& e : es) o.push_back({(int)e[0], (int)e[1], (int)e[2]});
                g[q]->load_edges(o, [](const Own& x) { return ce({x.a, x.b, x.w}); }, vc); break; }
      case 5: { std::vector<Own> o; for (auto& e : es) o.push_back({(int)e[0], (int)e[1], (int)e[2]});
                g[q]->load_edges(o | std::views::transform([](const Own& x) { return ce({x.a, x.b, x.w}); }), std::identity{}, vc); break; }
      case 6: { OnePass<CE> p{&v}; multipass = false; g[q]->load_edges(p, std::identity{}, vc); break; }
      case 7: { std::forward_list<CE> l(v.begin(), v.end()); g[q]->load_edges(l, [](const CE& x) { return x; }, vc, 3); break; }
      }
    } catch (const std::runtime_error&) { res = "throw"; }
    op("le", q + 1, es, vc, multipass, res);
    live[q] = res == "ok";
  }
  void loadv(int q, const std::vector<Pair>& vs, size_t vc, int form) {
    std::string res = "ok";
    std::vector<CV> v; for (auto& x : vs) v.push_back(cv(x));
    try {
      switch (form % 4) {
      case 0: { const auto& c = v; g[q]->load_vertices(c, std::identity{}, vc); break; }
      case 1: g[q]->load_vertices(std::move(v), std::identity{}, vc); break;
      case 2: { std::list<CV> l(v.begin(), v.end()); g[q]->load_vertices(l, std::identity{}, vc); break; }
      case 3: { std::vector<OwnV> o; for (auto& x : vs) o.push_back({(int)x[0], (int)x[1]});
                g[q]->load_vertices(o, [](const OwnV& x) { return cv({x.k, x.w}); }, vc); break; }
      }
    } catch (const std::out_of_range&) { res = "throw"; }
    op("lv", q + 1, vs, vc, res);
    live[q] = res == "ok";
  }
  void create(int q) {
    auto es = edges_upto(big ? 60 : 6);
    std::vector<CE> v; for (auto& e : es) v.push_back(ce(e));
    gvs[q] = 0; live[q] = true;
    switch (rnd(r, 0, 5)) {
    case 0: g[q] = std::make_unique<G>(); op("new", q + 1); return;
    case 1:
      if constexpr (C::gv) { gvs[q] = ++ser; if (rnd(r, 0, 1)) { GV x = mkval<GV>((int)gvs[q]); g[q] = std::make_unique<G>(x); } else g[q] = std::make_unique<G>(mkval<GV>((int)gvs[q])); op("newgv", q + 1, gvs[q]); return; }
      else { g[q] = std::make_unique<G>(typename G::allocator_type{}); op("new", q + 1); return; }
    case 2: { // initializer lists of 0 to 3 edges
      size_t k = std::min<size_t>(v.size(), (size_t)rnd(r, 0, 3));
      es.resize(k);
      using IL = std::initializer_list<CE>;
      auto mk = [&](IL il) {
        if constexpr (C::gv) { if (rnd(r, 0, 1)) { gvs[q] = ++ser; g[q] = std::make_unique<G>(mkval<GV>((int)gvs[q]), il); return; } }
        g[q] = std::make_unique<G>(il);
      };
      if (k == 0) mk(IL{}); else if (k == 1) mk({v[0]}); else if (k == 2) mk({v[0], v[1]}); else mk({v[0], v[1], v[2]});
      op("newil", q + 1, es, gvs[q]);
      return;
    }
    case 3: { // edges and vertices
      auto vs = verts_upto(idspan);
      std::vector<CV> vv; for (auto& x : vs) vv.push_back(cv(x));
      std::string res = "ok";
      try { g[q] = std::make_unique<G>(v, vv, std::identity{}, std::identity{}, std::vector<Id>{}); } catch (const std::runtime_error&) { res = "throw"; } catch (const std::out_of_range&) { res = "throw"; }
      op("newev", q + 1, es, vs, res);
      live[q] = res == "ok";
      if (!live[q]) g[q] = std::make_unique<G>(); // to be cleared before use
      return;
    }
    case 4: { // largest id and edges
      Id mx = (Id)rnd(r, 0, idspan + 1);
      std::string res = "ok";
      auto w = v;
      try { g[q] = std::make_unique<G>(mx, w, std::identity{}, std::vector<Id>{}); } catch (const std::runtime_error&) { res = "throw"; }
      op("newmx", q + 1, (long long)mx, es, res);
      live[q] = res == "ok";
      if (!live[q]) g[q] = std::make_unique<G>();
      return;
    }
    case 5: g[q] = std::make_unique<G>(); op("new", q + 1); load(q, es, rnd(r, 0, 2) ? 0 : (size_t)idspan + 2, rnd(r, 0, 7)); return;
    }
  }
  void step(int w) {
    int q = rnd(r, 0, NR - 1), p = rnd(r, 0, NR - 1);
    if (!g[q]) { create(q); obs(q, true); return; }
    if (!live[q]) { g[q]->clear(); live[q] = true;
      if constexpr (C::gv) { graph::graph_value(*g[q]) = mkval<GV>((int)++ser); gvs[q] = ser; }
      op("clear", q + 1, gvs[q]); obs(q, true); return; }
    G& x = *g[q];
    switch (w) {
    case 0: case 1: { // load edges; usually so that it succeeds
      auto es = edges_upto(big ? 60 : 6);
      size_t n = graph::num_vertices(x);
      int form = rnd(r, 0, 7);
      size_t vc = rnd(r, 0, 3) == 0 ? (size_t)rnd(r, 1, idspan + 2) : 0;
      if (!C::assoc && rnd(r, 0, 7) && (vc || form % 8 == 6)) vc = std::max<size_t>(n, (size_t)idspan + 1);
      load(q, es, vc, form); break;
    }
    case 2: { auto vs = verts_upto(idspan); loadv(q, vs, rnd(r, 0, 2) == 0 ? (size_t)rnd(r, 0, idspan + 2) : rnd(r, 0, 1) ? (size_t)idspan : 0, rnd(r, 0, 3)); break; }
    case 3: { size_t n = std::max<size_t>(graph::num_vertices(x), (size_t)rnd(r, 0, idspan + 2)); x.resize_vertices(n); op("resize", q + 1, n); break; }
    case 4: if (rnd(r, 0, 1)) { x.clear(); op("clear", q + 1, gvs[q]); } else { x.reserve_vertices(9); x.reserve_edges(9); } break;
    case 5: // copy q into p
      if (g[p] && rnd(r, 0, 1)) *g[p] = x; else if (p != q) g[p] = std::make_unique<G>(std::as_const(x)); else break;
      op("copy", q + 1, p + 1); live[p] = true; gvs[p] = gvs[q]; obs(p, false); break;
    case 6: if (p == q) break;
      if (g[p] && rnd(r, 0, 1)) *g[p] = std::move(x); else g[p] = std::make_unique<G>(std::move(x));
      op("move", q + 1, p + 1); live[p] = true; live[q] = false; gvs[p] = gvs[q]; obs(p, false); break;
    case 7: if (p == q || !g[p]) break;
      std::swap(x, *g[p]); op("swap", q + 1, p + 1); std::swap(live[p], live[q]); std::swap(gvs[p], gvs[q]); obs(p, true); break;
    case 8: case 9: if constexpr (C::vv) { // a vertex value
        size_t n = graph::num_vertices(x); if (!n) break;
        auto it = std::ranges::next(std::ranges::begin(graph::vertices(x)), rnd(r, 0, (int)n - 1));
        auto u = *it; auto uid = graph::vertex_id(x, u);
        ++ser;
        switch (rnd(r, 0, 2)) {
        case 0: graph::vertex_value(x, u) = mkval<VV>((int)ser); break;
        case 1: x.vertex_at(uid).value() = mkval<VV>((int)ser); break;
        case 2: if constexpr (!C::assoc) x[(size_t)uid].value() = mkval<VV>((int)ser); else graph::vertex_value(x, *graph::find_vertex(x, uid)) = mkval<VV>((int)ser); break;
        }
        op("setv", q + 1, (long long)uid, ser);
      } break;
    case 10: case 11: if constexpr (C::ev && !C::bid) { // an edge value
        for (auto u : graph::vertices(x)) {
          long long d = 0; for (auto e : graph::edges(x, u)) { (void)e; ++d; }
          if (!d || rnd(r, 0, 1)) continue;
          long long want = rnd(r, 1, (int)d), at = 0;
          for (auto e : graph::edges(x, u)) {
            if (++at != want) continue;
            if constexpr (requires { graph::edge_value(x, e) = mkval<EV>(1); }) {
              ++ser;
              graph::edge_value(x, e) = mkval<EV>((int)ser);
              if (C::uset) op("setek", q + 1, (long long)graph::vertex_id(x, u), (long long)graph::target_id(x, e), ser);
              else op("sete", q + 1, (long long)graph::vertex_id(x, u), want, ser);
            }
          }
          break;
        }
      } break;
    case 12: if constexpr (C::gv) { gvs[q] = ++ser; graph::graph_value(x) = mkval<GV>((int)ser); op("setgv", q + 1, ser); } break;
    }
    obs(q, rnd(r, 0, 3) != 0);
  }
  void run(int steps) {
    for (int s = 0; s < steps; ++s) {
#if PROP == 2
      static const int mix[] = {0, 1, 2, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12};
#elif PROP == 3
      static const int mix[] = {0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7};
#else
      static const int mix[] = {0, 0, 0, 0, 1, 1, 2, 3, 4, 5};
#endif
      step(mix[rnd(r, 0, (int)std::size(mix) - 1)]);
    }
    for (int q = 0; q < NR; ++q) if (g[q]) obs(q, false);
    // independence of copies: the others are destroyed one by one
    for (int q = 0; q + 1 < NR; ++q) { g[q].reset(); if (g[q + 1]) obs(q + 1, true); }
  }
};
template <class C> void histories(Rng& r, long count, int steps, int span, bool big) {
  for (long c = 0; c < count; ++c) {
    std::string nm = C::name();
    OUT.rep = nm.c_str();
    Guard grd("{}");
    Hist<C> h(r, span, big);
    h.run(steps);
    emit(Obj().kv("k", "history").kv("rep", nm).kv("kind", C::kind()).kv("ord", C::ord()).kv("bid", C::bid).kv("nreg", Hist<C>::NR).raw("ev", h.ev.done()).done());
  }
}
// per configuration: many short histories, a few with larger loads
template <class... Cs> void all(Rng& r) {
  auto one = [&]<class C>() {
    histories<C>(r, OUT.thorough ? 400 : 30, 7, 4, false);
    histories<C>(r, OUT.thorough ? 150 : 10, 14, 6, false);
    histories<C>(r, OUT.thorough ? 20 : 2, 6, 25, true);
  };
  (one.template operator()<Cs>(), ...);
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 977 + 13 * PROP + PART);
#if PROP == 1 && PART == 0
  all<LIB(vov, 'v', 'v', int, void, void, uint32_t), LIB(vol, 'v', 'l', int, void, void, uint8_t), LIB(vofl, 'v', 'f', str, void, void, uint32_t), LIB(vod, 'v', 'd', void, void, void, uint64_t), LIB(vos, 'v', 's', int, void, void, uint32_t), LIB(vous, 'v', 'u', int, void, void, int)>(r);
#elif PROP == 1 && PART == 1
  all<LIB(dov, 'd', 'v', int, void, void, int), LIB(dol, 'd', 'l', void, void, void, uint32_t), LIB(dofl, 'd', 'f', int, void, void, uint16_t), LIB(dod, 'd', 'd', str, void, void, uint32_t), LIB(dos, 'd', 's', void, void, void, uint32_t), LIB(dous, 'd', 'u', int, void, void, uint32_t)>(r);
#elif PROP == 1 && PART == 2
  all<LIB(vom, 'v', 'm', int, void, void, uint32_t), LIB(voum, 'v', 'n', int, void, void, uint32_t), LIB(mov, 'm', 'v', int, void, void, uint32_t), LIB(mol, 'm', 'l', str, void, void, int), LIB(mofl, 'm', 'f', int, void, void, uint32_t), LIB(mod, 'm', 'd', void, void, void, uint8_t)>(r);
#elif PROP == 1 && PART == 3
  all<LIB(mos, 'm', 's', int, void, void, uint32_t), LIB(mous, 'm', 'u', int, void, void, uint32_t), LIB(mom, 'm', 'm', int, void, void, uint32_t), LIB(uov, 'u', 'v', int, void, void, uint32_t), LIB(uol, 'u', 'l', int, void, void, int)>(r);
#elif PROP == 1 && PART == 4
  all<LIB(uofl, 'u', 'f', int, void, void, uint32_t), LIB(uod, 'u', 'd', str, void, void, uint32_t), LIB(uos, 'u', 's', void, void, void, uint32_t), LIB(uous, 'u', 'u', int, void, void, uint32_t)>(r);
#elif PROP == 2 && PART == 0
  all<LIB(vov, 'v', 'v', int, int, int, uint32_t), LIB(vol, 'v', 'l', str, str, str, uint32_t), LIB(vofl, 'v', 'f', int, int, void, uint32_t), LIB(vod, 'v', 'd', int, str, int, uint16_t)>(r);
#elif PROP == 2 && PART == 1
  all<LIB(dov, 'd', 'v', int, int, int, uint32_t), LIB(dol, 'd', 'l', int, str, void, uint32_t), LIB(vos, 'v', 's', int, int, int, uint32_t), LIB(vom, 'v', 'm', str, int, int, uint32_t)>(r);
#elif PROP == 2 && PART == 2
  all<LIB(mov, 'm', 'v', int, int, int, uint32_t), LIB(mol, 'm', 'l', int, str, int, uint32_t), LIB(mom, 'm', 'm', int, int, void, uint32_t), LIB(mous, 'm', 'u', int, int, int, uint32_t)>(r);
#elif PROP == 2 && PART == 3
  all<LIB(uov, 'u', 'v', int, int, int, uint32_t), LIB(uofl, 'u', 'f', str, str, void, uint32_t), LIB(voum, 'v', 'n', int, int, int, uint32_t), LIB(vous, 'v', 'u', int, str, int, uint32_t)>(r);
#elif PROP == 3 && PART == 0
  all<BI('v', 'v', int, int, void, uint32_t), BI('v', 'l', str, void, void, uint32_t), BI('v', 'f', int, void, void, uint32_t), BI('v', 's', int, void, void, uint32_t)>(r);
#elif PROP == 3 && PART == 1
  all<BI('m', 'v', str, int, void, uint32_t), BI('u', 'l', str, void, void, uint32_t), BI('d', 'd', void, void, void, uint32_t), BI('m', 's', int, void, void, uint32_t)>(r);
#elif PROP == 3 && PART == 2
  all<BI('v', 'm', int, void, void, uint32_t), BI('v', 'u', int, void, int, uint32_t), BI('u', 'f', int, str, void, uint32_t), BI('d', 'v', void, void, void, int)>(r);
#endif
  return finish();
}
