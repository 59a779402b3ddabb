// Every access function on every accepted representation of a graph (A01): what was stored is what is seen.
#include "reps.hpp"
template <class C> struct One {
  using G = typename C::G;
  Rng& r;
  std::string nm;
  static constexpr bool halves = requires { C::halves; };
  template <class X> void desc(Items& o, X& g, const St& s) { // descriptors identify what they describe; partitions
    namespace gr = graph;
    auto vr = gr::vertices(g);
    std::vector<gr::vertex_t<X>> vd; std::vector<long long> id;
    for (auto u : vr) { vd.push_back(u); id.push_back(lid(gr::vertex_id(g, u))); }
    using V = gr::vertex_t<X>;
    for (int k = 0; k < 6 && !vd.empty(); ++k) {
      size_t a = (size_t)rnd(r, 0, (int)vd.size() - 1), b = (size_t)rnd(r, 0, (int)vd.size() - 1);
      V x = vd[a], y; y = vd[b];
      o.add("same", id[a], id[b], x == y, !(x != y), std::hash<V>{}(x) == std::hash<V>{}(y) || !(x == y));
      if constexpr (std::string_view(C::kind()) == "idx") o.add("less", id[a], id[b], x < y);
      using E = gr::edge_t<X>;
      std::vector<E> ea, eb;
      for (auto e : gr::edges(g, x)) ea.push_back(e);
      for (auto e : gr::edges(g, y)) eb.push_back(e);
      if (!ea.empty() && !eb.empty()) {
        int i = rnd(r, 0, (int)ea.size() - 1), j = rnd(r, 0, (int)eb.size() - 1);
        E e = ea[(size_t)i], f = eb[(size_t)j];
        o.add("esame", id[a], i + 1, id[b], j + 1, e == f, !(e != f), std::hash<E>{}(e) == std::hash<E>{}(f) || !(e == f));
      }
    }
    // step by step: postfix increments of the view iterators and of the descriptors, and the stored element itself
    for (int k = 0; k < 3 && !vd.empty(); ++k) {
      V x = vd[(size_t)rnd(r, 0, (int)vd.size() - 1)]; auto uid = gr::vertex_id(g, x);
      auto er = gr::edges(g, x);
      Rows ra, rb, rc;
      auto row = [&](const auto& e) { return Row{lid(uid), lid(gr::target_id(g, e)), eval_of<C::ev>(g, e)}; };
      for (auto it = er.begin(); it != er.end();) { auto was = it++; ra.push_back(row(*was)); }
      o.add("out", lid(uid), ra);
      if (!std::ranges::empty(er)) {
        gr::edge_t<X> d = *er.begin();
        for (size_t n = 0; n < ra.size(); ++n) { auto was = d++; rb.push_back(row(was)); }
        o.add("out", lid(uid), rb);
      }
      if constexpr (requires { er.source(); }) { auto z = er.source(); if constexpr (requires { z == x; }) o.add("same", lid(uid), lid(gr::vertex_id(g, z)), z == x, !(z != x), true); }
      bool raw = true;
      for (auto e : er) {
        if constexpr (requires { typename C::C; }) {
          auto&& el = e.underlying_value(e.source().underlying_value(g));
          long long t = -9;
          if constexpr (std::is_integral_v<std::remove_cvref_t<decltype(el)>>) t = (long long)el;
          else if constexpr (requires { (long long)el.first; }) t = (long long)el.first;
          else if constexpr (requires { (long long)el.target_id(); }) t = (long long)el.target_id();
          else if constexpr (requires { std::tuple_size<std::remove_cvref_t<decltype(el)>>::value; }) t = (long long)std::get<0>(el);
          else raw = false;
          rc.push_back({lid(uid), t, eval_of<C::ev>(g, e)});
        } else raw = false;
      }
      if (raw) o.add("out", lid(uid), rc);
    }
    if (!vd.empty()) {
      Row w1, w2; V d = vd[0];
      for (auto it = vr.begin(); it != vr.end();) { auto was = it++; w1.push_back(lid(gr::vertex_id(g, *was))); }
      for (size_t n = 0; n < vd.size(); ++n) { auto was = d++; w2.push_back(lid(gr::vertex_id(g, was))); }
      o.add("vs", w1); o.add("vs", w2);
    }
    o.add("empty", (bool)std::ranges::empty(vr));
    o.add("np", (long long)gr::num_partitions(g));
    for (auto u : vr) o.add("pid", lid(gr::vertex_id(g, u)), (long long)gr::partition_id(g, u));
    for (int p = 0; p < 3; ++p) {
      Row rw; for (auto u : gr::vertices(g, p)) rw.push_back(lid(gr::vertex_id(g, u)));
      o.add("pv", p, rw); o.add("pn", p, (long long)gr::num_vertices(g, p));
    }
    if constexpr (C::vv) for (auto u : vr) o.add("vvid", lid(gr::vertex_id(g, u)), ival(gr::vertex_value(g, u)), ival(gr::vertex_value(g, *gr::find_vertex(g, gr::vertex_id(g, u)))));
  }
  bool every = false; // ask for every vertex also in larger graphs
  void obs(Ev& ev, G& g, const St& s, bool c) {
    Items o; ObsOpt q; q.in = C::bid; q.und = C::und;
    long long mx = 0; for (auto i : s.ids) { mx = std::max(mx, i); if (s.ids.size() <= 6 || every || rnd(r, 0, 2) == 0) q.qs.push_back(i); }
    if (!requires { C::sorted; } || true) { // ids that are not there, where a lookup may be asked for them
      if constexpr (std::string_view(C::kind()) != "idx" || C::und) { q.qs.push_back(mx + 1); q.qs.push_back(mx + 3); }
    }
    if (c) { const G& x = g; observe<C::vv, C::ev>(o, x, q); desc(o, x, s); }
    else { observe<C::vv, C::ev>(o, g, q); desc(o, g, s); }
    ev.raw("[\"obs\"," + o.done() + "]");
    OUT.pending = Obj().kv("cfg", nm).raw("ev", ev.done()).done();
  }
  template <class... A> void op(Ev& ev, const char* k, const A&... a) {
    std::string e = "[\""; e += k; e += '"';
    ((e += ',', js(e, a)), ...);
    ev.raw(e + "]");
    OUT.pending = Obj().kv("cfg", nm).raw("ev", ev.done()).done();
  }
  void run(St s) {
    OUT.rep = nm.c_str();
    Guard grd("{}");
    if (!C::own) for (auto& a : s.arcs) a[2] = a[1];
    if constexpr (requires { C::sorted; }) std::stable_sort(s.arcs.begin(), s.arcs.end(), [](auto& a, auto& b) { return a[0] < b[0]; });
    std::vector<Triple> arcs = s.arcs; long long ne = requires { typename C::C; } ? -1 : (long long)arcs.size(); // -1: as many as there are in the rows
    if (C::und) { // every edge is seen from both ends
      std::vector<Triple> b;
      for (auto& a : arcs) { b.push_back(a); if (a[0] != a[1]) b.push_back({a[1], a[0], a[2]}); }
      arcs = b;
    }
    G g{};
    C::build(g, s);
    std::vector<Row> parts(1, s.ids);
    if (halves) { size_t h = s.ids.size() / 2; parts = {Row(s.ids.begin(), s.ids.begin() + (long)h), Row(s.ids.begin() + (long)h, s.ids.end())}; }
    Ev ev;
    op(ev, "build", s.ids, arcs, ne, C::bid, parts);
    obs(ev, g, s, rnd(r, 0, 1));
    // values are written through the references the access functions return
    for (int k = rnd(r, 0, 2); k-- > 0;) {
      std::vector<std::pair<long long, long long>> at;
      for (auto u : graph::vertices(g)) { long long p = 0; for (auto e : graph::edges(g, u)) { (void)e; at.push_back({lid(graph::vertex_id(g, u)), ++p}); } }
      if constexpr (C::vv) if (!s.ids.empty()) {
        long long id = s.ids[(size_t)rnd(r, 0, (int)s.ids.size() - 1)]; int w = 500 + k;
        graph::vertex_value(g, *graph::find_vertex(g, (size_t)id)) = w; op(ev, "setv", id, w);
      }
      if (at.empty() || !C::own || C::bid || C::und || std::string_view(C::ord()) == "uset") continue;
      if constexpr (C::own && !C::bid && !C::und && !requires { C::rov; }) {
        auto [id, p] = at[(size_t)rnd(r, 0, (int)at.size() - 1)]; int w = 900 + k; long long c = 0;
        bool done = false;
        for (auto e : graph::edges(g, mid<graph::vertex_id_t<G>>(id))) if (++c == p) {
          auto&& x = graph::edge_value(g, e);
          using X = std::remove_reference_t<decltype(x)>;
          if constexpr (std::is_const_v<X>) {}
          else if constexpr (std::is_same_v<X, str>) { x = std::to_string(w); done = true; }
          else if constexpr (std::is_integral_v<X>) { x = w; done = true; }
          else if constexpr (requires { x.v = w; }) { x.v = w; done = true; }
          else if constexpr (requires { std::get<0>(x) = w; }) { std::get<0>(x) = w; done = true; }
        }
        if (done) op(ev, "sete", id, p, w);
      }
    }
    obs(ev, g, s, rnd(r, 0, 1));
    emit(Obj().kv("k", "access").kv("rep", nm).kv("kind", C::kind()).kv("ord", C::ord()).raw("ev", ev.done()).done());
  }
};
template <class C> void with(Rng& r, const char* nm, bool sparse, bool mentioned, bool undirected = false) {
  One<C> one{r, nm};
  Gen gen(r()); gen.und = undirected;
  auto go = [&](const AG& g0) {
    AG g = g0;
    St s = from(g, r, sparse);
    if (undirected) { std::set<long long> seen; std::vector<Triple> k; for (auto& a : s.arcs) if (seen.insert(a[2]).second) k.push_back(a); s.arcs = k; }
    if (mentioned) { // only vertices that edges mention
      std::set<long long> m; for (auto& a : s.arcs) { m.insert(a[0]); m.insert(a[1]); }
      s.ids.assign(m.begin(), m.end());
    }
    one.run(s);
  };
  bool t = OUT.thorough;
  AG none; none.n = 0; go(none);
  gen.exhaustive(2, go);
  gen.sampled(3, t ? 400 : 14, go);
  gen.random(t ? 300 : 10, 1, 7, 250, go);
  gen.random(t ? 40 : 1, 10, 30, 200, go);
  one.every = true;
  for (int j = t ? 30 : 2; j--;) { // vertices with long rows, in any order
    AG g; g.n = rnd(r, 8, 13);
    for (int h = rnd(r, 1, 2); h--;) { int u = rnd(r, 0, (int)g.n - 1); std::vector<int> p(g.n); std::iota(p.begin(), p.end(), 0); shuf(r, p); for (int x = rnd(r, 6, (int)g.n - 1); x--;) g.add(u, p[(size_t)x], 0); }
    go(g);
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 1213 + PART);
  using PI = std::pair<int, int>; using PS = std::pair<unsigned, str>; using T1 = std::tuple<int>; using T2 = std::tuple<int, int>; using T3 = std::tuple<int, int, str>;
#if PART == 0
  S("vec-vec-int", V<V<int>>); S("vec-vec-pair", V<V<PI>>); S("vec-vec-tuple3", V<V<T3>>); S("deque-list-tuple2", std::deque<std::list<T2>>);
  S("vec-flist-int", V<std::forward_list<int>>); S("vec-deque-pairstr", V<std::deque<PS>>); S("vec-list-tuple1", V<std::list<T1>>); S("deque-vec-struct", std::deque<V<CEdge>>);
  S("vec-list-struct", V<std::list<CEdge>>);
#elif PART == 1
  S("map-vec-int", std::map<int, V<int>>); S("map-list-pair", std::map<int, std::list<PI>>); S("map-flist-tuple3", std::map<uint64_t, std::forward_list<T3>>);
  S("vec-set-int", V<std::set<int>>); S("vec-map", V<std::map<int, int>>); S("vec-uset", V<std::unordered_set<int>>); S("map-vec-struct", std::map<int, V<CEdge>>); S("map-vec-tuple2", std::map<uint16_t, V<T2>>);
  S("map-vec-pair", std::map<int, V<PI>>); S("map-deque-tuple3", std::map<int, std::deque<T3>>); S("map-list-tuple2", std::map<int, std::list<T2>>); S("map-vec-tuple1", std::map<int, V<T1>>); S("map-set-int", std::map<int, std::set<int>>); S("map-map", std::map<int, std::map<int, int>>);
#elif PART == 2
  D(vov, 'v', 'q'); D(vol, 'v', 'q'); D(dov, 'v', 'q'); D(vofl, 'v', 'r'); D(mov, 'm', 'q'); D(uol, 'u', 'q'); D(vos, 'v', 's');
#elif PART == 3
  B('v', 'v', 'q'); B('v', 'l', 'q'); B('m', 'v', 'q'); with<Comp>(r, "compressed", false, false); with<Und>(r, "undirected", false, false, true);
  D(mos, 'm', 's'); D(vous, 'v', 'u');
#elif PART == 5
  with<ObjectsOf<V<int>>>(r, "objects-vec-int", false, false); with<ObjectsOf<std::list<PI>>>(r, "objects-list-pair", false, false); with<ObjectsOf<V<PI>, std::deque>>(r, "objects-deque-vec-pair", false, false);
  with<ObjectsOf<V<T3>>>(r, "objects-vec-tuple3", false, false); with<ObjectsOf<std::forward_list<T3>>>(r, "objects-flist-tuple3", false, false);
  with<ObjectsOf<V<T2>>>(r, "objects-vec-tuple2", false, false); with<ObjectsOf<std::list<T2>>>(r, "objects-list-tuple2", false, false);
  with<ObjectsOf<V<T1>>>(r, "objects-vec-tuple1", false, false); with<ObjectsOf<std::list<T1>>>(r, "objects-list-tuple1", false, false);
  with<ObjectsOf<std::list<int>>>(r, "objects-list-int", false, false); with<ObjectsOf<std::deque<T3>>>(r, "objects-deque-tuple3", false, false);
  with<ObjectsR>(r, "deque-objects", false, false);
#elif PART == 6
  with<ObjectsIO<V<PI>, V<PI>>>(r, "objects-in-vec-pair", false, false); with<ObjectsIO<std::list<PI>, V<PI>>>(r, "objects-in-list-vec-pair", false, false);
  with<ObjectsIO<V<T3>, V<T3>>>(r, "objects-in-vec-tuple3", false, false); with<ObjectsIO<V<T3>, std::list<T2>>>(r, "objects-in-vec-list-tuple", false, false);
  with<ObjectsIO<std::list<T2>, std::list<T2>>>(r, "objects-in-list-tuple2", false, false); with<ObjectsIO<std::list<T3>, V<T3>, std::deque>>(r, "objects-in-deque-tuple3", false, false);
#elif PART == 7
  with<OwnIn<0>>(r, "own-in-members", false, false); with<OwnIn<1>>(r, "own-in-free", false, false);
#elif PART == 4
  with<Objects>(r, "vec-objects", false, false); with<Foreign>(r, "vec-foreign", false, false);
  with<Own<Members>>(r, "own-members", false, false); with<Own<Members1>>(r, "own-members-lookup", false, false); with<Own<freefn::Free>>(r, "own-free", false, false);
#endif
  return finish();
}
