// Views: PROP 1 basic views (V01), PROP 2 incoming and transposed views (V02).
#include "reps.hpp"
#include <graph/views/adaptors.hpp>
#include <graph/views/transpose.hpp>
namespace gv = graph::views;
namespace ga = graph::views::adaptors;
using Fields = std::vector<std::string>;
template <class G> long long did(G& g, const auto& u) { return lid(graph::vertex_id(g, u)); }
struct Shower {
  Items& o; Rng& r; bool el_size = true; // el_size: the size of edge lists is compared (see known-findings.json: edgelist-size-unique)
  // one view: every element, in order, as the listed fields; how many there are said to be (-1: not said)
  template <class V, class F> void operator()(const char* what, const Fields& f, long long uid, long long k, V&& v, F row) {
    long long n = -1;
    if constexpr (requires { std::ranges::size(v); }) n = (long long)std::ranges::size(v);
    else if constexpr (requires { v.size(); }) n = (long long)v.size();
    if (!el_size && what[0] == 'e') n = -1;
    Rows a; for (auto&& x : v) a.push_back(row(x));
    o.add("V", what, f, uid, k, a, n, 0);
    switch (rnd(r, 0, 5)) {
      case 0: { Rows b; auto it = v.begin(); auto e = v.end(); while (!(it == e)) { auto c = it; auto old = it++; if (!(c == old) || (old == it)) b.push_back({-7}); b.push_back(row(*old)); } o.add("V", what, f, uid, k, b, n, 0); break; }
      case 1: { Rows b; auto it = v.begin(); auto e = v.end(); for (; it != e; ++it) { auto c = it; ++c; (void)*it; b.push_back(row(*it)); } o.add("V", what, f, uid, k, b, n, 0); break; }
      case 2: { auto w = v; Rows b; for (auto&& x : w) b.push_back(row(x)); o.add("V", what, f, uid, k, b, n, 0); break; }
      case 3: if constexpr (requires { v | std::views::drop(1); }) { int d = rnd(r, 0, 2); auto w = v; Rows b; for (auto&& x : w | std::views::drop(d)) b.push_back(row(x)); o.add("V", what, f, uid, k, b, -1, d); } break;
      case 4: { bool e1 = v.begin() == v.end(); o.add("Vempty", what, uid, e1); break; }
      case 5: { auto w = std::move(v); Rows b; for (auto&& x : w) b.push_back(row(x)); o.add("V", what, f, uid, k, b, n, 0); break; }
    }
  }
};
template <class C> struct One {
  using G = typename C::G;
  Rng& r;
  std::string nm;
  static constexpr bool valued = C::ev;
  bool el_size = true;
  template <class X> static void own(Items& o, X& g, bool in) { // the graph's own order, through the access functions
    Row ids; std::vector<std::pair<long long, Rows>> out, inr;
    for (auto u : graph::vertices(g)) {
      long long id = did(g, u); ids.push_back(id); Rows a, b;
      for (auto e : graph::edges(g, u)) a.push_back({id, lid(graph::target_id(g, e)), eval_of<valued>(g, e)});
      if constexpr (C::bid) if (in) for (auto e : graph::in_edges(g, u)) b.push_back({lid(graph::source_id(g, e)), id, eval_of<valued>(g, e)});
      out.push_back({id, a}); inr.push_back({id, b});
    }
    std::string s = "["; bool f = true; 
    auto put = [&](const auto& x) { s += f ? "[" : ",["; f = false; js(s, x.first); s += ','; js(s, x.second); s += ']'; };
    for (auto& x : out) put(x); 
    s += "],["; f = true; for (auto& x : inr) put(x); s += "]";
    if (!o.first) o.s += ','; o.first = false;
    o.s += "[\"own\","; js(o.s, ids); o.s += ','; o.s += s; o.s += ']';
  }
  template <class X> void basic(Items& o, X& g) {
    Shower sh{o, r, el_size};
    int k = rnd(r, 1, 9);
    auto vvf = [k](const auto& h, const auto& u) { return lid(graph::vertex_id(h, u)) * 10 + k; };
    auto evf = [k](const auto& h, const auto& uv) { return lid(graph::target_id(h, uv)) * 10000 + eval_of<valued>(h, uv) + k; };
    // -- vertices
    auto v0 = [&](auto&& x) { auto& [id] = x; return Row{lid(id)}; };
    auto v1 = [&](auto&& x) { auto& [id, u] = x; return Row{lid(id), did(g, u)}; };
    auto v2 = [&](auto&& x) { auto& [id, u, val] = x; return Row{lid(id), did(g, u), val}; };
    auto v3 = [&](auto&& x) { auto& [id, val] = x; return Row{lid(id), val}; };
    Fields F0{"id"}, F1{"id", "desc"}, F2{"id", "desc", "vval"}, F3{"id", "vval"};
    sh("vl", F1, -1, k, gv::vertexlist(g), v1);
    sh("vl", F2, -1, k, gv::vertexlist(g, vvf), v2);
    sh("vl", F0, -1, k, gv::basic_vertexlist(g), v0);
    sh("vl", F3, -1, k, gv::basic_vertexlist(g, vvf), v3);
    sh("vl", F1, -1, k, ga::vertexlist(g), v1);
    sh("vl", F3, -1, k, ga::basic_vertexlist(g, vvf), v3);
    constexpr bool idx = graph::adj_list::index_adjacency_list<X>;
    if constexpr (idx) {
      sh("vl", F1, -1, k, g | ga::vertexlist(), v1);
      sh("vl", F2, -1, k, g | ga::vertexlist(vvf), v2);
      sh("vl", F0, -1, k, g | ga::basic_vertexlist(), v0);
      sh("vl", F3, -1, k, g | ga::basic_vertexlist(vvf), v3);
    }
    // -- some of the vertices: positions a+1 .. b
    auto vr = graph::vertices(g);
    long long n = 0; for (auto u : vr) { (void)u; ++n; }
    {
      int a = rnd(r, 0, (int)n), b = rnd(r, a, (int)n);
      auto ia = std::ranges::next(vr.begin(), a), ib = std::ranges::next(vr.begin(), b);
      o.add("sub", a, b);
      auto sub = std::ranges::subrange(ia, ib, (size_t)(b - a));
      sh("vsub", F1, -1, k, gv::vertexlist(g, sub), v1);
      sh("vsub", F2, -1, k, gv::vertexlist(g, sub, vvf), v2);
      sh("vsub", F0, -1, k, gv::basic_vertexlist(g, sub), v0);
      sh("vsub", F3, -1, k, gv::basic_vertexlist(g, sub, vvf), v3);
      if constexpr (idx) {
        sh("vsub", F1, -1, k, gv::vertexlist(g, *ia, *ib), v1);
        sh("vsub", F2, -1, k, gv::vertexlist(g, *ia, *ib, vvf), v2);
        using Id = graph::vertex_id_t<X>;
        if (b < n) { // b is a vertex
          sh("vsub", F0, -1, k, gv::basic_vertexlist(g, (Id)a, (Id)b), v0);
          sh("vsub", F3, -1, k, gv::basic_vertexlist(g, (Id)a, (Id)b, vvf), v3);
        }
      }
      int p = rnd(r, 0, 1); // one part
      if (p < (int)graph::num_partitions(g)) {
        auto pr = graph::vertices(g, p);
        Row ids; for (auto u : pr) ids.push_back(did(g, u));
        o.add("part", ids);
        if constexpr (requires { std::ranges::size(pr); } && std::same_as<std::ranges::range_value_t<decltype(pr)>, graph::vertex_t<X>>) sh("vpart", F1, -1, k, gv::vertexlist(g, pr), v1);
      }
    }
    // -- the edges of one vertex
    auto e0 = [&](auto&& x) { auto& [t] = x; return Row{lid(t)}; };
    auto e1 = [&](auto&& x) { auto& [t, e] = x; return Row{lid(t), lid(graph::source_id(g, e)), lid(graph::target_id(g, e)), eval_of<valued>(g, e)}; };
    auto e2 = [&](auto&& x) { auto& [t, e, val] = x; return Row{lid(t), lid(graph::source_id(g, e)), lid(graph::target_id(g, e)), eval_of<valued>(g, e), val}; };
    auto e3 = [&](auto&& x) { auto& [t, val] = x; return Row{lid(t), val}; };
    Fields E0{"tgt"}, E1{"tgt", "src", "tgt", "w"}, E2{"tgt", "src", "tgt", "w", "eval"}, E3{"tgt", "eval"};
    auto n1 = [&](auto&& x) { auto& [t, v] = x; return Row{lid(t), did(g, v)}; };
    auto n2 = [&](auto&& x) { auto& [t, v, val] = x; return Row{lid(t), did(g, v), val}; };
    Fields N1{"tgt", "tgt"}, N2{"tgt", "tgt", "tval"}, N3{"tgt", "tval"};
    for (auto u : vr) {
      if (n > 5 && rnd(r, 0, 2)) continue;
      auto uid = graph::vertex_id(g, u); long long i = lid(uid);
      auto fns = [&]<class U>(const U& x) {
        sh("inc", E1, i, k, gv::incidence(g, x), e1);
        sh("inc", E2, i, k, gv::incidence(g, x, evf), e2);
        sh("inc", E1, i, k, gv::out_incidence(g, x), e1);
        sh("inc", E2, i, k, gv::out_incidence(g, x, evf), e2);
        sh("inc", N1, i, k, gv::neighbors(g, x), n1);
        sh("inc", N2, i, k, gv::neighbors(g, x, vvf), n2);
        sh("inc", N1, i, k, gv::out_neighbors(g, x), n1);
        sh("inc", N2, i, k, gv::out_neighbors(g, x, vvf), n2);
      };
      fns(u);
      sh("inc", E0, i, k, gv::basic_incidence(g, uid), e0);
      sh("inc", E3, i, k, gv::basic_incidence(g, uid, evf), e3);
      sh("inc", E0, i, k, gv::basic_out_incidence(g, uid), e0);
      sh("inc", E3, i, k, gv::basic_out_incidence(g, uid, evf), e3);
      sh("inc", E0, i, k, gv::basic_neighbors(g, uid), e0);
      sh("inc", N3, i, k, gv::basic_neighbors(g, uid, vvf), e3);
      sh("inc", E0, i, k, gv::basic_out_neighbors(g, uid), e0);
      sh("inc", N3, i, k, gv::basic_out_neighbors(g, uid, vvf), e3);
      if constexpr (idx) {
        fns(uid);
        sh("inc", E1, i, k, g | ga::incidence(uid), e1);
        sh("inc", E2, i, k, g | ga::incidence(uid, evf), e2);
        sh("inc", N1, i, k, g | ga::neighbors(uid), n1);
        sh("inc", N2, i, k, g | ga::neighbors(uid, vvf), n2);
        sh("inc", E0, i, k, g | ga::basic_incidence(uid), e0);
        sh("inc", E3, i, k, g | ga::basic_incidence(uid, evf), e3);
        sh("inc", E0, i, k, g | ga::basic_neighbors(uid), e0);
        sh("inc", N3, i, k, g | ga::basic_neighbors(uid, vvf), e3);
        sh("inc", E1, i, k, ga::incidence(g, uid), e1);
        sh("inc", E2, i, k, ga::incidence(g, uid, evf), e2);
        sh("inc", N2, i, k, ga::neighbors(g, uid, vvf), n2);
        sh("inc", E3, i, k, ga::basic_incidence(g, uid, evf), e3);
        sh("inc", N3, i, k, ga::basic_neighbors(g, uid, vvf), e3);
      }
    }
    // -- all edges
    auto l0 = [&](auto&& x) { auto& [s, t] = x; return Row{lid(s), lid(t)}; };
    auto l1 = [&](auto&& x) { auto& [s, t, e] = x; return Row{lid(s), lid(t), lid(graph::source_id(g, e)), lid(graph::target_id(g, e)), eval_of<valued>(g, e)}; };
    auto l2 = [&](auto&& x) { auto& [s, t, e, val] = x; return Row{lid(s), lid(t), lid(graph::source_id(g, e)), lid(graph::target_id(g, e)), eval_of<valued>(g, e), val}; };
    auto l3 = [&](auto&& x) { auto& [s, t, val] = x; return Row{lid(s), lid(t), val}; };
    Fields L0{"src", "tgt"}, L1{"src", "tgt", "src", "tgt", "w"}, L2{"src", "tgt", "src", "tgt", "w", "eval"}, L3{"src", "tgt", "eval"};
    sh("el", L1, -1, k, gv::edgelist(g), l1);
    sh("el", L2, -1, k, gv::edgelist(g, evf), l2);
    sh("el", L0, -1, k, gv::basic_edgelist(g), l0);
    sh("el", L3, -1, k, gv::basic_edgelist(g, evf), l3);
    sh("el", L2, -1, k, ga::edgelist(g, evf), l2);
    sh("el", L0, -1, k, ga::basic_edgelist(g), l0);
    if constexpr (idx) {
      sh("el", L1, -1, k, g | ga::edgelist(), l1);
      sh("el", L2, -1, k, g | ga::edgelist(evf), l2);
      sh("el", L0, -1, k, g | ga::basic_edgelist(), l0);
      sh("el", L3, -1, k, g | ga::basic_edgelist(evf), l3);
    }
  }
#if PROP == 2
  // incoming edges of every vertex, through every form of the incoming views
  template <class X> void incoming(Items& o, X& g) {
    Shower sh{o, r};
    int k = rnd(r, 1, 9);
    auto vvf = [k](const auto& h, const auto& u) { return lid(graph::vertex_id(h, u)) * 10 + k; };
    auto evf = [k](const auto& h, const auto& uv) { return lid(graph::source_id(h, uv)) * 10000 + eval_of<valued>(h, uv) + k; };
    auto e0 = [&](auto&& x) { auto& [t] = x; return Row{lid(t)}; };
    auto e1 = [&](auto&& x) { auto& [t, e] = x; return Row{lid(t), lid(graph::source_id(g, e)), eval_of<valued>(g, e)}; };
    auto e2 = [&](auto&& x) { auto& [t, e, val] = x; return Row{lid(t), lid(graph::source_id(g, e)), eval_of<valued>(g, e), val}; };
    auto e3 = [&](auto&& x) { auto& [t, val] = x; return Row{lid(t), val}; };
    auto n1 = [&](auto&& x) { auto& [t, v] = x; return Row{lid(t), did(g, v)}; };
    auto n2 = [&](auto&& x) { auto& [t, v, val] = x; return Row{lid(t), did(g, v), val}; };
    Fields E0{"src"}, E1{"src", "src", "w"}, E2{"src", "src", "w", "seval"}, E3{"src", "seval"}, N1{"src", "src"}, N2{"src", "src", "sval"}, N3{"src", "sval"};
    constexpr bool idx = graph::adj_list::index_bidirectional_adjacency_list<X>;
    long long n = (long long)graph::num_vertices(g);
    for (auto u : graph::vertices(g)) {
      if (n > 5 && rnd(r, 0, 2)) continue;
      auto uid = graph::vertex_id(g, u); long long i = lid(uid);
      auto fns = [&]<class U>(const U& x) {
        sh("in", E1, i, k, gv::in_incidence(g, x), e1);
        sh("in", E2, i, k, gv::in_incidence(g, x, evf), e2);
        sh("in", N1, i, k, gv::in_neighbors(g, x), n1);
        sh("in", N2, i, k, gv::in_neighbors(g, x, vvf), n2);
      };
      fns(u);
      if constexpr (idx) {
        fns(uid);
        sh("in", E0, i, k, gv::basic_in_incidence(g, uid), e0);
        sh("in", E3, i, k, gv::basic_in_incidence(g, uid, evf), e3);
        sh("in", E0, i, k, gv::basic_in_neighbors(g, uid), e0);
        sh("in", N3, i, k, gv::basic_in_neighbors(g, uid, vvf), e3);
        sh("in", E1, i, k, g | ga::in_incidence(uid), e1);
        sh("in", E2, i, k, g | ga::in_incidence(uid, evf), e2);
        sh("in", N1, i, k, g | ga::in_neighbors(uid), n1);
        sh("in", N2, i, k, g | ga::in_neighbors(uid, vvf), n2);
        sh("in", E0, i, k, g | ga::basic_in_incidence(uid), e0);
        sh("in", E3, i, k, g | ga::basic_in_incidence(uid, evf), e3);
        sh("in", E0, i, k, g | ga::basic_in_neighbors(uid), e0);
        sh("in", N3, i, k, g | ga::basic_in_neighbors(uid, vvf), e3);
        sh("in", E2, i, k, ga::in_incidence(g, uid, evf), e2);
        sh("in", E1, i, k, ga::in_incidence(g, uid), e1);
        sh("in", N2, i, k, ga::in_neighbors(g, uid, vvf), n2);
        sh("in", E3, i, k, ga::basic_in_incidence(g, uid, evf), e3);
        sh("in", N3, i, k, ga::basic_in_neighbors(g, uid, vvf), e3);
      }
    }
  }
  template <class X> void all(Ev& ev, X& g, const St& s, const char* as) { // as: "same" or "reversed"
    Items o;
    own(o, g, true); incoming(o, g); basic(o, g);
    ObsOpt q; q.in = true; q.und = C::und;
    for (auto i : s.ids) if (s.ids.size() <= 6 || rnd(r, 0, 3) == 0) q.qs.push_back(i);
    observe<false, C::ev>(o, g, q);
    ev.raw(std::string("[\"") + as + "\"," + o.done() + "]");
    OUT.pending = Obj().kv("cfg", nm).raw("ev", ev.done()).done();
  }
  void views(Ev& ev, G& g, const St& s) {
    { Items o; own(o, g, true); incoming(o, g); ev.raw("[\"obs\"," + o.done() + "]"); OUT.pending = Obj().kv("cfg", nm).raw("ev", ev.done()).done(); }
    // the library documents that transposed views need edges in random access containers
    if constexpr (std::random_access_iterator<typename graph::edge_t<G>::edge_iterator_type> && std::random_access_iterator<typename graph::in_edge_t<G>::edge_iterator_type>) transposed(ev, g, s);
  }
  void transposed(Ev& ev, G& g, const St& s) {
    auto tv = gv::transpose(g);
    const auto ctv = gv::transpose(g);
    const G& cg = g; auto tc = gv::transpose(cg);
    auto tt = gv::transpose(tv);
    switch (rnd(r, 0, 2)) { case 0: all(ev, tv, s, "reversed"); break; case 1: all(ev, ctv, s, "reversed"); break; case 2: all(ev, tc, s, "reversed"); break; }
    if (rnd(r, 0, 1)) all(ev, tt, s, "same");
  }
#else
  void views(Ev& ev, G& g, const St& s) {
    Items o;
    if (rnd(r, 0, 1)) { const G& c = g; own(o, c, false); basic(o, c); }
    else { own(o, g, false); basic(o, g); }
    ev.raw("[\"obs\"," + o.done() + "]");
  }
#endif
  void run(St s) {
    OUT.rep = nm.c_str();
    Guard grd("{}");
    if (!C::own) for (auto& a : s.arcs) a[2] = a[1];
    if constexpr (requires { C::sorted; }) std::stable_sort(s.arcs.begin(), s.arcs.end(), [](auto& a, auto& b) { return a[0] < b[0]; });
    std::vector<Triple> arcs = s.arcs; long long ne = C::und ? (long long)arcs.size() : -1;
    if (C::und) { // every edge is seen from both ends
      std::vector<Triple> b;
      for (auto& a : arcs) { b.push_back(a); if (a[0] != a[1]) b.push_back({a[1], a[0], a[2]}); }
      arcs = b;
    }
    // parallel edges given to a dynamic_graph that keeps one edge per target are counted although they are dropped
    if constexpr (requires { C::dyn; }) if (C::ord()[0] == 's' ? C::ord()[2] == 't' : C::ord()[0] == 'u') {
      std::set<std::pair<long long, long long>> seen;
      for (auto& a : s.arcs) if (!seen.insert({a[0], a[1]}).second) el_size = false;
    }
    G g{};
    C::build(g, s);
    Ev ev;
    { std::string e = "[\"build\","; js(e, s.ids); e += ','; js(e, arcs); e += ','; js(e, ne); ev.raw(e + "]"); }
    OUT.pending = Obj().kv("cfg", nm).raw("ev", ev.done()).done();
    views(ev, g, s);
    emit(Obj().kv("k", "views").kv("rep", nm).kv("kind", C::kind()).kv("ord", C::ord()).raw("ev", ev.done()).done());
  }
};
// the known finding edgelist-size-unique, on one fixed input
inline void edgelist_size_unique() {
  using C = Dyn<gc::dynamic_graph<int, void, void, uint32_t, false, gc::vos_graph_traits<int, void, void, uint32_t, false>>, false, true, 'v', 's'>;
  typename C::G g{};
  St s; s.ids = {0, 1}; s.arcs = {{0, 1, 0}, {0, 1, 1}};
  C::build(g, s);
  auto el = gv::edgelist(g);
  Rows a; for (auto&& x : el) { auto& [src, tgt, uv] = x; a.push_back({lid(src), lid(tgt), lid(graph::source_id(g, uv)), lid(graph::target_id(g, uv)), 0}); }
  Items o; o.add("V", "el", Fields{"src", "tgt", "src", "tgt", "w"}, -1, 1, a, (long long)el.size(), 0);
  Ev ev; ev.raw("[\"build\",[0,1],[[0,1,0]],-1]"); ev.raw("[\"obs\",[[\"own\",[0,1],[[0,[[0,1,0]]],[1,[]]],[]]," + o.done().substr(1) + "]");
  emit(Obj().kv("k", "views").kv("kf", "edgelist-size-unique").kv("rep", "vos").kv("kind", "idx").kv("ord", "seq").raw("ev", ev.done()).done());
}
template <class C> void with(Rng& r, const char* nm, bool sparse, bool mentioned, bool undirected = false) {
  One<C> one{r, nm};
  Gen gen(r()); gen.und = undirected;
  auto go = [&](const AG& g0) {
    AG g = g0;
    St s = from(g, r, sparse);
    if (undirected) { std::set<long long> seen; std::vector<Triple> k; for (auto& a : s.arcs) if (seen.insert(a[2]).second) k.push_back(a); s.arcs = k; }
    if (mentioned) { // only vertices that edges mention
      std::set<long long> m; for (auto& a : s.arcs) { m.insert(a[0]); m.insert(a[1]); }
      s.ids.assign(m.begin(), m.end());
    }
    one.run(s);
  };
  bool t = OUT.thorough;
  AG none; none.n = 0; go(none);
  gen.exhaustive(2, go);
  gen.sampled(3, t ? 400 : 14, go);
  gen.random(t ? 300 : 10, 1, 7, 250, go);
  gen.random(t ? 40 : 1, 10, 30, 200, go);
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 1447 + PART + 10 * PROP);
  using PI = std::pair<int, int>; using T3 = std::tuple<int, int, str>;
#if PROP == 2
#if PART == 0
  B('v', 'v', 'q'); B('m', 'v', 'q'); B('u', 'd', 'q'); B('m', 'l', 'q');
#elif PART == 1
  with<Und>(r, "undirected", false, false, true); with<Objects>(r, "vec-objects", false, false); with<ObjectsR>(r, "deque-objects", false, false);
#endif
#elif PART == 0
  S("vec-vec-int", V<V<int>>); S("vec-vec-pair", V<V<PI>>); S("deque-list-tuple3", std::deque<std::list<T3>>); S("vec-flist-int", V<std::forward_list<int>>); 
  S("vec-list-struct", V<std::list<CEdge>>);
#elif PART == 1
  S("map-vec-int", std::map<int, V<int>>); S("map-list-pair", std::map<int, std::list<PI>>); S("vec-set-int", V<std::set<int>>); S("vec-map", V<std::map<int, int>>);
#elif PART == 2
  D(vov, 'v', 'q'); D(vol, 'v', 'q'); D(vofl, 'v', 'r'); D(mov, 'm', 'q'); D(uol, 'u', 'q'); D(vos, 'v', 's'); D(mous, 'm', 'u'); edgelist_size_unique();
#elif PART == 3
  B('v', 'v', 'q'); B('m', 'l', 'q'); with<Comp>(r, "compressed", false, false); with<Und>(r, "undirected", false, false, true);
#elif PART == 4
  with<Objects>(r, "vec-objects", false, false); with<Foreign>(r, "vec-foreign", false, false);
  with<Own<Members>>(r, "own-members", false, false); with<Own<freefn::Free>>(r, "own-free", false, false);
#endif
  return finish();
}
