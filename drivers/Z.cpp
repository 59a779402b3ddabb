// Views as positions in a sequence (V06): several iterators, copies of views, failing value functions and allocations.
#include "reps.hpp"
#include "fault.hpp"
#include <graph/views/adaptors.hpp>
#include <graph/views/transpose.hpp>
#include <graph/views/bfs.hpp>
#include <graph/views/dfs.hpp>
#include <graph/views/topological_sort.hpp>
#include <optional>
namespace gv = graph::views;
namespace ga = graph::views::adaptors;
template <class G> long long did(G& g, const auto& u) { return lid(graph::vertex_id(g, u)); }
struct Armed { Armed(long fail) { fault::ncb = 0; fault::cbat = fail; fault::arm(); } ~Armed() { fault::disarm(); } };
// value functions: they count their calls, may fail, and are of no use once destroyed
template <bool EV> struct VF {
  int k; bool src = false;
  VF(int k_) : k(k_) {} VF(const VF& o) noexcept : k(o.k) {} VF& operator=(const VF& o) noexcept { k = o.k; return *this; } ~VF() { k = -99; }
  long long operator()(const auto& h, const auto& u) const { fault::tick(); return lid(graph::vertex_id(h, u)) * 10 + k; }
};
template <bool EV> struct EF {
  int k;
  EF(int k_) : k(k_) {} EF(const EF& o) noexcept : k(o.k) {} EF& operator=(const EF& o) noexcept { k = o.k; return *this; } ~EF() { k = -99; }
  long long operator()(const auto& h, const auto& uv) const { fault::tick(); return eval_of<EV>(h, uv) * 100 + k; }
};
enum Kind { PLAIN = 0, SEARCH = 1, TOPO = 2 };
enum Res { DONE = 0, NOMEM = 1, BOOM = 2, OTHER = 5 };
template <class F> int attempt(long fail, F&& f) {
  try { Armed a(fail); f(); return DONE; }
  catch (const fault::Boom& b) { return b.k == fail ? BOOM : OTHER; }
  catch (const std::bad_alloc&) { return NOMEM; }
  catch (...) { return OTHER; }
}
template <class C> struct One {
  using G = typename C::G;
  Rng& r;
  std::string nm;
  static constexpr bool valued = C::ev;
  std::string gs;
  long per = 0;
  // mk(k): the view with value function k (k = 0: without); row(x): what an element shows, without the value
  template <class X, class Mk, class Rw> void play(X& g, const char* what, Kind kind, int k, Mk mk, Rw row) {
    Guard grd(Obj().kv("view", what).kv("cfg", nm).raw("g", gs).done());
    using V = decltype(mk(k));
    Rows ref;
    auto cells = [&](auto&& x) { Row q = row(x); if constexpr (requires { x.value; }) q.push_back((long long)x.value); return q; };
    { auto v = mk(k); auto e = v.end(); for (auto it = v.begin(); !(it == e); ++it) { auto x = *it; ref.push_back(cells(x)); } }
    Ev ev;
    auto log = [&](const char* op, std::initializer_list<long long> a, const Row* q = nullptr) { std::string s = std::string("[\"") + op + "\""; for (auto z : a) s += "," + std::to_string(z); if (q) { s += ','; js(s, *q); } ev.raw(s + "]"); };
    fault::plan(-1, -1);
    { // several positions
      std::optional<V> v(mk(k)), w;
      auto same = [&] { fault::plan(-1, -1); };
      switch (rnd(r, 0, 5)) { // the view is a copy of one that is gone
        case 0: if constexpr (std::copy_constructible<V>) { w.emplace(*v); v.reset(); v.emplace(std::move(*w)); w.reset(); } break;
        case 1: if constexpr (std::copy_constructible<V>) { w.emplace(std::as_const(*v)); v.reset(); std::swap(v, w); } break;
        case 2: if constexpr (std::is_copy_assignable_v<V>) { w.emplace(mk(k ? k + 1 : 0)); *w = *v; v.reset(); v.emplace(*w); w.reset(); } break;
        case 3: if constexpr (std::is_move_assignable_v<V>) { w.emplace(mk(k ? k + 1 : 0)); std::swap(*w, *v); std::swap(v, w); w.reset(); } break; // v: the first one again
        default: break;
      }
      same();
      using It = decltype(v->begin());
      std::optional<It> c[3];
      bool shared = kind == SEARCH;
      auto at_end = [&](int i) { return *c[i] == v->end(); };
      { Armed a(-1); c[0].emplace(v->begin()); }
      log("begin", {1});
      long steps = (long)ref.size() * 2 + 8; if (steps > 80) steps = 80;
      for (long s = 0; s < steps; ++s) {
        int i = rnd(r, 0, 2), j = rnd(r, 0, 2);
        while (!c[i]) i = (i + 1) % 3;
        switch (rnd(r, 0, 9)) {
          case 0: case 1: case 2: case 3: {
            if (at_end(i)) break;
            long fail = rnd(r, 0, 2) ? -1 : 1; Row q;
            std::optional<std::decay_t<decltype(*std::declval<It&>())>> x;
            int o = attempt(fail, [&] { x.emplace(**c[i]); });
            long calls = fault::ncb;
            if (x) q = cells(*x);
            log("get", {i + 1, fail == 1, o, calls}, &q); break; }
          case 4: case 5: { if (at_end(i)) break; int o = attempt(-1, [&] { ++*c[i]; }); log("inc", {i + 1, o, (long long)fault::ncb});
            if (shared) for (int q = 0; q < 3; ++q) if (q != i) c[q].reset(); break; } // (copies of a single-pass iterator are of no use after this)
          case 6: { if (at_end(i) || i == j) break;
            if (shared) { for (int q = 0; q < 3; ++q) if (q != i) c[q].reset(); int o = attempt(-1, [&] { (void)(*c[i])++; }); log("inc", {i + 1, o, (long long)fault::ncb}); break; }
            int o = attempt(-1, [&] { c[j].emplace((*c[i])++); }); log("post", {i + 1, j + 1, o, (long long)fault::ncb}); break; }
          case 7: { if (i == j) break; if (c[j] && rnd(r, 0, 1)) *c[j] = *c[i]; else c[j].emplace(*c[i]); log("cp", {i + 1, j + 1}); break; }
          case 8: { if (!c[j]) break; bool q = *c[i] == *c[j]; bool nq = *c[i] != *c[j]; log("eq", {i + 1, j + 1, q, nq}); break; }
          case 9: { if (rnd(r, 0, 3) == 0 && !shared) { c[j].emplace(v->begin()); log("begin", {j + 1}); } else { bool e = at_end(i), e2 = v->end() == *c[i]; log("end", {i + 1, e, e2}); } break; }
        }
      }
      for (int i = 0; i < 3; ++i) if (c[i]) { // to the end
        if (shared) for (int q = 0; q < 3; ++q) if (q != i) c[q].reset();
        Rows rest; long n = 0;
        while (!at_end(i) && n++ < 100000) { auto x = **c[i]; rest.push_back(cells(x)); ++*c[i]; }
        std::string s = "[\"rest\"," + std::to_string(i + 1) + ","; js(s, rest); ev.raw(s + "]");
      }
    }
    // an allocation fails: while the view is made, or on the way
    auto walk = [&](long at, Rows& got, long& na) {
      fault::plan(at, -1); got.clear();
      int o = DONE;
      try {
        std::optional<V> v; { Armed a(-1); v.emplace(mk(k)); }
        std::optional<decltype(v->begin())> it; { Armed a(-1); it.emplace(v->begin()); }
        while (!(*it == v->end())) { std::optional<std::decay_t<decltype(**it)>> x; { Armed a(-1); x.emplace(**it); } got.push_back(cells(*x)); { Armed a(-1); ++*it; } }
      } catch (const std::bad_alloc&) { o = NOMEM; } catch (...) { o = OTHER; }
      na = fault::na; return o;
    };
    Rows got; long na = 0, dummy = 0;
    int o = walk(-1, got, na);
    log("pass", {o, na, fault::bal, got == ref});
    auto one = [&](long at) { int q = walk(at, got, dummy); long bal = fault::bal; bool pre = got.size() <= ref.size() && std::equal(got.begin(), got.end(), ref.begin()); log("fail", {at, na, q, bal, pre, got.size() == ref.size()}); };
    if (na <= 6) for (long at = 1; at <= na; ++at) one(at);
    else { one(1); one(2); one(na); one(na - 1); for (int c = 0; c < 2; ++c) one(1 + (long)(r() % (uint64_t)na)); }
    fault::plan(-1, -1);
    std::string rs; js(rs, ref);
    emit(Obj().kv("k", "cursor").kv("rep", nm).kv("view", what).kv("kind", (int)kind).kv("k", k).raw("ref", rs).raw("ev", ev.done()).done());
    (void)g;
  }
#define VIEW(name, kind, mkx, rowx) if (rnd(r, 0, 9) < OFTEN) play(g, name, kind, 0, [&](int) { return mkx; }, rowx)
#define VIEWF(name, kind, mkx, rowx) if (rnd(r, 0, 9) < OFTEN) play(g, name, kind, k, [&](int k) { VF<valued> vf(k); EF<valued> ef(k); (void)vf; (void)ef; return mkx; }, rowx)
  template <class X> void basic(X& g, int OFTEN) {
    int k = rnd(r, 1, 9);
    auto vid = [&](auto&& x) -> Row { if constexpr (requires { x.vertex; }) { if constexpr (requires { x.id; }) return {lid(x.id), did(g, x.vertex)}; else return {did(g, x.vertex)}; } else return {lid(x.id)}; };
    auto tgt = [&](auto&& x) -> Row { Row q; if constexpr (requires { x.source_id; }) q.push_back(lid(x.source_id)); if constexpr (requires { x.target_id; }) q.push_back(lid(x.target_id));
      if constexpr (requires { x.edge; }) { q.push_back(lid(graph::source_id(g, x.edge))); q.push_back(lid(graph::target_id(g, x.edge))); q.push_back(eval_of<valued>(g, x.edge)); }
      return q; };
    auto nbr = [&](auto&& x) -> Row { Row q; if constexpr (requires { x.target_id; }) q.push_back(lid(x.target_id)); if constexpr (requires { x.id; }) q.push_back(lid(x.id));
      if constexpr (requires { x.target; }) q.push_back(did(g, x.target)); if constexpr (requires { x.vertex; }) q.push_back(did(g, x.vertex)); return q; };
    VIEW("vertexlist", PLAIN, gv::vertexlist(g), vid);
    VIEWF("vertexlist", PLAIN, gv::vertexlist(g, vf), vid);
    VIEW("basic_vertexlist", PLAIN, gv::basic_vertexlist(g), vid);
    VIEWF("basic_vertexlist", PLAIN, gv::basic_vertexlist(g, vf), vid);
    VIEW("edgelist", PLAIN, gv::edgelist(g), tgt);
    VIEWF("edgelist", PLAIN, gv::edgelist(g, ef), tgt);
    VIEW("basic_edgelist", PLAIN, gv::basic_edgelist(g), tgt);
    VIEWF("basic_edgelist", PLAIN, gv::basic_edgelist(g, ef), tgt);
    for (auto u : graph::vertices(g)) {
      if (rnd(r, 0, 3)) continue;
      auto uid = graph::vertex_id(g, u);
      VIEW("incidence", PLAIN, gv::incidence(g, u), tgt);
      VIEWF("incidence", PLAIN, gv::incidence(g, u, ef), tgt);
      VIEW("basic_incidence", PLAIN, gv::basic_incidence(g, uid), tgt);
      VIEWF("basic_incidence", PLAIN, gv::basic_incidence(g, uid, ef), tgt);
      VIEW("neighbors", PLAIN, gv::neighbors(g, u), nbr);
      VIEWF("neighbors", PLAIN, gv::neighbors(g, u, vf), nbr);
      VIEW("basic_neighbors", PLAIN, gv::basic_neighbors(g, uid), nbr);
      VIEWF("basic_neighbors", PLAIN, gv::basic_neighbors(g, uid, vf), nbr);
      if constexpr (C::bid) {
        auto in = [&](auto&& x) -> Row { Row q; if constexpr (requires { x.source_id; }) q.push_back(lid(x.source_id)); if constexpr (requires { x.target_id; }) q.push_back(lid(x.target_id));
          if constexpr (requires { x.edge; }) { q.push_back(lid(graph::source_id(g, x.edge))); q.push_back(eval_of<valued>(g, x.edge)); } return q; };
        VIEW("in_incidence", PLAIN, gv::in_incidence(g, u), in);
        VIEWF("in_incidence", PLAIN, gv::in_incidence(g, u, ef), in);
        VIEW("in_neighbors", PLAIN, gv::in_neighbors(g, u), nbr);
        VIEWF("in_neighbors", PLAIN, gv::in_neighbors(g, u, vf), nbr);
        if constexpr (graph::adj_list::index_bidirectional_adjacency_list<X>) {
          VIEW("basic_in_incidence", PLAIN, gv::basic_in_incidence(g, uid), in);
          VIEWF("basic_in_incidence", PLAIN, gv::basic_in_incidence(g, uid, ef), in);
          VIEW("basic_in_neighbors", PLAIN, gv::basic_in_neighbors(g, uid), nbr);
          VIEWF("basic_in_neighbors", PLAIN, gv::basic_in_neighbors(g, uid, vf), nbr);
        }
      }
    }
  }
  template <class X> void search(X& g, int OFTEN) {
    if constexpr (graph::adj_list::index_adjacency_list<X>) {
      int k = rnd(r, 1, 9);
      auto vid = [&](auto&& x) -> Row { return {did(g, x.vertex)}; };
      auto eid = [&](auto&& x) -> Row { return {lid(graph::source_id(g, x.edge)), lid(graph::target_id(g, x.edge)), eval_of<valued>(g, x.edge)}; };
      long long n = (long long)graph::num_vertices(g);
      if (n) {
        auto sid = (graph::vertex_id_t<X>)rnd(r, 0, (int)n - 1); auto sd = *graph::find_vertex(g, sid);
        VIEW("vertices_bfs", SEARCH, gv::vertices_bfs(g, sid), vid);
        VIEWF("vertices_bfs", SEARCH, gv::vertices_bfs(g, sd, vf), vid);
        VIEW("edges_bfs", SEARCH, gv::edges_bfs(g, sid), eid);
        VIEWF("edges_bfs", SEARCH, gv::edges_bfs(g, sd, ef), eid);
        VIEW("vertices_dfs", SEARCH, gv::vertices_dfs(g, sid), vid);
        VIEWF("vertices_dfs", SEARCH, gv::vertices_dfs(g, sd, vf), vid);
        VIEW("edges_dfs", SEARCH, gv::edges_dfs(g, sid), eid);
        VIEWF("edges_dfs", SEARCH, gv::edges_dfs(g, sd, ef), eid);
      }
      VIEW("vertices_topological_sort", TOPO, gv::vertices_topological_sort(g), vid);
      VIEWF("vertices_topological_sort", TOPO, gv::vertices_topological_sort(g, vf), vid);
      VIEW("edges_topological_sort", TOPO, gv::edges_topological_sort(g), eid);
      VIEWF("edges_topological_sort", TOPO, gv::edges_topological_sort(g, ef), eid);
    }
  }
  void run(St s, const AG&) {
    OUT.rep = nm.c_str();
    if (!C::own) for (auto& a : s.arcs) a[2] = a[1];
    if constexpr (requires { C::sorted; }) std::stable_sort(s.arcs.begin(), s.arcs.end(), [](auto& a, auto& b) { return a[0] < b[0]; });
    G g{};
    C::build(g, s);
    gs.clear(); js(gs, s.arcs);
    int often = 3;
    if (rnd(r, 0, 1)) { const G& c = g; basic(c, often); search(c, often); } else { basic(g, often); search(g, often); }
    if constexpr (C::bid && requires { typename graph::in_edge_t<G>; }) if constexpr (std::random_access_iterator<typename graph::edge_t<G>::edge_iterator_type> && std::random_access_iterator<typename graph::in_edge_t<G>::edge_iterator_type>) {
      auto tv = gv::transpose(g);
      tr(tv);
    }
  }
  template <class T> void tr(T& g) { // over the transposed view
    int k = rnd(r, 1, 9); int OFTEN = 3;
    auto vid = [&](auto&& x) -> Row { return {did(g, x.vertex)}; };
    auto tgt = [&](auto&& x) -> Row { return {lid(graph::source_id(g, x.edge)), lid(graph::target_id(g, x.edge)), eval_of<valued>(g, x.edge)}; };
    VIEWF("vertexlist of transposed", PLAIN, gv::vertexlist(g, vf), vid);
    VIEWF("edgelist of transposed", PLAIN, gv::edgelist(g, ef), tgt);
  }
};
template <class C> void with(Rng& r, const char* nm, bool sparse, bool mentioned, bool undirected = false) {
  One<C> one{r, nm};
  Gen gen(r()); gen.und = undirected;
  auto go = [&](const AG& g0) {
    AG g = g0;
    St s = from(g, r, sparse);
    if (undirected) { std::set<long long> seen; std::vector<Triple> k; for (auto& a : s.arcs) if (seen.insert(a[2]).second) k.push_back(a); s.arcs = k; }
    if (mentioned) { std::set<long long> m; for (auto& a : s.arcs) { m.insert(a[0]); m.insert(a[1]); } s.ids.assign(m.begin(), m.end()); }
    one.run(s, g);
  };
  bool t = OUT.thorough;
  AG none; none.n = 0; go(none);
  gen.sampled(3, t ? 300 : 10, go);
  gen.random(t ? 300 : 12, 1, 7, 250, go);
  gen.random(t ? 40 : 2, 8, 24, 120, go);
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 2749 + PART);
  using PI = std::pair<int, int>;
#if PART == 0
  B('v', 'v', 'q'); B('m', 'l', 'q'); S("vec-vec-pair", V<V<PI>>); S("vec-flist-int", V<std::forward_list<int>>);
#elif PART == 1
  D(vol, 'v', 'q'); D(mov, 'm', 'q'); D(vous, 'v', 'u'); S("map-list-pair", std::map<int, std::list<PI>>);
#elif PART == 2
  with<Comp>(r, "compressed", false, false); with<Und>(r, "undirected", false, false, true); with<Objects>(r, "vec-objects", false, false); D(vov, 'v', 'q');
#endif
  return finish();
}
