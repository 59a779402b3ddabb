// Breadth-first search: callback traces for both callback forms, callback subsets, all overloads.
#include "treps.hpp"
#include <graph/algorithm/breadth_first_search.hpp>
template <class G> using VD = graph::vertex_t<G>;
template <class G, class V> int id(const G& g, const V& v) { return (int)graph::vertex_id(g, v); }
template <class G> struct FullD { // vertex descriptors
  Ev& o;
  using V = VD<G>; using Ed = graph::edge_t<G>;
  void on_initialize_vertex(const G& g, const V& v) { o.add("i", id(g, v)); }
  void on_discover_vertex(const G& g, const V& v) { o.add("d", id(g, v)); }
  void on_examine_vertex(const G& g, const V& v) { o.add("x", id(g, v)); }
  void on_finish_vertex(const G& g, const V& v) { o.add("f", id(g, v)); }
  void on_examine_edge(const G& g, const Ed& e) { auto a = arc_of(g, e); o.add("e", a[0], a[1], a[2]); }
};
template <class G> struct FullI { // vertex ids
  Ev& o;
  using V = graph::vertex_id_t<G>; using Ed = graph::edge_t<G>;
  void on_initialize_vertex(const G&, const V& v) { o.add("i", v); }
  void on_discover_vertex(const G&, const V& v) { o.add("d", v); }
  void on_examine_vertex(const G&, const V& v) { o.add("x", v); }
  void on_finish_vertex(const G&, const V& v) { o.add("f", v); }
  void on_examine_edge(const G& g, const Ed& e) { auto a = arc_of(g, e); o.add("e", a[0], a[1], a[2]); }
};
template <class G> struct SubDE { // discover (descriptor) + examine edge
  Ev& o;
  void on_discover_vertex(const G& g, const VD<G>& v) { o.add("d", id(g, v)); }
  void on_examine_edge(const G& g, const graph::edge_t<G>& e) { auto a = arc_of(g, e); o.add("e", a[0], a[1], a[2]); }
};
template <class G> struct SubXF { // examine (id) + finish (id)
  Ev& o;
  void on_examine_vertex(const G&, const graph::vertex_id_t<G>& v) { o.add("x", v); }
  void on_finish_vertex(const G&, const graph::vertex_id_t<G>& v) { o.add("f", v); }
};
template <class G> struct SubID { // initialize (id) + discover (id) + finish (descriptor)
  Ev& o;
  void on_initialize_vertex(const G&, const graph::vertex_id_t<G>& v) { o.add("i", v); }
  void on_discover_vertex(const G&, const graph::vertex_id_t<G>& v) { o.add("d", v); }
  void on_finish_vertex(const G& g, const VD<G>& v) { o.add("f", id(g, v)); }
};
static long turn = 0;
struct Runner {
  const AG& a; const std::vector<int>& S; bool id_form;
  template <class G> void operator()() {
    const std::string in = Obj().raw("g", a.json()).kv("S", S).done();
    Guard grd(in);
    G x = rep<G>::make(a);
    const G& cx = x;
    auto pre = dump(x);
    using VId = graph::vertex_id_t<G>;
    std::vector<VId> src(S.begin(), S.end());
    std::list<VId> lsrc(S.begin(), S.end());
    bool one = S.size() == 1 && turn % 2;
    Ev full, s1, s2, s3;
    if (id_form) { FullI<const G> v{full}; if (one) graph::breadth_first_search(cx, src[0], v); else graph::breadth_first_search(cx, src, v); }
    else { if (one) graph::breadth_first_search(x, src[0], FullD<G>{full}); else graph::breadth_first_search(x, lsrc, FullD<G>{full}); }
    full.add("end");
    switch (turn % 3) {
    case 0: { SubDE<const G> v{s1}; graph::breadth_first_search(cx, src, v); break; }
    case 1: { SubXF<G> v{s1}; graph::breadth_first_search(x, src, v); break; }
    case 2: { graph::breadth_first_search(cx, src, SubID<const G>{s1}); break; }
    }
    graph::breadth_first_search(cx, src); // no visitor
    const char* kinds[] = {"[\"d\",\"e\"]", "[\"x\",\"f\"]", "[\"i\",\"d\",\"f\"]"};
    std::string subs = "[" + Obj().raw("kinds", kinds[turn % 3]).raw("ev", s1.done()).done() + "]";
    emit(Obj().kv("k", id_form ? "id" : "desc").kv("rep", OUT.rep).raw("g", a.json()).kv("S", S).raw("ev", full.done())
               .raw("subs", subs).kv("pre", pre).kv("post", dump(x)).done());
  }
};
using RR = Reps<VOV, VOL, CG, VVP, VOFL, VOS, DLT, DOV, TV>;
using RU = Reps<UAL, VOV, VOL>;
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + 1);
  bool th = OUT.thorough;
  auto go = [&](const AG& a) {
    if (a.n == 0) return;
    std::vector<int> S;
    int k = rnd(G.r, 0, 9);
    int cnt = k == 0 ? 0 : k < 6 ? 1 : k < 8 ? 2 : rnd(G.r, 2, 5);
    for (int c = 0; c < cnt; ++c) S.push_back(rnd(G.r, 0, a.n - 1));
    if (k == 9 && !S.empty()) S.push_back(S[0]);
    ++turn;
    if (a.und && !a.full) RU::rotate(a, turn, 1, Runner{a, S, (bool)(G.r() & 1)});
    else RR::rotate(a, turn, th ? 3 : 2, Runner{a, S, (bool)(G.r() & 1)});
  };
  for (int n = 1; n <= 3; ++n) G.exhaustive(n, go);
  G.sampled(4, th ? 8000 : 600, go);
  G.random(th ? 6000 : 500, 2, 9, 250, go);
  G.random(th ? 1000 : 90, 10, 40, 300, go);
  G.shapes(th ? 30 : 4, 2, 60, go);
  G.random(th ? 40 : 4, 200, th ? 1200 : 400, 200, go);
  G.full(th ? 24 : 6, go);
  G.und = true;
  for (int n = 1; n <= 3; ++n) G.exhaustive(n, go);
  G.random(th ? 1000 : 150, 2, 14, 200, go);
  G.shapes(th ? 10 : 2, 2, 40, go);
  return finish();
}
