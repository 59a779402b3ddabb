// Depth-first search: callback traces for both callback forms, callback subsets.
#include "treps.hpp"
#include <graph/algorithm/depth_first_search.hpp>
template <class G, class V> int id(const G& g, const V& v) { return (int)graph::vertex_id(g, v); }
template <class G> using VD = graph::vertex_t<G>;
template <class G> using VI = graph::vertex_id_t<G>;
#define EDGE(FN, NAME) void FN(const G& g, const graph::edge_t<G>& e) { auto a = arc_of(g, e); o.add(NAME, a[0], a[1], a[2]); }
#define VERD(FN, NAME) void FN(const G& g, const VD<G>& v) { o.add(NAME, id(g, v)); }
#define VERI(FN, NAME) void FN(const G&, const VI<G>& v) { o.add(NAME, v); }
#define EDGES EDGE(on_examine_edge, "e") EDGE(on_tree_edge, "tree") EDGE(on_back_edge, "back") EDGE(on_forward_or_cross_edge, "fwd") EDGE(on_finish_edge, "fe")
template <class G> struct FullD { Ev& o; VERD(on_initialize_vertex, "i") VERD(on_start_vertex, "s") VERD(on_discover_vertex, "d") VERD(on_finish_vertex, "f") EDGES };
template <class G> struct FullI { Ev& o; VERI(on_initialize_vertex, "i") VERI(on_start_vertex, "s") VERI(on_discover_vertex, "d") VERI(on_finish_vertex, "f") EDGES };
template <class G> struct Sub0 { Ev& o; VERD(on_start_vertex, "s") VERI(on_discover_vertex, "d") EDGE(on_tree_edge, "tree") };
template <class G> struct Sub1 { Ev& o; VERI(on_initialize_vertex, "i") VERD(on_finish_vertex, "f") EDGE(on_back_edge, "back") EDGE(on_finish_edge, "fe") };
template <class G> struct Sub2 { Ev& o; VERI(on_finish_vertex, "f") EDGE(on_forward_or_cross_edge, "fwd") EDGE(on_examine_edge, "e") };
static long turn = 0;
struct Runner {
  const AG& a; int s; bool id_form;
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).kv("s", s).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    auto pre = dump(x);
    VI<G> src = (VI<G>)s;
    Ev full, sub;
    if (id_form) { FullI<const G> v{full}; graph::depth_first_search(cx, src, v); }
    else graph::depth_first_search(x, src, FullD<G>{full});
    full.add("end");
    switch (turn % 3) {
    case 0: { Sub0<const G> v{sub}; graph::depth_first_search(cx, src, v); break; }
    case 1: { Sub1<G> v{sub}; graph::depth_first_search(x, src, v); break; }
    case 2: { graph::depth_first_search(cx, src, Sub2<const G>{sub}); break; }
    }
    graph::depth_first_search(cx, src);
    const char* kinds[] = {"[\"s\",\"d\",\"tree\"]", "[\"i\",\"f\",\"back\",\"fe\"]", "[\"f\",\"fwd\",\"e\"]"};
    emit(Obj().kv("k", id_form ? "id" : "desc").kv("rep", OUT.rep).raw("g", a.json()).kv("s", s).raw("ev", full.done())
               .raw("subs", "[" + Obj().raw("kinds", kinds[turn % 3]).raw("ev", sub.done()).done() + "]").kv("pre", pre).kv("post", dump(x)).done());
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, CG, VVP>;
#else
using RR = Reps<VOFL, VOS, DLT, DOV, TV>;
#endif
using RU = Reps<UAL, VOV>;
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + 2 + PART);
  bool th = OUT.thorough;
  auto go = [&](const AG& a) {
    if (a.n == 0) return;
    ++turn;
    int s = rnd(G.r, 0, a.n - 1);
#if PART == 0
    if (a.und) { RU::rotate(a, turn, 1, Runner{a, s, (bool)(G.r() & 1)}); return; }
#endif
    RR::rotate(a, turn, th ? 2 : 1, Runner{a, s, (bool)(G.r() & 1)});
  };
  for (int n = 1; n <= 3; ++n) G.exhaustive(n, go);
  G.sampled(4, th ? 8000 : 600, go);
  G.random(th ? 6000 : 500, 2, 9, 250, go);
  G.random(th ? 1000 : 90, 10, 40, 300, go);
  G.shapes(th ? 30 : 4, 2, 60, go);
  G.random(th ? 40 : 4, 200, th ? 1200 : 400, 200, go);
#if PART == 0
  G.full(th ? 24 : 6, go);
  G.und = true;
  for (int n = 1; n <= 3; ++n) G.exhaustive(n, go);
  G.random(th ? 1000 : 150, 2, 14, 200, go);
  G.shapes(th ? 10 : 2, 2, 40, go);
#endif
  return finish();
}
