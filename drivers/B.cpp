// Undirected structure.  PROP 1: articulation points, 2: biconnected components
#include "treps.hpp"
#include <graph/views/vertexlist.hpp>
#include <graph/views/incidence.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
static long turn = 0;
struct Runner {
  const AG& a;
  template <class G> void go(G& x) {
    auto pre = dump(x);
    Ev ev;
    Obj o;
#if PROP == 1
    ev.add("art");
    using VId = graph::vertex_id_t<G>;
    std::vector<VId> out;
    if (turn % 2) graph::articulation_points(x, std::back_inserter(out));
    else { std::deque<long> l; graph::articulation_points(x, std::front_inserter(l)); out.assign(l.begin(), l.end()); }
#else
    ev.add("blocks");
    std::vector<std::vector<long long>> out;
    auto run = [&](auto c) { graph::biconnected_components(x, c); for (auto& s : c) { out.emplace_back(); for (auto v : s) out.back().push_back((long long)v); } };
    switch (turn % 4) {
    case 0: run(std::vector<std::vector<graph::vertex_id_t<G>>>()); break;
    case 1: run(std::list<std::vector<int>>()); break;
    case 2: run(std::vector<std::set<size_t>>()); break;
    case 3: run(std::deque<std::list<long>>()); break;
    }
#endif
    ev.add("same");
    emit(Obj().kv("k", PROP == 1 ? "art" : "blocks").kv("rep", OUT.rep).raw("g", a.json()).raw("ev", ev.done()).kv(PROP == 1 ? "out" : "sets", out).kv("pre", pre).kv("post", dump(x)).done());
  }
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    if (turn % 3) go(x); else go(cx);
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, CG, VVP, UAL>;
#else
using RR = Reps<VOFL, VOS, VOD, DLT, VOUS, UAL, TV>;
#endif
// trees of blocks: cycles, cliques and bridges glued at random vertices, some edges doubled
static AG cactus(Rng& r, int blocks, int maxb, int dup) {
  AG g; g.und = true; g.n = 1;
  for (int b = 0; b < blocks; ++b) {
    int at = rnd(r, 0, g.n - 1), k = rnd(r, 1, maxb);
    std::vector<int> vs{at};
    for (int i = 0; i < k; ++i) vs.push_back(g.n++);
    if (k == 1) g.add(at, vs[1]);
    else {
      for (size_t i = 0; i < vs.size(); ++i) g.add(vs[i], vs[(i + 1) % vs.size()]);
      for (int c = rnd(r, 0, k); c > 0; --c) { int p = rnd(r, 0, k), q = rnd(r, 0, k); if (p != q) g.add(vs[p], vs[q]); }
    }
    if (rnd(r, 0, 5) == 0) ++g.n; // an isolated vertex; the next block may start there
  }
  for (int c = 0; c < dup; ++c) if (!g.w.empty()) { auto e = g.arcs[rnd(r, 0, (int)g.arcs.size() - 1)]; g.add(e[0], e[1]); }
  return scramble(r, g);
}
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + 10 * PROP + PART);
  long f = OUT.thorough ? 10 : 1;
  G.und = true;
  auto go = [&](const AG& a) { ++turn; RR::rotate(a, turn, 1, Runner{a}); };
  G.full((int)(4 * f), go);
  for (int c = 0; c < 4 * f; ++c) go(shape(G.r, c % 2 ? 2 : 5, c % 2 ? rnd(G.r, 258, 300) : 200, true, 1, 1)); // a hub with more than 256 edges
  for (int leaves : {255, 256, 257, 258}) { // stars from the vertex where the search starts, and with a tail in front of the hub
    AG s; s.und = true; s.n = leaves + 1;
    const int hub = leaves == 258 ? 1 : 0;
    for (int v = 0; v < s.n; ++v) if (v != hub) s.add(hub, v);
    go(s);
  }
  for (int n = 0; n <= 4; ++n) G.exhaustive(n, go);
  G.loops = false; G.exhaustive(5, go);
  G.loops = true;
  G.sampled(5, 500 * f, go);
  G.sampled(6, 1000 * f, go);
  G.random(1500 * f, 1, 10, 150, go);
  G.random(100 * f, 10, 30, 130, go);
  G.shapes((int)(3 * f), 2, 30, go);
  for (int c = 0; c < 1500 * f; ++c) go(cactus(G.r, rnd(G.r, 1, 6), rnd(G.r, 1, 5), rnd(G.r, 0, 2)));
  for (int c = 0; c < 30 * f; ++c) go(cactus(G.r, rnd(G.r, 5, 14), rnd(G.r, 1, 6), rnd(G.r, 0, 3)));
  G.loops = false;
  G.random(500 * f, 1, 10, 150, go);
  return finish();
}
