// Topological sort: whole graph, one source, several sources; the order is logged one output at a time.
#include "treps.hpp"
#include <graph/algorithm/topological_sort.hpp>
static long turn = 0;
struct Runner {
  const AG& a; int form; std::vector<int> S;
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).kv("S", S).kv("form", form).done());
    const G x = rep<G>::make(a);
    using VId = graph::vertex_id_t<G>;
    auto pre = dump(x);
    std::vector<VId> out;
    bool ok;
    if (form == 0) {
      ok = graph::topological_sort(x, std::back_inserter(out));
    } else if (form == 1) {
      VId s = (VId)S[0];
      ok = graph::topological_sort(x, s, std::back_inserter(out));
    } else if (turn % 2) {
      std::vector<VId> src(S.begin(), S.end());
      ok = graph::topological_sort(x, src, std::back_inserter(out));
    } else {
      std::list<VId> src(S.begin(), S.end());
      std::vector<VId> o2;
      ok = graph::topological_sort(x, src, std::back_inserter(o2));
      out = o2;
    }
    Ev ev;
    if (ok) for (auto v : out) ev.add("o", v);
    ev.add(ok ? "ok" : "cycle");
    emit(Obj().kv("k", form == 0 ? "all" : form == 1 ? "one" : "many").kv("rep", OUT.rep).raw("g", a.json()).kv("all", form == 0 ? 1 : 0).kv("S", S)
               .raw("ev", ev.done()).kv("pre", pre).kv("post", dump(x)).done());
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, CG, VVP>;
#else
using RR = Reps<VOFL, VOS, DLT, DOV, UAL, TV>;
#endif
// a random DAG (optionally with one extra arc that may close a cycle)
static AG dag(Rng& r, int n, int m, bool extra) {
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  shuf(r, p);
  AG g;
  g.n = n;
  for (int k = 0; k < m && n > 1; ++k) {
    int i = rnd(r, 0, n - 2), j = rnd(r, i + 1, n - 1);
    g.add(p[i], p[j], 1);
  }
  if (extra && n > 1) { int i = rnd(r, 0, n - 1), j = rnd(r, 0, n - 1); g.add(p[std::max(i, j)], p[std::min(i, j)], 1); }
  return scramble(r, g);
}
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + 3 + PART);
  bool th = OUT.thorough, whole = false;
  auto go = [&](const AG& a) {
    if (a.n == 0) return;
    ++turn;
    int form = whole ? 0 : rnd(G.r, 0, 2);
    std::vector<int> S;
    if (form == 1) S.push_back(rnd(G.r, 0, a.n - 1));
    if (form == 2) for (int c = rnd(G.r, 0, 3); c > 0; --c) S.push_back(rnd(G.r, 0, a.n - 1));
    RR::rotate(a, turn, th ? 2 : 1, Runner{a, form, S});
  };
  for (int n = 1; n <= 3; ++n) G.exhaustive(n, go);
  for (int c = 0; c < (th ? 20000 : 1500); ++c) go(dag(G.r, rnd(G.r, 1, 7), rnd(G.r, 0, 14), c % 3 == 0));
  for (int c = 0; c < (th ? 3000 : 150); ++c) go(dag(G.r, rnd(G.r, 8, 30), rnd(G.r, 5, 60), c % 3 == 0));
  G.random(th ? 6000 : 500, 2, 9, 130, go);
  G.shapes(th ? 30 : 4, 2, 60, go);
  for (int c = 0; c < (th ? 24 : 6); ++c) { // ids of 8 bits
    AG a = dag(G.r, 255, rnd(G.r, 200, 500), c % 3 == 0); a.full = true; go(a);
  }
  G.full(th ? 12 : 3, go);
  for (int c = 0; c < (th ? 60 : 12); ++c) { // a vertex with many incoming edges
    AG a; a.n = c % 3 == 2 ? rnd(G.r, 258, 300) : rnd(G.r, 3, 6);
    const int hub = c % 3 == 2 ? 257 : rnd(G.r, 1, a.n - 1), k = c % 4 < 2 ? 256 : rnd(G.r, 200, 300);
    for (int i = 0; i < k; ++i) a.add(c % 3 == 2 && i < 256 ? i : rnd(G.r, 0, hub - 1), hub);
    for (int i = 0; i < 4; ++i) { int u = rnd(G.r, 0, a.n - 2), v = rnd(G.r, u + 1, a.n - 1); if (v != hub) a.add(u, v); }
    whole = c % 2 == 0;
    go(scramble(G.r, a));
    whole = false;
  }
  for (int c = 0; c < (th ? 30 : 4); ++c) go(dag(G.r, rnd(G.r, 150, 300), rnd(G.r, 200, 500), c % 3 == 0));
  return finish();
}
