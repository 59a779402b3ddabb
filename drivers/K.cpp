// Connected components.  PROP 1: strongly connected, 2: connected, 3: afforest
#include "treps.hpp"
#include <graph/algorithm/connected_components.hpp>
static long turn = 0;
template <class C> std::vector<long long> ints(const C& c, int n) { std::vector<long long> r; for (int v = 0; v < n; ++v) r.push_back((long long)c[v]); return r; }
template <class G, class C> void finish_ep(const char* what, const AG& a, G& x, const std::vector<std::array<int,3>>& pre, const C& c, long long count, int rounds) {
  Ev ev; ev.add(what); ev.add("same");
  emit(Obj().kv("k", what).kv("rep", OUT.rep).raw("g", a.json()).raw("ev", ev.done()).kv("c", ints(c, a.n)).kv("count", count).kv("rounds", rounds).kv("pre", pre).kv("post", dump(x)).done());
}
#if PROP == 1
struct Runner {
  const AG& a;
  template <class C, class G> void go(G& x) {
    auto pre = dump(x);
    C c(a.n + (turn % 4 == 0 ? 2 : 0));
#if PART == 0
    if constexpr (!std::is_same_v<std::remove_const_t<G>, CG8>) graph::kosaraju(x, c);
    else
#endif
    {
    auto t = rep<std::remove_const_t<G>>::make(reversed(a));
    if (turn % 2) graph::kosaraju(x, t, c);
    else { const auto& ct = t; graph::kosaraju(x, ct, c); }
    }
    finish_ep("scc", a, x, pre, c, 0, 0);
  }
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    switch (turn % 3) {
    case 0: go<std::vector<uint32_t>>(x); break;
    case 1: go<std::vector<int>>(cx); break;
    case 2: go<std::deque<size_t>>(x); break;
    }
  }
};
#if PART == 0
using RR = Reps<BVOV, BVOL, UAL, TV>;
#elif PART == 1
using RR = Reps<VOV, VOL, VVP, DLT>;
#else
using RR = Reps<VOFL, VOS, DOV, VOUS, TV>;
#endif
#elif PROP == 2
struct Runner {
  const AG& a;
  template <class C, class G> void go(G& x) {
    auto pre = dump(x);
    C c(a.n + (turn % 4 == 0 ? 2 : 0));
    auto k = graph::connected_components(x, c);
    finish_ep("cc", a, x, pre, c, (long long)k, 0);
  }
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    switch (turn % 3) {
    case 0: go<std::vector<uint32_t>>(x); break;
    case 1: go<std::vector<int>>(cx); break;
    case 2: go<std::deque<size_t>>(x); break;
    }
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, CG, VVP, UAL>;
#else
using RR = Reps<VOFL, VOS, VOD, DLT, VOUS, UAL, TV>;
#endif
#else
struct Runner {
  const AG& a; int rounds; bool two;
  template <class C, class G> void go(G& x) {
    auto pre = dump(x);
    C c(a.n);
    if (two) {
      auto t = rep<std::remove_const_t<G>>::make(reversed(a));
      graph::afforest(x, t, c, (size_t)rounds);
    } else if (rounds == 2 && turn % 2) graph::afforest(x, c);
    else graph::afforest(x, c, (size_t)rounds);
    finish_ep("af", a, x, pre, c, 0, rounds);
  }
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).kv("rounds", rounds).kv("two", two).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    switch (turn % 3) {
    case 0: go<std::vector<uint32_t>>(x); break;
    case 1: go<std::vector<int>>(cx); break;
    case 2: go<std::deque<size_t>>(x); break;
    }
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, VVP>;
#else
using RR = Reps<VOS, VOD, DLT, DOL, TV>;
#endif
#endif
// several large components joined by few edges
static AG clusters(Rng& r, int k, int size, int extra, bool und) {
  AG g; g.n = k * size; g.und = und;
  for (int c = 0; c < k; ++c) {
    for (int i = 1; i < size; ++i) { int u = c * size + i, v = c * size + rnd(r, 0, i - 1); if (r() & 1) std::swap(u, v); g.add(u, v); }
    for (int i = 0; i < size / 2; ++i) g.add(c * size + rnd(r, 0, size - 1), c * size + rnd(r, 0, size - 1));
  }
  for (int i = 0; i < extra; ++i) g.add(rnd(r, 0, g.n - 1), rnd(r, 0, g.n - 1));
  return scramble(r, g);
}
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + 10 * PROP + PART);
  bool th = OUT.thorough;
  long f = th ? 8 : 1;
  auto go = [&](const AG& a) {
    ++turn;
#if PROP == 3
    int rounds = (int)(G.r() % 5), k = rnd(G.r, 0, 3);
    if (k == 0) rounds = 2;
    RR::rotate(a, turn, 1, Runner{a, rounds, !a.und || (G.r() & 1)});
#else
    RR::rotate(a, turn, 1, Runner{a});
#endif
  };
  G.und = PROP != 1;
  G.full((int)(4 * f), go);
  G.und = false;
#if PROP == 1
  for (int n = 0; n <= 3; ++n) G.exhaustive(n, go);
  G.sampled(4, 3000 * f, go);
  G.sampled(5, 1500 * f, go);
  G.random(2000 * f, 2, 10, 250, go);
  G.random(200 * f, 10, 30, 200, go);
  G.shapes((int)(4 * f), 2, 30, go);
  for (int c = 0; c < 30 * f; ++c) go(clusters(G.r, rnd(G.r, 1, 4), rnd(G.r, 2, 8), rnd(G.r, 0, 4), false));
  G.random(4 * f, 60, 200, 220, go);
#if PART == 0
  G.und = true; G.loops = false;
  G.random(200 * f, 0, 9, 200, go);
#endif
#else
  G.und = true;
  for (int n = 0; n <= 4; ++n) G.exhaustive(n, go);
  G.sampled(5, 600 * f, go);
  G.random(2000 * f, 1, 10, 150, go);
  G.random(200 * f, 10, 40, 150, go);
  G.shapes((int)(4 * f), 2, 40, go);
  for (int c = 0; c < 100 * f; ++c) go(clusters(G.r, rnd(G.r, 1, 4), rnd(G.r, 2, 12), rnd(G.r, 0, 3), true));
  G.random(6 * f, 60, 300, 150, go);
  G.loops = false;
  G.random(600 * f, 0, 10, 150, go);
#if PROP == 3
  G.und = false; G.loops = true;
  for (int n = 0; n <= 3; ++n) G.exhaustive(n, go);
  G.random(1500 * f, 1, 10, 150, go);
  G.random(100 * f, 10, 40, 120, go);
  G.shapes((int)(4 * f), 2, 30, go);
  for (int c = 0; c < 100 * f; ++c) go(clusters(G.r, rnd(G.r, 1, 4), rnd(G.r, 2, 12), rnd(G.r, 0, 3), false));
#endif
#endif
  return finish();
}
