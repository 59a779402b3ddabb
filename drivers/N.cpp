// Neighbourhood algorithms.  PROP 1: maximal independent set, 2: triangle count, 3: Jaccard, 4: label propagation
#include "treps.hpp"
#include <cmath>
#include <graph/views/vertexlist.hpp>
#include <graph/views/incidence.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/label_propagation.hpp>
static long turn = 0;
static Rng  R2(99);
#if PROP == 1
struct Runner {
  const AG& a;
  template <class G> void go(G& x) {
    auto pre = dump(x);
    using VId = graph::vertex_id_t<G>;
    std::vector<long long> out;
    size_t cnt = 0;
    int seed = a.n == 0 || turn % 3 == 0 ? 0 : rnd(R2, 0, a.n - 1);
    switch (turn % 4) {
    case 0: { std::vector<VId> o; cnt = seed == 0 ? graph::maximal_independent_set(x, std::back_inserter(o)) : graph::maximal_independent_set(x, std::back_inserter(o), (VId)seed); out.assign(o.begin(), o.end()); break; }
    case 1: { std::deque<long long> o; cnt = graph::maximal_independent_set(x, std::front_inserter(o), (VId)seed); out.assign(o.begin(), o.end()); break; }
    case 2: { std::vector<int> o(a.n + 1, -7); cnt = graph::maximal_independent_set(x, o.begin(), (VId)seed); size_t k = 0; while (k < o.size() && o[k] != -7) out.push_back(o[k++]); break; }
    case 3: { std::list<size_t> o; cnt = graph::maximal_independent_set(x, std::inserter(o, o.end()), (VId)seed); out.assign(o.begin(), o.end()); break; }
    }
    Ev ev; ev.add("mis"); ev.add("same");
    emit(Obj().kv("k", "mis").kv("rep", OUT.rep).raw("g", a.json()).raw("ev", ev.done()).kv("seed", seed).kv("out", out).kv("count", cnt).kv("pre", pre).kv("post", dump(x)).done());
  }
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    if (turn % 5) go(x); else go(cx);
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, CG, VVP, UAL>;
#else
using RR = Reps<VOFL, VOS, VOD, DLT, VOUS, DOV, TV>;
#endif
#elif PROP == 2
struct Runner {
  const AG& a;
  template <class G> void go(G& x) {
    auto pre = dump(x);
    size_t c = graph::triangle_count(x);
    Ev ev; ev.add("tri"); ev.add("same");
    emit(Obj().kv("k", "tri").kv("rep", OUT.rep).raw("g", a.json()).raw("ev", ev.done()).kv("count", c).kv("pre", pre).kv("post", dump(x)).done());
  }
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    if (turn % 2) go(x); else go(cx);
  }
};
#if PART == 0
using RR = Reps<VOS, VOV, CG, UAL>;
#else
using RR = Reps<VOL, DOL, VVP, DLT, VOD, TV>;
#endif
static AG ordered(const AG& g) { // arcs sorted by source and target (both ends in id order)
  AG h; h.n = g.n; h.und = g.und; h.full = g.full;
  std::vector<std::array<int, 2>> es; std::set<int> seen;
  for (auto& e : g.arcs) if (seen.insert(e[2]).second) es.push_back({std::min(e[0], e[1]), std::max(e[0], e[1])});
  std::sort(es.begin(), es.end());
  for (auto& e : es) h.add(e[0], e[1]);
  std::sort(h.arcs.begin(), h.arcs.end(), [](auto& p, auto& q) { return std::pair(p[0], p[1]) < std::pair(q[0], q[1]); });
  return h;
}
#elif PROP == 3
struct Runner {
  const AG& a;
  template <class T, class G> void go(G& x) {
    auto pre = dump(x);
    using VId = graph::vertex_id_t<G>;
    Ev ev;
    auto cb = [&](VId u, VId v, auto& e, T val) { auto t = arc_of(x, e); ev.add("j", (long long)u, (long long)v, t[0], t[1], t[2], std::llround((double)val * 100000)); };
    if constexpr (std::is_same_v<T, double>) graph::jaccard_coefficient(x, cb);
    else graph::jaccard_coefficient<G&, decltype(cb), T>(x, cb);
    ev.add("end"); ev.add("same");
    emit(Obj().kv("k", "jaccard").kv("rep", OUT.rep).raw("g", a.json()).raw("ev", ev.done()).kv("pre", pre).kv("post", dump(x)).done());
  }
  template <class G> void operator()() {
    Guard grd(Obj().raw("g", a.json()).done());
    G x = rep<G>::make(a);
    const G& cx = x;
    switch (turn % 3) {
    case 0: go<double>(x); break;
    case 1: go<float>(x); break;
    case 2: go<double>(cx); break;
    }
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, CG, VVP, UAL>;
#else
using RR = Reps<VOFL, VOS, VOD, DLT, VOUS, DOL, TV>;
#endif
#elif PROP == 4
// a label whose assignments to elements of the watched range are recorded
struct Lab;
static const Lab* W0 = nullptr; static const Lab* W1 = nullptr; static Ev* WEV = nullptr; static std::deque<Lab>* WD = nullptr;
struct Lab {
  int x = 0;
  Lab() = default;
  Lab(int v) : x(v) {}
  Lab(const Lab&) = default;
  Lab& operator=(const Lab& o) { set(o.x); return *this; }
  void set(int v);
  bool operator==(const Lab& o) const { return x == o.x; }
};
void Lab::set(int v) {
  if (WEV && W0 && this >= W0 && this < W1) WEV->add("set", (long long)(this - W0), v);
  else if (WEV && WD) for (size_t k = 0; k < WD->size(); ++k) if (&(*WD)[k] == this) WEV->add("set", (long long)k, v);
  x = v;
}
template <> struct std::hash<Lab> { size_t operator()(const Lab& l) const { return std::hash<int>()(l.x) * 7 % 5; } };
struct Runner {
  const AG& a;
  template <class G> void operator()() {
    std::vector<int> l0;
    int kinds = turn % 7 == 0 ? a.n : 1 + (int)(turn % 4);
    bool marker = turn % 2 == 0;
    const int mk = 50;
    for (int v = 0; v < a.n; ++v) l0.push_back(marker && rnd(R2, 0, 2) == 0 ? mk : kinds == a.n ? v : rnd(R2, 1, kinds));
    int lim = turn % 5 == 0 ? 1 : turn % 5 == 1 ? 2 : turn % 5 == 2 ? 0 + 3 * (int)(turn % 3) : 40;
    if (turn % 97 == 0) lim = 0;
    bool open = turn % 4 == 0 && turn % 7 != 0; // one label only: no ties, so the run without a limit ends
    if (open) lim = 1000000;
    Guard grd(Obj().raw("g", a.json()).kv("l0", l0).kv("lim", lim).done());
    G x = rep<G>::make(a);
    auto pre = dump(x);
    Ev ev;
    std::vector<int> l1;
    uint64_t sd = R2();
    auto call = [&](auto& labs) {
      if (open) {
        std::mt19937 e((uint32_t)sd);
        if (marker && turn % 8 == 0) graph::label_propagation(x, labs, Lab(mk));
        else if (marker) graph::label_propagation(x, labs, Lab(mk), e);
        else if (turn % 8 == 0) graph::label_propagation(x, labs);
        else graph::label_propagation(x, labs, e);
      } else switch ((turn / 2) % 3) {
      case 0: { std::mt19937 e((uint32_t)sd);
        if (marker) graph::label_propagation(x, labs, Lab(mk), e, (size_t)lim); else graph::label_propagation(x, labs, e, (size_t)lim); break; }
      case 1: { std::default_random_engine e((uint32_t)sd); const G& cx = x;
        if (marker) graph::label_propagation(cx, labs, Lab(mk), e, lim); else graph::label_propagation(cx, labs, e, lim); break; }
      case 2:
        if (marker) graph::label_propagation(x, labs, Lab(mk), std::mt19937_64(sd), (unsigned)lim); else graph::label_propagation(x, labs, std::mt19937_64(sd), (unsigned)lim); break;
      }
    };
    if (turn % 4 == 3) {
      std::deque<Lab> labs(l0.begin(), l0.end());
      WD = &labs; WEV = &ev; call(labs); WEV = nullptr; WD = nullptr;
      for (auto& l : labs) l1.push_back(l.x);
    } else {
      std::vector<Lab> labs(l0.begin(), l0.end());
      W0 = labs.data(); W1 = W0 + labs.size(); WEV = &ev; call(labs); WEV = nullptr; W0 = W1 = nullptr;
      for (auto& l : labs) l1.push_back(l.x);
    }
    ev.add("end");
    if (open) ev.add("stable");
    emit(Obj().kv("k", "lp").kv("rep", OUT.rep).raw("g", a.json()).raw("ev", ev.done()).kv("l0", l0).kv("l1", l1).kv("empty", marker ? mk : -99).kv("limit", lim).kv("pre", pre).kv("post", dump(x)).done());
  }
};
#if PART == 0
using RR = Reps<VOV, VOL, CG, VVP, UAL>;
#else
using RR = Reps<VOFL, VOS, VOD, DLT, VOUS, DOV, TV>;
#endif
#endif
int main(int argc, char** argv) {
  init(argc, argv);
  Gen G(OUT.seed * 7919 + 10 * PROP + PART);
  R2.seed(OUT.seed * 31 + PART);
  long f = OUT.thorough ? 10 : 1;
  auto go = [&](const AG& a) { ++turn;
#if PROP == 2
    AG b = ordered(a); RR::rotate(b, turn, 1, Runner{b});
#else
    RR::rotate(a, turn, 1, Runner{a});
#endif
  };
  G.und = true; G.multi = false; G.loops = PROP != 2; G.full((int)((PROP == 4 ? 1 : 3) * f), go); G.loops = true;
#if PROP == 2
  G.und = true; G.multi = false;
  for (int n = 0; n <= 4; ++n) G.exhaustive(n, go);
  G.loops = false; G.exhaustive(5, go); G.sampled(6, 800 * f, go); G.sampled(7, 800 * f, go);
  G.loops = true; G.sampled(6, 500 * f, go);
  G.random(800 * f, 1, 14, 300, go);
  G.random(60 * f, 20, 40, 600, go);
  G.shapes((int)(2 * f), 2, 26, go);
#elif PROP == 1
  for (int u = 0; u < 2; ++u) { // undirected graphs (the property's inputs), with loops and parallel edges
    G.und = true; G.multi = u; G.loops = true;
    if (!u) { for (int n = 0; n <= 4; ++n) G.exhaustive(n, go); G.sampled(5, 800 * f, go); G.sampled(6, 800 * f, go); }
    G.random(900 * f, 1, 14, 150, go);
    G.random(60 * f, 30, 120, 200, go);
    G.loops = false; G.random(500 * f, 1, 14, 150, go);
    G.shapes((int)f, 2, 60, go);
  }
#elif PROP == 3
  for (int u = 0; u < 2; ++u) {
    G.und = u; G.multi = true; G.loops = true;
    for (int n = 0; n <= 3; ++n) G.exhaustive(n, go);
    G.sampled(4, 500 * f, go); G.sampled(5, 300 * f, go);
    G.random(600 * f, 1, 12, 300, go);
    G.random(40 * f, 20, 40, 300, go);
    G.loops = false; G.random(300 * f, 1, 12, 300, go);
    G.shapes((int)f, 2, 24, go);
  }
#else
  for (int u = 0; u < 2; ++u) {
    G.und = u; G.multi = true; G.loops = true;
    for (int n = 0; n <= 3; ++n) G.exhaustive(n, go);
    G.sampled(4, 300 * f, go); G.sampled(5, 300 * f, go);
    G.random(500 * f, 1, 10, 250, go);
    G.random(30 * f, 15, 40, 200, go);
    G.loops = false; G.random(300 * f, 1, 10, 250, go);
    G.shapes((int)f, 2, 24, go);
  }
#endif
  return finish();
}
