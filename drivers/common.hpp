// Shared driver code: abstract graphs, generators, representations, JSON trace output.
// Everything here goes through the public interface of /repo/include/graph only.
#pragma once
#include <graph/graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/dol_graph_traits.hpp>
#include <graph/container/compressed_graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <csignal>
#include <utility>
#include <vector>

// ------------------------------------------------------------------ arguments / output
struct Out {
  FILE*       f        = nullptr;
  uint64_t    seed     = 1;
  bool        thorough = false;
  std::string path;
  long        episodes = 0;
  const char* rep      = "";
  std::string pending; // description of the running episode, logged on a crash
};
inline Out OUT;

inline void crash_dump(const char* what) {
  if (!OUT.f) _exit(97);
  fflush(OUT.f);
  std::string s = "{\"k\":\"crash\",\"what\":\"" + std::string(what) + "\",\"rep\":\"" + OUT.rep + "\",\"input\":" +
                  (OUT.pending.empty() ? std::string("{}") : OUT.pending) + "}\n";
  (void)!write(fileno(OUT.f), s.data(), s.size());
  _exit(96);
}
inline void on_signal(int sig) {
  crash_dump(sig == SIGALRM ? "timeout" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "fpe" : "segv");
}
extern "C" inline void asan_died() { crash_dump("asan"); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

inline void init(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--out") OUT.path = argv[i + 1];
    if (a == "--seed") OUT.seed = strtoull(argv[i + 1], nullptr, 10);
    if (a == "--tier") OUT.thorough = std::string(argv[i + 1]) == "thorough";
  }
  OUT.f = fopen(OUT.path.c_str(), "w");
  if (!OUT.f) { perror("open"); exit(2); }
  setvbuf(OUT.f, nullptr, _IOFBF, 1 << 20);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
    sigaction(s, &sa, nullptr);
  }
  static char   alt[1 << 16];
  stack_t       ss{};
  ss.ss_sp   = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(asan_died);
#endif
}
inline int finish() {
  fclose(OUT.f);
  printf("episodes %ld\n", OUT.episodes);
  return 0;
}

// ------------------------------------------------------------------ tiny JSON writer
struct J {
  std::string s;
  static void num(std::string& s, long long x) { s += std::to_string(x); }
};
template <class T>
void js(std::string& s, const T& x);
inline void jstr(std::string& s, const std::string& x) { s += '"'; s += x; s += '"'; }
template <class T> struct is_vec : std::false_type {};
template <class T, class A> struct is_vec<std::vector<T, A>> : std::true_type {};
template <class T> struct is_arr : std::false_type {};
template <class T, size_t N> struct is_arr<std::array<T, N>> : std::true_type {};
template <class T>
void js(std::string& s, const T& x) {
  if constexpr (std::is_same_v<T, bool>) s += x ? "true" : "false";
  else if constexpr (std::is_integral_v<T>) J::num(s, (long long)x);
  else if constexpr (std::is_same_v<T, std::string>) jstr(s, x);
  else if constexpr (std::is_convertible_v<T, const char*>) jstr(s, x);
  else {
    s += '[';
    bool first = true;
    for (auto&& y : x) { if (!first) s += ','; first = false; js(s, y); }
    s += ']';
  }
}
// An event is a heterogeneous array: name, then ints.
struct Ev {
  std::string s = "[";
  bool first    = true;
  void raw(const std::string& x) { if (!first) s += ','; first = false; s += x; }
  template <class... A>
  void add(const char* k, A... a) {
    std::string e = "[\"";
    e += k;
    e += '"';
    ((e += ',', J::num(e, (long long)a)), ...);
    e += ']';
    raw(e);
  }
  std::string done() const { return s + "]"; }
};
struct Obj {
  std::string s = "{";
  bool first    = true;
  template <class T> Obj& kv(const char* k, const T& x) { key(k); js(s, x); return *this; }
  Obj& raw(const char* k, const std::string& x) { key(k); s += x; return *this; }
  void key(const char* k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
  std::string done() const { return s + "}"; }
};
inline void emit(const std::string& obj) {
  fputs(obj.c_str(), OUT.f);
  fputc('\n', OUT.f);
  ++OUT.episodes;
}
// guard for one call into the code under test
struct Guard {
  Guard(const std::string& input, int secs = 20) { OUT.pending = input; fflush(OUT.f); alarm(secs); }
  ~Guard() { alarm(0); OUT.pending.clear(); }
};

// ------------------------------------------------------------------ abstract graphs
// arcs: <<source, target, edge id>>; an undirected edge is two arcs with the same id
// (an undirected self-loop is one arc).  w[id] is the weight of edge id.
struct AG {
  int                             n = 0;
  std::vector<std::array<int, 3>> arcs;
  std::vector<int>                w;
  bool                            und = false;
  bool                            full = false; // stored with an id type that is just wide enough
  bool has_loop() const { for (auto& a : arcs) if (a[0] == a[1]) return true; return false; }
  bool simple() const {
    std::set<std::pair<int, int>> s;
    for (auto& a : arcs) if (!s.insert({a[0], a[1]}).second) return false;
    return true;
  }
  int add(int u, int v, int wt = 1) {
    int id = (int)w.size();
    w.push_back(wt);
    arcs.push_back({u, v, id});
    if (und && u != v) arcs.push_back({v, u, id});
    return id;
  }
  std::string json() const {
    Obj o;
    o.kv("n", n).kv("E", arcs).kv("w", w);
    std::vector<std::vector<int>> adj(n);
    for (size_t k = 0; k < arcs.size(); ++k) adj[arcs[k][0]].push_back((int)k + 1);
    o.kv("adj", adj);
    return o.done();
  }
  // arcs grouped by ascending source (stable)
  std::vector<std::array<int, 3>> sorted() const {
    auto a = arcs;
    std::stable_sort(a.begin(), a.end(), [](auto& x, auto& y) { return x[0] < y[0]; });
    return a;
  }
};
using Rng = std::mt19937_64;
inline int rnd(Rng& r, int lo, int hi) { return lo + (int)(r() % (uint64_t)(hi - lo + 1)); }
template <class V> void shuf(Rng& r, V& v) {
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r() % i]);
}
inline AG random_graph(Rng& r, int n, int m, bool und, int wlo, int whi, bool loops = true, bool multi = true) {
  AG g;
  g.n   = n;
  g.und = und;
  std::set<std::pair<int, int>> seen;
  for (int k = 0, tries = 0; k < m && tries < 20 * m + 20 && n > 0; ++tries) {
    int u = rnd(r, 0, n - 1), v = rnd(r, 0, n - 1);
    if (!loops && u == v) continue;
    if (!multi) {
      auto key = und ? std::minmax(u, v) : std::pair<const int&, const int&>(u, v);
      if (!seen.insert({key.first, key.second}).second) continue;
    }
    g.add(u, v, rnd(r, wlo, whi));
    ++k;
  }
  return g;
}
// all simple digraphs (with loops optionally) on n vertices, arcs chosen by bit mask, arc order shuffled
inline AG mask_digraph(Rng& r, int n, uint64_t mask, bool loops, int wlo, int whi) {
  AG g;
  g.n = n;
  std::vector<std::pair<int, int>> a;
  int b = 0;
  for (int u = 0; u < n; ++u)
    for (int v = 0; v < n; ++v) {
      if (!loops && u == v) continue;
      if (mask >> b & 1) a.push_back({u, v});
      ++b;
    }
  shuf(r, a);
  for (auto [u, v] : a) g.add(u, v, rnd(r, wlo, whi));
  return g;
}
inline AG mask_ugraph(Rng& r, int n, uint64_t mask, bool loops, int wlo, int whi) {
  AG g;
  g.n   = n;
  g.und = true;
  std::vector<std::pair<int, int>> a;
  int b = 0;
  for (int u = 0; u < n; ++u)
    for (int v = u; v < n; ++v) {
      if (!loops && u == v) continue;
      if (mask >> b & 1) a.push_back(r() & 1 ? std::pair{u, v} : std::pair{v, u});
      ++b;
    }
  shuf(r, a);
  for (auto [u, v] : a) g.add(u, v, rnd(r, wlo, whi));
  return g;
}
// relabel vertices by a random permutation and shuffle the edge order
inline AG scramble(Rng& r, const AG& g) {
  AG h;
  h.n   = g.n;
  h.und = g.und;
  std::vector<int> p(g.n);
  std::iota(p.begin(), p.end(), 0);
  shuf(r, p);
  std::vector<std::array<int, 3>> es; // u,v,w
  std::set<int> seen;
  for (auto& a : g.arcs) if (seen.insert(a[2]).second) es.push_back({p[a[0]], p[a[1]], g.w[a[2]]});
  shuf(r, es);
  for (auto& e : es) {
    if (g.und && (r() & 1)) std::swap(e[0], e[1]);
    h.add(e[0], e[1], e[2]);
  }
  h.full = g.full;
  return h;
}
// structured shapes: path, cycle, star, complete, grid, tree, two cliques with bridge, layered dag, barbell chain
inline AG shape(Rng& r, int kind, int n, bool und, int wlo, int whi) {
  AG g;
  g.n   = n;
  g.und = und;
  auto W = [&] { return rnd(r, wlo, whi); };
  switch (kind % 9) {
  case 0: for (int i = 0; i + 1 < n; ++i) g.add(i, i + 1, W()); break;
  case 1: for (int i = 0; i < n; ++i) if (n > 1) g.add(i, (i + 1) % n, W()); break;
  case 2: for (int i = 1; i < n; ++i) g.add(0, i, W()); break;
  case 3: for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) g.add(i, j, W()); break;
  case 4: { int c = std::max(1, (int)std::sqrt((double)n));
            for (int i = 0; i < n; ++i) { if ((i + 1) % c && i + 1 < n) g.add(i, i + 1, W()); if (i + c < n) g.add(i, i + c, W()); } break; }
  case 5: for (int i = 1; i < n; ++i) g.add(rnd(r, 0, i - 1), i, W()); break;
  case 6: { int h = n / 2; for (int i = 0; i < h; ++i) for (int j = i + 1; j < h; ++j) g.add(i, j, W());
            for (int i = h; i < n; ++i) for (int j = i + 1; j < n; ++j) g.add(i, j, W()); if (h && h < n) g.add(h - 1, h, W()); break; }
  case 7: { int c = 3; for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) { int t = (i / c + 1) * c + rnd(r, 0, c - 1); if (t < n) g.add(i, t, W()); } break; }
  case 8: for (int i = 0; i + 2 < n; i += 2) { g.add(i, i + 1, W()); g.add(i + 1, i + 2, W()); g.add(i, i + 2, W()); } break;
  }
  return scramble(r, g);
}

// ------------------------------------------------------------------ representations
namespace gc = graph::container;
using EDv   = graph::copyable_edge_t<uint32_t, int>;
template <class G> struct rep; // rep<G>::make(AG) ; rep<G>::name ; multi: keeps parallel edges

template <class G>
G load_dyn(const AG& g, bool sorted = false) {
  std::vector<EDv> es;
  auto arcs = sorted ? g.sorted() : g.arcs;
  for (auto& a : arcs) es.push_back({(uint32_t)a[0], (uint32_t)a[1], a[2]});
  G x;
  x.load_edges(es, std::identity{}, (size_t)g.n);
  return x;
}
#define DYN_REP(ALIAS, TR, NAME, MULTI)                                                                        \
  using ALIAS = gc::dynamic_graph<int, void, void, uint32_t, false, gc::TR##_graph_traits<int, void, void, uint32_t, false>>; \
  template <> struct rep<ALIAS> { static constexpr const char* name = NAME; static constexpr bool multi = MULTI; \
    static constexpr bool undirected = false; static ALIAS make(const AG& g) { return load_dyn<ALIAS>(g); } };
#define DYN_BREP(ALIAS, TR, NAME, MULTI)                                                                        \
  using ALIAS = gc::dynamic_graph<int, void, void, uint32_t, true, gc::TR##_graph_traits<int, void, void, uint32_t, true>>; \
  template <> struct rep<ALIAS> { static constexpr const char* name = NAME; static constexpr bool multi = MULTI; \
    static constexpr bool undirected = false; static ALIAS make(const AG& g) { return load_dyn<ALIAS>(g); } };

using CG = gc::compressed_graph<int, void, void>;
template <> struct rep<CG> {
  static constexpr const char* name = "compressed";
  static constexpr bool multi = true, undirected = false;
  static CG make(const AG& g) {
    std::vector<EDv> es;
    for (auto& a : g.sorted()) es.push_back({(uint32_t)a[0], (uint32_t)a[1], a[2]});
    CG x;
    // vertex ids without edges behind the last mentioned one exist only if vertices are loaded:
    // use a self-describing sized construction path
    x.load_edges(es);
    return x;
  }
};
using CG8 = gc::compressed_graph<int, void, void, uint8_t, uint16_t>;
template <> struct rep<CG8> {
  static constexpr const char* name = "compressed-8";
  static constexpr bool multi = true, undirected = false;
  static CG8 make(const AG& g) {
    std::vector<graph::copyable_edge_t<uint8_t, int>> es;
    for (auto& a : g.sorted()) es.push_back({(uint8_t)a[0], (uint8_t)a[1], a[2]});
    CG8 x;
    x.load_edges(es, std::identity{}, (size_t)g.n);
    return x;
  }
};
using VVP = std::vector<std::vector<std::pair<int, int>>>;
template <> struct rep<VVP> {
  static constexpr const char* name = "vec-vec-pair";
  static constexpr bool multi = true, undirected = false;
  static VVP make(const AG& g) {
    VVP x(g.n);
    for (auto& a : g.arcs) x[a[0]].push_back({a[1], a[2]});
    return x;
  }
};
using DLT = std::deque<std::list<std::tuple<int, int>>>;
template <> struct rep<DLT> {
  static constexpr const char* name = "deque-list-tuple";
  static constexpr bool multi = true, undirected = false;
  static DLT make(const AG& g) {
    DLT x(g.n);
    for (auto& a : g.arcs) x[a[0]].push_back({a[1], a[2]});
    return x;
  }
};
using UAL = gc::undirected_adjacency_list<int, int>;
template <> struct rep<UAL> {
  static constexpr const char* name = "undirected";
  static constexpr bool multi = true, undirected = true;
  static UAL make(const AG& g) {
    UAL x;
    for (int i = 0; i < g.n; ++i) x.create_vertex();
    std::set<int> seen;
    for (auto& a : g.arcs)
      if (seen.insert(a[2]).second) x.create_edge((uint32_t)a[0], (uint32_t)a[1], a[2]);
    return x;
  }
};
// can this representation hold this abstract graph faithfully?
template <class G> bool fits(const AG& g) {
  if (!rep<G>::multi && !g.simple()) return false;
  if (rep<G>::undirected && (!g.und || g.has_loop())) return false;
  if (std::is_same_v<G, CG>) { // without vertex values the last vertex exists only if an edge mentions it
    bool m = false;
    for (auto& a : g.arcs) m |= a[0] == g.n - 1 || a[1] == g.n - 1;
    return m;
  }
  return true;
}
DYN_REP(VOV, vov, "vov", true)
DYN_REP(VOL, vol, "vol", true)
DYN_REP(VOFL, vofl, "vofl", true)
DYN_REP(VOD, vod, "vod", true)
DYN_REP(VOS, vos, "vos", false)
DYN_REP(VOUS, vous, "vous", false)
DYN_REP(DOV, dov, "dov", true)
DYN_REP(DOL, dol, "dol", true)
// call f.template operator()<G>() for the representations whose turn it is (rotating), or for all of them
template <class... Gs> struct Reps {
  template <class F> static void rotate(const AG& g, long turn, int count, F&& f) {
    constexpr int n = sizeof...(Gs);
    if (g.full) { OUT.rep = rep<CG8>::name; f.template operator()<CG8>(); return; }
    for (int c = 0, k = 0; c < count && k < n; ++k) {
      int  want = (int)((turn + k) % n), at = 0;
      bool hit = false;
      ((at++ == want && fits<Gs>(g) ? (OUT.rep = rep<Gs>::name, f.template operator()<Gs>(), hit = true) : false), ...);
      if (hit) ++c;
    }
  }
  template <class F> static void all(const AG& g, F&& f) { rotate(g, 0, sizeof...(Gs), f); }
};
// edge -> <<source, target, id>>
template <class G, class E> std::array<int, 3> arc_of(const G& g, const E& e) {
  return {(int)graph::source_id(g, e), (int)graph::target_id(g, e), (int)graph::edge_value(g, e)};
}

// every arc of the real graph, in iteration order
template <class G> std::vector<std::array<int, 3>> dump(const G& g) {
  std::vector<std::array<int, 3>> r;
  for (auto u : graph::vertices(g))
    for (auto e : graph::edges(g, u))
      r.push_back({(int)graph::vertex_id(g, u), (int)graph::target_id(g, e), (int)graph::edge_value(g, e)});
  return r;
}
// standard input families; f(AG) is called for each
struct Gen {
  Rng  r;
  int  wlo = 1, whi = 9;
  bool loops = true, multi = true, und = false;
  explicit Gen(uint64_t seed) : r(seed) {}
  AG   mk_random(int nlo, int nhi, int percent) { // edges ~ percent/100 * n
    int n = rnd(r, nlo, nhi);
    int m = (int)((long)n * rnd(r, 0, percent) / 100);
    return random_graph(r, n, m, und, wlo, whi, loops, multi);
  }
  template <class F> void exhaustive(int n, F&& f) { // all graphs on n vertices without parallel edges
    int bits = und ? n * (n - 1) / 2 + (loops ? n : 0) : n * n - (loops ? 0 : n);
    for (uint64_t m = 0; m < (1ull << bits); ++m) f(und ? mask_ugraph(r, n, m, loops, wlo, whi) : mask_digraph(r, n, m, loops, wlo, whi));
  }
  template <class F> void sampled(int n, long count, F&& f) { // random graphs on n vertices without parallel edges
    int bits = und ? n * (n - 1) / 2 + (loops ? n : 0) : n * n - (loops ? 0 : n);
    for (long c = 0; c < count; ++c) { uint64_t m = r() & ((1ull << bits) - 1); if (r() & 1) m &= r(); f(und ? mask_ugraph(r, n, m, loops, wlo, whi) : mask_digraph(r, n, m, loops, wlo, whi)); }
  }
  template <class F> void random(long count, int nlo, int nhi, int percent, F&& f) {
    for (long c = 0; c < count; ++c) f(mk_random(nlo, nhi, percent));
  }
  template <class F> void full(int rounds, F&& f) { // 255 vertices with ids of 8 bits (the id type has to hold the number of vertices)
    for (int c = 0; c < rounds; ++c) {
      const int n = c % 4 == 3 ? 254 : 255;
      AG g = c % 2 ? random_graph(r, n, n * rnd(r, 1, 5) / 2, und, wlo, whi, loops, multi) : shape(r, std::array{0, 5, 2, 8, 1, 4}[(size_t)(c / 2 % 6)], n, und, wlo, whi);
      g.full = true;
      f(g);
    }
    for (int c = 0; c < (rounds + 1) / 2; ++c) { // more edges, and more common neighbours, than 8 bits can count
      AG k; k.n = rnd(r, 16, 20); k.und = und; k.full = true;
      for (int u = 0; u < k.n; ++u) for (int v = und ? u + 1 : 0; v < k.n; ++v) if (u != v && rnd(r, 0, 19)) k.add(u, v, rnd(r, wlo, whi));
      if (loops) k.add(3, 3, rnd(r, wlo, whi));
      f(k);
      AG b; b.n = rnd(r, 260, 266); b.und = und;
      int h = rnd(r, 0, b.n - 1), j = (h + rnd(r, 1, b.n - 1)) % b.n;
      b.add(h, j, rnd(r, wlo, whi));
      for (int p = 0; p < b.n; ++p) if (p != h && p != j) { b.add(h, p, rnd(r, wlo, whi)); und || c % 2 ? b.add(j, p, rnd(r, wlo, whi)) : b.add(p, j, rnd(r, wlo, whi)); }
      f(b);
    }
  }
  template <class F> void shapes(int rounds, int nlo, int nhi, F&& f) {
    for (int c = 0; c < rounds; ++c) for (int k = 0; k < 9; ++k) f(shape(r, k, k == 3 ? std::min(12, rnd(r, nlo, nhi)) : rnd(r, nlo, nhi), und, wlo, whi));
  }
};
