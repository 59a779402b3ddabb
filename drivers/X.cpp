// Failures inside containers: every allocation and every copy of a value may fail.
#include "dyn_traits.hpp"
#include "fault.hpp"
#include <optional>
static Rng R2;
// a value whose copies may fail; moves never do
struct Val {
  int x = 0;
  static inline long live = 0;
  Val() { ++live; }
  explicit Val(int v) : x(v) { ++live; }
  Val(const Val& o) : x(o.x) { fault::tick(); ++live; }
  Val(Val&& o) noexcept : x(o.x) { o.x = -1; ++live; }
  Val& operator=(const Val& o) { fault::tick(); x = o.x; return *this; }
  Val& operator=(Val&& o) noexcept { x = o.x; if (&o != this) o.x = -1; return *this; }
  ~Val() { --live; }
};
using Id = uint32_t;
using CE = graph::copyable_edge_t<Id, Val>;
using CV = graph::copyable_vertex_t<Id, Val>;
template <class T> struct OnePass { // a range that can be traversed once
  const std::vector<T>* v;
  size_t at = 0;
  struct It {
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
    OnePass* p = nullptr;
    const T& operator*() const { return (*p->v)[p->at]; }
    It&  operator++() { ++p->at; return *this; }
    void operator++(int) { ++p->at; }
    bool operator==(std::default_sentinel_t) const { return p->at == p->v->size(); }
  };
  It begin() { return It{this}; }
  std::default_sentinel_t end() const { return {}; }
};
struct Data { // vertices 0..n-1 with values, edges with values
  int n = 0, gv = 0;
  std::vector<CV> vs; std::vector<CE> es;
  std::string json() const {
    Rows a, b;
    for (auto& v : vs) a.push_back({(long long)v.id, v.value.x});
    for (auto& e : es) b.push_back({(long long)e.source_id, (long long)e.target_id, e.value.x});
    std::string s = Obj().kv("n", n).kv("gv", gv).kv("vs", a).kv("es", b).done();
    return s;
  }
};
static int SER = 0;
static Data mkdata(bool sorted, bool und, int nlo, int nhi) { // no parallel edges
  Data d; d.n = rnd(R2, nlo, nhi); d.gv = 2000 + ++SER % 800;
  std::set<std::pair<int, int>> seen;
  if (d.n) for (int c = rnd(R2, 0, 6); c > 0; --c) {
    int u = rnd(R2, 0, d.n - 1), v = rnd(R2, 0, d.n - 1);
    if (seen.count({u, v}) || (und && seen.count({v, u}))) continue;
    seen.insert({u, v});
    d.es.push_back(CE{(Id)u, (Id)v, Val(100 + ++SER % 800)});
  }
  if (sorted) std::stable_sort(d.es.begin(), d.es.end(), [](auto& a, auto& b) { return a.source_id < b.source_id; });
  for (int v = 0; v < d.n; ++v) d.vs.push_back(CV{(Id)v, Val(1000 + ++SER % 800)});
  return d;
}
template <class G> struct Kind; // how to fill a container; its name
// everything a graph shows
template <class G> std::string show(G& g) {
  namespace gr = graph;
  Rows vs, es, ins;
  for (auto u : gr::vertices(g)) {
    long long ui = (long long)gr::vertex_id(g, u);
    vs.push_back({ui, gr::vertex_value(g, u).x});
    for (auto e : gr::edges(g, u)) es.push_back({ui, (long long)gr::target_id(g, e), gr::edge_value(g, e).x});
    if constexpr (Kind<G>::bi) for (auto e : gr::in_edges(g, u)) ins.push_back({(long long)gr::source_id(g, e), ui, gr::edge_value(g, e).x});
  }
  std::sort(es.begin(), es.end()); std::sort(ins.begin(), ins.end()); std::sort(vs.begin(), vs.end());
  return Obj().kv("vs", vs).kv("es", es).kv("ins", ins).kv("nv", (long long)gr::num_vertices(g)).kv("ne", (long long)gr::num_edges(g)).kv("gv", gr::graph_value(g).x).done();
}
enum Res { DONE = 0, NOMEM = 1, BOOM = 2, OTHERBOOM = 3, OTHER = 5 };
template <class F> int outcome(F&& f) {
  int o = DONE;
  try { f(); fault::disarm(); }
  catch (const std::bad_alloc&) { fault::disarm(); o = NOMEM; }
  catch (const fault::Boom& b) { fault::disarm(); o = b.k == fault::cbat ? BOOM : OTHERBOOM; }
  catch (...) { fault::disarm(); o = OTHER; }
  return o;
}
template <class G> struct Ops {
  using K = Kind<G>;
  Data a, b; // what the target holds, what the operation brings
  std::vector<std::string> conts; std::map<std::string, int> idx;
  int note(const std::string& s) { auto it = idx.find(s); if (it != idx.end()) return it->second; conts.push_back(s); return idx[s] = (int)conts.size(); }
  // prep: builds the target (and whatever the operation reads); op: the armed operation
  // kind: what is promised about the target ("load": adds, "loadv": sets values, "strong": unchanged on failure, "weak": anything, "make": a new graph, "never": cannot fail)
  template <class P, class F> void run(const char* op, const char* promise, P prep, F f, std::string want, const char* wantgv = nullptr) {
    if (!wantgv) wantgv = want == "[\"b\"]" ? "b" : "same"; // the value the graph has afterwards
    OUT.rep = K::name();
    Guard grd(Obj().kv("op", op).kv("rep", K::name()).raw("a", a.json()).raw("b", b.json()).done());
    Ev ev;
    long na = 0, nc = 0;
    int empty = 0; { G z; empty = note(show(z)); }
    auto one = [&](int kind, long k) {
      const long live0 = Val::live;
      std::string a0 = a.json(), b0 = b.json();
      int before = 0, after = 0, refill = 0, o = 0, srcsame = 1, bal = 0;
      {
        std::optional<G> x, y;
        fault::plan(kind == 0 ? k : -1, kind == 1 ? k : -1);
        prep(x, y);
        before = x ? note(show(*x)) : empty;
        std::string y0 = y ? show(*y) : "";
        o = outcome([&] { f(x, y); });
        if (kind == 2) { na = fault::na; nc = fault::ncb; }
        srcsame = (!y || show(*y) == y0);
        after = x && !(o != DONE && !strcmp(promise, "weak")) ? note(show(*x)) : empty; // (a half-assigned graph is not looked at)
        if (!x) x.emplace();
        K::refill(*x, b);
        refill = note(show(*x));
      }
      bal = (int)fault::bal;
      if (a.json() != a0 || b.json() != b0) srcsame = 0;
      ev.add(kind == 2 ? "ref" : "f", kind, k, o, bal, Val::live - live0, srcsame, before, after, refill);
    };
    one(2, 0);
    auto some = [&](int kind, long n) {
      const long all = OUT.thorough ? 60 : 14;
      if (n <= all) { for (long k = 1; k <= n; ++k) one(kind, k); return; }
      one(kind, 1); one(kind, 2); one(kind, n); one(kind, n - 1);
      for (int c = 0; c < all - 4; ++c) one(kind, 1 + (long)(R2() % (uint64_t)n));
    };
    some(0, na); some(1, nc); one(0, na + 1); one(1, nc + 1);
    std::string cs = "["; for (auto& c : conts) { if (cs.size() > 1) cs += ','; cs += c; } cs += "]";
    emit(Obj().kv("k", "cont").kv("op", op).kv("promise", promise).kv("rep", K::name()).kv("und", K::und).kv("bi", K::bi).kv("uniq", K::uniq).kv("assoc", K::assoc).raw("want", want).kv("wantgv", wantgv).raw("a", a.json()).raw("b", b.json())
           .kv("na", na).kv("nc", nc).raw("conts", cs).raw("ev", ev.done()).done());
    conts.clear(); idx.clear();
  }
};
template <class G, char VK, char EK, bool BI> struct DynKind {
  static constexpr bool und = false, bi = BI, assoc = VK == 'm', uniq = EK == 's' || EK == 'm';
  static const char* name() { static const std::string s = std::string{VK, 'o', EK} + (BI ? "-bi" : ""); return s.c_str(); }
  static void fill(G& g, const Data& d) { g.load_edges(d.es, std::identity{}, assoc ? 0 : (size_t)d.n); g.load_vertices(std::as_const(d.vs)); graph::graph_value(g) = Val(d.gv); }
  static void refill(G& g, const Data& d) { g.clear(); fill(g, d); }
};
template <class G> void dynamic_ops(int turn) {
  using K = Kind<G>; using X = std::optional<G>;
  Ops<G> o; o.a = mkdata(false, false, 0, 4); o.b = mkdata(false, false, 1, 5);
  const Data &a = o.a, &b = o.b;
  auto fillx = [&](X& x, X&) { x.emplace(); K::fill(*x, a); };
  auto both  = [&](X& x, X& y) { x.emplace(); K::fill(*x, a); y.emplace(); K::fill(*y, b); };
  auto none  = [&](X&, X&) {};
  auto srcy  = [&](X&, X& y) { y.emplace(); K::fill(*y, b); };
  std::string w1 = "[\"b\"]", wn = "[\"edges\"," + std::to_string(b.n) + "]";
  switch (turn % 8) {
  case 0: o.run("load", "load", fillx, [&](X& x, X&) { fault::arm(); x->load_edges(b.es); }, "[\"edges\",0]"); break;
  case 1: o.run("load-count", "load", fillx, [&](X& x, X&) { fault::arm(); if constexpr (K::assoc) x->load_edges(b.es); else x->load_edges(b.es, std::identity{}, (size_t)b.n); }, wn); break;
  case 2: { o.run("load-onepass", "load", fillx, [&](X& x, X&) { OnePass<CE> r{&b.es}; fault::arm(); x->load_edges(r, std::identity{}, (size_t)b.n); }, wn); break; }
  case 3: o.run("vertices", "loadv", fillx, [&](X& x, X&) { fault::arm(); x->load_vertices(b.vs, std::identity{}, b.vs.size()); }, "[\"values\"]"); break;
  case 4: o.run("copy", "make", srcy, [&](X& x, X& y) { fault::arm(); x.emplace(std::as_const(*y)); }, w1); break;
  case 5: o.run("assign", "weak", both, [&](X& x, X& y) { fault::arm(); *x = std::as_const(*y); }, w1); break;
  case 6: o.run("construct", "make", none, [&](X& x, X&) { std::vector<Id> part; fault::arm(); x.emplace(b.es, b.vs, std::identity{}, std::identity{}, part); }, w1, "0"); break;
  case 7: o.run("resize", "loadv", fillx, [&](X& x, X&) { if constexpr (!K::assoc) { fault::arm(); x->resize_vertices((size_t)std::max(a.n, b.n)); } }, "[\"size\"]"); break;
  }
  if (turn % 3 == 0) {
    X y0;
    if (turn % 2) o.run("move", "never", [&](X& x, X&) { x.emplace(); K::fill(*x, a); }, [&](X& x, X&) { G z; K::fill(z, b); fault::arm(); *x = std::move(z); fault::disarm(); }, w1);
    else o.run("move-construct", "never", none, [&](X& x, X&) { G z; K::fill(z, b); fault::arm(); x.emplace(std::move(z)); fault::disarm(); }, w1);
  }
}
template <class G> void compressed_ops(int turn) {
  using K = Kind<G>; using X = std::optional<G>;
  Ops<G> o; o.a = mkdata(true, false, 1, 4); o.b = mkdata(true, false, 1, 5);
  const Data &a = o.a, &b = o.b;
  auto fresh = [&](X& x, X&) { x.emplace(); };
  auto both  = [&](X& x, X& y) { x.emplace(); K::fill(*x, a); y.emplace(); K::fill(*y, b); };
  auto none  = [&](X&, X&) {};
  auto srcy  = [&](X&, X& y) { y.emplace(); K::fill(*y, b); };
  std::string w1 = "[\"b\"]";
  switch (turn % 6) {
  case 0: o.run("load", "weak", fresh, [&](X& x, X&) { fault::arm(); x->load_edges(b.es, std::identity{}, (size_t)b.n); x->load_vertices(b.vs); }, w1, "same"); break;
  case 1: o.run("load-moving", "weak", fresh, [&](X& x, X&) { auto es = b.es; fault::arm(); x->load_edges(std::move(es), std::identity{}, (size_t)b.n); x->load_vertices(b.vs); fault::disarm(); }, w1, "same"); break;
  case 2: o.run("vertices", "loadv", [&](X& x, X&) { x.emplace(); x->load_edges(a.es, std::identity{}, (size_t)a.n); }, [&](X& x, X&) { fault::arm(); x->load_vertices(a.vs); }, "[\"own\"]"); break;
  case 3: o.run("copy", "make", srcy, [&](X& x, X& y) { fault::arm(); x.emplace(std::as_const(*y)); }, w1); break;
  case 4: o.run("assign", "weak", both, [&](X& x, X& y) { fault::arm(); *x = std::as_const(*y); }, w1); break;
  case 5: o.run("construct", "make", none, [&](X& x, X&) { std::vector<Id> part; fault::arm(); x.emplace(b.es, b.vs, std::identity{}, std::identity{}, part); }, w1, "0"); break;
  }
  if (turn % 3 == 0) o.run("move-construct", "never", none, [&](X& x, X&) { G z; K::fill(z, b); fault::arm(); x.emplace(std::move(z)); fault::disarm(); }, w1);
}
template <class G> void ual_ops(int turn) {
  using K = Kind<G>; using X = std::optional<G>;
  Ops<G> o; o.a = mkdata(true, true, 1, 4); o.b = mkdata(true, true, 1, 5);
  const Data &a = o.a, &b = o.b;
  auto fillx = [&](X& x, X&) { x.emplace(); K::fill(*x, a); };
  auto both  = [&](X& x, X& y) { x.emplace(); K::fill(*x, a); y.emplace(); K::fill(*y, b); };
  auto none  = [&](X&, X&) {};
  auto srcy  = [&](X&, X& y) { y.emplace(); K::fill(*y, b); };
  std::string w1 = "[\"b\"]";
  int u = rnd(R2, 0, a.n - 1), v = rnd(R2, 0, a.n - 1), val = 5 + rnd(R2, 0, 50);
  auto edge = [&](int w) { std::string s = "[\"edge\","; js(s, std::vector<int>{u, v, w}); return s + "]"; };
  auto vert = [&](int w) { return "[\"vertex\"," + std::to_string(w) + "]"; };
  switch (turn % 14) {
  case 0: o.run("create_edge copying", "strong", fillx, [&](X& x, X&) { Val w(val); fault::arm(); x->create_edge((Id)u, (Id)v, w); fault::disarm(); }, edge(val)); break;
  case 1: o.run("create_edge moving", "strong", fillx, [&](X& x, X&) { Val w(val); fault::arm(); x->create_edge((Id)u, (Id)v, std::move(w)); fault::disarm(); }, edge(val)); break;
  case 2: o.run("create_edge", "strong", fillx, [&](X& x, X&) { fault::arm(); x->create_edge((Id)u, (Id)v); }, edge(0)); break;
  case 3: o.run("create_vertex copying", "strong", fillx, [&](X& x, X&) { Val w(val); fault::arm(); x->create_vertex(w); fault::disarm(); }, vert(val)); break;
  case 4: o.run("create_vertex moving", "strong", fillx, [&](X& x, X&) { Val w(val); fault::arm(); x->create_vertex(std::move(w)); fault::disarm(); }, vert(val)); break;
  case 5: o.run("create_vertex", "strong", fillx, [&](X& x, X&) { fault::arm(); x->create_vertex(); }, vert(0)); break;
  case 6: case 7: o.run("copy", "make", srcy, [&](X& x, X& y) { fault::arm(); x.emplace(std::as_const(*y)); }, w1); break;
  case 8: case 9: o.run("assign", "strong", both, [&](X& x, X& y) { fault::arm(); *x = std::as_const(*y); }, w1); break;
  case 10: o.run("construct", "make", none, [&](X& x, X&) { Val gv(3); fault::arm(); x.emplace(b.es, b.vs, std::identity{}, std::identity{}, gv); fault::disarm(); }, w1, "3"); break;
  case 11: o.run("construct-list", "make", none, [&](X& x, X&) { std::initializer_list<std::tuple<Id, Id, Val>> il{{0, 1, Val(1)}, {1, 2, Val(2)}, {0, 0, Val(3)}}; fault::arm(); x.emplace(il); fault::disarm(); }, "[\"list\"]", "0"); break;
  case 12: o.run("construct-edges", "make", none, [&](X& x, X&) { Val gv(3); fault::arm(); x.emplace(b.es, std::identity{}, gv); fault::disarm(); }, "[\"bedges\"]", "3"); break;
  case 13: o.run("swap", "never", both, [&](X& x, X&) { G z; K::fill(z, b); fault::arm(); x->swap(z); fault::disarm(); }, w1); break;
  }
  if (turn % 3 == 0) {
    if (turn % 2) o.run("move", "never", fillx, [&](X& x, X&) { G z; K::fill(z, b); fault::arm(); *x = std::move(z); fault::disarm(); }, w1);
    else o.run("move-construct", "never", none, [&](X& x, X&) { G z; K::fill(z, b); fault::arm(); x.emplace(std::move(z)); fault::disarm(); }, w1);
    o.run("clear", "never", fillx, [&](X& x, X&) { fault::arm(); x->clear(); }, "[\"empty\"]");
  }
}
#define DYN(NAME, TR, VK, EK) using NAME = gc::dynamic_graph<Val, Val, Val, Id, false, gc::TR##_graph_traits<Val, Val, Val, Id, false>>; template <> struct Kind<NAME> : DynKind<NAME, VK, EK, false> {};
#define DYNB(NAME, VK, EK) using NAME = gc::dynamic_graph<Val, Val, Val, Id, true, typename BiTr<VK, EK>::template T<Val, Val, Val, Id, true>>; template <> struct Kind<NAME> : DynKind<NAME, VK, EK, true> {};
using CGV = gc::compressed_graph<Val, Val, Val, Id, Id>;
template <> struct Kind<CGV> {
  static constexpr bool und = false, bi = false, assoc = false, uniq = false;
  static const char* name() { return "compressed"; }
  static void fill(CGV& g, const Data& d) { g.load_edges(d.es, std::identity{}, (size_t)d.n); g.load_vertices(d.vs); graph::graph_value(g) = Val(d.gv); }
  static void refill(CGV& g, const Data& d) { g.clear(); fill(g, d); }
};
using UV = gc::undirected_adjacency_list<Val, Val, Val>;
template <> struct Kind<UV> {
  static constexpr bool und = true, bi = false, assoc = false, uniq = false;
  static const char* name() { return "undirected"; }
  static void fill(UV& g, const Data& d) { for (auto& v : d.vs) g.create_vertex(v.value); for (auto& e : d.es) g.create_edge(e.source_id, e.target_id, e.value); graph::graph_value(g) = Val(d.gv); }
  static void refill(UV& g, const Data& d) { g.clear(); fill(g, d); }
};
#if PART == 0
DYN(XVOV, vov, 'v', 'v') DYN(XVOL, vol, 'v', 'l') DYN(XVOFL, vofl, 'v', 'f') DYN(XMOV, mov, 'm', 'v') DYN(XVOS, vos, 'v', 's') DYNB(XBVV, 'v', 'v')
static void round(int t) { dynamic_ops<XVOV>(t); dynamic_ops<XVOL>(t); dynamic_ops<XVOFL>(t); dynamic_ops<XMOV>(t); dynamic_ops<XVOS>(t); dynamic_ops<XBVV>(t); }
#else
DYN(XVOD, vod, 'v', 'd') DYN(XMOL, mol, 'm', 'l') DYN(XVOM, vom, 'v', 'm') DYNB(XBML, 'm', 'l')
static void round(int t) { dynamic_ops<XVOD>(t); dynamic_ops<XMOL>(t); dynamic_ops<XVOM>(t); dynamic_ops<XBML>(t); compressed_ops<CGV>(t); compressed_ops<CGV>(t + 1); ual_ops<UV>(t); ual_ops<UV>(t + 3); ual_ops<UV>(t + 7); }
#endif
int main(int argc, char** argv) {
  init(argc, argv);
  R2.seed(OUT.seed * 31 + PART);
  for (int t = 0; t < (OUT.thorough ? 2400 : 300); ++t) round(t);
  return finish();
}
