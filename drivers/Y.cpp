// Histories with valid and invalid input: what is refused, how, and what is there afterwards.
#if PART == 1
#define NDEBUG 1 // (undirected_adjacency_list asserts before it throws)
#endif
#include "dyn_traits.hpp"
#include <iostream>
#include <optional>
#include <forward_list>
static Rng R2;
using Id = uint32_t;
using CE = graph::copyable_edge_t<Id, int>;
using CV = graph::copyable_vertex_t<Id, int>;
static int SER = 0;
enum Res { DONE = 0, RANGE = 4, OTHER = 5, RUNTIME = 6, GERR = 7, INVALID = 8 };
template <class F> int outcome(F&& f) {
  try { f(); return DONE; }
  catch (const std::out_of_range&) { return RANGE; }
  catch (const std::invalid_argument&) { return INVALID; }
  catch (const graph::graph_error&) { return GERR; }
  catch (const std::runtime_error&) { return RUNTIME; }
  catch (...) { return OTHER; }
}
template <class T> struct OnePass { // a range that can be traversed once
  const std::vector<T>* v;
  size_t at = 0;
  struct It {
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
    OnePass* p = nullptr;
    T operator*() const { return (*p->v)[p->at]; }
    It&  operator++() { ++p->at; return *this; }
    void operator++(int) { ++p->at; }
    bool operator==(std::default_sentinel_t) const { return p->at == p->v->size(); }
  };
  It begin() { return It{this}; }
  std::default_sentinel_t end() const { return {}; }
};
static std::vector<CE> mkedges(int span, int far, bool sorted) { // far: percentage of ids beyond the span
  std::vector<CE> es;
  auto id = [&] { return (Id)(rnd(R2, 1, 100) <= far ? span + rnd(R2, 0, 3) : span ? rnd(R2, 0, span - 1) : 0); };
  for (int c = rnd(R2, 0, 5); c > 0; --c) es.push_back(CE{id(), id(), ++SER});
  if (sorted) std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.source_id < b.source_id; });
  return es;
}
static std::vector<CV> mkverts(int span, int far) {
  std::vector<CV> vs;
  for (int c = rnd(R2, 0, 4); c > 0; --c) vs.push_back(CV{(Id)(rnd(R2, 1, 100) <= far ? span + rnd(R2, 0, 3) : span ? rnd(R2, 0, span - 1) : 0), 1000 + ++SER});
  return vs;
}
static std::vector<Id> mkparts(int span) {
  std::vector<Id> p; int k = rnd(R2, 0, 3); Id at = rnd(R2, 0, 9) == 0 ? 1 : 0;
  for (int j = 0; j < k; ++j) { p.push_back(at); at += (Id)rnd(R2, rnd(R2, 0, 5) ? 1 : 0, 2); }
  if (k && rnd(R2, 0, 7) == 0) p.push_back((Id)(span + rnd(R2, -1, 2)));
  return p;
}
static std::string J_(const std::vector<CE>& es) { Rows r; for (auto& e : es) r.push_back({(long long)e.source_id, (long long)e.target_id, e.value}); std::string s; js(s, r); return s; }
static std::string J_(const std::vector<CV>& vs) { Rows r; for (auto& v : vs) r.push_back({(long long)v.id, v.value}); std::string s; js(s, r); return s; }
static std::string J_(const std::vector<Id>& p) { std::string s; js(s, p); return s; }
template <class G> std::string show(G& g) {
  namespace gr = graph;
  Rows vs, es;
  for (auto u : gr::vertices(g)) {
    long long ui = (long long)gr::vertex_id(g, u);
    vs.push_back({ui, gr::vertex_value(g, u)});
    for (auto e : gr::edges(g, u)) es.push_back({ui, (long long)gr::target_id(g, e), gr::edge_value(g, e)});
  }
  std::string s = "["; js(s, vs); s += ','; js(s, es); return s + "," + std::to_string(gr::num_vertices(g)) + "]";
}
struct Log {
  Ev ev;
  template <class... A> void add(const char* op, const A&... a) { std::string s = std::string("[\"") + op + "\""; ((s += ',', s += str_(a)), ...); ev.raw(s + "]"); }
  static std::string str_(const std::string& s) { return s; }
  static std::string str_(long long x) { return std::to_string(x); }
};
template <class G, bool ASSOC> void dynamic_history(const char* name) {
  OUT.rep = name; Guard grd(Obj().kv("rep", name).kv("ser", SER).done());
  Log L; std::optional<G> g; g.emplace();
  const int span = rnd(R2, 1, 6);
  for (int c = rnd(R2, 4, 12); c > 0; --c) {
    int far = std::array{0, 10, 40}[(size_t)rnd(R2, 0, 2)];
    switch (rnd(R2, 0, 9)) {
    case 0: case 1: case 2: {
      auto es = mkedges(span, far, false); int cnt = rnd(R2, 0, 2) ? rnd(R2, 0, span + 2) : 0, mode = rnd(R2, 0, 3), o;
      if (mode == 0) o = outcome([&] { g->load_edges(es, std::identity{}, (size_t)cnt); });
      else if (mode == 1) o = outcome([&] { OnePass<CE> r{&es}; g->load_edges(r, std::identity{}, (size_t)cnt); });
      else if (mode == 2) o = outcome([&] { std::forward_list<CE> l(es.begin(), es.end()); g->load_edges(l, std::identity{}, (size_t)cnt); });
      else o = outcome([&] { auto cp = es; g->load_edges(std::move(cp), [](CE& e) -> CE { return e; }, (size_t)cnt, 3); });
      L.add("load", J_(es), cnt, mode == 1, o, show(*g)); break; }
    case 3: case 4: case 5: {
      auto vs = mkverts(span, far); int cnt = rnd(R2, 0, 1) ? rnd(R2, 0, span + 2) : 0, mode = rnd(R2, 0, 3), o;
      if (mode == 0) o = outcome([&] { g->load_vertices(std::as_const(vs), std::identity{}, (size_t)cnt); });
      else if (mode == 1) o = outcome([&] { OnePass<CV> r{&vs}; g->load_vertices(r, std::identity{}, (size_t)cnt); });
      else if (mode == 2) o = outcome([&] { const std::forward_list<CV> l(vs.begin(), vs.end()); g->load_vertices(l, std::identity{}, (size_t)cnt); });
      else o = outcome([&] { auto cp = vs; g->load_vertices(std::move(cp), std::identity{}, (size_t)cnt); });
      L.add("verts", J_(vs), cnt, mode == 0 || mode == 3, o, show(*g)); break; }
    case 6: { // lookups
      for (int q = 0; q < 4; ++q) {
        Id u = (Id)rnd(R2, 0, span + 3); long long val = -1, val2 = -1, val3 = -1;
        int o = outcome([&] { val = g->vertex_at(u).value(); });
        int o2 = outcome([&] { val2 = std::as_const(*g).vertex_at(u).value(); });
        int o3 = outcome([&] { val3 = (*g)[u].value(); (void)std::as_const(*g)[u]; });
        bool has = g->contains_vertex(u), f1 = g->try_find_vertex(u) != g->end(), f2 = std::as_const(*g).try_find_vertex(u) != std::as_const(*g).end();
        L.add("at", u, o, val, o2, val2, o3, val3, has, f1, f2, (long long)g->size());
      }
      break; }
    case 7: { // a graph built from ranges, with partitions
      auto es = mkedges(span, far, false); auto vs = mkverts(span, far); auto ps = mkparts(span); std::optional<G> x;
      int o = outcome([&] { x.emplace(std::as_const(es), std::as_const(vs), std::identity{}, std::identity{}, ps); });
      if (o == DONE) g = std::move(x);
      L.add("build", J_(es), J_(vs), J_(ps), o, show(*g)); break; }
    case 8: { // a graph built from the largest vertex id
      auto es = mkedges(span, far, false); auto ps = mkparts(span); std::optional<G> x; long long mx = rnd(R2, 0, 7) ? rnd(R2, 0, span + 1) : -1;
      auto cp = es;
      int o = outcome([&] { x.emplace(mx < 0 ? std::numeric_limits<Id>::max() : (Id)mx, cp, std::identity{}, ps); });
      if (o == DONE) g = std::move(x);
      L.add("buildmax", J_(es), mx, J_(ps), o, show(*g)); break; }
    case 9: if (rnd(R2, 0, 1)) { g->clear(); L.add("clear", show(*g)); } break;
    }
  }
  emit(Obj().kv("k", "refuse").kv("rep", name).kv("assoc", ASSOC).raw("ev", L.ev.done()).done());
}
template <class G> void compressed_history(const char* name) { // edges have to be ordered by their source
  OUT.rep = name; Guard grd(Obj().kv("rep", name).kv("ser", SER).done());
  Log L; G g;
  for (int c = rnd(R2, 3, 8); c > 0; --c) {
    int span = rnd(R2, 1, 6); bool sorted = rnd(R2, 0, 1);
    auto es = mkedges(span, 0, sorted); int cnt = rnd(R2, 0, 1) ? rnd(R2, 0, span + 2) : 0;
    g.clear();
    int o = outcome([&] { g.load_edges(std::as_const(es), std::identity{}, (size_t)cnt); });
    if (o != DONE) g.clear();
    L.add("sorted", J_(es), cnt, o, show(g));
    if (rnd(R2, 0, 1)) { auto vs = mkverts(span, 30); if (vs.size()) { o = outcome([&] { g.load_vertices(vs); }); L.add("cverts", J_(vs), o, show(g)); } }
  }
  emit(Obj().kv("k", "refuse").kv("rep", name).kv("assoc", false).raw("ev", L.ev.done()).done());
}
template <class G, class GV> void ual_history(const char* name) {
  OUT.rep = name; Guard grd(Obj().kv("rep", name).kv("ser", SER).done());
  Log L;
  for (int c = rnd(R2, 2, 6); c > 0; --c) {
    int span = rnd(R2, 1, 6); bool sorted = rnd(R2, 0, 1);
    auto es = mkedges(span, 0, sorted); std::vector<CV> vs; for (int v = rnd(R2, 0, span); v > 0; --v) vs.push_back(CV{(Id)vs.size(), 1000 + ++SER});
    std::optional<G> x; bool ev = rnd(R2, 0, 1); if (ev) vs.clear();
    int o = outcome([&] {
      if constexpr (std::is_void_v<GV>) { if (ev) x.emplace(es, std::identity{}); else x.emplace(es, vs, std::identity{}, std::identity{}); }
      else { if (ev) x.emplace(es, std::identity{}, 3); else x.emplace(es, vs, std::identity{}, std::identity{}, 4); }
    });
    if (!x) x.emplace();
    L.add("usorted", J_(es), J_(vs), o, show(*x));
  }
  emit(Obj().kv("k", "refuse").kv("rep", name).kv("assoc", false).raw("ev", L.ev.done()).done());
}
#define DG(TR) gc::dynamic_graph<int, int, int, Id, false, gc::TR##_graph_traits<int, int, int, Id, false>>
#define DGV(TR) gc::dynamic_graph<int, int, void, Id, false, gc::TR##_graph_traits<int, int, void, Id, false>>
int main(int argc, char** argv) {
  init(argc, argv);
  R2.seed(OUT.seed * 131 + PART);
  std::cout.rdbuf(nullptr);
  for (int t = 0; t < (OUT.thorough ? 4000 : 500); ++t) {
#if PART == 0
    dynamic_history<DG(vov), false>("vov"); dynamic_history<DGV(dov), false>("dov"); dynamic_history<DGV(vol), false>("vol");
    dynamic_history<DG(mov), true>("mov"); 
    compressed_history<gc::compressed_graph<int, int, int, Id, Id>>("compressed");
    compressed_history<gc::compressed_graph<int, int, void, Id, Id>>("compressed, no graph value");
#else
    dynamic_history<DG(dofl), false>("dofl"); dynamic_history<DGV(mol), true>("mol"); dynamic_history<DG(vod), false>("vod");
    compressed_history<gc::compressed_graph<int, int, int, Id, Id>>("compressed, no assertions");
    ual_history<gc::undirected_adjacency_list<int, int, int>, int>("undirected"); ual_history<gc::undirected_adjacency_list<int, int, void>, void>("undirected, no graph value");
#endif
  }
  return finish();
}
