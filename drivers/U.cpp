// Histories of operations on undirected_adjacency_list.  PROP 6: edits (C06), 7: copies, moves and swaps (C07)
#include "obs.hpp"
#include <graph/container/undirected_adjacency_list.hpp>
#include <map>
#include <memory>
using str = std::string;
template <class EV_, class VV_, class GV_, class Id_> struct UCfg {
  using EV = EV_; using VV = VV_; using GV = GV_; using Id = Id_;
  using G = gc::undirected_adjacency_list<EV, VV, GV, Id>;
  static constexpr bool ev = !std::is_void_v<EV>, vv = !std::is_void_v<VV>, gv = !std::is_void_v<GV>;
  static std::string name() {
    auto c = []<class T>() { return std::is_void_v<T> ? "v" : std::is_same_v<T, str> ? "s" : "i"; };
    return std::string("ual-") + c.template operator()<EV>() + c.template operator()<VV>() + c.template operator()<GV>() + std::to_string(sizeof(Id));
  }
};
struct Own { int a, b, w; };
using Triple = std::array<long long, 3>;

template <class C> struct Hist {
  using G = typename C::G; using Id = typename C::Id; using EV = typename C::EV; using VV = typename C::VV; using GV = typename C::GV;
  using CE = graph::copyable_edge_t<Id, EV>; using CV = graph::copyable_vertex_t<Id, VV>;
  static constexpr int NR = 3;
  Rng& r; int maxn;
  std::unique_ptr<G> g[NR];
  bool live[NR] = {};                   // false: moved from
  std::map<const void*, long long> key[NR]; // address of an edge -> its identity in the history
  long long ser = 0, keys = 0;
  Ev ev;
  Hist(Rng& r_, int mx) : r(r_), maxn(mx) {}
  template <class... A> void op(const char* k, const A&... a) {
    std::string e = "[\""; e += k; e += '"';
    ((e += ',', js(e, a)), ...);
    ev.raw(e + "]");
    OUT.pending = Obj().kv("cfg", C::name()).raw("ev", ev.done()).done();
  }
  static Id I(long long x) { return (Id)x; }
  long long nv(int q) { return (long long)g[q]->vertices().size(); }
  auto& vx(int q, long long u) { return g[q]->vertices()[(size_t)u]; }
  template <class E> static long long val(const E& e) { if constexpr (C::ev) return ival(e.value()); else return 0; }
  template <class E> long long kof(int q, const E& e) { auto it = key[q].find((const void*)&e); return it == key[q].end() ? -1 : it->second; }
  // every vertex's list of [target, value, identity]
  std::vector<Rows> lists(int q, bool rekey) {
    if (rekey) key[q].clear();
    std::vector<Rows> out;
    for (long long u = 0; u < nv(q); ++u) {
      Rows rs;
      for (auto it = vx(q, u).edges_begin(*g[q], I(u)); it != vx(q, u).edges_end(*g[q], I(u)); ++it) {
        if (rekey) key[q].try_emplace((const void*)&*it, ++keys);
        rs.push_back({(long long)it->other_vertex_id(*g[q], I(u)), val(*it), kof(q, *it)});
      }
      out.push_back(rs);
    }
    return out;
  }
  Rows whole(int q) { // the edges of the whole graph
    Rows o;
    for (auto it = g[q]->edges().begin(); it != g[q]->edges().end(); ++it) {
      long long a = (long long)it->list_owner_id(), b = (long long)it->list_target_id();
      o.push_back({std::min(a, b), std::max(a, b), val(*it), kof(q, *it)});
    }
    return o;
  }
  Row wkeys(int q) { Row o; for (auto& e : g[q]->edges()) o.push_back(kof(q, e)); return o; }
  void obs(int q, bool light) {
    if (!g[q] || !live[q]) return;
    Items it;
    ObsOpt o; o.light = light; o.in = true; o.und = true;
    if (!light) {
      o.qs = {rnd(r, 0, maxn), rnd(r, 0, maxn), nv(q)};
      for (long long u = 0; u < nv(q); ++u) if (rnd(r, 0, 2) == 0 && o.qs.size() < 7) o.qs.push_back(u);
      std::sort(o.qs.begin(), o.qs.end());
      o.qs.erase(std::unique(o.qs.begin(), o.qs.end()), o.qs.end());
    }
    if (rnd(r, 0, 1)) observe<C::vv, C::ev>(it, *g[q], o);
    else { const G& c = *g[q]; observe<C::vv, C::ev>(it, c, o); }
    G& x = *g[q]; const G& c = x;
    auto ls = lists(q, false);
    for (size_t u = 0; u < ls.size(); ++u) it.add("lst", u, ls[u]);
    it.add("nv", (long long)x.num_vertices()); it.add("ne", (long long)x.num_edges()); it.add("he", x.num_edges() > 0);
    it.add("whole", whole(q));
    if (!light) {
      Rows cw;
      for (auto i = c.edges().begin(); i != c.edges().end(); i++) {
        long long a = (long long)(i->source(c) - c.vertices().begin()), b = (long long)(i->target(c) - c.vertices().begin());
        cw.push_back({std::min(a, b), std::max(a, b), val(*i), kof(q, *i)});
      }
      it.add("whole", cw);
      for (long long u = 0; u < nv(q); ++u) {
        auto& v = x.vertices()[(size_t)u]; auto& cv = c.vertices()[(size_t)u];
        Rows back, post; Row nb, cnb;
        auto b = v.edges_begin(x, I(u)), e = v.edges_end(x, I(u));
        if constexpr (true) { // from the last edge back to the first
          auto p = b; std::vector<decltype(b)> its; for (; p != e; p++) its.push_back(p);
          for (auto& i : its) post.push_back({(long long)i->other_vertex_id(x, I(u)), val(*i), kof(q, *i)});
          if (!its.empty()) for (auto i = its.back();; --i) { back.push_back({(long long)i->other_vertex_id(x, I(u)), val(*i), kof(q, *i)}); if (i == b) break; }
          std::reverse(back.begin(), back.end());
        }
        it.add("lst", u, back); it.add("lst", u, post);
        Rows cr; for (auto& ed : cv.edges(c, I(u))) cr.push_back({(long long)ed.other_vertex_id(c, I(u)), val(ed), kof(q, ed)});
        it.add("lst", u, cr);
        it.add("deg", u, (long long)v.num_edges()); it.add("deg", u, (long long)v.neighbors_size(x));
        auto nr = v.neighbors(x, I(u));
        for (auto i = nr.begin(); i != nr.end(); ++i) nb.push_back((long long)(&*i - &x.vertices()[0]));
        it.add("nb", u, nb);
        { // ... from the end, through both constnesses, and over the neighbours
          auto walk = [&](auto b2, auto e2) {
            Rows o; auto i = e2;
            while (i != b2 && o.size() < 200) {
              if (rnd(r, 0, 1)) --i; else i--;
              const auto& ed = *i; o.push_back({(long long)ed.other_vertex_id(c, I(u)), val(ed), kof(q, ed)});
            }
            std::reverse(o.begin(), o.end()); it.add("lst", u, o);
          };
          walk(b, e); walk(cv.edges_begin(c, I(u)), cv.edges_end(c, I(u))); walk(cv.edges_cbegin(c, I(u)), cv.edges_cend(c, I(u)));
          walk(std::ranges::begin(v.edges(x, I(u))), std::ranges::end(v.edges(x, I(u))));
          Rows ar; for (auto i = b; i != e; ++i) ar.push_back({(long long)i->other_vertex_id(x, I(u)), val(*i), kof(q, *i.operator->())});
          it.add("lst", u, ar);
          { // positions exchanged with those of another vertex (and of another graph) still walk their own list
            int q2 = (int)((q + 1) % NR); if (!g[q2] || !live[q2] || g[q2]->vertices().empty()) q2 = q;
            G& y = *g[q2]; auto& v2 = y.vertices()[0];
            auto b2 = v2.edges_end(y, I(0)), e2 = v2.edges_begin(y, I(0)); auto b3 = b, e3 = e;
            swap(b2, b3); std::ranges::swap(e2, e3); walk(b2, e2);
            auto n2 = v2.neighbors(y, I(0)), n3 = v.neighbors(x, I(u)); auto p2 = n2.begin(), p3 = n3.begin();
            swap(p2, p3); Row o; for (; p2 != n3.end(); ++p2) o.push_back((long long)p2.other_vertex_id()); it.add("nb", u, o);
          }
          auto nwalk = [&](auto b2, auto e2) {
            Row o; auto i = e2;
            while (!(i == b2) && o.size() < 200) { if (rnd(r, 0, 1)) --i; else i--; o.push_back((long long)(i.operator->() - &c.vertices()[0])); }
            std::reverse(o.begin(), o.end()); it.add("nb", u, o);
            Row f, ids, its; for (i = b2; i != e2; i++) { f.push_back((long long)(&*i - &c.vertices()[0])); ids.push_back((long long)i.other_vertex_id()); its.push_back((long long)(i.other_vertex() - i.graph().vertices().begin())); }
            it.add("nb", u, f); it.add("nb", u, ids); it.add("nb", u, its);
          };
          nwalk(nr.begin(), nr.end());
          auto cnr = cv.neighbors(c, I(u)); nwalk(cnr.begin(), cnr.end());
          if constexpr (C::ev) {
            Rows vr; for (auto i = b; i != e; ++i) vr.push_back({(long long)i->other_vertex_id(x, I(u)), ival(edge_value(x, *i)), kof(q, *i)});
            it.add("lst", u, vr);
            vr.clear(); for (auto i = cv.edges_begin(c, I(u)); i != cv.edges_end(c, I(u)); i++) vr.push_back({(long long)i->other_vertex_id(c, I(u)), ival(edge_value(c, *i)), kof(q, *i)});
            it.add("lst", u, vr);
          }
        }
        if (!ls[(size_t)u].empty()) { it.add("ends", u, kof(q, v.edge_front(x)), kof(q, v.edge_back(x))); it.add("ends", u, kof(q, cv.edge_front(c)), kof(q, cv.edge_back(c))); }
      }
      for (long long a : o.qs) it.add("fv", a, x.try_find_vertex(I(a)) == x.vertices().end() ? -1LL : (long long)(x.try_find_vertex(I(a)) - x.vertices().begin()));
      for (long long a : o.qs) it.add("fv", a, c.try_find_vertex(I(a)) == c.vertices().end() ? -1LL : (long long)(c.try_find_vertex(I(a)) - c.vertices().begin()));
      for (size_t i = 0; i < ls.size(); ++i) it.add("deg", i, (long long)(c.begin() + i)->num_edges());
    }
    ev.raw("[\"obs\"," + std::to_string(q + 1) + "," + it.done() + "]");
  }
  void addv(int q) {
    G& x = *g[q]; long long w = 0; typename G::vertex_iterator it;
    if constexpr (C::vv) {
      switch (rnd(r, 0, 2)) {
      case 0: it = x.create_vertex(); break;
      case 1: w = ++ser; it = x.create_vertex(mkval<VV>((int)w)); break;
      default: { w = ++ser; const VV v = mkval<VV>((int)w); it = x.create_vertex(v); }
      }
    } else it = x.create_vertex();
    op("addv", q + 1, w, (long long)(it - x.vertices().begin()));
  }
  void adde(int q, long long u, long long v) {
    G& x = *g[q]; long long w = 0; typename G::vertex_edge_iterator it;
    auto ui = x.vertices().begin() + u, vi = x.vertices().begin() + v;
    bool ids = rnd(r, 0, 1);
    int form = rnd(r, 0, 2);
    if constexpr (!C::ev) form = 0;
    if (form == 0) it = ids ? x.create_edge(I(u), I(v)) : x.create_edge(ui, vi);
    else if constexpr (C::ev) {
      w = ++ser;
      if (form == 1) it = ids ? x.create_edge(I(u), I(v), mkval<EV>((int)w)) : x.create_edge(ui, vi, mkval<EV>((int)w));
      else { const EV e = mkval<EV>((int)w); it = ids ? x.create_edge(I(u), I(v), e) : x.create_edge(ui, vi, e); }
    }
    key[q][(const void*)&*it] = ++keys;
    long long steps = 0; for (auto j = it; j != vx(q, u).edges_end(x, I(u)) && steps < 1000; ++j) ++steps; // from the new edge to the end of the list
    const G& c = x; auto cb = c.vertices().begin(); auto cu = cb + u, cv = cb + v;
    const auto& e = std::as_const(*it);
    Row ends{(long long)it->other_vertex_id(x, I(v)), (long long)it->other_vertex_id(x, cu), (long long)it->other_vertex_id(x, cv), (long long)(e.other_vertex(c, I(u)) - cb), (long long)(e.other_vertex(c, I(v)) - cb),
             (long long)(it->other_vertex(x, I(u)) - x.vertices().begin()), (long long)(it->other_vertex(x, I(v)) - x.vertices().begin()), (long long)(e.other_vertex(c, cu) - cb), (long long)(e.other_vertex(c, cv) - cb)};
    op("adde", q + 1, u, v, keys, w, (long long)it->other_vertex_id(x, I(u)), val(*it), steps, ends);
  }
  auto at(int q, long long u, long long k) { auto it = vx(q, u).edges_begin(*g[q], I(u)); while (k-- > 1) ++it; return it; }
  long long posof(int q, long long u, typename G::vertex_edge_iterator it) {
    long long k = 1;
    for (auto j = vx(q, u).edges_begin(*g[q], I(u)); j != vx(q, u).edges_end(*g[q], I(u)); ++j, ++k) if (j == it) return k;
    return it == vx(q, u).edges_end(*g[q], I(u)) ? 0 : -1;
  }
  void drop(int q) { // forget the addresses of edges that are gone (they may be used again)
    std::map<const void*, long long> m;
    for (long long u = 0; u < nv(q); ++u) for (auto& e : vx(q, u).edges(*g[q], I(u))) { auto it = key[q].find((const void*)&e); if (it != key[q].end()) m.insert(*it); }
    key[q].swap(m);
  }
  // a vertex with edges, or -1
  long long busy(int q) {
    std::vector<long long> c;
    for (long long u = 0; u < nv(q); ++u) if (vx(q, u).num_edges()) c.push_back(u);
    return c.empty() ? -1 : c[(size_t)rnd(r, 0, (int)c.size() - 1)];
  }
  void create(int q) {
    live[q] = true; key[q].clear();
    long long gvv = 0;
    std::vector<Triple> es; int m = rnd(r, 0, 6);
    for (int k = 0; k < m; ++k) { Triple t{rnd(r, 0, maxn - 1), rnd(r, 0, maxn - 1), C::ev ? ++ser : 0}; if (k && rnd(r, 0, 2) == 0) { t[0] = es.back()[1]; t[1] = es.back()[0]; } es.push_back(t); }
    std::vector<Row> vs; // vertex values
    int form = rnd(r, 0, 6);
    if (form >= 3) std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a[0] < b[0]; }); // range constructors want ordered edges
    std::vector<CE> ce;
    for (auto& e : es) { if constexpr (C::ev) ce.push_back(CE{I(e[0]), I(e[1]), mkval<EV>((int)e[2])}); else ce.push_back(CE{I(e[0]), I(e[1])}); }
    long long n = 0;
    for (auto& e : es) n = std::max({n, e[0] + 1, e[1] + 1});
    auto own = [&] { std::vector<Own> o; for (auto& e : es) o.push_back({(int)e[0], (int)e[1], (int)e[2]}); return o; };
    auto proj = [](const Own& x) { if constexpr (C::ev) return CE{I(x.a), I(x.b), mkval<EV>(x.w)}; else return CE{I(x.a), I(x.b)}; };
    Row vals;
    switch (form) {
    case 0: g[q] = std::make_unique<G>(); es.clear(); n = 0; break;
    case 1: es.clear(); n = 0;
      if constexpr (C::gv) { gvv = ++ser; if (rnd(r, 0, 1)) { GV x = mkval<GV>((int)gvv); g[q] = std::make_unique<G>(x); } else g[q] = std::make_unique<G>(mkval<GV>((int)gvv)); }
      else g[q] = std::make_unique<G>(typename G::allocator_type{});
      break;
    case 2: { // initializer lists of 0 to 3 edges
      es.resize(std::min<size_t>(es.size(), 3));
      n = 0; for (auto& e : es) n = std::max({n, e[0] + 1, e[1] + 1});
      if constexpr (C::ev) {
        if (rnd(r, 0, 1)) {
          using T = std::tuple<Id, Id, EV>; using IL = std::initializer_list<T>;
          auto t = [&](size_t k) { return T{I(es[k][0]), I(es[k][1]), mkval<EV>((int)es[k][2])}; };
          if (es.empty()) g[q] = std::make_unique<G>(IL{}); else if (es.size() == 1) g[q] = std::make_unique<G>(IL{t(0)});
          else if (es.size() == 2) g[q] = std::make_unique<G>(IL{t(0), t(1)}); else g[q] = std::make_unique<G>(IL{t(0), t(1), t(2)});
          break;
        }
      }
      { using T = std::tuple<Id, Id>; using IL = std::initializer_list<T>;
        for (auto& e : es) e[2] = 0;
        auto t = [&](size_t k) { return T{I(es[k][0]), I(es[k][1])}; };
        if (es.empty()) g[q] = std::make_unique<G>(IL{}); else if (es.size() == 1) g[q] = std::make_unique<G>(IL{t(0)});
        else if (es.size() == 2) g[q] = std::make_unique<G>(IL{t(0), t(1)}); else g[q] = std::make_unique<G>(IL{t(0), t(1), t(2)}); }
      break;
    }
    case 3: case 4: // a range of edges
      if constexpr (C::gv) {
        gvv = ++ser; GV x = mkval<GV>((int)gvv);
        if constexpr (C::vv) { if (form == 3) g[q] = std::make_unique<G>(ce, std::identity{}, x); else g[q] = std::make_unique<G>(own(), proj, x); break; }
      } else {
        if constexpr (C::vv) { if (form == 3) g[q] = std::make_unique<G>(ce, std::identity{}); else g[q] = std::make_unique<G>(own(), proj); break; }
      }
      [[fallthrough]];
    default: { // a range of edges and a range of vertices (in id order)
      if constexpr (C::vv) {
        std::vector<CV> cv; int k = rnd(r, 0, maxn + 1);
        for (int j = 0; j < k; ++j) { vals.push_back(++ser); cv.push_back(CV{I(j), mkval<VV>((int)ser)}); }
        n = std::max<long long>(n, k);
        if constexpr (C::gv) { gvv = ++ser; g[q] = std::make_unique<G>(ce, cv, std::identity{}, std::identity{}, mkval<GV>((int)gvv)); }
        else g[q] = std::make_unique<G>(ce, cv, std::identity{}, std::identity{});
      } else { g[q] = std::make_unique<G>(); es.clear(); n = 0; gvv = 0; }
    }
    }
    op("new", q + 1, es, n, vals, gvv, lists(q, true));
  }
  void step(int w) {
    int q = rnd(r, 0, NR - 1), p = rnd(r, 0, NR - 1);
    if (!g[q]) { create(q); obs(q, true); return; }
    if (!live[q]) { // a moved-from graph: given new contents, or destroyed
      if (rnd(r, 0, 1)) { create(q); obs(q, true); return; }
      if (p == q || !g[p] || !live[p]) { g[q].reset(); op("del", q + 1); return; }
      if (rnd(r, 0, 1)) { *g[q] = *g[p]; live[q] = true; op("copy", p + 1, q + 1, lists(q, true)); }
      else { *g[q] = std::move(*g[p]); live[q] = true; live[p] = false; op("move", p + 1, q + 1, lists(q, true)); key[p].clear(); }
      obs(q, false); return;
    }
    G& x = *g[q];
    long long n = nv(q);
    switch (w) {
    case 0: if (n < maxn) addv(q); break;
    case 1: case 2: if (n) { // an edge, often next to an existing one
        long long u = rnd(r, 0, (int)n - 1), v = rnd(r, 0, 4) == 0 ? u : rnd(r, 0, (int)n - 1);
        adde(q, u, v);
      } else addv(q);
      break;
    case 3: { // erase through one of the ends
      long long u = busy(q); if (u < 0) break;
      long long k = rnd(r, 0, 1) ? rnd(r, 1, (int)vx(q, u).num_edges()) : rnd(r, 0, 1) ? 1 : (long long)vx(q, u).num_edges();
      auto it = at(q, u, k);
      typename G::vertex_edge_iterator ret;
      if (rnd(r, 0, 1)) ret = vx(q, u).erase_edge(x, it); else ret = erase_edge(x, it);
      drop(q);
      op("erase", q + 1, u, k, k, posof(q, u, ret));
      break;
    }
    case 4: { // erase a range of one vertex's edges
      long long u = busy(q); if (u < 0) break;
      long long d = (long long)vx(q, u).num_edges(), a = rnd(r, 1, (int)d), b = rnd(r, (int)a - 1, (int)d); // positions a..b, empty if b < a
      auto f = at(q, u, a), l = b < d ? at(q, u, b + 1) : vx(q, u).edges_end(x, I(u));
      auto ret = vx(q, u).erase_edge(x, f, l);
      drop(q);
      op("erase", q + 1, u, a, b, posof(q, u, ret));
      break;
    }
    case 5: { // erase through the edges of the whole graph
      Row before = wkeys(q); if (before.empty()) break;
      int k = rnd(r, 1, (int)before.size());
      auto it = x.edges().begin(); for (int j = 1; j < k; ++j) ++it;
      auto ret = x.erase_edge(it);
      drop(q);
      Row after = wkeys(q); long long pos = 0, c = 1;
      if (!(ret == x.edges().end())) { pos = -1; for (auto j = x.edges().begin(); j != x.edges().end(); ++j, ++c) if (j == ret) { pos = c; break; } }
      op("gerase", q + 1, before, k, after, pos);
      break;
    }
    case 6: { if (!n) break; long long u = rnd(r, 0, (int)n - 1); if (rnd(r, 0, 1)) vx(q, u).clear_edges(x); else clear_edges(x, x.vertices().begin() + u); drop(q); op("cleare", q + 1, u); break; }
    case 7: if (rnd(r, 0, 2) == 0) { x.clear(); drop(q); op("clear", q + 1); } else { x.reserve_vertices((size_t)rnd(r, 0, 2 * maxn)); } break;
    case 8: { // resize
      long long m = rnd(r, 0, maxn), w2 = 0;
      if constexpr (C::vv) { if (rnd(r, 0, 1)) { w2 = ++ser; x.resize_vertices((size_t)m, mkval<VV>((int)w2)); } else x.resize_vertices((size_t)m); } else x.resize_vertices((size_t)m);
      drop(q); op("resize", q + 1, m, w2);
      break;
    }
    case 9: if constexpr (C::vv) { if (!n) break; long long u = rnd(r, 0, (int)n - 1); ++ser;
        if (rnd(r, 0, 1)) vx(q, u).value() = mkval<VV>((int)ser); else graph::vertex_value(x, *graph::find_vertex(x, I(u))) = mkval<VV>((int)ser);
        op("setv", q + 1, u, ser); }
      break;
    case 10: case 11: if constexpr (C::ev) { long long u = busy(q); if (u < 0) break;
        long long k = rnd(r, 1, (int)vx(q, u).num_edges()); ++ser;
        if (rnd(r, 0, 1)) at(q, u, k)->value() = mkval<EV>((int)ser);
        else { long long c = 0; for (auto e : graph::edges(x, *graph::find_vertex(x, I(u)))) if (++c == k) graph::edge_value(x, e) = mkval<EV>((int)ser); }
        op("sete", q + 1, u, k, ser); }
      break;
    case 12: if constexpr (C::gv) { ++ser; x.graph_value() = mkval<GV>((int)ser); op("setgv", q + 1, ser); } break;
    case 13: case 14: // copy q to p
      if (p == q) { if (rnd(r, 0, 1)) { G& y = x; x = y; op("copy", q + 1, q + 1, lists(q, true)); } break; }
      if (g[p] && rnd(r, 0, 2)) *g[p] = std::as_const(x); else g[p] = std::make_unique<G>(std::as_const(x));
      live[p] = true; op("copy", q + 1, p + 1, lists(p, true)); obs(p, false); break;
    case 15: if (p == q) break;
      if (g[p] && rnd(r, 0, 2)) *g[p] = std::move(x); else g[p] = std::make_unique<G>(std::move(x));
      live[p] = true; live[q] = false; key[q].clear(); op("move", q + 1, p + 1, lists(p, true)); obs(p, false); break;
    case 16: { if (p == q || !g[p] || !live[p]) break;
      if (rnd(r, 0, 1)) x.swap(*g[p]); else std::swap(x, *g[p]);
      std::string a; auto l1 = lists(q, true), l2 = lists(p, true);
      op("swap", q + 1, p + 1, l1, l2); obs(p, true); break; }
    }
    obs(q, rnd(r, 0, 2) != 0);
  }
  void run(int steps) {
    for (int s = 0; s < steps; ++s) {
#if PROP == 7
      static const int mix[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 13, 14, 15, 15, 16};
#else
      static const int mix[] = {0, 0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10};
#endif
      step(mix[rnd(r, 0, (int)std::size(mix) - 1)]);
    }
    for (int q = 0; q < NR; ++q) obs(q, false);
    for (int q = 0; q + 1 < NR; ++q) { g[q].reset(); obs(q + 1, true); }
  }
};
template <class C> void histories(Rng& r, long count, int steps, int mx, const char*) {
  for (long c = 0; c < count; ++c) {
    std::string nm = C::name();
    OUT.rep = nm.c_str();
    Guard grd("{}");
    Hist<C> h(r, mx);
    h.run(steps);
    emit(Obj().kv("k", "history").kv("rep", nm).kv("nreg", Hist<C>::NR).raw("ev", h.ev.done()).done());
  }
}
template <class... Cs> void all(Rng& r) {
  auto one = [&]<class C>() {
    histories<C>(r, OUT.thorough ? 1200 : 60, 16, 3, "");
    histories<C>(r, OUT.thorough ? 600 : 40, 30, 5, "");
    histories<C>(r, OUT.thorough ? 60 : 4, 120, 9, "");
  };
  (one.template operator()<Cs>(), ...);
}
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 1013 + 17 * PROP + PART);
#if PART == 0
  all<UCfg<int, int, int, uint32_t>, UCfg<str, int, void, uint32_t>>(r);
#else
  all<UCfg<int, str, str, uint64_t>, UCfg<int, int, void, uint16_t>>(r);
#endif
  return finish();
}
