// Edge lists (E01): elements of every accepted form, the edge-list views over them, graphs built from them, and
// adjacency lists flattened to edge lists.
#define WIDE_IDS 1
#include "reps.hpp"
#include <array>
#include <compare>
#include <deque>
#include <span>
#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
#include <graph/views/adaptors.hpp>
#include <graph/views/edgelist.hpp>
namespace gv = graph::views;
namespace gel = graph::edge_list;
using Recs = std::vector<Row>;
// ---- elements of the user's own
namespace mine {
struct Data { int source_id; int target_id; double value; bool operator==(const Data&) const = default; };      // data members
struct Bare { long target_id; std::string note; long source_id; };                                               // no value, another order
struct Fn { unsigned f, t; int w; int value() const { return w; } };                                             // value() member; ids by functions
template <class L> unsigned source_id(const L&, const Fn& e) { return e.f; }
template <class L> unsigned target_id(const L&, const Fn& e) { return e.t; }
struct Swapped { std::tuple<int, int, int> x; };                                                                 // functions for everything
template <class L> int source_id(const L&, const Swapped& e) { return std::get<2>(e.x); }
template <class L> int target_id(const L&, const Swapped& e) { return std::get<0>(e.x); }
template <class L> const int& edge_value(const L&, const Swapped& e) { return std::get<1>(e.x); }
// a list type with its own functions, over pairs that are not what they seem: (target, source)
struct List : std::vector<std::pair<int, int>> {
  using std::vector<std::pair<int, int>>::vector;
  int source_id(const std::pair<int, int>& e) const { return e.second; }
  int edge_value(const std::pair<int, int>& e) const { return e.second * 100 + e.first; }
};
inline int target_id(const List&, const std::pair<int, int>& e) { return e.first; }
}
// ---- forms: how an element is made from source, target, value; what value it should have (-1 none)
template <class VId> struct Store { VId s, t; int v; };
template <class T> struct IsTup : std::false_type {};
template <class... A> struct IsTup<std::tuple<A...>> : std::true_type {};
// an id of the list: as wide as its type allows
template <class I> I em(long long x) {
  if constexpr (!std::is_integral_v<I> || sizeof(I) < 4) return mid<I>(x);
  else if constexpr (sizeof(I) == 8) return (I)(5000000000LL + x);
  else return (I)((std::is_signed_v<I> ? 2000000000LL : 4000000000LL) + x);
}
template <class E> E mk(const Triple& a) {
  if constexpr (IsTup<E>::value) {
    using S = std::tuple_element_t<0, E>; using T = std::tuple_element_t<1, E>;
    if constexpr (!std::is_same_v<S, T>) return E{mid<S>(a[0]), mid<T>(a[1])}; // (a list has one id type: that of the sources)
    else if constexpr (std::tuple_size_v<E> == 2) return E{em<S>(a[0]), em<T>(a[1])};
    else if constexpr (std::tuple_size_v<E> == 3) return E{em<S>(a[0]), em<T>(a[1]), mkval<std::tuple_element_t<2, E>>((int)a[2])};
    else return E{em<S>(a[0]), em<T>(a[1]), mkval<std::tuple_element_t<2, E>>((int)a[2]), mkval<std::tuple_element_t<3, E>>((int)a[2] + 77)};
  } else if constexpr (std::is_same_v<E, mine::Data>) return {em<int>(a[0]), em<int>(a[1]), (double)a[2]};
  else if constexpr (std::is_same_v<E, mine::Bare>) return {em<long>(a[1]), "n", em<long>(a[0])};
  else if constexpr (std::is_same_v<E, mine::Fn>) return {em<unsigned>(a[0]), em<unsigned>(a[1]), (int)a[2]};
  else if constexpr (std::is_same_v<E, mine::Swapped>) return {{em<int>(a[1]), (int)a[2], em<int>(a[0])}};
  else if constexpr (requires(E e) { e.first; }) return E{em<std::remove_const_t<decltype(E{}.first)>>(a[0]), em<decltype(E{}.second)>(a[1])};
  else { // edge_data
    using S = std::remove_cvref_t<decltype(E{}.source_id)>;
    if constexpr (requires(E e) { e.edge; e.value; }) return E{em<S>(a[0]), em<S>(a[1]), (int)a[2] + 500, mkval<std::remove_cvref_t<decltype(E{}.value)>>((int)a[2])};
    else if constexpr (requires(E e) { e.edge; }) return E{em<S>(a[0]), em<S>(a[1]), (int)a[2] + 500};
    else if constexpr (requires(E e) { e.value; }) return E{em<S>(a[0]), em<S>(a[1]), mkval<std::remove_cvref_t<decltype(E{}.value)>>((int)a[2])};
    else return E{em<S>(a[0]), em<S>(a[1])};
  }
}
struct Run {
  Rng& r;
  std::string nm;
  Ev ev;
  template <class X, class E> static Row rec(X& el, E&& e) {
    Row x{lid(graph::source_id(el, e)), lid(graph::target_id(el, e)), -1};
    if constexpr (requires { graph::edge_value(el, e); }) x[2] = ival(graph::edge_value(el, e));
    return x;
  }
  void rows(const char* how, const Rows& x) { std::string s; js(s, x); ev.raw(std::string("[\"rows\",\"") + how + "\"," + s + "]"); }
  void begin(const std::vector<Triple>& want, bool valued) {
    ev = Ev{};
    Rows w; for (auto& a : want) w.push_back({a[0], a[1], valued ? a[2] : -1});
    std::string s; js(s, w);
    ev.raw("[\"list\"," + s + "]");
    OUT.pending = Obj().kv("cfg", nm).raw("list", s).done();
  }
  void finish1() { emit(Obj().kv("k", "list").kv("rep", nm).raw("ev", ev.done()).done()); }
  // the elements of a list
  template <class X> void elements(X& el, const char* how) {
    Rows x;
    for (auto&& e : el) x.push_back(rec(el, e));
    rows(how, x);
    if constexpr (std::is_lvalue_reference_v<std::ranges::range_reference_t<X>>) {
      x.clear(); for (const auto& e : el) x.push_back(rec(el, e));
      rows(how, x);
    }
    if constexpr (std::ranges::forward_range<X>) { x.clear(); for (auto e : el) x.push_back(rec(el, std::move(e))); rows(how, x); }
    static_assert(gel::basic_sourced_edgelist<X>);
  }
  // a view over a list: rows <<source, target, source of edge, target of edge, value of edge, function value>>
  template <class X, class W> void view(X& el, W&& w, int k) {
    long long size = -1;
    if constexpr (requires { w.size(); }) size = (long long)w.size();
    for (int pass = 0; pass < 2; ++pass) {
      Rows out;
      bool post = rnd(r, 0, 1);
      auto e = w.end();
      for (auto it = w.begin(); it != e;) {
        auto x = *it;
        Row q{lid(x.source_id), lid(x.target_id)};
        Row y = rec(el, x.edge); q.insert(q.end(), y.begin(), y.end());
        if constexpr (requires { x.value; }) q.push_back((long long)x.value); else q.push_back(0);
        out.push_back(q);
        if (post) { auto old = it++; if (old == it) out.push_back({-7}); } else { auto c = it; ++it; ++c; if (!(c == it)) out.push_back({-8}); }
      }
      std::string s; js(s, out);
      ev.raw("[\"view\"," + std::to_string(k) + "," + std::to_string(size) + "," + s + "]");
    }
  }
  template <class X> void views(X& el) {
    int k = rnd(r, 1, 9);
    auto f = [k](auto& l, auto&& e) { Row x = rec(l, e); return (x[0] * 100 + x[1]) * 10 + k; };
    static_assert(!graph::adj_list::adjacency_list<X>);
    if (rnd(r, 0, 1)) view(el, gv::edgelist(el), 0); else view(el, gv::edgelist(el, f), k);
    { // the view is an edge list itself
      auto w = gv::edgelist(el);
      Rows x; for (auto e : w) x.push_back({lid(graph::source_id(w, e)), lid(graph::target_id(w, e)), rec(el, e.edge)[2]});
      rows("of-view", x);
    }
  }
  // a graph built from the list, with a projection that uses the library's access functions
  template <class G, class X> void graph_of(X& el, long long n, bool valued) {
    using Id = graph::vertex_id_t<G>;
    G g;
    bool keyed = !std::integral<Id>;
    auto proj = [&](auto&& e) { Row x = rec(el, e); return graph::copyable_edge_t<Id, int>{mid<Id>(x[0]), mid<Id>(x[1]), (int)x[2]}; };
    if constexpr (requires { g.load_edges(el, proj, (size_t)n); }) g.load_edges(el, proj, keyed ? 0 : (size_t)n); else g.load_edges(el, proj);
    std::string s = "[";
    bool first = true;
    for (auto u : graph::vertices(g)) {
      Rows out; for (auto e : graph::edges(g, u)) out.push_back({lid(graph::target_id(g, e)), graph::edge_value(g, e)});
      std::string t; js(t, out);
      s += (first ? "[" : ",[") + std::to_string(lid(graph::vertex_id(g, u))) + "," + t + "]"; first = false;
    }
    ev.raw("[\"graph\"," + std::to_string(keyed ? -1 : n) + "," + s + "]]");
    // flattened again
    auto val = [](const auto& h, const auto& e) { return graph::edge_value(h, e); };
    auto fl = gv::basic_edgelist(g, val);
    Rows x;
    for (auto e : fl) x.push_back({lid(graph::source_id(fl, e)), lid(graph::target_id(fl, e)), graph::edge_value(fl, e)});
    rowsflat(x);
    x.clear();
    auto fd = gv::edgelist(g, val);
    for (auto e : fd) x.push_back({lid(graph::source_id(fd, e)), lid(graph::target_id(fd, e)), graph::edge_value(fd, e)});
    rowsflat(x);
    x.clear();
    for (auto [u, v, uv] : gv::edgelist(fl)) x.push_back({lid(u), lid(v), graph::edge_value(fl, uv)}); // an edge list like any other
    rowsflat(x);
    x.clear();
    // and a graph of that
    G h;
    auto pr = [](auto&& e) { return graph::copyable_edge_t<Id, int>{e.source_id, e.target_id, e.value}; };
    if constexpr (requires { h.load_edges(fl, pr, (size_t)n); }) h.load_edges(fl, pr, keyed ? 0 : (size_t)n); else h.load_edges(fl, pr);
    auto fh = gv::basic_edgelist(h, val);
    for (auto e : fh) x.push_back({lid(e.source_id), lid(e.target_id), e.value});
    rowsflat(x);
    (void)valued;
  }
  void rowsflat(const Rows& x) { std::string s; js(s, x); ev.raw("[\"flat\"," + s + "]"); }
};
template <class X> void fill(X& c, const std::vector<Triple>& l) {
  using E = std::ranges::range_value_t<X>;
  if constexpr (requires(E e) { c.push_back(e); }) for (auto& a : l) c.push_back(mk<E>(a));
  else if constexpr (requires(E e) { c.push_front(e); }) for (size_t i = l.size(); i-- > 0;) c.push_front(mk<E>(l[i]));
  else for (auto& a : l) c.insert(mk<E>(a));
}
static std::vector<Triple> list_of(Rng& r, int n, int m, bool dup) {
  std::vector<Triple> l; std::set<std::pair<long long, long long>> seen;
  for (int i = 0; i < m; ++i) { long long a = rnd(r, 0, n - 1), b = rnd(r, 0, n - 1); if (!dup && !seen.insert({a, b}).second) continue; l.push_back({a, b, rnd(r, 0, 200)}); }
  return l;
}
template <class F> void lists(Rng& r, F f) {
  f(std::vector<Triple>{}, 0);
  bool t = OUT.thorough;
  for (int i = 0; i < (t ? 150 : 12); ++i) { int n = rnd(r, 1, 4); f(list_of(r, n, rnd(r, 1, 4), true), n); }
  for (int i = 0; i < (t ? 300 : 14); ++i) { int n = rnd(r, 2, 9); f(list_of(r, n, rnd(r, 3, 25), rnd(r, 0, 1)), n); }
}
template <class C> void form(Rng& r, const char* nm) {
  using E = std::ranges::range_value_t<C>;
  OUT.rep = nm;
  lists(r, [&](std::vector<Triple> l, int n) {
    Guard grd("{}");
    if constexpr (!requires(C c, E e) { c.push_back(e); } && !requires(C c, E e) { c.push_front(e); }) { // a set: sorted, unique
      C c; fill(c, l); std::vector<Triple> k;
      for (auto& e : c) for (auto& a : l) if (mk<E>(a) == e) { k.push_back(a); break; }
      l = k;
    }
    Run run{r, nm};
    C c; fill(c, l);
    constexpr bool valued = requires(C& x, E e) { graph::edge_value(x, e); };
    run.begin(l, valued);
    run.elements(c, "lvalue");
    { const C& k = c; run.elements(k, "const"); run.views(k); }
    run.views(c);
    if constexpr (std::ranges::contiguous_range<C>) { std::span<const E> s(c); run.elements(s, "span"); run.views(s); }
    auto tr = c | std::views::filter([](auto&&) { return true; });
    run.elements(tr, "filtered"); run.views(tr);
    auto tf = c | std::views::transform([](const auto& e) { return e; });
    run.elements(tf, "transformed"); run.views(tf);
    using Id = std::remove_cvref_t<decltype(graph::source_id(c, *c.begin()))>;
    if constexpr (std::integral<Id>) {
      run.template graph_of<gc::dynamic_graph<int, void, void, uint32_t, false, gc::vov_graph_traits<int, void, void, uint32_t, false>>>(c, n, valued);
      run.template graph_of<gc::dynamic_graph<int, void, void, uint32_t, false, gc::mol_graph_traits<int, void, void, uint32_t, false>>>(c, n, valued);
      if (std::ranges::is_sorted(l, {}, [](auto& a) { return a[0]; })) run.template graph_of<gc::compressed_graph<int, void, void>>(c, n, valued);
    } else {
      run.template graph_of<gc::dynamic_graph<int, void, void, str, false, gc::mov_graph_traits<int, void, void, str, false>>>(c, n, valued);
    }
    run.finish1();
  });
}
// the library's own edge descriptors refer to ids and values stored elsewhere
template <class VId, class EV> void descriptors(Rng& r, const char* nm) {
  OUT.rep = nm;
  using E = gel::edge_descriptor<VId, EV>;
  struct Rec { VId s, t; std::conditional_t<std::is_void_v<EV>, int, EV> v; };
  lists(r, [&](const std::vector<Triple>& l, int n) {
    Guard grd("{}");
    std::deque<Rec> store;
    for (auto& a : l) { if constexpr (std::is_void_v<EV>) store.push_back({em<VId>(a[0]), em<VId>(a[1]), 0}); else store.push_back({em<VId>(a[0]), em<VId>(a[1]), mkval<EV>((int)a[2])}); }
    std::vector<E> c; // grows: descriptors are copied and moved
    for (auto& x : store) { if constexpr (std::is_void_v<EV>) c.emplace_back(x.s, x.t); else c.emplace_back(x.s, x.t, x.v); }
    Run run{r, nm};
    run.begin(l, !std::is_void_v<EV>);
    run.elements(c, "lvalue");
    { const auto& k = c; run.elements(k, "const"); run.views(k); }
    run.views(c);
    if constexpr (std::integral<VId>) {
      run.template graph_of<gc::dynamic_graph<int, void, void, uint32_t, false, gc::vov_graph_traits<int, void, void, uint32_t, false>>>(c, n, !std::is_void_v<EV>);
    } else run.template graph_of<gc::dynamic_graph<int, void, void, str, false, gc::mov_graph_traits<int, void, void, str, false>>>(c, n, true);
    // comparisons: <<i, j, equal, order>>
    Rows cmp;
    if constexpr (!std::is_same_v<EV, double>) for (int k = 0; k < 12 && !l.empty(); ++k) {
      size_t i = (size_t)rnd(r, 0, (int)l.size() - 1), j = (size_t)rnd(r, 0, (int)l.size() - 1);
      auto o = c[i] <=> c[j];
      cmp.push_back({(long long)i, (long long)j, c[i] == c[j], o < 0 ? -1 : o > 0 ? 1 : 0});
    }
    std::string s; js(s, cmp); run.ev.raw("[\"cmp\"," + s + "]");
    // the values are those of the store: a change shows
    if constexpr (!std::is_void_v<EV>) if (!l.empty()) {
      auto l2 = l; size_t i = (size_t)rnd(r, 0, (int)l.size() - 1);
      store[i].v = mkval<EV>(201); l2[i][2] = 201;
      Rows w; for (auto& a : l2) w.push_back({a[0], a[1], a[2]});
      std::string t; js(t, w); run.ev.raw("[\"list\"," + t + "]");
      run.elements(c, "changed");
    }
    run.finish1();
  });
}
template <class L> void own_list(Rng& r, const char* nm) { // the list type's functions come before the element's
  OUT.rep = nm;
  lists(r, [&](const std::vector<Triple>& l0, int) {
    Guard grd("{}");
    std::vector<Triple> l = l0; L c;
    for (auto& a : l) { a[2] = a[0] * 100 + a[1]; c.push_back({(int)a[1], (int)a[0]}); }
    Run run{r, nm};
    run.begin(l, true);
    run.elements(c, "lvalue");
    { const L& k = c; run.elements(k, "const"); run.views(k); }
    run.views(c);
    run.finish1();
  });
}
using ED = void;
template <class VId, class E, class EV> using Data = graph::edge_data<VId, true, E, EV>;
int main(int argc, char** argv) {
  init(argc, argv);
  Rng r(OUT.seed * 911 + PART);
  using std::pair; using std::tuple; using std::vector;
#if PART == 0
  form<vector<pair<int, int>>>(r, "vec-pair");
  form<std::list<pair<uint8_t, uint8_t>>>(r, "list-pair-u8");
  form<std::set<pair<int, int>>>(r, "set-pair");
  form<std::multimap<int, int>>(r, "multimap");
  form<vector<pair<str, str>>>(r, "vec-pair-str");
  form<vector<tuple<int, int>>>(r, "vec-tuple2");
  form<std::deque<tuple<int, long>>>(r, "deque-tuple2-mixed");
  form<vector<tuple<int, int, int>>>(r, "vec-tuple3");
  form<std::forward_list<tuple<size_t, size_t, double>>>(r, "flist-tuple3-double");
  form<vector<tuple<str, str, str>>>(r, "vec-tuple3-str");
  form<vector<tuple<int, int, int, int>>>(r, "vec-tuple4");
  form<vector<tuple<long long, long long, int>>>(r, "vec-tuple3-wide"); form<std::list<pair<uint64_t, uint64_t>>>(r, "list-pair-wide");
#elif PART == 1
  form<vector<Data<int, void, void>>>(r, "vec-data");
  form<vector<Data<unsigned, void, int>>>(r, "vec-data-value");
  form<std::list<Data<int, void, double>>>(r, "list-data-double");
  form<vector<Data<int, int, void>>>(r, "vec-data-edge");
  form<std::deque<Data<int, int, int>>>(r, "deque-data-edge-value");
  form<vector<Data<str, void, str>>>(r, "vec-data-str");
  form<vector<mine::Data>>(r, "own-data"); form<std::list<mine::Bare>>(r, "own-bare");
  form<vector<mine::Fn>>(r, "own-functions"); form<vector<Data<uint64_t, void, int>>>(r, "vec-data-wide"); form<vector<mine::Swapped>>(r, "own-swapped");
  own_list<mine::List>(r, "own-list");
  descriptors<int, void>(r, "descriptor"); descriptors<size_t, int>(r, "descriptor-int"); descriptors<int, double>(r, "descriptor-double"); descriptors<str, str>(r, "descriptor-str");
#endif
  return finish();
}
