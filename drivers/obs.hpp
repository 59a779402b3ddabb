// Observation of a graph through every access function; one JSON item per question asked.
#pragma once
#include "common.hpp"
template <class T> long long ival(const T& x) {
  if constexpr (std::is_same_v<T, std::string>) return x.empty() ? 0 : std::stoll(x);
  else if constexpr (std::is_arithmetic_v<T>) return (long long)x;
  else if constexpr (requires { (long long)x.v; }) return (long long)x.v;
  else if constexpr (requires { std::tuple_size<T>::value; }) return ival(std::get<0>(x));
  else return 0;
}
template <class T> T mkval(int x) {
  if constexpr (std::is_same_v<T, std::string>) return x == 0 ? std::string() : std::to_string(x);
  else return T(x);
}
struct Items {
  std::string s = "[";
  bool first    = true;
  long count    = 0;
  template <class... A> void add(const char* k, const A&... a) {
    if (!first) s += ',';
    first = false;
    ++count;
    s += "[\"";
    s += k;
    s += '"';
    ((s += ',', js(s, a)), ...);
    s += ']';
  }
  std::string done() const { return s + "]"; }
};
using Row  = std::vector<long long>;
using Rows = std::vector<Row>;
struct ObsOpt {
  std::vector<long long> qs; // ids asked for in lookups
  bool in    = false; // incoming edges
  bool src   = true;  // source ids
  bool und   = false;
  bool light = false; // counts and adjacency only
  bool intgt = true;
};
template <bool EV, class G, class E> long long eval_of(G& g, const E& e) {
  if constexpr (EV) return ival(graph::edge_value(g, e));
  else return 0;
}
// position of the edge descriptor f in the out-edges of u, 1-based; 0 if it is none of them
template <class R, class E> long long pos_of(R&& r, const E& f) {
  long long k = 0;
  for (auto e : r) { ++k; if (e == f) return k; }
  return 0;
}
// ids as numbers (string ids hold numbers)
template <class I> long long lid(const I& x) {
#ifdef WIDE_IDS // ids far from 0
  if constexpr (std::is_integral_v<I>) { long long y = (long long)x; return y >= 4900000000LL ? y - 5000000000LL : y >= 3900000000LL ? y - 4000000000LL : y >= 1900000000LL ? y - 2000000000LL : y; }
#else
  if constexpr (std::is_integral_v<I>) return (long long)x;
#endif
  else return std::stoll(std::string(x));
}
template <class I> I mid(long long x) {
  if constexpr (std::is_integral_v<I>) return (I)x;
  else return I(std::to_string(x));
}
template <bool VV = false, bool EV = true, class G> void observe(Items& o, G& g, const ObsOpt& q) {
  namespace gr = graph;
  using VId = gr::vertex_id_t<G>;
  o.add("nv", (long long)gr::num_vertices(g));
  o.add("ne", (long long)gr::num_edges(g));
  o.add("he", gr::has_edges(g));
  Row ids;
  Rows vals;
  for (auto u : gr::vertices(g)) {
    ids.push_back(lid(gr::vertex_id(g, u)));
    if constexpr (VV) vals.push_back({lid(gr::vertex_id(g, u)), ival(gr::vertex_value(g, u))});
  }
  o.add("vs", ids);
  if constexpr (VV) o.add("vv", vals);
  if constexpr (requires { ival(gr::graph_value(g)); }) o.add("gv", ival(gr::graph_value(g)));
  if constexpr (requires { std::ranges::size(gr::vertices(g)); }) o.add("nv", (long long)std::ranges::size(gr::vertices(g)));
  for (auto u : gr::vertices(g)) {
    auto uid = gr::vertex_id(g, u);
    Rows r;
    long long n = 0;
    for (auto e : gr::edges(g, u)) {
      r.push_back({q.src ? lid(gr::source_id(g, e)) : lid(uid), lid(gr::target_id(g, e)), eval_of<EV>(g, e)});
      ++n;
    }
    o.add("out", lid(uid), r);
    if constexpr (requires { gr::degree(g, u); }) o.add("deg", lid(uid), (long long)gr::degree(g, u));
    if (q.light) continue;
    Rows ri, rt;
    for (auto e : gr::edges(g, uid)) ri.push_back({lid(uid), lid(gr::target_id(g, e)), eval_of<EV>(g, e)});
    o.add("out", lid(uid), ri);
    for (auto e : gr::out_edges(g, u)) { // through the vertices at both ends
      auto t = gr::target(g, e);
      long long s = lid(uid);
      if constexpr (requires { gr::source(g, e); }) s = lid(gr::vertex_id(g, gr::source(g, e)));
      rt.push_back({s, lid(gr::vertex_id(g, t)), eval_of<EV>(g, e)});
    }
    o.add("out", lid(uid), rt);
    o.add("deg", lid(uid), (long long)gr::degree(g, uid));
    if constexpr (requires { gr::num_edges(g, u); }) o.add("deg", lid(uid), (long long)gr::num_edges(g, u));
    if constexpr (requires { gr::num_edges(g, uid); }) o.add("deg", lid(uid), (long long)gr::num_edges(g, uid));
    if constexpr (requires { std::ranges::size(gr::edges(g, u)); }) o.add("deg", lid(uid), (long long)std::ranges::size(gr::edges(g, u)));
  }
  if (!q.light)
    for (long long a : q.qs) {
      auto it = gr::find_vertex(g, mid<VId>(a));
      bool hit = it != std::ranges::end(gr::vertices(g));
      o.add("fv", a, hit ? lid(gr::vertex_id(g, *it)) : -1LL);
      if constexpr (requires { g.contains_vertex(mid<VId>(a)); }) {
        o.add("fv", a, g.contains_vertex(mid<VId>(a)) ? a : -1LL);
        o.add("fv", a, g.try_find_vertex(mid<VId>(a)) != g.end() ? a : -1LL);
      }
      if (!hit) continue;
      auto u = *it;
      for (long long b : q.qs) {
        auto jt = gr::find_vertex(g, mid<VId>(b));
        bool has = jt != std::ranges::end(gr::vertices(g));
        auto fe  = [&](const auto& f) {
          long long p = pos_of(gr::edges(g, u), f);
          o.add("fe", a, b, p, p ? lid(gr::target_id(g, f)) : -1LL);
        };
        fe(gr::find_vertex_edge(g, u, mid<VId>(b)));
        fe(gr::find_vertex_edge(g, mid<VId>(a), mid<VId>(b)));
        o.add("ce", a, b, (bool)gr::contains_edge(g, mid<VId>(a), mid<VId>(b)));
        if (has) {
          auto v = *jt;
          fe(gr::find_vertex_edge(g, u, v));
          o.add("ce", a, b, (bool)gr::contains_edge(g, u, v));
        }
      }
    }
  if constexpr (requires { gr::in_edges(g, *std::ranges::begin(gr::vertices(g))); }) {
    if (q.in) {
      for (auto u : gr::vertices(g)) {
        auto uid = gr::vertex_id(g, u);
        Rows r, ri, rt;
        for (auto e : gr::in_edges(g, u)) r.push_back({lid(gr::source_id(g, e)), lid(uid), eval_of<EV>(g, e)});
        o.add("in", lid(uid), r);
        o.add("indeg", lid(uid), (long long)gr::in_degree(g, u));
        if (q.light) continue;
        for (auto e : gr::in_edges(g, uid)) ri.push_back({lid(gr::source_id(g, e)), lid(uid), eval_of<EV>(g, e)});
        o.add("in", lid(uid), ri);
        o.add("indeg", lid(uid), (long long)gr::in_degree(g, uid));
        if constexpr (requires { gr::source(g, *std::ranges::begin(gr::in_edges(g, u))); }) {
          for (auto e : gr::in_edges(g, u)) rt.push_back({lid(gr::vertex_id(g, gr::source(g, e))), lid(uid), eval_of<EV>(g, e)});
          o.add("in", lid(uid), rt);
        }
      }
      if (!q.light)
        for (long long a : q.qs) {
          auto it = gr::find_vertex(g, mid<VId>(a));
          if (it == std::ranges::end(gr::vertices(g))) continue;
          auto u = *it;
          for (long long b : q.qs) {
            auto jt = gr::find_vertex(g, mid<VId>(b));
            bool has = jt != std::ranges::end(gr::vertices(g));
            if (!has) continue;
            auto v = *jt;
            auto fie = [&](const auto& f) { // the incoming edge of u, or the same edge as an outgoing edge of v
              long long p = 0;
              if constexpr (requires { *std::ranges::begin(gr::in_edges(g, u)) == f; }) {
                p = pos_of(gr::in_edges(g, u), f);
                o.add("fie", a, b, p, p ? lid(gr::source_id(g, f)) : -1LL);
              } else {
                p = pos_of(gr::edges(g, v), f);
                o.add("fe", b, a, p, p ? lid(gr::target_id(g, f)) : -1LL);
              }
            };
            fie(gr::find_in_edge(g, u, mid<VId>(b)));
            fie(gr::find_in_edge(g, mid<VId>(a), mid<VId>(b)));
            fie(gr::find_in_edge(g, u, v));
            o.add("cie", a, b, (bool)gr::contains_in_edge(g, mid<VId>(a), mid<VId>(b)));
            o.add("cie", a, b, (bool)gr::contains_in_edge(g, u, v));
          }
        }
    }
  }
}
