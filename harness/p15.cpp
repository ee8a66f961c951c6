// C15: routing costs and the views of the routing graph
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_routing/Exceptions.h>
#include <lanelet2_routing/Forward.h>
#include <boost/geometry/algorithms/perimeter.hpp>
#include <memory>
#include <numeric>
#include <lanelet2_routing/RoutingCost.h>
#define private public
#include <lanelet2_routing/RoutingGraph.h>
#undef private
#include <lanelet2_routing/internal/Graph.h>

#include "vf.h"
#include "vf_rules.h"
using namespace routing;
using routing::internal::EdgeInfo;
using G = routing::internal::RoutingGraphGraph;
using R = RelationType;
using Desc = routing::internal::GraphTraits::edge_descriptor;
VF_MODULAR(lengths)
#ifdef VF_NATIVE
template <>
struct vf::Gen<EdgeInfo> {
  static EdgeInfo make(Chooser& ch) {
    static const double costs[] = {0., 1., 2.5, 1e9, -1., -1e-9, std::numeric_limits<double>::infinity()};
    EdgeInfo e;
    e.routingCost = costs[ch.choose(7)];
    e.costId = RoutingCostId(ch.flip() ? 0 : ch.choose(3));
    e.relation = R(ch.flip() ? 1 << ch.choose(7) : ch.choose(128));
    return e;
  }
};
template <>
struct vf::Gen<ConstLaneletOrArea> {
  static ConstLaneletOrArea make(Chooser& ch) {
    if (ch.flip(1, 4)) return Gen<ConstArea>::make(ch);
    return Gen<ConstLanelet>::make(ch);
  }
};
template <>
struct vf::Gen<G> {
  static G make(Chooser& ch) {
    G g(ch.choose(4));
    size_t n = 1 + ch.choose(4);
    for (size_t i = 0; i < n; ++i) g.addVertex({Gen<ConstLaneletOrArea>::make(ch)});
    for (size_t k = ch.choose(7); k > 0; --k) {
      auto e = boost::add_edge(ch.choose(n), ch.choose(n), g.get());
      g.get()[e.first] = Gen<EdgeInfo>::make(ch);
    }
    return g;
  }
};
#endif
static void valid(const ConstLaneletOrArea& l) {
  vf_assume(l.isLanelet() || l.isArea());
  if (l.isLanelet()) {
    vf_valid(*l.lanelet());
  } else {
    vf_valid(*l.area());
  }
}
// a routing graph that shows this graph
struct Q {
  RoutingGraph rg;
  explicit Q(const G& g) : rg(std::unique_ptr<G>(const_cast<G*>(&g)), LaneletSubmapConstPtr()) {}
  ~Q() { rg.graph_.release(); }
  const RoutingGraph* operator->() const { return &rg; }
};
// ---------------------------------------------------------------- views
// the edge with this information passes the filter of the view
template <typename V>
static bool has(const V& v, const EdgeInfo& e) {
  return v.m_edge_pred(Desc(0, 0, const_cast<EdgeInfo*>(&e)));
}
static bool rel(const EdgeInfo& e, R r) { return (uint8_t(e.relation) & uint8_t(r)) != 0; }
#define VIEW(NAME, RELATIONS)                                                                                                \
  VF_CONTRACT(view_##NAME, const G& g, const EdgeInfo& e, RoutingCostId id) {                                                \
    vf_assume(uint8_t(e.relation) < 128);                                                                                    \
    bool thrown = false;                                                                                                     \
    try {                                                                                                                    \
      auto v = g.NAME(id);                                                                                                   \
      vf_assert(has(v, e) == (e.costId == id && (RELATIONS)), "the view has exactly the edges with its cost and relations"); \
      vf_assert(&v.m_g == &g.get(), "the view shows the graph");                                                              \
    } catch (InvalidInputError&) {                                                                                           \
      thrown = true;                                                                                                         \
    }                                                                                                                        \
    vf_assert(thrown == (id >= g.numRoutingCosts()), "there is a view exactly for the known routing costs");                 \
  }
VIEW(withLaneChanges, rel(e, R::Successor) || rel(e, R::Left) || rel(e, R::Right))
VIEW(withoutLaneChanges, rel(e, R::Successor))
VIEW(withAreasAndLaneChanges, rel(e, R::Successor) || rel(e, R::Left) || rel(e, R::Right) || rel(e, R::Area))
VIEW(withAreasWithoutLaneChanges, rel(e, R::Successor) || rel(e, R::Area))
VIEW(left, rel(e, R::Left))
VIEW(somehowLeft, rel(e, R::Left) || rel(e, R::AdjacentLeft))
VIEW(right, rel(e, R::Right))
VIEW(somehowRight, rel(e, R::Right) || rel(e, R::AdjacentRight))
VIEW(adjacentLeft, rel(e, R::AdjacentLeft))
VIEW(adjacentRight, rel(e, R::AdjacentRight))
VIEW(conflicting, rel(e, R::Conflicting))
VIEW(withoutConflicting, uint8_t(e.relation) % 32 != 0 || rel(e, R::Area))
// ---------------------------------------------------------------- edges
VF_CONTRACT(edge_dropped, G& g, size_t from, size_t to, const EdgeInfo& e) {
  auto& gr = g.get();
  vf_assume(from < boost::num_vertices(gr) && to < boost::num_vertices(gr));
  vf_assume(e.routingCost == std::numeric_limits<double>::infinity());
  size_t n = boost::out_degree(from, gr), m = boost::in_degree(to, gr);
  g.addEdge(from, to, e);
  vf_assert(boost::out_degree(from, gr) == n && boost::in_degree(to, gr) == m, "impossible transitions get no edge");
}
VF_CONTRACT(edge_negative, G& g, size_t from, size_t to, const EdgeInfo& e) {
  auto& gr = g.get();
  vf_assume(from < boost::num_vertices(gr) && to < boost::num_vertices(gr));
  vf_assume(e.routingCost < 0. && e.routingCost > -1e300);
  size_t n = boost::out_degree(from, gr), m = boost::in_degree(to, gr);
  bool thrown = false;
  try {
    g.addEdge(from, to, e);
  } catch (RoutingGraphError&) {
    thrown = true;
  }
  vf_assert(thrown && boost::out_degree(from, gr) == n && boost::in_degree(to, gr) == m, "negative costs are refused");
}
VF_CONTRACT(edge_added, G& g, size_t from, size_t to, const EdgeInfo& e) {
  auto& gr = g.get();
  vf_assume(from < boost::num_vertices(gr) && to < boost::num_vertices(gr) && from != to);
  vf_assume(e.routingCost >= 0. && e.routingCost < 1e300);
  EdgeInfo want = e;
  size_t n = boost::out_degree(from, gr), m = boost::in_degree(to, gr);
  g.addEdge(from, to, e);
  vf_assert(boost::out_degree(from, gr) == n + 1 && boost::in_degree(to, gr) == m + 1, "an edge is added between the vertices");
  auto it = boost::out_edges(from, gr).second;
  Desc d = *--it;
  vf_assert(boost::source(d, gr) == from && boost::target(d, gr) == to, "the edge leads from the first to the second vertex");
  vf_assert(gr[d].routingCost == want.routingCost && gr[d].costId == want.costId && gr[d].relation == want.relation, "the edge has the cost and relation");
}
// ---------------------------------------------------------------- costs
static bool ctorThrows(double cost, double min, bool time) {
  try {
    if (time) {
      RoutingCostTravelTime c(cost, min);
    } else {
      RoutingCostDistance c(cost, min);
    }
  } catch (InvalidInputError&) {
    return true;
  }
  return false;
}
VF_CONTRACT(cost_ctor, double cost, double min, bool time) {
  vf_assert(ctorThrows(cost, min, time) == (cost < 0.), "negative costs of lane changes are refused");
}
static double len(const ConstLanelet& l) { return geometry::approximatedLength2d(l); }
static double len(const ConstArea& a) { return double(boost::geometry::perimeter(utils::to2D(a.outerBoundPolygon()))); }
static bool close(double a, double b) {
#ifdef VF_NATIVE
  return a == b || std::abs(a - b) <= 1e-9 * std::max(std::abs(a), std::abs(b));
#else
  return a == b;
#endif
}
template <typename A, typename B>
static void distance(const RoutingCostDistance& c, const Rules& r, const A& from, const B& to) {
  vf_valid(from, to);
  vf_assert(close(c.getCostSucceeding(r, from, to), (len(from) + len(to)) / 2), "the cost of going on is half of both lengths");
}
VF_CONTRACT(dist_ll, const ConstLanelet& a, const ConstLanelet& b, double cost, double min) { vf_assume(cost >= 0.); RoutingCostDistance c(cost, min); Rules r; distance(c, r, a, b); }
VF_CONTRACT(dist_la, const ConstLanelet& a, const ConstArea& b, double cost, double min) { vf_assume(cost >= 0.); RoutingCostDistance c(cost, min); Rules r; distance(c, r, a, b); }
VF_CONTRACT(dist_al, const ConstArea& a, const ConstLanelet& b, double cost, double min) { vf_assume(cost >= 0.); RoutingCostDistance c(cost, min); Rules r; distance(c, r, a, b); }
VF_CONTRACT(dist_aa, const ConstArea& a, const ConstArea& b, double cost, double min) { vf_assume(cost >= 0.); RoutingCostDistance c(cost, min); Rules r; distance(c, r, a, b); }
VF_CONTRACT(dist_change, const ConstLanelets& from, const ConstLanelets& to, double cost, double min) {
  vf_assume(cost >= 0. && cost < 1e300);
  for (auto& l : from) vf_valid(l);
  Rules r;
  RoutingCostDistance c(cost, min);
  double sum = 0.;
  for (auto& l : from) sum += len(l);
  double got = c.getCostLaneChange(r, from, to);
  bool ok = min <= 0. || sum >= min;
  vf_assert(ok ? got == cost : got == std::numeric_limits<double>::infinity(), "a lane change has its fixed cost if the lanelets are long enough");
}
// travel times
// rules with arbitrary speed limits
struct Limits : Rules {
  using Rules::Rules;
  double first{1.}, second{1.};
  double of(int64_t id, int kind) const { return vf_pred(id, kind) ? first : second; }
  SpeedLimitInformation speedLimit(const ConstLanelet& l) const override { return {of(l.id(), 6) * units::MPSQuantity::unit_type(), true}; }
  SpeedLimitInformation speedLimit(const ConstArea& a) const override { return {of(a.id(), 7) * units::MPSQuantity::unit_type(), true}; }
};
static double limit(const Limits& r, const ConstLanelet& l) { return r.of(l.id(), 6); }
static double limit(const Limits& r, const ConstArea& a) { return r.of(a.id(), 7); }
static void sane(const Limits& r) { vf_assume(r.first > 0. && r.first < 1e300 && r.second > 0. && r.second < 1e300); }
template <typename A, typename B>
static void travel(const RoutingCostTravelTime& c, const Limits& r, const A& from, const B& to) {
  vf_valid(from, to);
  sane(r);
  double want = (len(from) / limit(r, from) + len(to) / limit(r, to)) / 2;
  vf_assert(close(c.getCostSucceeding(r, from, to), want), "the cost of going on is half of both travel times");
}
VF_CONTRACT(time_ll, const ConstLanelet& a, const ConstLanelet& b, double l1, double l2, double cost, double min) { vf_assume(cost >= 0.); RoutingCostTravelTime c(cost, min); Limits r; r.first = l1; r.second = l2; travel(c, r, a, b); }
VF_CONTRACT(time_la, const ConstLanelet& a, const ConstArea& b, double l1, double l2, double cost, double min) { vf_assume(cost >= 0.); RoutingCostTravelTime c(cost, min); Limits r; r.first = l1; r.second = l2; travel(c, r, a, b); }
VF_CONTRACT(time_al, const ConstArea& a, const ConstLanelet& b, double l1, double l2, double cost, double min) { vf_assume(cost >= 0.); RoutingCostTravelTime c(cost, min); Limits r; r.first = l1; r.second = l2; travel(c, r, a, b); }
VF_CONTRACT(time_aa, const ConstArea& a, const ConstArea& b, double l1, double l2, double cost, double min) { vf_assume(cost >= 0.); RoutingCostTravelTime c(cost, min); Limits r; r.first = l1; r.second = l2; travel(c, r, a, b); }
VF_CONTRACT(time_infinite, const ConstLanelet& a, const ConstLanelet& b, double cost, double min) { vf_assume(cost >= 0.); RoutingCostTravelTime c(cost, min);
  vf_valid(a, b);
  Limits r;
  r.first = r.second = std::numeric_limits<double>::infinity();
  bool thrown = false;
  try {
    c.getCostSucceeding(r, a, b);
  } catch (InvalidInputError&) {
    thrown = true;
  }
  vf_assert(thrown, "infinite speed limits are refused");
}
VF_CONTRACT(time_change, const ConstLanelets& from, const ConstLanelets& to, double cost, double min, double l1, double l2) {
  vf_assume(cost >= 0. && cost < 1e300);
  for (auto& l : from) vf_valid(l);
  Limits r;
  r.first = l1;
  r.second = l2;
  sane(r);
  RoutingCostTravelTime c(cost, min);
  double sum = 0.;
  for (auto& l : from) sum += len(l) / limit(r, l);
  double got = c.getCostLaneChange(r, from, to);
  bool ok = min <= 0. || sum >= min;
  vf_assert(ok ? got == cost : got == std::numeric_limits<double>::infinity(), "a lane change has its fixed cost if there is enough time");
}

// ---------------------------------------------------------------- queries
static bool is(const Optional<ConstLanelet>& got, const ConstLaneletOrArea& want) {
  return !!got && got->constData().get() == want.lanelet()->constData().get() && got->inverted() == want.lanelet()->inverted();
}
#define NEIGHBOUR(NAME, RELATION)                                                                                        \
  VF_CONTRACT(query_##NAME, const G& g, const ConstLanelet& l, RoutingCostId id) {                                       \
    vf_valid(l);                                                                                                         \
    vf_assume(id < g.numRoutingCosts());                                                                                 \
    Q rg(g);                                                                                                             \
    auto v = g.getVertex(l);                                                                                             \
    auto got = rg->NAME(l, id);                                                                                          \
    if (!v) {                                                                                                            \
      vf_assert(!got, "a lanelet that is not in the graph has no neighbours");                                           \
      return;                                                                                                            \
    }                                                                                                                    \
    auto r = boost::out_edges(*v, g.get());                                                                              \
    for (; r.first != r.second; ++r.first) {                                                                             \
      auto& e = g.get()[*r.first];                                                                                       \
      if (e.costId == id && rel(e, RELATION)) break;                                                                     \
    }                                                                                                                    \
    if (r.first == r.second) {                                                                                           \
      vf_assert(!got, "there is no neighbour without an edge to it");                                                    \
      return;                                                                                                            \
    }                                                                                                                    \
    auto& n = g.get()[boost::target(*r.first, g.get())].laneletOrArea;                                                   \
    vf_assert(n.isLanelet() ? is(got, n) : !got, "the neighbour is the lanelet where the first edge with the relation leads"); \
  }
NEIGHBOUR(left, R::Left)
NEIGHBOUR(right, R::Right)
NEIGHBOUR(adjacentLeft, R::AdjacentLeft)
NEIGHBOUR(adjacentRight, R::AdjacentRight)
VF_CONTRACT(query_following, const G& g, const ConstLanelet& l, bool changes) {
  vf_valid(l);
  vf_assume(g.numRoutingCosts() > 0);
  Q rg(g);
  auto v = g.getVertex(l);
  auto got = rg->following(l, changes);
  if (!v) {
    vf_assert(got.empty(), "nothing follows lanelets that are not in the graph");
    return;
  }
  size_t i = 0;
  auto r = boost::out_edges(*v, g.get());
  for (; r.first != r.second; ++r.first) {
    auto& e = g.get()[*r.first];
    auto& n = g.get()[boost::target(*r.first, g.get())].laneletOrArea;
    if (e.costId != 0 || !(rel(e, R::Successor) || (changes && (rel(e, R::Left) || rel(e, R::Right)))) || !n.isLanelet()) continue;
    vf_assert(i < got.size() && is(got[i], n), "what the edges lead to follows");
    ++i;
  }
  vf_assert(got.size() == i, "nothing else follows");
}
VF_CONTRACT(query_previous, const G& g, const ConstLanelet& l, bool changes) {
  vf_valid(l);
  vf_assume(g.numRoutingCosts() > 0);
  Q rg(g);
  auto v = g.getVertex(l);
  auto got = rg->previous(l, changes);
  if (!v) {
    vf_assert(got.empty(), "nothing precedes lanelets that are not in the graph");
    return;
  }
  size_t i = 0;
  auto r = boost::in_edges(*v, g.get());
  for (; r.first != r.second; ++r.first) {
    auto& e = g.get()[*r.first];
    auto& n = g.get()[boost::source(*r.first, g.get())].laneletOrArea;
    if (e.costId != 0 || !(rel(e, R::Successor) || (changes && (rel(e, R::Left) || rel(e, R::Right)))) || !n.isLanelet()) continue;
    vf_assert(i < got.size() && is(got[i], n), "what the edges come from precedes");
    ++i;
  }
  vf_assert(got.size() == i, "nothing else precedes");
}
VF_CONTRACT(query_conflicting, const G& g, const ConstLaneletOrArea& l) {
  valid(l);
  vf_assume(g.numRoutingCosts() > 0);
  Q rg(g);
  auto v = g.getVertex(l);
  auto got = rg->conflicting(l);
  if (!v) {
    vf_assert(got.empty(), "nothing conflicts with what is not in the graph");
    return;
  }
  size_t i = 0;
  auto r = boost::out_edges(*v, g.get());
  for (; r.first != r.second; ++r.first) {
    auto& e = g.get()[*r.first];
    auto& n = g.get()[boost::target(*r.first, g.get())].laneletOrArea;
    if (e.costId != 0 || !rel(e, R::Conflicting)) continue;
    vf_assert(i < got.size() && got[i].equals(n), "what the edges lead to conflicts");
    ++i;
  }
  vf_assert(got.size() == i, "nothing else conflicts");
}
VF_CONTRACT(relation_unknown, const G& g, const ConstLanelet& a, const ConstLanelet& b, bool conflicting) {
  vf_valid(a, b);
  vf_assume(g.numRoutingCosts() > 0);
  Q rg(g);
  vf_assume(!g.getVertex(a) || !g.getVertex(b));
  vf_assert(!rg->routingRelation(a, b, conflicting), "there is no relation to lanelets that are not in the graph");
}
static void relation(const G& g, const ConstLanelet& a, const ConstLanelet& b, bool conflicting) {
  vf_valid(a, b);
  vf_assume(g.numRoutingCosts() > 0);
  Q rg(g);
  auto v = g.getVertex(a), w = g.getVertex(b);
  vf_assume(!!v && !!w);
  auto got = rg->routingRelation(a, b, conflicting);
  auto r = boost::out_edges(*v, g.get());
  for (; r.first != r.second; ++r.first) {
    if (boost::target(*r.first, g.get()) == *w) break;
  }
  if (r.first == r.second) {
    vf_assert(!got, "there is no relation without an edge");
    return;
  }
  auto& e = g.get()[*r.first];
  bool shown = conflicting || (e.costId == 0 && (uint8_t(e.relation) % 32 != 0 || rel(e, R::Area)));
  vf_assert(shown ? !!got && *got == e.relation : !got, "the relation is the one of the first edge");
}
VF_CONTRACT(relation_any, const G& g, const ConstLanelet& a, const ConstLanelet& b) { relation(g, a, b, true); }
VF_CONTRACT(relation_drivable, const G& g, const ConstLanelet& a, const ConstLanelet& b) { relation(g, a, b, false); }
VF_CONTRACT(vertex_added, G& g, const ConstLaneletOrArea& l, const ConstLaneletOrArea& other) {
  valid(l);
  valid(other);
  auto had = g.getVertex(l);
  auto before = g.getVertex(other);
  size_t n = boost::num_vertices(g.get());
  vf_assume(n < 1000000000);
  auto v = g.addVertex(routing::internal::VertexInfo{l});
  vf_assert(v == n && boost::num_vertices(g.get()) == n + 1, "a vertex is added");
  vf_assert(g.get()[v].laneletOrArea.equals(l), "the vertex shows the lanelet or area");
  auto now = g.getVertex(l);
  vf_assert(!!now && *now == (had ? *had : v), "the vertex can be found");
  auto after = g.getVertex(other);
  vf_assert(other.equals(l) || (!!after == !!before && (!after || *after == *before)), "the others stay");
}
#ifdef VF_NATIVE
// chains of neighbours (bounded: up to six lanelets)
VF_BOUNDED(query_chains) {
  G g(1 + ch.choose(2));
  size_t n = 1 + ch.choose(6);
  ConstLanelets ll;
  Point3d p(1, 0, 0, 0);
  for (size_t i = 0; i < n; ++i) {
    Lanelet l(Id(i + 100), LineString3d(Id(200 + i), {p}), LineString3d(Id(300 + i), {p}));
    ll.push_back(ch.flip() ? l : l.invert());
    g.addVertex({ll.back()});
  }
  auto id = RoutingCostId(ch.choose(g.numRoutingCosts()));
  // kind of the connection to the next lanelet on the left: 0: none, 1: lane changes, 2: adjacent
  std::vector<int> toLeft(n), toRight(n);
  for (size_t i = 0; i < n; ++i) {
    toLeft[i] = i + 1 < n ? int(ch.choose(3)) : 0;
    toRight[i] = i > 0 ? int(ch.choose(3)) : 0;
    for (size_t c = 0; c < g.numRoutingCosts(); ++c) {
      if (c != id && ch.flip()) continue;
      bool same = c == id;
      if (i + 1 < n && (same ? toLeft[i] : 1)) g.addEdge(i, i + 1, EdgeInfo{1., RoutingCostId(c), !same || toLeft[i] == 1 ? R::Left : R::AdjacentLeft});
      if (i > 0 && (same ? toRight[i] : 1)) g.addEdge(i, i - 1, EdgeInfo{1., RoutingCostId(c), !same || toRight[i] == 1 ? R::Right : R::AdjacentRight});
      if (ch.flip()) g.addEdge(i, ch.choose(n), EdgeInfo{1., RoutingCostId(c), ch.flip() ? R::Successor : R::Conflicting});
    }
  }
  Q rg(g);
  size_t at = ch.choose(n);
  // the lanelets reached over connections of one kind (or of any kind: 0)
  auto chain = [&](size_t i, int step, const std::vector<int>& kinds, int kind) {
    ConstLanelets r;
    while (kind ? kinds[i] == kind : kinds[i] != 0) r.push_back(ll[i += step]);
    return r;
  };
  auto lefts = chain(at, 1, toLeft, 1), rights = chain(at, -1, toRight, 1);
  vf_assert(rg->lefts(ll[at], id) == lefts, "the lanelets on the left are the chain of left neighbours");
  vf_assert(rg->rights(ll[at], id) == rights, "the lanelets on the right are the chain of right neighbours");
  vf_assert(rg->adjacentLefts(ll[at], id) == chain(at, 1, toLeft, 2), "the adjacent lanelets on the left");
  vf_assert(rg->adjacentRights(ll[at], id) == chain(at, -1, toRight, 2), "the adjacent lanelets on the right");
  ConstLanelets beside(lefts.rbegin(), lefts.rend());
  beside.push_back(ll[at]);
  beside.insert(beside.end(), rights.begin(), rights.end());
  vf_assert(rg->besides(ll[at], id) == beside, "the lanelets beside are ordered from left to right");
  auto check = [&](const LaneletRelations& got, int step, const std::vector<int>& kinds, R change, R adjacent) {
    auto want = chain(at, step, kinds, 0);
    vf_assert(got.size() == want.size(), "all neighbours on one side");
    size_t i = at;
    for (size_t k = 0; k < want.size(); ++k, i += step) vf_assert(got[k].lanelet == want[k] && got[k].relationType == (kinds[i] == 1 ? change : adjacent), "each neighbour with its relation");
  };
  check(rg->leftRelations(ll[at], id), 1, toLeft, R::Left, R::AdjacentLeft);
  check(rg->rightRelations(ll[at], id), -1, toRight, R::Right, R::AdjacentRight);
}
#endif
