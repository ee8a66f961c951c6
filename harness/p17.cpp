// C17: lanelet paths and remaining paths of routes
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_routing/LaneletPath.h>
#include <lanelet2_routing/Route.h>
#include <lanelet2_routing/internal/Graph.h>

#include "vf.h"
using namespace lanelet;
using routing::LaneletPath;
using routing::Route;
VF_MODULAR(follows)
static void valid(const ConstLanelets& lls) {
  for (auto& l : lls) {
    vf_valid(l);
    vf_valid(l.leftBound(), l.rightBound());
  }
}
static bool same(const ConstLanelet& a, const ConstLanelet& b) { return a.constData() == b.constData() && a.inverted() == b.inverted(); }
// ---------------------------------------------------------------- paths
VF_CONTRACT(path, const ConstLanelets& lls, size_t k) {
  valid(lls);
  vf_assume(k < lls.size());
  LaneletPath p(lls);
  vf_assert(p.size() == lls.size() && !p.empty() && same(p[k], lls[k]) && same(p.front(), lls.front()) && same(p.back(), lls.back()), "a path has its lanelets in order");
  vf_assert(size_t(p.end() - p.begin()) == lls.size() && same(*(p.begin() + k), lls[k]), "iterating a path follows the order of its lanelets");
}
VF_CONTRACT(lane_prefix, const ConstLanelets& lls, size_t k, size_t j) {
  valid(lls);
  vf_assume(k < lls.size());
  const LaneletPath p(lls);
  auto lane = p.getRemainingLane(p.begin() + k).constData();
  auto& r = lane->lanelets();
  vf_assert(r.size() >= 1 && r.size() <= lls.size() - k, "the remaining lane starts at the position and ends with the path at the latest");
  vf_assume(j < r.size());
  vf_assert(same(r[j], lls[k + j]), "the remaining lane consists of successive lanelets of the path");
  if (j + 1 < r.size()) vf_assert(geometry::follows(lls[k + j], lls[k + j + 1]), "each lanelet of the remaining lane follows the one before");
}
VF_CONTRACT(lane_end, const ConstLanelets& lls, size_t k) {
  valid(lls);
  vf_assume(k < lls.size());
  const LaneletPath p(lls);
  auto lane = p.getRemainingLane(p.begin() + k).constData();
  size_t n = lane->lanelets().size();
  if (k + n < lls.size()) vf_assert(!geometry::follows(lls[k + n - 1], lls[k + n]), "the remaining lane ends only where the next lanelet of the path does not follow");
}
VF_CONTRACT(lane_none, const ConstLanelets& lls, const ConstLanelet& l) {
  valid(lls);
  vf_valid(l);
  for (auto& x : lls) vf_assume(!same(x, l));
  const LaneletPath p(lls);
  vf_assert(p.getRemainingLane(l).empty(), "there is no remaining lane for a lanelet that is not on the path");
}
VF_CONTRACT(lane_of, const ConstLanelets& lls, size_t k) {
  valid(lls);
  vf_assume(k < lls.size());
  for (size_t i = 0; i < lls.size(); ++i) vf_assume(i >= k || !same(lls[i], lls[k]));
  const LaneletPath p(lls);
  ConstLanelet l = lls[k];
  auto lane = p.getRemainingLane(l).constData();
  vf_assert(!lane->lanelets().empty() && same(lane->lanelets().front(), l), "the remaining lane from a lanelet on the path starts with it");
}
// ---------------------------------------------------------------- remaining shortest path
VF_CONTRACT(remaining_none, const ConstLanelets& lls, const ConstLanelet& l) {
  valid(lls);
  vf_valid(l);
  for (auto& x : lls) vf_assume(!same(x, l));
  Route r(LaneletPath(lls), nullptr, nullptr);
  vf_assert(r.remainingShortestPath(l).empty(), "there is no remaining path for a lanelet that is not on the shortest path");
}
VF_CONTRACT(remaining, const ConstLanelets& lls, size_t k, size_t j) {
  valid(lls);
  vf_assume(k < lls.size());
  for (size_t i = 0; i < lls.size(); ++i) vf_assume(i >= k || !same(lls[i], lls[k]));
  vf_assume(lls.size() == 1 || !same(lls.front(), lls.back()));
  Route r(LaneletPath(lls), nullptr, nullptr);
  auto p = r.remainingShortestPath(lls[k]);
  vf_assert(p.size() == lls.size() - k, "the remaining path reaches from the lanelet to the destination");
  vf_assume(j < p.size());
  vf_assert(same(p[j], lls[k + j]), "the remaining path consists of the lanelets of the shortest path from the lanelet on");
}
VF_CONTRACT(remaining_circular, const ConstLanelets& lls, size_t k, size_t j) {
  valid(lls);
  vf_assume(lls.size() > 1 && k < lls.size());
  for (size_t i = 0; i < lls.size(); ++i) vf_assume(i >= k || !same(lls[i], lls[k]));
  vf_assume(same(lls.front(), lls.back()));
  Route r(LaneletPath(lls), nullptr, nullptr);
  auto p = r.remainingShortestPath(lls[k]);
  size_t n = lls.size() - 1;
  vf_assert(p.size() == n, "the remaining path of a circular route visits each lanelet once");
  vf_assume(j < p.size());
  vf_assert(same(p[j], k + j < n ? lls[k + j] : lls[k + j - n]), "the remaining path of a circular route goes round and ends before the lanelet");
}
