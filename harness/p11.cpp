// C11: neighbourhood of lanelets and areas
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>

#include "vf.h"
using namespace lanelet;
using Line = ConstLineString3d;
// identity of views
static bool same(const Line& a, const Line& b) { return a.constData() == b.constData() && a.inverted() == b.inverted(); }
static bool reversed(const Line& a, const Line& b) { return a.constData() == b.constData() && a.inverted() != b.inverted(); }
static bool same(const ConstPoint3d& a, const ConstPoint3d& b) { return a.constData() == b.constData(); }
static void bounds(const ConstLanelet& a) {
  vf_valid(a);
  vf_valid(a.leftBound(), a.rightBound());
}
static void nonempty(const ConstLanelet& a) {
  bounds(a);
  vf_assume(!a.leftBound().empty() && !a.rightBound().empty());
}
static void nonempty(const ConstArea& a) {
  vf_valid(a);
  for (auto& x : a.outerBound()) { vf_valid(x); vf_assume(!x.empty()); }
}
// ---------------------------------------------------------------- lanelets
VF_CONTRACT(beside, const ConstLanelet& a, const ConstLanelet& b) {
  bounds(a);
  bounds(b);
  vf_assert(geometry::leftOf(a, b) == same(a.rightBound(), b.leftBound()), "a lanelet is left of another one iff its right bound is the left bound of the other one");
  vf_assert(geometry::rightOf(a, b) == same(a.leftBound(), b.rightBound()), "a lanelet is right of another one iff its left bound is the right bound of the other one");
  vf_assert(geometry::rightOf(a, b) == geometry::leftOf(b, a), "left and right are dual");
  vf_assert(geometry::leftOf(a, b) == geometry::leftOf(b.invert(), a.invert()), "neighbors swap sides if both are inverted");
}
VF_CONTRACT(behind, const ConstLanelet& a, const ConstLanelet& b) {
  bounds(a);
  bounds(b);
  bool points = !a.leftBound().empty() && !a.rightBound().empty() && !b.leftBound().empty() && !b.rightBound().empty();
  if (!points) vf_assert(!geometry::follows(a, b), "lanelets without points have no successors");
  vf_assume(points);
  vf_assert(geometry::follows(a, b) == (same(a.leftBound().back(), b.leftBound().front()) && same(a.rightBound().back(), b.rightBound().front())), "a lanelet follows another one iff it starts at the points where the other one ends");
  vf_assert(geometry::follows(a, b) == geometry::follows(b.invert(), a.invert()), "successors become predecessors if both are inverted");
}
VF_CONTRACT(common_line, const ConstLanelet& a, const ConstLanelet& b, bool any) {
  bounds(a);
  bounds(b);
  Optional<Line> l = geometry::determineCommonLine(a, b, any);
  bool left = same(a.leftBound(), b.rightBound()) || (any && reversed(a.leftBound(), b.leftBound()));
  bool right = same(a.rightBound(), b.leftBound()) || (any && reversed(a.rightBound(), b.rightBound()));
  vf_assert(!!l == (left || right), "lanelets have a common line iff they share a bound");
  if (!!l) vf_assert((left && same(*l, a.leftBound())) || (right && same(*l, a.rightBound())), "the common line of lanelets is the shared bound of the first one");
}
// ---------------------------------------------------------------- lanelets and areas
VF_CONTRACT(area_left, const ConstLanelet& l, const ConstArea& a, size_t k) {
  nonempty(a);
  bounds(l);
  auto b = a.outerBound();
  vf_assume(k < b.size() && reversed(b[k], l.leftBound()));
  vf_assert(geometry::leftOf(l, a), "an area is left of a lanelet if the reversed left bound is one of its bounds");
  vf_assert(geometry::rightOf(l.invert(), a), "an area left of a lanelet is right of the inverted lanelet");
  auto c = geometry::determineCommonLineLeft(l, a);
  vf_assert(!!c && same(*c, l.leftBound()), "the common line with an area on the left is the left bound");
  auto s = geometry::determineCommonLineSideways(l, a);
  vf_assert(!!s && same(*s, l.leftBound()), "the common line with an area on the left is the left bound, if asked for either side");
}
VF_CONTRACT(area_not_left, const ConstLanelet& l, const ConstArea& a) {
  nonempty(a);
  bounds(l);
  for (auto& x : a.outerBound()) vf_assume(!reversed(x, l.leftBound()));
  vf_assert(!geometry::leftOf(l, a) && !geometry::rightOf(l.invert(), a), "an area that does not have the left bound is not on the left");
  vf_assert(!geometry::determineCommonLineLeft(l, a), "there is no common line with an area that is not on the left");
}
VF_CONTRACT(area_right, const ConstLanelet& l, const ConstArea& a, size_t k) {
  nonempty(a);
  bounds(l);
  auto b = a.outerBound();
  vf_assume(k < b.size() && same(b[k], l.rightBound()));
  vf_assert(geometry::rightOf(l, a), "an area is right of a lanelet if the right bound is one of its bounds");
  vf_assert(geometry::leftOf(l.invert(), a), "an area right of a lanelet is left of the inverted lanelet");
  auto c = geometry::determineCommonLineRight(l, a);
  vf_assert(!!c && same(*c, l.rightBound()), "the common line with an area on the right is the right bound");
}
VF_CONTRACT(area_not_right, const ConstLanelet& l, const ConstArea& a) {
  nonempty(a);
  bounds(l);
  for (auto& x : a.outerBound()) vf_assume(!same(x, l.rightBound()));
  vf_assert(!geometry::rightOf(l, a) && !geometry::leftOf(l.invert(), a), "an area that does not have the right bound is not on the right");
  vf_assert(!geometry::determineCommonLineRight(l, a), "there is no common line with an area that is not on the right");
}
VF_CONTRACT(area_sideways, const ConstLanelet& l, const ConstArea& a) {
  nonempty(a);
  bounds(l);
  auto c = geometry::determineCommonLineSideways(a, l);
  bool beside = geometry::leftOf(l, a) || geometry::rightOf(l, a);
  vf_assert(!!c == beside, "an area has a common line with a lanelet besides it iff it is left or right of it");
  if (!!c) vf_assert(reversed(*c, l.leftBound()) || same(*c, l.rightBound()), "the common line with a lanelet is in the direction of the area");
}
static bool touches(const Line& x, const ConstPoint3d& p, const ConstPoint3d& q) { return (same(x.front(), p) && same(x.back(), q)) || (same(x.front(), q) && same(x.back(), p)); }
static bool joins(const Line& x, const ConstPoint3d& p, const ConstPoint3d& q) { return same(x.front(), p) && same(x.back(), q); }
VF_CONTRACT(area_follows, const ConstLanelet& l, const ConstArea& a, size_t k) {
  nonempty(a);
  nonempty(l);
  auto b = a.outerBound();
  vf_assume(k < b.size());
  vf_assume(touches(b[k], l.leftBound().back(), l.rightBound().back()));
  vf_assert(geometry::follows(l, a), "an area follows a lanelet if one of its bounds joins the ends of the bounds of the lanelet");
  vf_assert(geometry::follows(a, l.invert()), "a lanelet follows an area if the area follows the inverted lanelet");
}
VF_CONTRACT(area_follows_not, const ConstLanelet& l, const ConstArea& a) {
  nonempty(a);
  nonempty(l);
  ConstPoint3d p = l.leftBound().back(), q = l.rightBound().back();
  for (auto& x : a.outerBound()) vf_assume(!touches(x, p, q));
  vf_assert(!geometry::follows(l, a), "an area does not follow a lanelet unless one of its bounds joins the ends of the bounds");
  vf_assert(!geometry::follows(a, l.invert()), "a lanelet does not follow an area unless one of its bounds joins the starts of the bounds");
}
VF_CONTRACT(area_preceding, const ConstLanelet& l, const ConstArea& a, size_t k) {
  nonempty(a);
  nonempty(l);
  auto b = a.outerBound();
  ConstPoint3d p = l.rightBound().back(), q = l.leftBound().back();
  vf_assume(k < b.size());
  vf_assume(joins(b[k], p, q));
  for (size_t i = 0; i < b.size(); ++i) vf_assume(i == k || !joins(b[i], p, q));
  auto c = geometry::determineCommonLinePreceding(l, a);
  vf_assert(!!c && same(*c, b[k]), "the common line with an area behind a lanelet is the bound that joins the ends of the bounds");
}
VF_CONTRACT(area_preceding_not, const ConstLanelet& l, const ConstArea& a) {
  nonempty(a);
  nonempty(l);
  ConstPoint3d p = l.rightBound().back(), q = l.leftBound().back();
  for (auto& x : a.outerBound()) vf_assume(!joins(x, p, q));
  vf_assert(!geometry::determineCommonLinePreceding(l, a), "there is no common line with an area that is not behind a lanelet");
}
VF_CONTRACT(area_following, const ConstLanelet& l, const ConstArea& a, size_t k) {
  nonempty(a);
  nonempty(l);
  auto b = a.outerBound();
  ConstPoint3d p = l.leftBound().front(), q = l.rightBound().front();
  vf_assume(k < b.size());
  vf_assume(joins(b[k], p, q));
  for (size_t i = 0; i < b.size(); ++i) vf_assume(i == k || !joins(b[i], p, q));
  auto c = geometry::determineCommonLineFollowing(a, l);
  vf_assert(!!c && same(*c, b[k]), "the common line with an area before a lanelet is the bound that joins the starts of the bounds");
}
VF_CONTRACT(area_following_not, const ConstLanelet& l, const ConstArea& a) {
  nonempty(a);
  nonempty(l);
  ConstPoint3d p = l.leftBound().front(), q = l.rightBound().front();
  for (auto& x : a.outerBound()) vf_assume(!joins(x, p, q));
  vf_assert(!geometry::determineCommonLineFollowing(a, l), "there is no common line with an area that is not before a lanelet");
}
VF_CONTRACT(area_ends, const ConstLanelet& l, const ConstArea& a) {
  nonempty(a);
  nonempty(l);
  auto c = geometry::determineCommonLineFollowingOrPreceding(a, l);
  bool any = !!geometry::determineCommonLinePreceding(l, a) || !!geometry::determineCommonLineFollowing(a, l);
  vf_assert(!!c == any, "an area has a common line at an end of a lanelet iff it is before or behind it");
  if (!!c) vf_assert(joins(*c, l.leftBound().front(), l.rightBound().front()) || joins(*c, l.rightBound().back(), l.leftBound().back()), "the common line at an end of a lanelet joins its bounds");
}
VF_CONTRACT(area_common, const ConstLanelet& l, const ConstArea& a) {
  nonempty(a);
  nonempty(l);
  auto c = geometry::determineCommonLine(a, l);
  auto e = geometry::determineCommonLineFollowingOrPreceding(a, l), s = geometry::determineCommonLineSideways(a, l);
  vf_assert(!!c == (!!e || !!s), "an area has a common line with a lanelet iff it is beside, before or behind it");
  if (!!c) vf_assert(!!e ? same(*c, *e) : same(*c, *s), "the common line of an area with a lanelet is the one at its end or besides it");
}
// ---------------------------------------------------------------- areas
VF_CONTRACT(areas_common, const ConstArea& a, const ConstArea& b, size_t k, size_t j) {
  nonempty(a);
  nonempty(b);
  const auto &x = a.outerBound(), &y = b.outerBound();
  vf_assume(k < x.size() && j < y.size() && reversed(y[j], x[k]));
  for (size_t i = 0; i < x.size(); ++i)
    for (size_t n = 0; n < y.size(); ++n) vf_assume(i == k || !reversed(y[n], x[i]));
  auto c = geometry::determineCommonLine(a, b);
  vf_assert(!!c && same(*c, x[k]), "the common line of areas is the bound of the first area that is, reversed, a bound of the second one");
}
VF_CONTRACT(areas_apart, const ConstArea& a, const ConstArea& b) {
  nonempty(a);
  nonempty(b);
  const auto &x = a.outerBound(), &y = b.outerBound();
  for (size_t i = 0; i < x.size(); ++i)
    for (size_t n = 0; n < y.size(); ++n) vf_assume(!reversed(y[n], x[i]));
  vf_assert(!geometry::determineCommonLine(a, b), "areas without a shared bound have no common line");
}
#ifdef VF_NATIVE
VF_BOUNDED(areas_adjacent) {
  ConstArea a = vf::Gen<Area>::make(ch), b = vf::Gen<Area>::make(ch);
  auto p = a.outerBoundPolygon(), q = b.outerBoundPolygon();
  std::vector<Id> x, y;
  for (auto pt : p) x.push_back(pt.id());
  for (auto pt : q) y.push_back(pt.id());
  auto unique = [](std::vector<Id> v) { std::sort(v.begin(), v.end()); return std::adjacent_find(v.begin(), v.end()) == v.end(); };
  if (x.size() < 2 || y.size() < 2 || !unique(x) || !unique(y)) throw vf::Discard{};
  bool e = false;
  for (size_t i = 0; i < x.size(); ++i)
    for (size_t j = 0; j < y.size(); ++j) e = e || (x[i] == y[(j + 1) % y.size()] && x[(i + 1) % x.size()] == y[j]);
  vf_assert(geometry::adjacent(a, b) == e, "areas are adjacent iff a segment of one is, reversed, a segment of the other one");
  vf_assert(geometry::adjacent(b, a) == e, "areas are adjacent to each other");
}
#endif
