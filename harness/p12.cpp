// C12: compound views, lanelet sequences, outlines of areas
#include <lanelet2_core/primitives/LineString.h>
#include <algorithm>
#include <boost/iterator/iterator_adaptor.hpp>
#include <iostream>
#define private public  // positions within compounds are built directly
#include <lanelet2_core/utility/CompoundIterator.h>
#undef private
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletSequence.h>

#include "vf.h"
using namespace lanelet;
using Line = ConstLineString3d;
static bool same(const Line& a, const Line& b) { return a.constData() == b.constData() && a.inverted() == b.inverted(); }
static bool reversed(const Line& a, const Line& b) { return a.constData() == b.constData() && a.inverted() != b.inverted(); }
// ---------------------------------------------------------------- compound linestrings and polygons
template <typename C>
static void compound(const ConstLineStrings3d& ls, size_t k) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < ls.size());
  C c(ls);
  auto got = c.lineStrings();
  vf_assert(!c.inverted() && got.size() == ls.size() && same(got[k], ls[k]), "a compound has its linestrings in the order given");
  vf_assert(c.ids().size() == ls.size() && c.ids()[k] == ls[k].id(), "the ids of a compound are those of its linestrings");
}
template <typename C>
static void compoundInverted(const ConstLineStrings3d& ls, size_t k) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < ls.size());
  C c(CompoundLineString3d(ls).constData(), true);
  auto got = c.lineStrings();
  vf_assert(c.inverted() && got.size() == ls.size() && reversed(got[ls.size() - 1 - k], ls[k]), "an inverted compound has its inverted linestrings in reverse order");
  vf_assert(c.ids().size() == ls.size() && c.ids()[ls.size() - 1 - k] == ls[k].id(), "the ids of an inverted compound are in reverse order");
}
VF_CONTRACT(line3d, const ConstLineStrings3d& ls, size_t k) { compound<CompoundLineString3d>(ls, k); }
VF_CONTRACT(line2d, const ConstLineStrings3d& ls, size_t k) { compound<CompoundLineString2d>(ls, k); }
VF_CONTRACT(hybrid3d, const ConstLineStrings3d& ls, size_t k) { compound<CompoundHybridLineString3d>(ls, k); }
VF_CONTRACT(polygon3d, const ConstLineStrings3d& ls, size_t k) { compound<CompoundPolygon3d>(ls, k); }
VF_CONTRACT(polygon2d, const ConstLineStrings3d& ls, size_t k) { compound<CompoundPolygon2d>(ls, k); }
VF_CONTRACT(line3d_inverted, const ConstLineStrings3d& ls, size_t k) { compoundInverted<CompoundLineString3d>(ls, k); }
VF_CONTRACT(line2d_inverted, const ConstLineStrings3d& ls, size_t k) { compoundInverted<CompoundLineString2d>(ls, k); }
VF_CONTRACT(line_mutable, const LineStrings3d& ls, size_t k) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < ls.size());
  CompoundLineString3d c(ls);
  auto got = c.lineStrings();
  vf_assert(got.size() == ls.size() && same(got[k], ls[k]), "a compound of mutable linestrings has the linestrings in the order given");
}
template <typename To, typename From>
static bool sameView(const To& a, const From& b) { return a.constData() == b.constData() && a.inverted() == b.inverted(); }
VF_CONTRACT(views, const CompoundLineString3d& c, const CompoundPolygon3d& p) {
  vf_valid(c, p);
  auto i = c.invert();
  vf_assert(i.constData() == c.constData() && i.inverted() == !c.inverted(), "inverting a compound keeps its linestrings");
  vf_assert(sameView(i.invert(), c), "inverting a compound twice is the identity");
  vf_assert(sameView(CompoundLineString2d(c), c) && sameView(utils::to2D(c), c) && sameView(utils::to3D(utils::to2D(c)), c), "the 2d view of a compound refers to the same linestrings in the same direction");
  vf_assert(sameView(CompoundHybridLineString3d(c), c) && sameView(utils::toHybrid(c), c), "the hybrid view of a compound refers to the same linestrings in the same direction");
  vf_assert(sameView(CompoundLineString3d(p), p) && sameView(CompoundPolygon3d(c), c) && sameView(CompoundPolygon2d(p), p), "compound polygons and linestrings convert without changing direction");
  auto i2 = utils::to2D(c).invert();
  vf_assert(i2.constData() == c.constData() && i2.inverted() == !c.inverted(), "inverting a 2d compound keeps its linestrings");
}
// ---------------------------------------------------------------- points of compounds
// The points of a compound: one step of the iteration
using Iter = internal::UniqueCompoundIterator<const ConstLineStrings3d>;
static bool samePoint(const ConstPoint3d& a, const ConstPoint3d& b) { return a.constData() == b.constData(); }
VF_CONTRACT(points_none, const ConstLineStrings3d& ls) {
  for (auto& l : ls) { vf_valid(l); vf_assume(l.empty()); }
  vf_assert(Iter::begin(ls) == Iter::end(ls), "a compound without points is empty");
}
VF_CONTRACT(points_first, const ConstLineStrings3d& ls, size_t k) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < ls.size() && !ls[k].empty());
  for (size_t i = 0; i < ls.size(); ++i) vf_assume(i >= k || ls[i].empty());
  auto it = Iter::begin(ls);
  vf_assert(it != Iter::end(ls) && samePoint(*it, ls[k].front()), "a compound starts with the first point of its first linestring with points");
}
static Iter position(const ConstLineStrings3d& ls, size_t k, size_t i) { return Iter(ls, ls.begin() + k, ls[k].begin() + i); }
static bool differ(const ConstPoint3d& a, const ConstPoint3d& b) { return a.constData() != b.constData(); }
VF_CONTRACT(step_within, const ConstLineStrings3d& ls, size_t k, size_t i) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < ls.size() && i < 1000000 && i + 1 < ls[k].size());
  auto& l = ls[k];
  vf_assume(differ(l[i], l[i + 1]));
  auto it = position(ls, k, i);
  ++it;
  vf_assert(it == position(ls, k, i + 1), "a point is followed by the next point of its linestring");
}
VF_CONTRACT(step_across, const ConstLineStrings3d& ls, size_t k, size_t m) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(m < ls.size() && k < m && !ls[k].empty() && !ls[m].empty());
  for (size_t x = 0; x < ls.size(); ++x) vf_assume(x <= k || x >= m || ls[x].empty());
  vf_assume(differ(ls[k].back(), ls[m].front()));
  auto it = position(ls, k, ls[k].size() - 1);
  ++it;
  vf_assert(it == position(ls, m, 0), "the last point of a linestring is followed by the first point of the next linestring with points");
}
VF_CONTRACT(step_shared, const ConstLineStrings3d& ls, size_t k) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < 1000000 && k + 1 < ls.size() && !ls[k].empty() && ls[k + 1].size() > 1);
  vf_assume(!differ(ls[k].back(), ls[k + 1][0]) && differ(ls[k + 1][0], ls[k + 1][1]));
  auto it = position(ls, k, ls[k].size() - 1);
  ++it;
  vf_assert(it == position(ls, k + 1, 1), "a point shared by adjacent linestrings is listed once");
}
VF_CONTRACT(step_end, const ConstLineStrings3d& ls, size_t k) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < 1000000 && k + 1 == ls.size() && !ls[k].empty());
  auto it = position(ls, k, ls[k].size() - 1);
  ++it;
  vf_assert(it == Iter::end(ls), "a compound ends after the last point of its last linestring");
}
VF_CONTRACT(step_last, const ConstLineStrings3d& ls, size_t k) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < 1000000 && k + 1 == ls.size() && ls[k].size() > 1);
  auto& l = ls[k];
  vf_assume(differ(l[l.size() - 2], l.back()));
  auto it = Iter::end(ls);
  --it;
  vf_assert(it == position(ls, k, l.size() - 1), "a compound ends with the last point of its last linestring");
}
VF_CONTRACT(step_back, const ConstLineStrings3d& ls, size_t k, size_t i) {
  for (auto& l : ls) vf_valid(l);
  vf_assume(k < ls.size() && i < 1000000 && i >= 2 && i < ls[k].size());
  auto& l = ls[k];
  vf_assume(differ(l[i - 2], l[i - 1]));
  auto it = position(ls, k, i);
  --it;
  vf_assert(it == position(ls, k, i - 1), "a point is preceded by the previous point of its linestring");
}
// ---------------------------------------------------------------- lanelet sequences
static void valid(const ConstLanelets& lls) {
  for (auto& l : lls) {
    vf_valid(l);
    vf_valid(l.leftBound(), l.rightBound());
  }
}
VF_CONTRACT(seq_bounds, const ConstLanelets& lls, size_t k) {
  valid(lls);
  vf_assume(k < lls.size());
  LaneletSequence s(lls);
  auto l = s.leftBound().lineStrings(), r = s.rightBound().lineStrings();
  vf_assert(l.size() == lls.size() && same(l[k], lls[k].leftBound()), "the left bound of a sequence consists of the left bounds of its lanelets");
  vf_assert(r.size() == lls.size() && same(r[k], lls[k].rightBound()), "the right bound of a sequence consists of the right bounds of its lanelets");
}
VF_CONTRACT(seq_inverted, const LaneletSequence& s) {
  vf_valid(s);
  auto i = s.invert();
  vf_assert(i.constData() == s.constData() && i.inverted() == !s.inverted(), "inverting a sequence keeps its lanelets");
  auto l = s.leftBound(), r = s.rightBound(), il = i.leftBound(), ir = i.rightBound();
  vf_assert(sameView(il, r.invert()), "the left bound of an inverted sequence is the inverted right bound");
  vf_assert(sameView(ir, l.invert()), "the right bound of an inverted sequence is the inverted left bound");
  vf_assert(sameView(s.leftBound2d(), l) && sameView(s.rightBound2d(), r) && sameView(s.leftBound3d(), l) && sameView(s.rightBound3d(), r), "2d and 3d bounds of a sequence are the same");
}
VF_CONTRACT(seq_lanelets, const ConstLanelets& lls, size_t k, bool inverted) {
  valid(lls);
  vf_assume(k < lls.size());
  LaneletSequence s0(lls);
  LaneletSequence s(s0.constData(), inverted);
  size_t j = inverted ? lls.size() - 1 - k : k;
  vf_assert(s.size() == lls.size() && !s.empty(), "a sequence has as many lanelets as it was made of");
  vf_assert(s.lanelets()[j] == lls[k], "a sequence has its lanelets in the order given, or in reverse order if inverted");
  vf_assert(s[j] == lls[k], "access by index follows the order of the lanelets");
  vf_assert(s.ids()[j] == lls[k].id(), "ids follow the order of the lanelets");
}
VF_CONTRACT(seq_reset, const ConstLanelets& lls, size_t k) {
  valid(lls);
  vf_assume(k < lls.size());
  LaneletSequence s(lls);
  auto d = s.constData();
  s.resetCache();
  vf_assert(s.size() == lls.size() && s.constData()->lanelets()[k] == lls[k] && s.constData() != d, "a refreshed sequence has the same lanelets");
  vf_assert(same(s.leftBound().lineStrings()[k], lls[k].leftBound()), "a refreshed sequence has the bounds of its lanelets");
}
// ---------------------------------------------------------------- areas
VF_CONTRACT(area_new, const LineStrings3d& outer, size_t k) {
  for (auto& l : outer) vf_valid(l);
  vf_assume(k < outer.size());
  Area a(17, outer);
  auto p = a.outerBoundPolygon().lineStrings();
  vf_assert(p.size() == outer.size() && same(p[k], outer[k]), "the outline of a new area consists of its bounds");
  const Area& ca = a;
  vf_assert(ca.outerBound().size() == outer.size() && same(ca.outerBound()[k], outer[k]), "a new area has its bounds in place");
  vf_assert(a.innerBoundPolygons().empty() && ca.innerBounds().empty() && ca.regulatoryElements().empty(), "a new area has no holes");
}
VF_CONTRACT(area_set_outer, Area& a, const LineStrings3d& outer, size_t k) {
  vf_valid(a);
  for (auto& l : outer) vf_valid(l);
  const Area& ca = a;
  vf_assume(a.innerBounds().empty());
  vf_assume(k < outer.size());
  a.setOuterBound(outer);
  auto p = a.outerBoundPolygon().lineStrings();
  vf_assert(p.size() == outer.size() && same(p[k], outer[k]), "the outline of an area follows a change of its bounds");
  vf_assert(ca.outerBound().size() == outer.size() && same(ca.outerBound()[k], outer[k]), "the bounds of an area can be replaced");
  vf_assert(ca.innerBounds().empty() && a.innerBoundPolygons().empty(), "replacing the outer bounds keeps the holes");
}
#ifdef VF_NATIVE
static std::vector<Id> pointsOf(const ConstLineStrings3d& ls) {
  std::vector<Id> r;
  for (auto& l : ls) for (auto& p : l) if (r.empty() || r.back() != p.id()) r.push_back(p.id());
  return r;
}
template <typename C>
static std::vector<Id> idsOf(const C& c) {
  std::vector<Id> r;
  for (auto& p : c) r.push_back(p.id());
  return r;
}
template <typename C>
static void checkPoints(const C& c, std::vector<Id> want) {
  if (c.inverted()) std::reverse(want.begin(), want.end());
  vf_assert(idsOf(c) == want, "the points of a compound are those of its linestrings in order, without repetitions");
  vf_assert(c.size() == want.size() && c.empty() == want.empty(), "the size of a compound is the number of its points");
  std::vector<Id> back;
  for (auto it = c.end(); it != c.begin();) back.push_back((*--it).id());
  std::reverse(back.begin(), back.end());
  vf_assert(back == want, "the points of a compound are the same if listed backwards");
  for (size_t i = 0; i < want.size(); ++i) {
    vf_assert(c[i].id() == want[i], "the points of a compound are accessible by index");
    auto s = c.segment(i);
    vf_assert(s.first.id() == want[i] && s.second.id() == want[(i + 1) % want.size()], "segments of a compound connect successive points");
    vf_assert(c.end() - (c.begin() + long(i)) == long(want.size() - i), "distances within a compound count points");
  }
  if (!want.empty()) vf_assert(c.front().id() == want.front() && c.back().id() == want.back(), "first and last point of a compound");
  auto bl = c.basicBegin();
  for (auto& p : c) {
    auto basic = *bl;
    vf_assert(basic[0] == p.x() && basic[1] == p.y(), "basic points of a compound are the coordinates of its points");
    ++bl;
  }
  vf_assert(bl == c.basicEnd(), "a compound has as many basic points as points");
}
VF_BOUNDED(compound_points) {
  auto ls = vf::Gen<ConstLineStrings3d>::make(ch);
  auto want = pointsOf(ls);
  CompoundLineString3d c(ls);
  CompoundPolygon3d p(ls);
  checkPoints(c, want);
  checkPoints(c.invert(), want);
  checkPoints(utils::to2D(c), want);
  checkPoints(utils::to2D(c.invert()), want);
  checkPoints(p, want);
  checkPoints(CompoundPolygon2d(p), want);
  vf_assert(c.numSegments() == (want.empty() ? 0 : want.size() - 1) && p.numSegments() == std::max<size_t>(1, want.size()), "number of segments of a compound");
}
VF_BOUNDED(compound_of_compounds) {
  CompoundLineStrings3d cs;
  CompoundLineStrings2d cs2;
  ConstLineStrings3d all;
  for (int n = ch.range(0, 3); n > 0; --n) {
    auto c = vf::Gen<CompoundLineString3d>::make(ch);
    cs.push_back(c);
    cs2.push_back(utils::to2D(c));
    for (auto& l : c.lineStrings()) all.push_back(l);
  }
  CompoundLineString3d c(cs);
  vf_assert(c.lineStrings() == all && CompoundPolygon3d(cs).lineStrings() == all && CompoundLineString2d(cs2).lineStrings() == all, "a compound of compounds has the linestrings of all");
  checkPoints(c, pointsOf(all));
}
VF_BOUNDED(sequence) {
  auto lls = vf::Gen<ConstLanelets>::make(ch);
  LaneletSequence s0(lls);
  bool inv = ch.flip();
  LaneletSequence s = inv ? s0.invert() : s0;
  ConstLineStrings3d l, r, rr;
  RegulatoryElementConstPtrs regs;
  for (auto& x : lls) l.push_back(x.leftBound()), r.push_back(x.rightBound());
  for (size_t i = 0; i < lls.size(); ++i) for (auto& e : lls[inv ? lls.size() - 1 - i : i].regulatoryElements()) regs.push_back(e);
  for (auto it = r.rbegin(); it != r.rend(); ++it) rr.push_back(it->invert());
  auto outline = l;
  outline.insert(outline.end(), rr.begin(), rr.end());
  vf_assert(s.polygon3d().lineStrings() == outline && s.invert().polygon3d().lineStrings() == outline && s.polygon2d().lineStrings() == outline, "the outline of a sequence runs along the left and back along the right bound");
  vf_assert(s.regulatoryElements() == regs, "a sequence has the regulatory elements of its lanelets");
  auto cl = s0.centerline().lineStrings();
  vf_assert(cl.size() == lls.size(), "the centerline of a sequence consists of those of its lanelets");
  for (size_t i = 0; i < lls.size(); ++i) vf_assert(cl[i] == lls[i].centerline(), "the centerline of a sequence consists of the centerlines of its lanelets");
  vf_assert(s0.invert().centerline().lineStrings() == s0.centerline().invert().lineStrings(), "the centerline of an inverted sequence is inverted");
  LaneletSequence both(LaneletSequences{s0, s0});
  vf_assert(both.size() == 2 * lls.size() && (both == LaneletSequence(lls)) == lls.empty(), "a sequence of sequences has the lanelets of all");
  std::vector<Id> ids;
  for (auto& x : s) ids.push_back(x.id());
  vf_assert(ids == std::vector<Id>(s.ids()), "iterating a sequence follows the order of its lanelets");
}
VF_BOUNDED(area_history) {
  auto outer = vf::Gen<LineStrings3d>::make(ch);
  auto inner = vf::Gen<InnerBounds>::make(ch);
  Area a(ch.nextId++, outer, inner);
  for (int n = ch.range(0, 4); n > 0; --n) {
    switch (ch.choose(4)) {
      case 0: outer = vf::Gen<LineStrings3d>::make(ch); a.setOuterBound(outer); break;
      case 1: inner = vf::Gen<InnerBounds>::make(ch); a.setInnerBounds(inner); break;
      case 2: a.addRegulatoryElement(std::make_shared<GenericRegulatoryElement>(ch.nextId++)); break;
      default: a.setAttribute("a", "b");
    }
    const ConstArea& c = a;
    vf_assert(a.outerBound() == outer && a.innerBounds() == inner, "bounds of an area after a history of changes");
    vf_assert(c.outerBoundPolygon().lineStrings() == ConstLineStrings3d(outer.begin(), outer.end()), "outline of an area after a history of changes");
    vf_assert(c.innerBoundPolygons().size() == inner.size(), "number of holes of an area after a history of changes");
    for (size_t i = 0; i < inner.size(); ++i) vf_assert(c.innerBoundPolygons()[i].lineStrings() == ConstLineStrings3d(inner[i].begin(), inner[i].end()), "holes of an area after a history of changes");
  }
}
#endif
