// C06: lane changes and crossing of boundaries
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include "vf.h"
#include "vf_rules.h"

using T = LaneChangeType;
struct Lanes : Rules {
  using Rules::Rules;
  using GenericTrafficRules::laneChangeType;
};
static T of(bool left, bool right) { return left ? (right ? T::Both : T::ToLeft) : (right ? T::ToRight : T::None); }
static bool toLeft(T t) { return t == T::Both || t == T::ToLeft; }
static bool toRight(T t) { return t == T::Both || t == T::ToRight; }
static T swapped(T t) { return of(toRight(t), toLeft(t)); }
static bool has(const ConstLineString3d& l, const char* n) {
  const AttributeMap& m = l.attributes();
  return m.find(n) != m.end();
}
static bool yes(const ConstLineString3d& l, const char* n) {
  const AttributeMap& m = l.attributes();
  auto it = m.find(n);
  if (it == m.end()) return false;
  auto v = it->second.asBool();
  return !!v && *v;
}
// marking of the line, in its own direction
static T marking(const std::string& type, const std::string& sub, const std::string& p) {
  bool veh = startsWith(p, "vehicle"), ped = p == "pedestrian", bic = p == "bicycle";
  bool painted = type == "line_thin" || type == "line_thick";
  if (veh || bic) {
    if (painted && sub == "dashed") return T::Both;
    if (painted && sub == "dashed_solid") return T::ToRight;
    if (painted && sub == "solid_dashed") return T::ToLeft;
  }
  if ((ped || bic) && type == "curbstone" && sub == "low") return T::Both;
  return T::None;
}
static ConstLineString3d forward(const ConstLineString3d& l) {
  vf_valid(l);
  attributesOf(l, AttributeName::Type, "type");
  attributesOf(l, AttributeName::Subtype, "subtype");
  return l.inverted() ? l.invert() : l;
}
VF_CONTRACT(change_attribute, const ConstLineString3d& l, const Config& cfg, bool virt) {
  vf_valid(l);
  Lanes r(cfg);
  participantOf(r);
  vf_assume(has(l, "lane_change"));
  vf_assert(r.laneChangeType(l, virt) == (yes(l, "lane_change") ? T::Both : T::None), "lane_change decides for both directions");
}
VF_CONTRACT(change_left_right, const ConstLineString3d& l, const Config& cfg, bool virt) {
  ConstLineString3d f = forward(l);
  Lanes r(cfg);
  participantOf(r);
  vf_assume(!has(f, "lane_change") && has(f, "lane_change:left") && has(f, "lane_change:right"));
  vf_assert(r.laneChangeType(f, virt) == of(yes(f, "lane_change:left"), yes(f, "lane_change:right")), "lane_change:left and lane_change:right decide about their directions");
}
VF_CONTRACT(change_marking, const ConstLineString3d& l, const Config& cfg) {
  ConstLineString3d f = forward(l);
  Lanes r(cfg);
  std::string p = participantOf(r);
  vf_assume(!has(f, "lane_change") && !has(f, "lane_change:left") && !has(f, "lane_change:right"));
  T t = marking(textOf(f, AttributeName::Type), textOf(f, AttributeName::Subtype), p);
  vf_assert(r.laneChangeType(f, false) == t, "without attributes for lane changes the marking decides");
}
VF_CONTRACT(change_virtual, const ConstLineString3d& l, const Config& cfg) {
  ConstLineString3d f = forward(l);
  Lanes r(cfg);
  std::string p = participantOf(r);
  vf_assume(!has(f, "lane_change") && !has(f, "lane_change:left") && !has(f, "lane_change:right"));
  bool virt = textOf(f, AttributeName::Type) == "virtual";
  vf_assert(r.laneChangeType(f, true) == (virt ? T::Both : r.laneChangeType(f, false)), "virtual lines can be crossed where they may be");
}
VF_CONTRACT(change_inverted, const ConstLineString3d& l, const Config& cfg) {
  ConstLineString3d f = forward(l);
  Lanes r(cfg);
  participantOf(r);
  vf_assert(r.laneChangeType(f.invert(), false) == swapped(r.laneChangeType(f, false)), "left and right swap with the direction of the line");
}
VF_CONTRACT(change_inverted_virtual, const ConstLineString3d& l, const Config& cfg) {
  ConstLineString3d f = forward(l);
  Lanes r(cfg);
  participantOf(r);
  vf_assert(r.laneChangeType(f.invert(), true) == swapped(r.laneChangeType(f, true)), "left and right swap with the direction of the line where virtual lines may be crossed");
}
// ---------------------------------------------------------------- between lanelets
static void bounds(const ConstLanelet& a) {
  vf_valid(a);
  vf_valid(a.leftBound(), a.rightBound());
}
VF_CONTRACT(change_lane, const ConstLanelet& a, const ConstLanelet& b, const Config& cfg) {
  bounds(a);
  bounds(b);
  AnyRules r(cfg);
  bool right = a.rightBound() == b.leftBound(), left = a.leftBound() == b.rightBound();
  vf_assume(!(left && right));
  bool allowed = (right && toRight(r.laneChangeType(a.rightBound(), false))) || (left && toLeft(r.laneChangeType(a.leftBound(), false)));
  vf_assert(r.canChangeLane(a, b) == (r.canPass(a) && r.canPass(b) && allowed), "changing lanes needs a passable neighbor and a boundary that can be crossed in this direction");
}
VF_CONTRACT(change_lane_inverted, const ConstLanelet& a, const ConstLanelet& b, const Config& cfg) {
  bounds(a);
  bounds(b);
  AnyRules r(cfg);
  vf_assume(!(a.rightBound() == b.leftBound()) && !(a.leftBound() == b.rightBound()));
  vf_assert(!r.canChangeLane(a, b), "there is no lane change between lanelets that do not share a bound in the same direction");
}
// ---------------------------------------------------------------- areas
static bool nonempty(const ConstArea& a) {
  vf_valid(a);
  for (auto& x : a.outerBound()) { vf_valid(x); vf_assume(!x.empty()); }
  return true;
}
static bool joins(const ConstLineString3d& l, const ConstPoint3d& from, const ConstPoint3d& to) { return l.front() == from && l.back() == to; }
static bool isBound(const ConstArea& a, const ConstLineString3d& l) {
  for (auto& x : a.outerBound())
    if (x == l) return true;
  return false;
}
VF_CONTRACT(to_area_side, const ConstLanelet& a, const ConstArea& b, const Config& cfg) {
  bounds(a);
  nonempty(b);
  vf_assume(!a.leftBound().empty() && !a.rightBound().empty());
  AnyRules r(cfg);
  bool left = isBound(b, a.leftBound().invert()), right = isBound(b, a.rightBound());
  vf_assume(left != right);
  bool cross = left ? toLeft(r.laneChangeType(a.leftBound(), true)) : toRight(r.laneChangeType(a.rightBound(), true));
  vf_assert(r.canPass(a, b) == (r.canPass(a) && r.canPass(b) && cross), "an area beside a lanelet is entered across the shared bound");
}
VF_CONTRACT(from_area_side, const ConstArea& a, const ConstLanelet& b, const Config& cfg) {
  bounds(b);
  nonempty(a);
  vf_assume(!b.leftBound().empty() && !b.rightBound().empty());
  AnyRules r(cfg);
  bool left = isBound(a, b.leftBound().invert()), right = isBound(a, b.rightBound());
  vf_assume(left != right);
  bool cross = left ? toRight(r.laneChangeType(b.leftBound(), true)) : toLeft(r.laneChangeType(b.rightBound(), true));
  vf_assert(r.canPass(a, b) == (r.canPass(a) && r.canPass(b) && cross), "an area beside a lanelet is left across the shared bound");
}
VF_CONTRACT(to_area_end, const ConstLanelet& a, const ConstArea& b, const Config& cfg, size_t k) {
  bounds(a);
  nonempty(b);
  vf_assume(!a.leftBound().empty() && !a.rightBound().empty());
  AnyRules r(cfg);
  for (auto& x : b.outerBound()) vf_assume(!(x == a.leftBound().invert()) && !(x == a.rightBound()));
  ConstPoint3d p = a.rightBound().back(), q = a.leftBound().back();
  auto ls = b.outerBound();
  vf_assume(k < ls.size() && joins(ls[k], p, q));
  for (size_t i = 0; i < ls.size(); ++i) vf_assume(i == k || !joins(ls[i], p, q));
  vf_assert(r.canPass(a, b) == (r.canPass(a) && r.canPass(b) && toRight(r.laneChangeType(ls[k], true))), "an area behind a lanelet is entered across the line that joins the ends of its bounds");
}
VF_CONTRACT(from_area_start, const ConstArea& a, const ConstLanelet& b, const Config& cfg, size_t k) {
  bounds(b);
  nonempty(a);
  vf_assume(!b.leftBound().empty() && !b.rightBound().empty());
  AnyRules r(cfg);
  for (auto& x : a.outerBound()) vf_assume(!(x == b.leftBound().invert()) && !(x == b.rightBound()));
  ConstPoint3d p = b.leftBound().front(), q = b.rightBound().front();
  auto ls = a.outerBound();
  vf_assume(k < ls.size() && joins(ls[k], p, q));
  for (size_t i = 0; i < ls.size(); ++i) vf_assume(i == k || !joins(ls[i], p, q));
  vf_assert(r.canPass(a, b) == (r.canPass(a) && r.canPass(b) && toLeft(r.laneChangeType(ls[k], true))), "an area before a lanelet is left across the line that joins the starts of its bounds");
}
VF_CONTRACT(to_area_apart, const ConstLanelet& a, const ConstArea& b, const Config& cfg) {
  bounds(a);
  nonempty(b);
  vf_assume(!a.leftBound().empty() && !a.rightBound().empty());
  AnyRules r(cfg);
  ConstPoint3d p = a.rightBound().back(), q = a.leftBound().back();
  for (auto& x : b.outerBound()) vf_assume(!(x == a.leftBound().invert()) && !(x == a.rightBound()) && !joins(x, p, q));
  vf_assert(!r.canPass(a, b), "an area that does not touch the lanelet is not reached");
}
VF_CONTRACT(from_area_apart, const ConstArea& a, const ConstLanelet& b, const Config& cfg) {
  bounds(b);
  nonempty(a);
  vf_assume(!b.leftBound().empty() && !b.rightBound().empty());
  AnyRules r(cfg);
  ConstPoint3d p = b.leftBound().front(), q = b.rightBound().front();
  for (auto& x : a.outerBound()) vf_assume(!(x == b.leftBound().invert()) && !(x == b.rightBound()) && !joins(x, p, q));
  vf_assert(!r.canPass(a, b), "a lanelet that does not touch the area is not reached");
}
static bool reversed(const ConstLineString3d& l, const ConstLineString3d& m) { return l.constData() == m.constData() && l.inverted() != m.inverted(); }
VF_CONTRACT(areas_shared, const ConstArea& a, const ConstArea& b, const Config& cfg, size_t k, size_t j) {
  nonempty(a);
  nonempty(b);
  AnyRules r(cfg);
  const auto &x = a.outerBound(), &y = b.outerBound();
  vf_assume(k < x.size() && j < y.size() && reversed(y[j], x[k]));
  for (size_t i = 0; i < x.size(); ++i)
    for (size_t n = 0; n < y.size(); ++n) vf_assume(i == k || !(reversed(y[n], x[i])));
  vf_assert(r.canPass(a, b) == (r.canPass(a) && r.canPass(b) && toLeft(r.laneChangeType(x[k], true))), "a neighboring area is entered across the shared bound");
}
VF_CONTRACT(areas_apart, const ConstArea& a, const ConstArea& b, const Config& cfg) {
  nonempty(a);
  nonempty(b);
  AnyRules r(cfg);
  const auto &x = a.outerBound(), &y = b.outerBound();
  for (size_t i = 0; i < x.size(); ++i)
    for (size_t n = 0; n < y.size(); ++n) vf_assume(!(reversed(y[n], x[i])));
  vf_assert(!r.canPass(a, b), "areas without a shared bound are not reached from each other");
}
#ifdef VF_NATIVE
static T expected(const ConstLineString3d& l, const std::string& p, bool virt) {
  ConstLineString3d f = l.inverted() ? l.invert() : l;
  T t;
  if (has(f, "lane_change")) t = yes(f, "lane_change") ? T::Both : T::None;
  else if (has(f, "lane_change:left") != has(f, "lane_change:right")) throw vf::Discard{};
  else if (has(f, "lane_change:left")) t = of(yes(f, "lane_change:left"), yes(f, "lane_change:right"));
  else if (virt && textOf(f, AttributeName::Type) == "virtual") t = T::Both;
  else t = marking(textOf(f, AttributeName::Type), textOf(f, AttributeName::Subtype), p);
  return l.inverted() ? swapped(t) : t;
}
VF_BOUNDED(factory_lane_change) {
  auto p = ch.pick(vf::participants());
  auto r = traffic_rules::TrafficRulesFactory::create(Locations::Germany, p);
  ConstLanelet a = vf::Gen<Lanelet>::make(ch), b = vf::Gen<Lanelet>::make(ch);
  bool right = a.rightBound() == b.leftBound(), left = a.leftBound() == b.rightBound();
  if (left && right) throw vf::Discard{};
  bool e = r->canPass(a) && r->canPass(b) && ((right && toRight(expected(a.rightBound(), p, false))) || (left && toLeft(expected(a.leftBound(), p, false))));
  vf_assert(r->canChangeLane(a, b) == e, "lane changes follow the marking of the shared bound");
}
VF_BOUNDED(factory_area) {
  static const std::vector<std::string> ps{"pedestrian", "bicycle"};
  auto p = ch.pick(ps);
  auto r = traffic_rules::TrafficRulesFactory::create(Locations::Germany, p);
  ConstLanelet a = vf::Gen<Lanelet>::make(ch);
  ConstArea b = vf::Gen<Area>::make(ch), c = vf::Gen<Area>::make(ch);
  if (a.leftBound().empty() || a.rightBound().empty()) throw vf::Discard{};
  for (auto& x : b.outerBound()) vf_assume(!x.empty());
  bool le = isBound(b, a.leftBound().invert()), ri = isBound(b, a.rightBound());
  bool pass = r->canPass(a) && r->canPass(b);
  if (le != ri) {
    T t = le ? expected(a.leftBound(), p, true) : expected(a.rightBound(), p, true);
    vf_assert(r->canPass(a, b) == (pass && (le ? toLeft(t) : toRight(t))), "an area beside a lanelet is entered across the shared bound");
    vf_assert(r->canPass(b, a) == (pass && (le ? toRight(t) : toLeft(t))), "an area beside a lanelet is left across the shared bound");
  }
  for (auto& x : c.outerBound()) vf_assume(!x.empty());
  int n = 0;
  T t = T::None;
  for (auto& x : b.outerBound())
    if (isBound(c, x.invert())) ++n, t = expected(x, p, true);
  if (n <= 1) vf_assert(r->canPass(b, c) == (n == 1 && r->canPass(b) && r->canPass(c) && toLeft(t)), "a neighboring area is entered across the shared bound");
}
#endif
