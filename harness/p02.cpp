// C02: lanelet bounds and inversion
#include <lanelet2_core/primitives/CompoundPolygon.h>
#include <lanelet2_core/primitives/Lanelet.h>

#include "vf.h"
using namespace lanelet;

VF_CONTRACT(ll_invert, const ConstLanelet& ll) {
  vf_valid(ll, ll.leftBound(), ll.rightBound());
  auto inv = ll.invert();
  vf_assert(inv.inverted() == !ll.inverted() && inv.constData() == ll.constData() && inv.id() == ll.id(), "invert() flips the direction and keeps identity");
  vf_assert(inv.leftBound() == ll.rightBound().invert(), "the left bound of the inverted lanelet is the inverted right bound");
  vf_assert(inv.rightBound() == ll.leftBound().invert(), "the right bound of the inverted lanelet is the inverted left bound");
  vf_assert(inv.invert() == ll, "double inversion is the identity");
  vf_assert(!(inv == ll), "a lanelet differs from its inversion");
}
VF_CONTRACT(ll_equal, const ConstLanelet& a, const ConstLanelet& b) {
  vf_assert((a == b) == (a.constData() == b.constData() && a.inverted() == b.inverted()), "equality compares data and direction");
  vf_assert((a != b) == !(a == b), "!= is the negation of ==");
}
VF_CONTRACT(ll_2d3d, const ConstLanelet& ll) {
  vf_valid(ll, ll.leftBound(), ll.rightBound());
  vf_assert(ll.leftBound3d() == ll.leftBound() && ll.rightBound3d() == ll.rightBound(), "3d bounds are the bounds");
  vf_assert(utils::to3D(ll.leftBound2d()) == ll.leftBound() && utils::to3D(ll.rightBound2d()) == ll.rightBound(), "2d bounds are views of the bounds");
}
VF_CONTRACT(ll_mutable, Lanelet& ll) {
  const Lanelet& cl = ll;
  vf_valid(ll, cl.leftBound(), cl.rightBound());
  LineString3d l = ll.leftBound();
  LineString3d r = ll.rightBound();
  vf_assert(l == cl.leftBound() && r == cl.rightBound(), "mutable access yields the same bounds");
  LineString3d l3 = ll.leftBound3d();
  LineString3d r3 = ll.rightBound3d();
  vf_assert(l3 == cl.leftBound() && r3 == cl.rightBound(), "mutable 3d access yields the same bounds");
  LineString2d l2 = ll.leftBound2d();
  LineString2d r2 = ll.rightBound2d();
  vf_assert(l2.constData() == cl.leftBound().constData() && l2.inverted() == cl.leftBound().inverted(), "mutable 2d left bound");
  vf_assert(r2.constData() == cl.rightBound().constData() && r2.inverted() == cl.rightBound().inverted(), "mutable 2d right bound");
  auto inv = ll.invert();
  vf_assert(inv.leftBound() == r.invert() && inv.rightBound() == l.invert() && inv.constData() == ll.constData(), "inverted mutable lanelet swaps the bounds");
}
VF_CONTRACT(ll_setleft, Lanelet& ll, const LineString3d& bound) {
  const Lanelet& cl = ll;
  vf_valid(ll, cl.leftBound(), cl.rightBound(), bound);
  ConstLineString3d right = cl.rightBound();
  auto data = ll.constData();
  bool inv = ll.inverted();
  Lanelet other = ll.invert();
  ll.setLeftBound(bound);
  vf_assert(cl.leftBound() == bound, "setLeftBound sets the left bound as seen through the view");
  vf_assert(cl.rightBound() == right, "setLeftBound keeps the right bound");
  vf_assert(ll.constData() == data && ll.inverted() == inv, "setLeftBound changes the shared lanelet");
  vf_assert(other.rightBound() == bound.invert() && other.leftBound() == LineString3d(ll.rightBound()).invert(), "the change is seen through the inverted view");
}
VF_CONTRACT(ll_setright, Lanelet& ll, const LineString3d& bound) {
  const Lanelet& cl = ll;
  vf_valid(ll, cl.leftBound(), cl.rightBound(), bound);
  ConstLineString3d left = cl.leftBound();
  auto data = ll.constData();
  bool inv = ll.inverted();
  Lanelet other = ll.invert();
  ll.setRightBound(bound);
  vf_assert(cl.rightBound() == bound, "setRightBound sets the right bound as seen through the view");
  vf_assert(cl.leftBound() == left, "setRightBound keeps the left bound");
  vf_assert(ll.constData() == data && ll.inverted() == inv, "setRightBound changes the shared lanelet");
  vf_assert(other.leftBound() == bound.invert() && other.rightBound() == LineString3d(ll.leftBound()).invert(), "the change is seen through the inverted view");
}
VF_CONTRACT(ll_set_then_other, Lanelet& ll, const LineString3d& a, const LineString3d& b) {
  vf_valid(ll, a, b);
  ll.setLeftBound(a);
  ll.setRightBound(b);
  const Lanelet& cl = ll;
  vf_assert(cl.leftBound() == a && cl.rightBound() == b, "both bounds can be replaced");
  Lanelet inv = ll.invert();
  inv.setLeftBound(a);
  vf_assert(cl.rightBound() == a.invert() && cl.leftBound() == a, "bounds replaced through the inverted view");
}
VF_CONTRACT(ll_ctor, const LineString3d& l, const LineString3d& r) {
  vf_valid(l, r);
  Lanelet ll(17, l, r);
  const Lanelet& cl = ll;
  vf_assert(cl.leftBound() == l && cl.rightBound() == r && !ll.inverted() && ll.id() == 17, "a new lanelet has its bounds in place");
  vf_assert(cl.regulatoryElements().empty(), "a new lanelet has no regulatory elements");
  ConstLanelet c = ll;
  vf_assert(c == ll && c.leftBound() == l, "the const lanelet is the same lanelet");
}
VF_CONTRACT(ll_weak, const Lanelet& ll) {
  vf_valid(ll);
  WeakLanelet w(ll);
  vf_assert(!w.expired() && w.lock() == ll, "a weak lanelet locks to the same lanelet and direction");
  ConstWeakLanelet cw(ll);
  vf_assert(cw.lock() == ll, "a const weak lanelet locks to the same lanelet and direction");
  WeakLanelet wi(ll.invert());
  vf_assert(!(w == wi), "weak lanelets of different direction differ");
}
VF_CONTRACT(ll_polygon, const ConstLanelet& ll) {
  vf_valid(ll, ll.leftBound(), ll.rightBound());
  CompoundPolygon3d p = ll.polygon3d();
  auto lss = p.lineStrings();
  vf_assert(lss.size() == 2, "the outline consists of both bounds");
  const LaneletData& d = *ll.constData();
  vf_assert(lss[0] == d.leftBound() && lss[1] == d.rightBound().invert(), "the outline runs along the left and back along the right bound");
  vf_assert(ll.invert().polygon3d().lineStrings()[0] == lss[0], "the outline is the same for the inverted lanelet");
  vf_assert(ll.polygon2d().lineStrings()[1] == lss[1] && !p.inverted(), "the 2d outline is the 3d outline");
}
#ifdef VF_NATIVE
VF_BOUNDED(ll_polygon_points) {
  auto ll = vf::Gen<ConstLanelet>::make(ch);
  std::vector<Id> want;
  auto left = ll.inverted() ? ll.rightBound().invert() : ll.leftBound();
  auto right = ll.inverted() ? ll.leftBound().invert() : ll.rightBound();
  for (auto& p : left) if (want.empty() || want.back() != p.id()) want.push_back(p.id());
  for (auto& p : right.invert()) if (want.empty() || want.back() != p.id()) want.push_back(p.id());
  std::vector<Id> got, got2;
  for (auto& p : ll.polygon3d()) got.push_back(p.id());
  for (auto& p : ll.polygon2d()) got2.push_back(p.id());
  vf_assert(got == want && got2 == want, "the outline lists the points of both bounds once per position");
}
VF_BOUNDED(ll_history) {
  // arbitrary sequences of bound changes through both views against a model
  auto ll = vf::Gen<Lanelet>::make(ch);
  bool inv = ll.inverted();
  const Lanelet& cl = ll;
  ConstLineString3d ml = cl.leftBound(), mr = cl.rightBound();
  Lanelet views[2] = {ll, ll.invert()};
  for (int i = ch.range(1, 6); i > 0; --i) {
    int v = ch.choose(2);
    auto b = vf::Gen<LineString3d>::make(ch);
    if (ch.flip()) {
      views[v].setLeftBound(b);
      (v ? mr : ml) = v ? b.invert() : b;
    } else {
      views[v].setRightBound(b);
      (v ? ml : mr) = v ? b.invert() : b;
    }
    const Lanelet& v0 = views[0];
    const Lanelet& v1 = views[1];
    vf_assert(v0.leftBound() == ml && v0.rightBound() == mr && v1.leftBound() == mr.invert() && v1.rightBound() == ml.invert() && v0.inverted() == inv, "bounds after a history of changes");
  }
}
#endif
