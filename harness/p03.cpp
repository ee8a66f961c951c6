// C03: centerline cache coherence
#include <lanelet2_core/geometry/LineString.h>
#include <lanelet2_core/primitives/Lanelet.h>

#include <set>

#include "vf.h"
using namespace lanelet;

// same points in the same order
static bool sameAt(const ConstLineString3d& a, const ConstLineString3d& b, size_t k) {
  return a.size() == b.size() && (k >= a.size() || (a[k].x() == b[k].x() && a[k].y() == b[k].y() && a[k].z() == b[k].z()));
}
// what a lanelet with these bounds, made now, would report
static ConstLineString3d reference(const ConstLanelet& ll) {
  Lanelet fresh(0, LineString3d(std::const_pointer_cast<LineStringData>(ll.leftBound().constData()), ll.leftBound().inverted()),
                LineString3d(std::const_pointer_cast<LineStringData>(ll.rightBound().constData()), ll.rightBound().inverted()));
  return fresh.centerline();
}
static ConstLineString3d uninvertedReference(const ConstLanelet& ll) {
  return ll.inverted() ? reference(ll.invert()).invert() : reference(ll);
}
VF_CONTRACT(cl_fresh, const LineString3d& l, const LineString3d& r, size_t k) {
  vf_valid(l, r);
  Lanelet a(1, l, r), b(2, l, r);
  vf_assert(!a.hasCustomCenterline(), "a new lanelet has no custom centerline");
  vf_assert(sameAt(a.centerline(), b.centerline(), k), "the centerline is determined by the bounds");
  vf_assert(!a.hasCustomCenterline(), "a computed centerline is not a custom centerline");
  vf_assert(sameAt(a.centerline(), b.centerline(), k), "the cached centerline is the computed one");
  vf_assert(a.centerline() == a.centerline(), "the centerline is cached");
}
VF_CONTRACT(cl_setleft, const LineString3d& l, const LineString3d& r, const LineString3d& n, bool inverted, bool query, size_t k) {
  vf_valid(l, r, n);
  Lanelet base(1, l, r);
  Lanelet ll = inverted ? base.invert() : base;
  if (query) ll.centerline();
  ll.setLeftBound(n);
  const Lanelet& cl = ll;
  vf_assert(sameAt(cl.centerline(), uninvertedReference(cl), k), "the centerline follows a replaced left bound");
}
VF_CONTRACT(cl_setright, const LineString3d& l, const LineString3d& r, const LineString3d& n, bool inverted, bool query, size_t k) {
  vf_valid(l, r, n);
  Lanelet base(1, l, r);
  Lanelet ll = inverted ? base.invert() : base;
  if (query) ll.centerline();
  ll.setRightBound(n);
  const Lanelet& cl = ll;
  vf_assert(sameAt(cl.centerline(), uninvertedReference(cl), k), "the centerline follows a replaced right bound");
}
VF_CONTRACT(cl_chain, const LineString3d& l, const LineString3d& r, const LineString3d& n, const LineString3d& m, size_t k) {
  vf_valid(l, r, n, m);
  Lanelet ll(1, l, r);
  Lanelet inv = ll.invert();
  inv.centerline();
  ll.setLeftBound(n);
  ll.centerline();
  inv.setLeftBound(m);
  inv.centerline();
  const Lanelet& cl = ll;
  vf_assert(sameAt(cl.centerline(), reference(cl), k), "the centerline follows changes through both views");
}
VF_CONTRACT(cl_inverted, const LineString3d& l, const LineString3d& r) {
  vf_valid(l, r);
  ConstLanelet ll(Lanelet(1, l, r));
  ConstLineString3d c = ll.centerline();
  vf_assert(ll.invert().centerline() == c.invert(), "the centerline of the inverted lanelet is the inverted centerline");
  vf_assert(ll.centerline3d() == c && utils::to3D(ll.centerline2d()) == c, "2d and 3d centerlines are the same");
  ConstLanelet ll2(Lanelet(1, l, r));
  ConstLineString3d ci = ll2.invert().centerline();
  vf_assert(ll2.centerline() == ci.invert(), "also when it is computed through the inverted lanelet");
}
VF_CONTRACT(cl_custom, Lanelet& ll, const LineString3d& c, const LineString3d& n, size_t k) {
  const Lanelet& cl = ll;
  vf_valid(ll, cl.leftBound(), cl.rightBound(), c, n);
  vf_assume(c.id() != InvalId);
  ll.setCenterline(c);
  vf_assert(ll.hasCustomCenterline() && ll.invert().hasCustomCenterline(), "a centerline that is set is a custom centerline");
  vf_assert(cl.centerline() == c && ll.invert().centerline() == c.invert(), "a custom centerline is reported in the direction of the view");
  ll.setLeftBound(n);
  ll.setRightBound(n);
  ll.resetCache();
  vf_assert(cl.centerline() == c, "a custom centerline survives changes of the bounds");
  ll.invert().setCenterline(n);
  vf_assume(n.id() != InvalId);
  vf_assert(cl.centerline() == n.invert() && ll.hasCustomCenterline(), "a custom centerline can be replaced through the inverted lanelet");
}
VF_CONTRACT(cl_reset, const LineString3d& l, const LineString3d& r, bool inverted, size_t k) {
  vf_valid(l, r);
  Lanelet base(1, l, r);
  Lanelet ll = inverted ? base.invert() : base;
  ConstLineString3d old = ll.centerline();
  ll.resetCache();
  vf_assert(!ll.hasCustomCenterline(), "resetting the cache does not set a centerline");
  vf_assert(sameAt(ll.centerline(), uninvertedReference(ll), k), "after a reset the centerline is computed from the bounds");
}
#ifdef VF_NATIVE
namespace {
bool mid(const ConstPoint3d& m, const ConstPoint3d& a, const ConstPoint3d& b) {
  return (m.basicPoint() - (a.basicPoint() + b.basicPoint()) / 2).norm() < 1e-9;
}
LineString3d line(vf::Chooser& ch, double y0, bool zig) {
  LineString3d ls(ch.nextId++);
  int n = ch.range(1, 6);
  double x = ch.range(-1, 1) * 0.5;
  for (int i = 0; i < n; ++i) {
    ls.push_back(Point3d(ch.nextId++, x, y0 + (zig ? ch.range(-2, 2) * 0.25 : 0), ch.range(0, 2)));
    x += ch.range(1, 8) * 0.5;
  }
  return ls;
}
}
VF_BOUNDED(cl_geometry) {
  // two roughly parallel bounds
  bool zig = ch.flip();
  LineString3d l = line(ch, 3, zig), r = line(ch, 0, zig);
  if (ch.flip(1, 4)) r[0] = l[0];
  if (ch.flip(1, 4)) r.back() = l.back();
  if (ch.flip(1, 3)) { auto t = l.invert(); l = r.invert(); r = t; }
  Lanelet ll(1, l, r);
  vf_assume(l.size() > 1 && r.size() > 1);
  auto c = ConstLanelet(ll).centerline();
  vf_assert(c.size() >= 2, "a computed centerline has at least two points");
  vf_assert(c.id() == InvalId, "a computed centerline has no id");
  vf_assert(mid(c.front(), l.front(), r.front()) && mid(c.back(), l.back(), r.back()), "a computed centerline joins the midpoints of the ends of the bounds");
  // every point belongs to a pair of bound points, and the pairs can be chosen in the order of both bounds
  std::set<std::pair<size_t, size_t>> reach{{0, 0}};
  for (size_t k = 0; k < c.size(); ++k) {
    std::set<std::pair<size_t, size_t>> next;
    for (size_t a = 0; a < l.size(); ++a)
      for (size_t b = 0; b < r.size(); ++b)
        if (mid(c[k], l[a], r[b]) && std::any_of(reach.begin(), reach.end(), [&](auto& p) { return p.first <= a && p.second <= b; })) next.insert({a, b});
    vf_assert(!next.empty(), "points of a computed centerline are midpoints of bound points in the order of the bounds");
    reach = next;
  }
}
VF_BOUNDED(cl_empty) {
  LineString3d e(5), l = vf::Gen<LineString3d>::make(ch);
  vf_assert(ConstLanelet(Lanelet(1, e, l)).centerline().empty() && ConstLanelet(Lanelet(1, l, e)).centerline().empty(), "without a bound there is no centerline");
}
VF_BOUNDED(cl_history) {
  LineString3d pool[4] = {line(ch, 3, true), line(ch, 2.5, true), line(ch, 0, true), line(ch, -1, true)};
  Lanelet a(7, pool[ch.choose(2)], pool[2 + ch.choose(2)]);
  Lanelet views[2] = {a, a.invert()};
  Optional<ConstLineString3d> custom;
  std::string hist;
  for (int i = ch.range(1, 8); i > 0; --i) {
    int v = ch.choose(2);
    switch (ch.choose(6)) {
      case 0: { auto b = v ? pool[2 + ch.choose(2)].invert() : pool[ch.choose(2)]; views[v].setLeftBound(b); hist += "L"; break; }
      case 1: { auto b = v ? pool[ch.choose(2)].invert() : pool[2 + ch.choose(2)]; views[v].setRightBound(b); hist += "R"; break; }
      case 2: views[v].centerline(); hist += "q"; break;
      case 3: views[v].resetCache(); hist += "r"; break;
      case 4: if (ch.flip(1, 3)) { auto b = line(ch, 1, true); views[v].setCenterline(b); custom = ConstLineString3d(v ? b.invert() : b); hist += "C"; } break;
      default: { // change of the points of a bound, then reset
        const Lanelet& cv = views[v];
        auto b = std::const_pointer_cast<LineStringData>(cv.leftBound().constData());
        LineString3d(b, false).push_back(Point3d(ch.nextId++, 40, 1.5, 0));
        views[v].resetCache(); hist += "p";
      }
    }
    hist += std::to_string(v);
    const Lanelet& cv = views[0];
    auto want = custom ? *custom : reference(cv);
    auto got = cv.centerline(), got2 = views[1].centerline().invert();
    bool ok = got.size() == want.size() && got2 == got && cv.hasCustomCenterline() == !!custom;
    for (size_t k = 0; ok && k < got.size(); ++k) ok = (got[k].basicPoint() - want[k].basicPoint()).norm() < 1e-9;
    if (!ok) vf::note(hist);
    vf_assert(ok, "the centerline after a history of changes is the one of the present bounds");
  }
}
#endif
