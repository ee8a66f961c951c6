// L01: inverted views of linestrings
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/primitives/Point.h>
#include <lanelet2_core/primitives/Polygon.h>

#include "vf.h"
using namespace lanelet;

VF_CONTRACT(view_index, const ConstLineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  auto inv = ls.invert();
  vf_assert(inv.size() == ls.size(), "invert() keeps the number of points");
  vf_assert(inv[k] == ls[ls.size() - 1 - k], "invert()[k] is point n-1-k");
  vf_assert(inv.inverted() == !ls.inverted(), "invert() flips inverted()");
  vf_assert(inv.constData() == ls.constData(), "invert() shares the data");
  vf_assert(inv.id() == ls.id(), "invert() keeps the id");
}
VF_CONTRACT(view_raw, const ConstLineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  const auto& pts = const_cast<LineStringData&>(*ls.constData()).points();
  vf_assert(ls.size() == pts.size(), "a view has all points of its data");
  vf_assert(ls.inverted() ? ls[k] == pts[pts.size() - 1 - k] : ls[k] == pts[k], "element k of the view");
  vf_cover("nonempty");
}
VF_CONTRACT(view_frontback, const ConstLineString3d& ls) {
  vf_assume(!ls.empty());
  auto inv = ls.invert();
  vf_assert(inv.front() == ls.back() && inv.back() == ls.front(), "invert() swaps front and back");
  vf_assert(ls.front() == ls[0] && ls.back() == ls[ls.size() - 1], "front and back are the first and last element");
}
VF_CONTRACT(view_iter, const ConstLineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  vf_assert(*(ls.begin() + k) == ls[k], "iterator k yields element k");
  vf_assert(size_t(ls.end() - ls.begin()) == ls.size(), "iterator range has size() elements");
  vf_assert(ls.begin() + k != ls.end(), "end is not reached before size()");
}
VF_CONTRACT(view_invol, const ConstLineString3d& ls, const ConstLineString3d& other) {
  vf_assert(ls.invert().invert() == ls, "double inversion is the identity");
  vf_assert(!(ls.invert() == ls), "inverted and original view differ");
  vf_assert((ls == other) == (ls.constData() == other.constData() && ls.inverted() == other.inverted()),
            "equality compares data and direction");
  vf_assert((ls != other) == !(ls == other), "!= is the negation of ==");
}
VF_CONTRACT(view_pushback, LineString3d& ls, const Point3d& p, size_t k) {
  size_t n = ls.size();
  vf_assume(k < n);
  Point3d old = ls[k];
  ls.push_back(p);
  vf_assert(ls.size() == n + 1, "push_back adds one point");
  vf_assert(ls[n] == p && ls.back() == p, "push_back appends at the end of the view");
  vf_assert(ls[k] == old, "push_back keeps the other points in place");
}
VF_CONTRACT(view_insert, LineString3d& ls, const Point3d& p, size_t pos, size_t k) {
  size_t n = ls.size();
  vf_assume(k < n);
  vf_assume(pos <= n);
  Point3d old = ls[k];
  auto it = ls.insert(ls.begin() + pos, p);
  vf_assert(ls.size() == n + 1, "insert adds one point");
  vf_assert(ls[pos] == p, "insert puts the point at the position in view order");
  vf_assert(ls[k < pos ? k : k + 1] == old, "insert keeps the order of the other points");
  vf_assert(*it == p && it == ls.begin() + pos, "insert returns an iterator to the new point");
}
VF_CONTRACT(view_erase, LineString3d& ls, size_t pos, size_t k) {
  size_t n = ls.size();
  vf_assume(k < n);
  vf_assume(pos < n && pos != k);
  Point3d old = ls[k];
  auto it = ls.erase(ls.begin() + pos);
  vf_assert(ls.size() == n - 1, "erase removes one point");
  vf_assert(ls[k < pos ? k : k - 1] == old, "erase removes exactly the point at the position in view order");
  vf_assert(it == ls.begin() + pos, "erase returns an iterator to the next point");
}
VF_CONTRACT(view_popback, LineString3d& ls, size_t k) {
  size_t n = ls.size();
  vf_assume(n > 0);
  vf_assume(k < n - 1);
  Point3d old = ls[k];
  ls.pop_back();
  vf_assert(ls.size() == n - 1 && ls[k] == old, "pop_back removes the last point of the view");
}
VF_CONTRACT(view_clear, LineString3d& ls) {
  auto inv = ls.invert();
  ls.clear();
  vf_assert(ls.empty() && ls.size() == 0 && inv.empty() && ls.begin() == ls.end(), "clear empties all views");
}
VF_CONTRACT(view_write, LineString3d& ls, const Point3d& p, size_t k, size_t j) {
  size_t n = ls.size();
  vf_assume(k < n);
  vf_assume(j < n && j != k);
  auto inv = ls.invert();
  Point3d old = ls[j];
  ls[k] = p;
  vf_assert(ls[k] == p && inv[n - 1 - k] == p, "a write through one view is visible in the other");
  vf_assert(ls[j] == old && inv[n - 1 - j] == old && ls.size() == n, "a write changes no other point");
}
VF_CONTRACT(view_write_iter, LineString3d& ls, const Point3d& p, size_t k, size_t j) {
  size_t n = ls.size();
  vf_assume(k < n);
  vf_assume(j < n && j != k);
  Point3d old = ls[j];
  *(ls.begin() + k) = p;
  vf_assert(ls[k] == p && ls[j] == old, "a write through an iterator changes exactly that point");
}
VF_CONTRACT(view_write_ends, LineString3d& ls, const Point3d& p, const Point3d& q) {
  size_t n = ls.size();
  vf_assume(n >= 2);
  ls.front() = p;
  ls.back() = q;
  vf_assert(ls[0] == p && ls[n - 1] == q, "front() and back() are writable ends of the view");
  vf_assert(ls.invert().front() == q && ls.invert().back() == p, "writes to the ends are visible in the inverted view");
}
VF_CONTRACT(view_resize, LineString3d& ls, size_t m, size_t k) {
  size_t n = ls.size();
  vf_assume(m <= n);
  vf_assume(k < m);
  Point3d old = ls[k];
  ls.resize(m);
  vf_assert(ls.size() == m, "resize sets the size");
  vf_assert(ls[k] == old, "resize keeps the first points of the view");
}
VF_CONTRACT(view_assign, LineString3d& ls, const LineString3d& src, size_t k) {
  vf_assume(k < src.size());
  vf_assume(ls.constData() != src.constData());
  Points3d pts;
  for (size_t i = 0; i < src.size(); ++i) pts.push_back(Point3d(const_cast<LineString3d&>(src)[i]));
  static_cast<LineStringImpl<ConstLineString3d>&>(ls) = pts;
  vf_assert(ls.size() == src.size(), "assigning points sets the size");
  vf_assert(ls[k] == src[k], "assigned points appear in view order");
}
VF_CONTRACT(view_assign_move, LineString2d& ls, const LineString3d& src, size_t k) {
  vf_assume(k < src.size());
  vf_assume(ls.constData() != src.constData());
  Points3d pts;
  for (size_t i = 0; i < src.size(); ++i) pts.push_back(Point3d(const_cast<LineString3d&>(src)[i]));
  static_cast<LineStringImpl<ConstLineString2d>&>(ls) = std::move(pts);
  const LineString2d& cl = ls;
  vf_assert(cl.size() == src.size(), "moving points in sets the size");
  vf_assert(cl[k].constData() == src[k].constData(), "points moved in appear in view order");
}
VF_CONTRACT(view_segment, const ConstLineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  vf_assume(k + 1 < ls.size());
  vf_assert(ls.numSegments() == ls.size() - 1, "a linestring of n points has n-1 segments");
  auto s = ls.segment(k);
  vf_assert(s.first == ls[k] && s.second == ls[k + 1], "segment k joins points k and k+1");
  auto si = ls.invert().segment(ls.numSegments() - 1 - k);
  vf_assert(si.first == s.second && si.second == s.first, "inverted segments are reversed segments");
}
VF_CONTRACT(view_segment_mutable, LineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  vf_assume(k + 1 < ls.size());
  auto s = ls.segment(k);
  vf_assert(s.first == ls[k] && s.second == ls[k + 1], "mutable segment k joins points k and k+1");
}
VF_CONTRACT(view_segments_small, const ConstLineString3d& ls) {
  vf_assume(ls.size() < 2);
  vf_assert(ls.numSegments() == 0, "less than two points have no segment");
}
VF_CONTRACT(polygon_segment, const ConstPolygon3d& p, size_t k) {
  vf_assume(k < p.size());
  vf_assume(p.size() >= 2);
  vf_assert(p.numSegments() == p.size(), "a polygon of n points has n segments");
  auto s = p.segment(k);
  vf_assert(s.first == p[k] && s.second == p[k + 1 == p.size() ? 0 : k + 1], "polygon segments are closed");
}
VF_CONTRACT(polygon_view, const ConstLineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  vf_valid(ls);
  ConstPolygon3d p(ls);
  vf_assert(p.size() == ls.size() && p[k] == ls[k] && p.constData() == ls.constData(), "a polygon made of a linestring is the same view");
  ConstLineString3d back(p);
  vf_assert(back == ls, "linestring to polygon and back is the identity");
}
VF_CONTRACT(view_basic, const ConstLineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  auto b = ls.basicLineString();
  vf_assert(b.size() == ls.size(), "the basic linestring has all points");
  vf_assert(b[k].x() == ls[k].x() && b[k].y() == ls[k].y() && b[k].z() == ls[k].z(), "the basic linestring has the points in view order");
}
VF_CONTRACT(view_2d, const ConstLineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  vf_valid(ls);
  ConstLineString2d l2 = utils::to2D(ls);
  vf_assert(l2.size() == ls.size() && l2.inverted() == ls.inverted() && l2.constData() == ls.constData(), "the 2d view keeps data and direction");
  vf_assert(l2[k].x() == ls[k].x() && l2[k].y() == ls[k].y(), "the 2d view has the same points");
  vf_assert(utils::to3D(l2) == ls, "2d and back is the identity");
}
VF_CONTRACT(view_hybrid, const ConstLineString3d& ls, size_t k) {
  vf_assume(k < ls.size());
  ConstHybridLineString3d h(ls);
  vf_assert(h.size() == ls.size() && h[k].x() == ls[k].x() && h[k].y() == ls[k].y() && h[k].z() == ls[k].z(), "the hybrid view has the same points");
  vf_assert((h.begin() + k)->x() == ls[k].x() && (h.begin() + k)->y() == ls[k].y(), "hybrid iterators yield the points in view order");
  vf_assert(h.front().x() == ls.front().x() && h.back().y() == ls.back().y(), "hybrid ends");
}
#ifdef VF_NATIVE
// histories of view operations against a model sequence (growing resizes, ranges, all views at once)
VF_BOUNDED(view_history) {
  LineString3d ls(vf::Gen<LineString3d>::make(ch));
  std::vector<ConstPoint3d> model;
  for (auto& p : std::as_const(ls)) model.push_back(p);
  for (int i = ch.range(1, 5); i > 0; --i) {
    // operate through one of the views, in its order
    bool flip = ch.flip();
    LineString3d v = flip ? ls.invert() : ls;
    if (flip) std::reverse(model.begin(), model.end());
    size_t n = v.size(), k = ch.choose(uint32_t(n + 1));
    Point3d p = vf::Gen<Point3d>::make(ch);
    switch (ch.choose(9)) {
      case 0: {
        auto it = v.insert(v.begin() + long(k), p);
        vf_assert(size_t(it - v.begin()) == k && *it == p, "insert yields an iterator to the inserted point");
        model.insert(model.begin() + long(k), p);
        break;
      }
      case 1:
        if (k < n) {
          auto it = v.erase(v.begin() + long(k));
          vf_assert(size_t(it - v.begin()) == k, "erase yields an iterator to the next point");
          model.erase(model.begin() + long(k));
        }
        break;
      case 2: v.push_back(p); model.push_back(p); break;
      case 3: if (n) { v.pop_back(); model.pop_back(); } break;
      case 4: {
        size_t m = ch.choose(7);
        v.resize(m);
        vf_assert(v.size() == m, "resize sets the size");
        for (size_t j = n; j < m; ++j) vf_assert(v[j].id() == InvalId, "resize appends invalid points at the end of the view");
        while (model.size() > m) model.pop_back();
        for (size_t j = model.size(); j < m; ++j) model.push_back(v[j]);
        break;
      }
      case 5: {
        Points3d pts = vf::genPoints(ch, 0, 4);
        auto it = v.insert(v.begin() + long(k), pts.begin(), pts.end());
        vf_assert(!v.inverted() ? size_t(it - v.begin()) == k : true, "range insert yields its position");
        model.insert(model.begin() + long(k), pts.begin(), pts.end());
        break;
      }
      case 6: {
        Points3d pts = vf::genPoints(ch, 0, 4);
        model.assign(pts.begin(), pts.end());
        LineString2d v2 = utils::to2D(v);
        if (ch.flip()) static_cast<LineStringImpl<ConstLineString2d>&>(v2) = std::move(pts);
        else static_cast<LineStringImpl<ConstLineString3d>&>(v) = pts;
        break;
      }
      case 7: if (k < n) { v[k] = p; model[k] = p; } break;
      default: if (ch.flip(1, 4)) { v.clear(); model.clear(); }
    }
    if (flip) std::reverse(model.begin(), model.end());
    vf_assert(ls.size() == model.size() && ls.empty() == model.empty(), "size after a history of changes");
    const LineString3d& cl = ls;
    ConstLineString3d ci = ls.invert();
    ConstLineString2d c2 = utils::to2D(cl);
    ConstHybridLineString3d h(ls.invert());
    for (size_t j = 0; j < model.size(); ++j) {
      size_t r = model.size() - 1 - j;
      vf_assert(cl[j] == model[j] && ci[r] == model[j] && c2[j].constData() == model[j].constData(), "points after a history of changes");
      vf_assert(*(cl.begin() + long(j)) == model[j] && *(ci.begin() + long(r)) == model[j], "iteration after a history of changes");
      vf_assert(h[r] == model[j].basicPoint(), "hybrid points after a history of changes");
    }
    vf_assert(cl.invert().invert() == cl && ls.numSegments() == (model.size() < 2 ? 0 : model.size() - 1), "segments after a history of changes");
  }
}
#endif
