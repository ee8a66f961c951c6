// C13: projections
#include <GeographicLib/Geocentric.hpp>
#include <GeographicLib/LocalCartesian.hpp>
#include <GeographicLib/UTMUPS.hpp>
#include <lanelet2_io/Exceptions.h>
#include <lanelet2_io/Projection.h>
#include <lanelet2_projection/Geocentric.h>
#include <lanelet2_projection/LocalCartesian.h>
#include <lanelet2_projection/Mercator.h>
#include <lanelet2_projection/UTM.h>

#include <cmath>

#include "vf.h"
using namespace lanelet;
using projection::UtmProjector;
#ifdef VF_NATIVE
static bool eq(double a, double b) { return std::abs(a - b) <= 1e-6 * (1 + std::abs(a) + std::abs(b)) || (std::isnan(a) && std::isnan(b)); }
namespace vf {
template <>
struct Gen<GPSPoint> {
  static GPSPoint make(Chooser& ch) {
    static const double la[] = {49, 49.01, 8.4, 0.3, -0.2, -33.8, 0, 71, 83.9, 84.1, -81, 95, 60, 79};
    static const double lo[] = {8.4, 8.41, 5.99, 6.01, 11.99, 12.01, 179.99, -179.99, 0, 151.2, 3, 9};
    GPSPoint p;
    p.lat = la[ch.choose(14)] + ch.range(-5, 5) * 0.01;
    p.lon = lo[ch.choose(12)] + ch.range(-5, 5) * 0.01;
    if (ch.flip(1, 3)) p.lat = ch.range(-90, 90);
    if (ch.flip(1, 4)) p.lon = ch.range(-180, 180);
    p.ele = ch.real();
    return p;
  }
};
}  // namespace vf
#else
static bool eq(double a, double b) { return a == b; }
#endif
// up to the rounding of constants like M_PI * R
#ifdef VF_NATIVE
static bool near(double a, double b) { return eq(a, b); }
#else
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(b)); }
#endif
// what the library says about a point
struct Utm {
  bool refused{false}, north{};
  int zone{};
  double x{}, y{};
  explicit Utm(const GPSPoint& p) {
    try {
      GeographicLib::UTMUPS::Forward(p.lat, p.lon, zone, north, x, y);
    } catch (GeographicLib::GeographicErr&) {
      refused = true;
    }
  }
  bool sameZone(const Utm& o) const { return zone == o.zone && north == o.north; }
};
// ---------------------------------------------------------------- utm
VF_CONTRACT(utm_origin, const GPSPoint& o, bool strict) {
  Utm lo(o);
  vf_assume(!lo.refused);
  UtmProjector p(Origin(o), true, strict);
  BasicPoint3d f = p.forward(o);
  vf_assert(eq(f.x(), 0) && eq(f.y(), 0) && eq(f.z(), o.ele), "utm: the origin is at 0, 0 and keeps its elevation");
}
VF_CONTRACT(utm_origin_kept, const GPSPoint& o, bool off, bool strict) {
  vf_assume(!Utm(o).refused);
  UtmProjector p(Origin(o), off, strict);
  vf_assert(p.origin().position.lat == o.lat && p.origin().position.lon == o.lon && p.origin().position.ele == o.ele && !p.origin().isDefault, "a projector keeps its origin");
}
VF_CONTRACT(utm_forward, const GPSPoint& o, const GPSPoint& g, bool off, bool strict) {
  Utm lo(o), lg(g);
  vf_assume(!lo.refused && !lg.refused && lo.sameZone(lg));
  UtmProjector p(Origin(o), off, strict);
  BasicPoint3d f = p.forward(g);
  vf_assert(eq(f.x(), off ? lg.x - lo.x : lg.x) && eq(f.y(), off ? lg.y - lo.y : lg.y), "utm: coordinates within the zone are those of UTM, relative to the origin if asked for");
  vf_assert(f.z() == g.ele, "utm: the elevation is kept");
}
VF_CONTRACT(utm_refused, const GPSPoint& o, const GPSPoint& g, bool off, bool strict) {
  vf_assume(!Utm(o).refused && Utm(g).refused);
  UtmProjector p(Origin(o), off, strict);
  bool thrown = false;
  try {
    p.forward(g);
  } catch (ForwardProjectionError&) {
    thrown = true;
  }
  vf_assert(thrown, "utm: a point that has no UTM coordinates is refused with a projection error");
}
VF_CONTRACT(utm_strict, const GPSPoint& o, const GPSPoint& g, bool off) {
  Utm lo(o), lg(g);
  vf_assume(!lo.refused && !lg.refused && !lo.sameZone(lg));
  UtmProjector p(Origin(o), off, true);
  bool thrown = false;
  try {
    p.forward(g);
  } catch (ForwardProjectionError&) {
    thrown = true;
  }
  vf_assert(thrown, "utm: a point of another zone or hemisphere is refused in strict mode");
}
VF_CONTRACT(utm_transfer, const GPSPoint& o, const GPSPoint& g, bool off) {
  Utm lo(o), lg(g);
  vf_assume(!lo.refused && !lg.refused && !lo.sameZone(lg));
  UtmProjector p(Origin(o), off, false);
  double x{}, y{};
  int zone{};
  bool bad = false, thrown = false;
  try {
    GeographicLib::UTMUPS::Transfer(lg.zone, lg.north, lg.x, lg.y, lo.zone, lo.north, x, y, zone);
  } catch (GeographicLib::GeographicErr&) {
    bad = true;
  }
  BasicPoint3d f(0, 0, 0);
  try {
    f = p.forward(g);
  } catch (ForwardProjectionError&) {
    thrown = true;
  }
  vf_assert(thrown == (bad || zone != lo.zone), "utm: a point of another zone is refused exactly if it cannot be transferred to the zone of the origin");
  if (thrown) return;
  vf_assert(eq(f.x(), off ? x - lo.x : x) && eq(f.y(), off ? y - lo.y : y) && f.z() == g.ele, "utm: a point of another zone has its coordinates in the zone of the origin");
}
VF_CONTRACT(utm_reverse, const GPSPoint& o, const BasicPoint3d& u, bool off) {
  Utm lo(o);
  vf_assume(!lo.refused);
  UtmProjector p(Origin(o), off, false);
  double lat{}, lon{};
  bool bad = false, thrown = false;
  try {
    GeographicLib::UTMUPS::Reverse(lo.zone, lo.north, off ? u.x() + lo.x : u.x(), off ? u.y() + lo.y : u.y(), lat, lon);
  } catch (GeographicLib::GeographicErr&) {
    bad = true;
  }
  GPSPoint r;
  try {
    r = p.reverse(u);
  } catch (ReverseProjectionError&) {
    thrown = true;
  }
  vf_assert(thrown == bad, "utm: coordinates are refused with a projection error exactly if there is no such point");
  if (thrown) return;
  vf_assert(eq(r.lat, lat) && eq(r.lon, lon) && r.ele == u.z(), "utm: the point of the coordinates in the zone of the origin, relative to it if asked for, with the same elevation");
}
VF_CONTRACT(utm_reverse_strict, const GPSPoint& o, const BasicPoint3d& u, bool off) {
  Utm lo(o);
  vf_assume(!lo.refused);
  UtmProjector lax(Origin(o), off, false), strict(Origin(o), off, true);
  GPSPoint a, b;
  bool at = false, bt = false;
  try {
    a = lax.reverse(u);
  } catch (ReverseProjectionError&) {
    at = true;
  }
  try {
    b = strict.reverse(u);
  } catch (ReverseProjectionError&) {
    bt = true;
  }
  bool ok = false;
  if (!at) {
    Utm la(a);
    ok = !la.refused && la.sameZone(lo);
  }
  vf_assert(bt == !ok, "utm: strict mode refuses exactly the coordinates that belong to another zone or hemisphere");
  if (!bt) vf_assert(a.lat == b.lat && a.lon == b.lon && a.ele == b.ele, "utm: strict mode does not change the point");
}
// ---------------------------------------------------------------- spherical mercator
VF_CONTRACT(spherical_roundtrip, const GPSPoint& o, const GPSPoint& g) {
  vf_assume(o.lat > -90 && o.lat < 90 && g.lat > -90 && g.lat < 90);
  projection::SphericalMercatorProjector p{Origin(o)};
  GPSPoint r = p.reverse(p.forward(g));
  vf_assert(near(r.lat, g.lat), "spherical mercator: latitudes survive the round trip");
  vf_assert(near(r.lon, g.lon), "spherical mercator: longitudes survive the round trip");
  vf_assert(r.ele == g.ele, "spherical mercator: elevations survive the round trip");
}
VF_CONTRACT(spherical_roundtrip_back, const GPSPoint& o, const BasicPoint3d& u) {
  vf_assume(o.lat > -90 && o.lat < 90);
#ifdef VF_NATIVE
  vf_assume(std::abs(o.lat) < 80);
#endif
  projection::SphericalMercatorProjector p{Origin(o)};
  BasicPoint3d r = p.forward(p.reverse(u));
  vf_assert(near(r.x(), u.x()) && near(r.y(), u.y()) && r.z() == u.z(), "spherical mercator: coordinates survive the round trip");
}
VF_CONTRACT(spherical_x, const GPSPoint& o, const GPSPoint& a, const GPSPoint& b) {
  vf_assume(o.lat > -90 && o.lat < 90);
  projection::SphericalMercatorProjector p{Origin(o)};
  double dx = p.forward(a).x() - p.forward(b).x();
  vf_assert(eq(dx, std::cos(o.lat * M_PI / 180.0) * 6378137.0 * (a.lon - b.lon) * M_PI / 180.0), "spherical mercator: x is the distance along the parallel of the origin");
}
// ---------------------------------------------------------------- mercator
VF_CONTRACT(mercator_origin, const GPSPoint& o) {
  projection::Mercator p{Origin(o)};
  BasicPoint3d f = p.forward(o);
  vf_assert(f.x() == 0 && f.y() == 0 && f.z() == 0, "mercator: the origin is at 0");
}
VF_CONTRACT(mercator_relative, const GPSPoint& o1, const GPSPoint& o2, const GPSPoint& a, const GPSPoint& b) {
  projection::Mercator p{Origin(o1)}, q{Origin(o2)};
  BasicPoint3d pa = p.forward(a), pb = p.forward(b), qa = q.forward(a), qb = q.forward(b);
  vf_assert(eq(pa.x() - pb.x(), qa.x() - qb.x()) && eq(pa.y() - pb.y(), qa.y() - qb.y()) && eq(pa.z() - pb.z(), qa.z() - qb.z()), "mercator: the origin only shifts the coordinates");
  vf_assert(eq(pa.x() - pb.x(), 6378137.0 * (a.lon - b.lon) * M_PI / 180.0), "mercator: x is proportional to the longitude");
  vf_assert(eq(pa.z() - pb.z(), a.ele - b.ele), "mercator: differences of elevations are kept");
}
VF_CONTRACT(mercator_roundtrip, const GPSPoint& o, const GPSPoint& g) {
  projection::Mercator p{Origin(o)};
  GPSPoint r = p.reverse(p.forward(g));
  vf_assert(near(r.lon, g.lon), "mercator: longitudes survive the round trip");
  vf_assert(eq(r.ele, g.ele), "mercator: elevations survive the round trip");
}
VF_CONTRACT(mercator_reverse_relative, const GPSPoint& o1, const GPSPoint& o2, const GPSPoint& g) {
  projection::Mercator p{Origin(o1)}, q{Origin(o2)};
  GPSPoint r = p.reverse(p.forward(g)), s = q.reverse(q.forward(g));
  vf_assert(eq(r.lat, s.lat) && eq(r.lon, s.lon) && eq(r.ele, s.ele), "mercator: the way back does not depend on the origin");
}
// ---------------------------------------------------------------- geocentric and local cartesian
VF_CONTRACT(geocentric_forward, const GPSPoint& g) {
  projection::GeocentricProjector p;
  double x{}, y{}, z{};
  GeographicLib::Geocentric::WGS84().Forward(g.lat, g.lon, g.ele, x, y, z);
  BasicPoint3d f = p.forward(g);
  vf_assert(eq(f.x(), x) && eq(f.y(), y) && eq(f.z(), z), "geocentric: coordinates are earth centred ones of WGS84");
}
VF_CONTRACT(geocentric_reverse, const BasicPoint3d& u) {
  projection::GeocentricProjector p;
  double lat{}, lon{}, ele{};
  GeographicLib::Geocentric::WGS84().Reverse(u.x(), u.y(), u.z(), lat, lon, ele);
  GPSPoint r = p.reverse(u);
  vf_assert(eq(r.lat, lat) && eq(r.lon, lon) && eq(r.ele, ele), "geocentric: the point of earth centred coordinates of WGS84");
}
VF_CONTRACT(local_forward, const GPSPoint& o, const GPSPoint& g) {
  projection::LocalCartesianProjector p{Origin(o)};
  GeographicLib::LocalCartesian lib(o.lat, o.lon, o.ele);
  double x{}, y{}, z{};
  lib.Forward(g.lat, g.lon, g.ele, x, y, z);
  BasicPoint3d f = p.forward(g);
  vf_assert(eq(f.x(), x) && eq(f.y(), y) && eq(f.z(), z), "local cartesian: coordinates in the tangential frame of the origin");
}
VF_CONTRACT(local_reverse, const GPSPoint& o, const BasicPoint3d& u) {
  projection::LocalCartesianProjector p{Origin(o)};
  GeographicLib::LocalCartesian lib(o.lat, o.lon, o.ele);
  double lat{}, lon{}, ele{};
  lib.Reverse(u.x(), u.y(), u.z(), lat, lon, ele);
  GPSPoint r = p.reverse(u);
  vf_assert(eq(r.lat, lat) && eq(r.lon, lon) && eq(r.ele, ele), "local cartesian: the point of coordinates in the tangential frame of the origin");
}
#ifdef VF_NATIVE
// round trips that depend on the numerics of the libraries
static bool close(const GPSPoint& a, const GPSPoint& b, double tol) {
  double dl = std::remainder(a.lon - b.lon, 360.0);
  return std::abs(a.lat - b.lat) < tol && std::abs(dl) * std::cos(b.lat * M_PI / 180) < tol && std::abs(a.ele - b.ele) < 1e-5;
}
VF_BOUNDED(roundtrips) {
  GPSPoint o = vf::Gen<GPSPoint>::make(ch);
  GPSPoint g = o;
  vf_assume(std::abs(o.lat) < 88);
  g.lat += ch.real() * 0.001;
  g.lon += ch.real() * 0.001;
  g.ele = ch.real();
  if (ch.flip(1, 4)) g.lat = ch.range(-89, 89);
  projection::Mercator m{Origin(o)};
  if (std::abs(g.lat) <= 89) {
    vf_assert(close(m.reverse(m.forward(g)), g, 1e-7), "mercator: points survive the round trip");
    projection::SphericalMercatorProjector sp{Origin(o)};
    vf_assert(eq(sp.forward(g).y(), std::cos(o.lat * M_PI / 180) * 6378137.0 * std::asinh(std::tan(g.lat * M_PI / 180))), "spherical mercator: y is that of the spherical mercator projection");
    GPSPoint eq0;
    projection::Mercator me{Origin(eq0)};
    double phi = g.lat * M_PI / 180, e = 0.081819190928906924, s = e * std::sin(phi);
    vf_assert(eq(me.forward(g).y(), 6378137.0 * (std::asinh(std::tan(phi)) - e * std::atanh(s))), "mercator: y is that of the elliptical mercator projection");
  }
  projection::LocalCartesianProjector l{Origin(o)};
  auto z = l.forward(o);
  vf_assert(z.norm() < 1e-6, "local cartesian: the origin is at 0");
  vf_assert(close(l.reverse(l.forward(g)), g, 1e-8), "local cartesian: points survive the round trip");
  projection::GeocentricProjector gc;
  vf_assert(close(gc.reverse(gc.forward(g)), g, 1e-8), "geocentric: points survive the round trip");
  if (Utm(o).refused) return;
  bool off = ch.flip(), strict = ch.flip();
  UtmProjector u(Origin(o), off, strict);
  BasicPoint3d f;
  try {
    f = u.forward(g);
  } catch (ForwardProjectionError&) {
    return;
  }
  if (!Utm(g).sameZone(Utm(o)) && std::abs(g.lon - o.lon) > 8) return;  // far outside of the zone
  GPSPoint r;
  try {
    r = u.reverse(f);
  } catch (ReverseProjectionError&) {  // rounding at the border of the zone
    vf_assert(strict && std::abs(std::remainder(g.lon, 3)) < 1e-9 || std::abs(std::remainder(g.lat, 4)) < 1e-9, "utm: coordinates of a point are accepted");
    return;
  }
  vf_assert(close(r, g, 1e-7), "utm: points survive the round trip");
}
#endif
