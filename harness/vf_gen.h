// Native side of the contracts: choice sources, generators of arguments, registry.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

#include <lanelet2_core/LaneletMap.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/LaneletSequence.h>
#include <lanelet2_core/primitives/LineString.h>
#include <lanelet2_core/primitives/Point.h>
#include <lanelet2_core/primitives/Polygon.h>

namespace vf {
struct Discard {};
struct Failed {
  std::string name;
};

struct Chooser {
  std::mt19937_64 rng;
  std::vector<uint32_t> trail;      // choices made
  std::vector<uint32_t> replay;     // choices to repeat
  bool replaying{false};
  int size{3};  // size parameter
  // pools of objects made so far (arguments may share them)
  std::vector<lanelet::Point3d> points;
  std::vector<lanelet::LineString3d> lines;
  std::vector<lanelet::Lanelet> lanelets;
  std::vector<lanelet::Area> areas;
  lanelet::Id nextId{1000};
  uint32_t predSeed{0};
  uint32_t choose(uint32_t n) {
    uint32_t r = 0;
    if (replaying) {
      r = trail.size() < replay.size() ? replay[trail.size()] : 0;
      if (n) r %= n;
    } else {
      r = n ? uint32_t(rng() % n) : 0;
    }
    trail.push_back(r);
    return r;
  }
  bool flip(uint32_t num = 1, uint32_t den = 2) { return choose(den) < num; }
  int range(int lo, int hi) { return lo + int(choose(uint32_t(hi - lo + 1))); }
  double real() {
    switch (choose(4)) {
      case 0: return range(-3, 3);
      case 1: return range(-20, 20) * 0.5;
      case 2: return range(-10000, 10000) * 0.01;
      default: return range(0, 8);
    }
  }
  template <typename T>
  T pick(const std::vector<T>& v) { return v.at(choose(uint32_t(v.size()))); }
};
Chooser& current();
void note(const std::string& s);  // description of the current input, printed with a failure

struct Registrar {
  template <typename... A>
  Registrar(const char* name, void (*fn)(A...));
  Registrar(const char* name, void (*fn)(Chooser&));
};
void add(const char* name, std::function<void(Chooser&)> fn, bool bounded);

template <typename T, typename = void>
struct Gen;

template <> struct Gen<bool> { static bool make(Chooser& c) { return c.flip(); } };
template <> struct Gen<int> { static int make(Chooser& c) { return c.flip() ? c.range(-3, 6) : c.range(-1000, 1000); } };
template <> struct Gen<long> {
  static long make(Chooser& c) {
    switch (c.choose(3)) {
      case 0: return c.range(-5, 10);
      case 1: return c.range(900, 1100);
      default: return long(c.choose(1u << 30)) * (c.flip() ? 1 : -1);
    }
  }
};
template <> struct Gen<unsigned long> { static unsigned long make(Chooser& c) { return c.choose(6); } };
template <> struct Gen<unsigned int> { static unsigned int make(Chooser& c) { return c.choose(6); } };
template <> struct Gen<unsigned short> { static unsigned short make(Chooser& c) { return c.choose(6); } };
template <> struct Gen<double> { static double make(Chooser& c) { return c.real(); } };
template <> struct Gen<std::string> {
  static std::string make(Chooser& c) {
    static const std::vector<std::string> v{"", "a", "yes", "no", "true", "false", "0", "1", "1.5", "50 km/h", "2 s", "abc", "type", "one_way", "location"};
    return v[c.choose(uint32_t(v.size()))];
  }
};
template <> struct Gen<lanelet::Attribute> {
  static lanelet::Attribute make(Chooser& c) { return lanelet::Attribute(Gen<std::string>::make(c)); }
};
inline const std::vector<std::string>& participants() {
  static const std::vector<std::string> v{"vehicle", "vehicle:car", "vehicle:car:electric", "vehicle:emergency", "vehicle:bus", "pedestrian", "bicycle", "vehicle:taxi"};
  return v;
}
using Spec = std::vector<std::pair<std::string, std::vector<std::string>>>;
inline lanelet::AttributeMap genAttributes(Chooser& c, const Spec& spec) {
  lanelet::AttributeMap m;
  for (auto& s : spec)
    if (c.flip(1, 3)) {
      auto k = s.first;
      if (k.back() == ':') {
        auto p = c.pick(participants());
        switch (c.choose(4)) {
          case 0: p = p.substr(0, p.find(':')); break;
          case 1: p = p.substr(0, p.rfind(':')); break;
          default: break;
        }
        k = c.flip(1, 8) ? k.substr(0, k.size() - 1) : k + p;
      }
      m[k] = c.pick(s.second);
    }
  return m;
}
template <> struct Gen<lanelet::AttributeMap> {
  static lanelet::AttributeMap make(Chooser& c) {
    static const std::vector<std::string> n{"type", "subtype", "one_way", "participant:vehicle", "participant:pedestrian", "speed_limit", "location", "dynamic", "a", "abc", "0", ""};
    if (c.flip(1, 3)) {
      lanelet::AttributeMap m;
      for (int i = c.range(0, 4); i > 0; --i) m[c.pick(n)] = Gen<std::string>::make(c);
      return m;
    }
    static const Spec spec{
        {"subtype", {"road", "highway", "play_street", "exit", "emergency_lane", "bicycle_lane", "walkway", "crosswalk", "stairs", "shared_walkway", "", "unknown", "Road", "bus_lane"}},
        {"location", {"urban", "nonurban", "urban", "xyz"}},
        {"one_way", {"yes", "no", "true", "false", "abc"}},
        {"participant:", {"yes", "no", "true", "false", "1", "abc"}},
        {"participant:", {"yes", "no"}},
        {"one_way:", {"yes", "no", "abc"}},
        {"speed_limit", {"50 km/h", "30", "100 km/h", "20 mph", "abc"}},
        {"speed_limit:", {"80 km/h", "10", "abc"}},
        {"speed_limit_mandatory", {"yes", "no", "abc"}},
        {"speed_limit_mandatory:", {"yes", "no"}}};
    return genAttributes(c, spec);
  }
};
inline lanelet::AttributeMap genLineAttributes(Chooser& c) {
  static const Spec spec{
      {"type", {"line_thin", "line_thick", "curbstone", "virtual", "road_border", "line_thin"}},
      {"subtype", {"dashed", "solid", "solid_solid", "dashed_solid", "solid_dashed", "low", "high"}},
      {"lane_change", {"yes", "no", "abc"}},
      {"lane_change:left", {"yes", "no", "yes", "no", "abc"}},
      {"lane_change:right", {"yes", "no"}}};
  lanelet::AttributeMap m;
  if (c.flip(1, 3)) return m;
  m = genAttributes(c, spec);
  if (c.flip(1, 2)) {
    m["type"] = c.pick(spec[0].second);
    m["subtype"] = c.pick(spec[1].second);
  }
  return m;
}
template <> struct Gen<std::map<std::string, lanelet::Attribute>> {
  static std::map<std::string, lanelet::Attribute> make(Chooser& c) {
    std::map<std::string, lanelet::Attribute> m;
    m["participant"] = c.pick(participants());
    m["location"] = std::string("de");
    return m;
  }
};
template <> struct Gen<lanelet::Point3d> {
  static lanelet::Point3d make(Chooser& c) {
    if (!c.points.empty() && c.flip(1, 3)) return c.pick(c.points);
    lanelet::Point3d p(c.nextId++, c.real(), c.real(), c.flip() ? 0. : c.real());
    c.points.push_back(p);
    return p;
  }
};
template <> struct Gen<lanelet::ConstPoint3d> { static lanelet::ConstPoint3d make(Chooser& c) { return Gen<lanelet::Point3d>::make(c); } };
template <> struct Gen<lanelet::Point2d> { static lanelet::Point2d make(Chooser& c) { return lanelet::utils::to2D(Gen<lanelet::Point3d>::make(c)); } };
template <> struct Gen<lanelet::ConstPoint2d> { static lanelet::ConstPoint2d make(Chooser& c) { return lanelet::utils::to2D(Gen<lanelet::Point3d>::make(c)); } };
template <> struct Gen<lanelet::BasicPoint2d> { static lanelet::BasicPoint2d make(Chooser& c) { double x = c.real(); return {x, c.real()}; } };
template <> struct Gen<lanelet::BasicPoint3d> { static lanelet::BasicPoint3d make(Chooser& c) { double x = c.real(), y = c.real(); return {x, y, c.real()}; } };
inline lanelet::Points3d genPoints(Chooser& c, int lo, int hi) {
  lanelet::Points3d r;
  int n = c.range(lo, hi);
  for (int i = 0; i < n; ++i) r.push_back(Gen<lanelet::Point3d>::make(c));
  return r;
}
template <> struct Gen<lanelet::LineString3d> {
  static lanelet::LineString3d make(Chooser& c) {
    if (!c.lines.empty() && c.flip(1, 3)) {
      auto l = c.pick(c.lines);
      return c.flip(1, 3) ? l.invert() : l;
    }
    // ids need not be unique among independent objects
    lanelet::Id id = !c.lines.empty() && c.flip(1, 8) ? c.pick(c.lines).id() : c.nextId++;
    lanelet::LineString3d l(id, genPoints(c, 0, 2 + c.size), genLineAttributes(c));
    c.lines.push_back(l);
    return c.flip(1, 2) ? l.invert() : l;
  }
};
template <> struct Gen<lanelet::ConstLineString3d> { static lanelet::ConstLineString3d make(Chooser& c) { return Gen<lanelet::LineString3d>::make(c); } };
template <> struct Gen<lanelet::LineString2d> { static lanelet::LineString2d make(Chooser& c) { return lanelet::utils::to2D(Gen<lanelet::LineString3d>::make(c)); } };
template <> struct Gen<lanelet::ConstLineString2d> { static lanelet::ConstLineString2d make(Chooser& c) { return lanelet::utils::to2D(Gen<lanelet::LineString3d>::make(c)); } };
template <> struct Gen<lanelet::Polygon3d> {
  static lanelet::Polygon3d make(Chooser& c) {
    if (!c.lines.empty() && c.flip(1, 3)) return lanelet::Polygon3d(c.pick(c.lines));
    lanelet::LineString3d l(c.nextId++, genPoints(c, 0, 3 + c.size));
    c.lines.push_back(l);
    return lanelet::Polygon3d(l);
  }
};
template <> struct Gen<lanelet::ConstPolygon3d> { static lanelet::ConstPolygon3d make(Chooser& c) { return Gen<lanelet::Polygon3d>::make(c); } };
template <> struct Gen<lanelet::Polygon2d> { static lanelet::Polygon2d make(Chooser& c) { return lanelet::utils::to2D(Gen<lanelet::Polygon3d>::make(c)); } };
template <> struct Gen<lanelet::ConstPolygon2d> { static lanelet::ConstPolygon2d make(Chooser& c) { return lanelet::utils::to2D(Gen<lanelet::Polygon3d>::make(c)); } };
// bounds that meet those of existing primitives
inline lanelet::Lanelet genLanelet(Chooser& c) {
  lanelet::LineString3d l, r;
  if (!c.lanelets.empty() && c.flip(1, 2)) {
    auto o = c.pick(c.lanelets);
    if (c.flip()) o = o.invert();
    switch (c.choose(3)) {
      case 0: l = o.rightBound(), r = Gen<lanelet::LineString3d>::make(c); break;
      case 1: r = o.leftBound(), l = Gen<lanelet::LineString3d>::make(c); break;
      default:
        if (o.leftBound().empty() || o.rightBound().empty()) { l = o.leftBound(), r = o.rightBound(); break; }
        lanelet::Points3d a{o.leftBound().back()}, b{o.rightBound().back()};
        if (c.flip(1, 6)) std::swap(a, b);
        for (int i = c.range(0, 2); i > 0; --i) a.push_back(Gen<lanelet::Point3d>::make(c));
        for (int i = c.range(0, 2); i > 0; --i) b.push_back(Gen<lanelet::Point3d>::make(c));
        l = lanelet::LineString3d(c.nextId++, a, genLineAttributes(c));
        r = lanelet::LineString3d(c.nextId++, b, genLineAttributes(c));
        if (c.flip(1, 6)) r = lanelet::LineString3d(c.nextId++, lanelet::Points3d{b.back(), b.front()});
        c.lines.push_back(l), c.lines.push_back(r);
    }
  } else {
    l = Gen<lanelet::LineString3d>::make(c);
    r = Gen<lanelet::LineString3d>::make(c);
  }
  lanelet::Lanelet ll(c.nextId++, l, r, Gen<lanelet::AttributeMap>::make(c));
  if (c.flip(1, 6))
    for (int i = c.range(1, 3); i > 0; --i) {
      lanelet::AttributeMap m;
      if (c.flip()) m["dynamic"] = std::string(c.flip() ? "yes" : "no");
      if (c.flip(1, 3)) ll.addRegulatoryElement(std::make_shared<lanelet::GenericRegulatoryElement>(c.nextId++, lanelet::RuleParameterMap{}, m));
      else ll.addRegulatoryElement(lanelet::RightOfWay::make(c.nextId++, m, {lanelet::Lanelet(ll)}, {lanelet::Lanelet(ll)}));
    }
  c.lanelets.push_back(ll);
  return ll;
}
template <> struct Gen<lanelet::Lanelet> {
  static lanelet::Lanelet make(Chooser& c) {
    auto l = !c.lanelets.empty() && c.flip(1, 3) ? c.pick(c.lanelets) : genLanelet(c);
    return c.flip(1, 3) ? l.invert() : l;
  }
};
template <> struct Gen<lanelet::ConstLanelet> { static lanelet::ConstLanelet make(Chooser& c) { return Gen<lanelet::Lanelet>::make(c); } };
template <> struct Gen<lanelet::Area> {
  static lanelet::Area make(Chooser& c) {
    if (!c.areas.empty() && c.flip(1, 3)) return c.pick(c.areas);
    lanelet::LineStrings3d outer;
    int n = c.range(1, 3);
    for (int i = 0; i < n; ++i) {
      if (!c.lanelets.empty() && c.flip(1, 2)) {  // next to, before or behind a lanelet
        auto o = c.pick(c.lanelets);
        if (c.flip()) o = o.invert();
        if (c.flip() && !o.leftBound().empty() && !o.rightBound().empty()) {
          lanelet::Points3d p{o.rightBound().back(), o.leftBound().back()};
          if (c.flip(1, 4)) std::swap(p[0], p[1]);
          outer.emplace_back(c.nextId++, p, genLineAttributes(c));
          c.lines.push_back(outer.back());
        } else {
          outer.push_back(c.flip() ? o.leftBound() : o.rightBound());
        }
      } else if (!c.areas.empty() && c.flip(1, 2)) {
        outer.push_back(c.pick(c.areas).outerBound().front().invert());
      } else {
        outer.push_back(Gen<lanelet::LineString3d>::make(c));
      }
    }
    lanelet::Area a(c.nextId++, outer, {}, Gen<lanelet::AttributeMap>::make(c));
    c.areas.push_back(a);
    return a;
  }
};
template <> struct Gen<lanelet::ConstArea> { static lanelet::ConstArea make(Chooser& c) { return Gen<lanelet::Area>::make(c); } };

template <typename T> struct Gen<std::vector<T>> {
  static std::vector<T> make(Chooser& c) {
    std::vector<T> r;
    for (int i = c.range(0, 1 + c.size); i > 0; --i) r.push_back(Gen<T>::make(c));
    return r;
  }
};

template <> struct Gen<lanelet::CompoundLineString3d> {
  static lanelet::CompoundLineString3d make(Chooser& c) {
    lanelet::CompoundLineString3d r(Gen<lanelet::ConstLineStrings3d>::make(c));
    return c.flip() ? r.invert() : r;
  }
};
template <> struct Gen<lanelet::CompoundPolygon3d> {
  static lanelet::CompoundPolygon3d make(Chooser& c) { return lanelet::CompoundPolygon3d(Gen<lanelet::CompoundLineString3d>::make(c)); }
};
template <> struct Gen<lanelet::LaneletSequence> {
  static lanelet::LaneletSequence make(Chooser& c) {
    lanelet::LaneletSequence r(Gen<lanelet::ConstLanelets>::make(c));
    return c.flip() ? r.invert() : r;
  }
};

template <typename... A>
Registrar::Registrar(const char* name, void (*fn)(A...)) {
  add(name,
      [fn](Chooser& c) {
        std::tuple<std::decay_t<A>...> args{Gen<std::decay_t<A>>::make(c)...};
        std::apply([&](auto&... a) { fn(a...); }, args);
      },
      false);
}
inline Registrar::Registrar(const char* name, void (*fn)(Chooser&)) {
  add(name, [fn](Chooser& c) { fn(c); }, true);
}
}  // namespace vf
