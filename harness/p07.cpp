// C07: speed limits
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/BasicRegulatoryElements.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/GermanTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>
#include <lanelet2_core/utility/Units.h>

#include "vf.h"
#include "vf_rules.h"

using Limit = SpeedLimitInformation;
template <typename P>
static Limit limitOf(const traffic_rules::TrafficRules& r, const P& p) { return r.speedLimit(p); }
static bool same(const Limit& a, const Limit& b) { return a.speedLimit == b.speedLimit && a.isMandatory == b.isMandatory; }
static Limit any(double v, bool m) { return Limit{Velocity(v * units::MPS()), m}; }
struct Any {  // rules with arbitrary limits for a country
  Rules& r;
  Any(Rules& x, double a, double b, double c, double d, double e, double f, double g, bool m) : r(x) {
    r.limits = CountrySpeedLimits{any(a, true), any(b, m), any(c, !m), any(d, m), any(e, true), any(f, m), any(g, !m)};
  }
};
// limit of a country for a participant on a primitive
static Limit byCountry(const CountrySpeedLimits& c, const std::string& loc, const std::string& type, const std::string& p) {
  bool urban = loc == "urban", nonurban = loc == "nonurban";
  if (p == "pedestrian") return c.pedestrian;
  if (p == "bicycle") return c.bicycle;
  if (!startsWith(p, "vehicle")) return Limit{};
  if (type == "road" && urban) return c.vehicleUrbanRoad;
  if (type == "road" && nonurban) return c.vehicleNonurbanRoad;
  if (type == "highway" && urban) return c.vehicleUrbanHighway;
  if (type == "highway" && nonurban) return c.vehicleNonurbanHighway;
  if (type == "play_street" && (urban || nonurban)) return c.playStreet;
  if (type == "exit" && urban) return c.vehicleUrbanRoad;
  return Limit{};
}
template <typename P>
static void named(const P& p) {
  vf_valid(p);
  attributesOf(p, AttributeName::Subtype, "subtype");
  attributesOf(p, AttributeName::Location, "location");
  attributesOf(p, AttributeName::SpeedLimit, "speed_limit");
}
template <typename P>
static std::string textOr(const P& p, AttributeName name, const char* other) {
  const AttributeMap& m = p.attributes();
  auto it = m.find(name);
  return it == m.end() ? std::string(other) : it->second.value();
}
VF_CONTRACT(limit_rule, const ConstLanelet& l, const ConstArea& a, const Config& cfg, double v, bool m) {
  Rules r(cfg);
  participantOf(r);
  vf_valid(l);
  vf_valid(a);
  r.hasLimit = true;
  r.limit = any(v, m);
  vf_assert(same(limitOf(r, l), r.limit), "regulatory elements that limit the speed go first");
  vf_assert(same(limitOf(r, a), r.limit), "regulatory elements that limit the speed in an area go first");
}
VF_CONTRACT(limit_country, const ConstLanelet& l, const Config& cfg, double a, double b, double c, double d, double e, double f, double g, bool m) {
  Rules r(cfg);
  Any(r, a, b, c, d, e, f, g, m);
  std::string p = participantOf(r);
  named(l);
  for (auto& x : l.attributes()) vf_assume(!startsWith(x.first, "speed_limit") && !startsWith(x.first, "speed_limit_mandatory"));
  vf_assert(same(limitOf(r, l), byCountry(r.limits, textOr(l, AttributeName::Location, "urban"), textOr(l, AttributeName::Subtype, "road"), p)), "without attributes for it the limit of the country applies");
}
VF_CONTRACT(limit_country_area, const ConstArea& l, const Config& cfg, double a, double b, double c, double d, double e, double f, double g, bool m) {
  Rules r(cfg);
  Any(r, a, b, c, d, e, f, g, m);
  std::string p = participantOf(r);
  named(l);
  for (auto& x : l.attributes()) vf_assume(!startsWith(x.first, "speed_limit") && !startsWith(x.first, "speed_limit_mandatory"));
  vf_assert(same(limitOf(r, l), byCountry(r.limits, textOr(l, AttributeName::Location, "urban"), textOr(l, AttributeName::Subtype, "road"), p)), "without attributes for it the limit of the country applies in an area");
}
template <typename P>
static Velocity general(const P& p) {
  const AttributeMap& m = p.attributes();
  auto it = m.find("speed_limit");
  if (it == m.end()) return Velocity();
  auto v = it->second.asVelocity();
  return !!v ? *v : Velocity();
}
template <typename P>
static void attribute(const P& l, const Config& cfg) {
  Rules r(cfg);
  std::string p = participantOf(r);
  named(l);
  const AttributeMap& m = l.attributes();
  vf_assume(m.find("speed_limit") != m.end());
  std::string full = "speed_limit:" + p;
  for (auto i = m.begin(); i != m.end(); ++i) vf_assume(!matches(i->first, "speed_limit:", full));
  vf_assert(limitOf(r, l).speedLimit == general(l), "without a limit for the participant the speed_limit attribute decides");
}
VF_CONTRACT(limit_attribute, const ConstLanelet& l, const Config& cfg) { attribute(l, cfg); }
VF_CONTRACT(limit_attribute_area, const ConstArea& l, const Config& cfg) { attribute(l, cfg); }
VF_CONTRACT(limit_override, const ConstLanelet& l, const Config& cfg, size_t k) {
  Rules r(cfg);
  std::string p = participantOf(r);
  named(l);
  const AttributeMap& m = l.attributes();
  auto it = m.begin();
  vf_assume(k < m.size());
  std::advance(it, k);
  std::string full = "speed_limit:" + p;
  vf_assume(startsWith(it->first, "speed_limit") && matches(it->first, "speed_limit:", full));
  for (auto i = m.begin(); i != m.end(); ++i) vf_assume(i == it || !matches(i->first, "speed_limit:", full));
  auto v = it->second.asVelocity();
  vf_assert(limitOf(r, l).speedLimit == (!!v ? *v : general(l)), "a limit for the participant goes before the speed_limit attribute");
}
VF_CONTRACT(mandatory_default, const ConstLanelet& l, const Config& cfg, size_t k) {
  Rules r(cfg);
  std::string p = participantOf(r);
  named(l);
  const AttributeMap& m = l.attributes();
  auto it = m.begin();
  vf_assume(k < m.size());
  std::advance(it, k);
  vf_assume(startsWith(it->first, "speed_limit"));
  std::string full = "speed_limit_mandatory:" + p;
  for (auto i = m.begin(); i != m.end(); ++i) vf_assume(!matches(i->first, "speed_limit_mandatory", full));
  vf_assert(limitOf(r, l).isMandatory, "a limit from attributes is mandatory unless stated otherwise");
}
VF_CONTRACT(mandatory_override, const ConstLanelet& l, const Config& cfg, size_t k) {
  Rules r(cfg);
  std::string p = participantOf(r);
  named(l);
  const AttributeMap& m = l.attributes();
  auto it = m.begin();
  vf_assume(k < m.size());
  std::advance(it, k);
  std::string full = "speed_limit_mandatory:" + p;
  vf_assume(startsWith(it->first, "speed_limit_mandatory") && matches(it->first, "speed_limit_mandatory", full));
  for (auto i = m.begin(); i != m.end(); ++i) vf_assume(i == it || !matches(i->first, "speed_limit_mandatory", full));
  auto v = it->second.asBool();
  vf_assert(limitOf(r, l).isMandatory == (!v || *v), "the attribute for it decides whether a limit is mandatory");
}
// ---------------------------------------------------------------- germany
static Limit kmh(double v, bool m = true) { return Limit{Velocity(v * units::KmH()), m}; }
VF_CONTRACT(german_limits, ) {
  CountrySpeedLimits c = traffic_rules::germanSpeedLimits();
  vf_assert(same(c.vehicleUrbanRoad, kmh(50)) && same(c.vehicleNonurbanRoad, kmh(100)), "german limits on roads");
  vf_assert(same(c.vehicleUrbanHighway, kmh(130, false)) && same(c.vehicleNonurbanHighway, kmh(130, false)), "german limits on highways");
  vf_assert(same(c.playStreet, kmh(7)) && same(c.pedestrian, kmh(5)) && same(c.bicycle, kmh(20)), "german limits on play streets, for pedestrians and bicycles");
}
template <typename G>
static void german(const ConstLanelet& l, const Config& cfg) {
  Rules r(cfg);
  r.limits = traffic_rules::germanSpeedLimits();
  participantOf(r);
  named(l);
  vf_assume(l.regulatoryElements().empty());
  G gr(cfg);
  const traffic_rules::TrafficRules& g = gr;
  vf_assert(same(g.speedLimit(l), limitOf(r, l)), "the german rules apply the german limits");
}
VF_CONTRACT(german_vehicle, const ConstLanelet& l, const Config& cfg) { german<traffic_rules::GermanVehicle>(l, cfg); }
VF_CONTRACT(german_pedestrian, const ConstLanelet& l, const Config& cfg) { german<traffic_rules::GermanPedestrian>(l, cfg); }
VF_CONTRACT(german_bicycle, const ConstLanelet& l, const Config& cfg) { german<traffic_rules::GermanBicycle>(l, cfg); }
static bool isDynamic(const RegulatoryElementConstPtr& x) {
  const AttributeMap& m = x->attributes();
  auto it = m.find(AttributeName::Dynamic);
  if (it == m.end()) return false;
  auto v = it->second.asBool();
  return !!v && *v;
}
VF_CONTRACT(dynamic_none, const ConstLanelet& l, const Config& cfg) {
  Rules r(cfg);
  vf_valid(l);
  auto rs = l.regulatoryElements();
  for (auto& x : rs) vf_assume(!isDynamic(x));
  vf_assert(!r.hasDynamicRules(l), "there are no dynamic rules without a regulatory element that is marked as such");
}
VF_CONTRACT(dynamic_some, const ConstLanelet& l, const Config& cfg, size_t k) {
  Rules r(cfg);
  vf_valid(l);
  auto rs = l.regulatoryElements();
  vf_assume(k < rs.size() && isDynamic(rs[k]));
  vf_assert(r.hasDynamicRules(l), "rules are dynamic if a regulatory element is marked as such");
}
#ifdef VF_NATIVE
VF_BOUNDED(german_signs) {
  struct Sign { const char* type; double kmh; };
  static const std::vector<Sign> signs{{"de274", 30}, {"de274-5", 5}, {"de274-10", 10}, {"de274-15", 15}, {"de274-20", 20}, {"de274-30", 30}, {"de274-40", 40}, {"de274-50", 50}, {"de274-60", 60}, {"de274-70", 70}, {"de274-80", 80}, {"de274-90", 90}, {"de274-100", 100}, {"de274-110", 110}, {"de274-120", 120}, {"de274-130", 130}, {"de274_1", 30}, {"de274_1-20", 20}, {"de310", 50}, {"42 km/h", 42}, {"35", 35}, {"10 m/s", 36}, {"10 mps", 36}};
  auto p = ch.pick(vf::participants());
  auto r = traffic_rules::TrafficRulesFactory::create(Locations::Germany, p);
  Lanelet l = vf::Gen<Lanelet>::make(ch);
  double before = limitOf(*r, ConstLanelet(l)).speedLimit.value();
  bool mandatory = limitOf(*r, ConstLanelet(l)).isMandatory;
  Sign s = ch.pick(signs);
  Sign t = ch.pick(signs);
  vf::note(p + " " + s.type + " " + t.type);
  if (ch.choose(2)) l.addRegulatoryElement(RightOfWay::make(utils::getId(), {}, {l}, {l}));
  auto mk = [&](const Sign& x) {
    if (ch.choose(2)) return SpeedLimit::make(utils::getId(), {}, TrafficSignsWithType{{LineString3d(utils::getId(), {})}, x.type});
    return SpeedLimit::make(utils::getId(), AttributeMap{{"sign_type", x.type}}, TrafficSignsWithType{{}, ""});
  };
  auto first = mk(s), second = mk(t);
  l.addRegulatoryElement(first);
  if (ch.choose(2)) l.addRegulatoryElement(second);
  auto lim = limitOf(*r, ConstLanelet(l));
  bool veh = startsWith(p, "vehicle");
  vf_assert(std::abs(lim.speedLimit.value() - (veh ? s.kmh / 3.6 : before)) < 1e-9 && lim.isMandatory == (veh || mandatory), "vehicles follow the first speed limit sign, others are not affected by it");
}
#endif
