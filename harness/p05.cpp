// C05: passability of lanelets and areas, one-way rules, overrides
#include <lanelet2_core/geometry/Area.h>
#include <lanelet2_core/geometry/Lanelet.h>
#include <lanelet2_core/primitives/Area.h>
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/primitives/RegulatoryElement.h>
#include <lanelet2_traffic_rules/GenericTrafficRules.h>
#include <lanelet2_traffic_rules/GermanTrafficRules.h>
#include <lanelet2_traffic_rules/TrafficRulesFactory.h>

#include "vf.h"
#include "vf_rules.h"

// participants that may use a lanelet or area by its subtype
static bool bySubtype(const std::string& t, const std::string& p) {
  bool veh = startsWith(p, "vehicle"), ped = startsWith(p, "pedestrian"), bic = startsWith(p, "bicycle");
  if (t == "" || t == "highway") return veh;
  if (t == "road") return veh || bic;
  if (t == "bicycle_lane") return bic;
  if (t == "play_street" || t == "exit") return veh || ped || bic;
  if (t == "emergency_lane") return startsWith(p, "vehicle:emergency");
  if (t == "walkway" || t == "crosswalk" || t == "stairs") return ped;
  if (t == "shared_walkway") return ped || bic;
  return false;
}
static ConstLanelet forward(const ConstLanelet& l) {
  vf_valid(l);
  attributesOf(l, AttributeName::Subtype, "subtype");
  attributesOf(l, AttributeName::OneWay, "one_way");
  return l.inverted() ? l.invert() : l;
}
VF_CONTRACT(pass_by_type, const ConstLanelet& l, const Config& cfg) {
  Rules r(cfg);
  std::string p = participantOf(r);
  ConstLanelet ll = forward(l);
  for (auto& a : ll.attributes()) vf_assume(!startsWith(a.first, "participant"));
  vf_assert(r.canPass(ll) == bySubtype(textOf(ll, AttributeName::Subtype), p), "without overrides the subtype decides about passing");
}
VF_CONTRACT(pass_by_rule, const ConstLanelet& l, const Config& cfg, bool v) {
  Rules r(cfg);
  r.verdict = v;
  ConstLanelet ll = forward(l);
  participantOf(r);
  vf_assert(r.canPass(ll) == v, "regulatory elements that decide about passing go first");
}
VF_CONTRACT(pass_override, const ConstLanelet& l, const Config& cfg, size_t k) {
  Rules r(cfg);
  std::string p = "participant:" + participantOf(r);
  ConstLanelet ll = forward(l);
  const AttributeMap& m = ll.attributes();
  auto it = m.begin();
  vf_assume(k < m.size());
  std::advance(it, k);
  vf_assume(startsWith(it->first, "participant") && matches(it->first, "participant", p));
  for (auto i = m.begin(); i != m.end(); ++i) vf_assume(i == it || !matches(i->first, "participant", p));
  auto v = it->second.asBool();
  vf_assert(r.canPass(ll) == (!!v && *v), "a participant override decides about passing");
}
VF_CONTRACT(pass_override_others, const ConstLanelet& l, const Config& cfg, size_t k) {
  Rules r(cfg);
  std::string p = "participant:" + participantOf(r);
  ConstLanelet ll = forward(l);
  const AttributeMap& m = ll.attributes();
  auto it = m.begin();
  vf_assume(k < m.size());
  std::advance(it, k);
  vf_assume(startsWith(it->first, "participant"));
  for (auto& a : m) vf_assume(!matches(a.first, "participant", p));
  vf_assert(!r.canPass(ll), "overrides that exist for other participants only exclude the participant");
}
VF_CONTRACT(pass_area_type, const ConstArea& ar, const Config& cfg) {
  vf_valid(ar);
  attributesOf(ar, AttributeName::Subtype, "subtype");
  Rules r(cfg);
  std::string p = participantOf(r);
  for (auto& a : ar.attributes()) vf_assume(!startsWith(a.first, "participant"));
  vf_assert(r.canPass(ar) == bySubtype(textOf(ar, AttributeName::Subtype), p), "without overrides the subtype of an area decides about passing");
}
VF_CONTRACT(pass_area_override, const ConstArea& ar, const Config& cfg, size_t k) {
  vf_valid(ar);
  Rules r(cfg);
  std::string p = "participant:" + participantOf(r);
  const AttributeMap& m = ar.attributes();
  auto it = m.begin();
  vf_assume(k < m.size());
  std::advance(it, k);
  vf_assume(startsWith(it->first, "participant") && matches(it->first, "participant", p));
  for (auto i = m.begin(); i != m.end(); ++i) vf_assume(i == it || !matches(i->first, "participant", p));
  auto v = it->second.asBool();
  vf_assert(r.canPass(ar) == (!!v && *v), "a participant override decides about passing an area");
}
VF_CONTRACT(pass_area_rule, const ConstArea& ar, const Config& cfg, bool v) {
  vf_valid(ar);
  Rules r(cfg);
  r.verdict = v;
  participantOf(r);
  vf_assert(r.canPass(ar) == v, "regulatory elements that decide about passing an area go first");
}
// ---------------------------------------------------------------- direction
VF_CONTRACT(oneway_default, const ConstLanelet& l, const Config& cfg) {
  Rules r(cfg);
  std::string p = participantOf(r);
  ConstLanelet ll = forward(l);
  for (auto& a : ll.attributes()) vf_assume(!startsWith(a.first, "one_way"));
  vf_assert(r.isOneWay(ll) == !(p == "pedestrian"), "lanelets are one way except for pedestrians");
}
VF_CONTRACT(oneway_attribute, const ConstLanelet& l, const Config& cfg) {
  Rules r(cfg);
  participantOf(r);
  ConstLanelet ll = forward(l);
  auto v = ll.attributeOr(AttributeName::OneWay, Optional<bool>());
  vf_assume(!!v);
  vf_assert(r.isOneWay(ll) == *v, "the one_way attribute decides about the direction for everybody");
}
VF_CONTRACT(oneway_override, const ConstLanelet& l, const Config& cfg, size_t k) {
  Rules r(cfg);
  std::string p = "one_way:" + participantOf(r);
  ConstLanelet ll = forward(l);
  vf_assume(!ll.attributeOr(AttributeName::OneWay, Optional<bool>()));
  const AttributeMap& m = ll.attributes();
  auto it = m.begin();
  vf_assume(k < m.size());
  std::advance(it, k);
  vf_assume(startsWith(it->first, "one_way") && matches(it->first, "one_way", p));
  for (auto i = m.begin(); i != m.end(); ++i) vf_assume(i == it || !matches(i->first, "one_way", p));
  auto v = it->second.asBool();
  vf_assert(r.isOneWay(ll) == (!v || *v), "a one_way override decides about the direction");
}
VF_CONTRACT(oneway_override_others, const ConstLanelet& l, const Config& cfg, size_t k) {
  Rules r(cfg);
  std::string p = "one_way:" + participantOf(r);
  ConstLanelet ll = forward(l);
  vf_assume(!ll.attributeOr(AttributeName::OneWay, Optional<bool>()));
  const AttributeMap& m = ll.attributes();
  auto it = m.begin();
  vf_assume(k < m.size());
  std::advance(it, k);
  vf_assume(startsWith(it->first, "one_way"));
  for (auto& a : m) vf_assume(!matches(a.first, "one_way", p));
  vf_assert(r.isOneWay(ll), "with overrides for other participants only, a lanelet is one way");
}
VF_CONTRACT(oneway_symmetric, const ConstLanelet& l, const Config& cfg) {
  vf_valid(l);
  Rules r(cfg);
  participantOf(r);
  vf_assert(r.isOneWay(l) == r.isOneWay(l.invert()), "being one way does not depend on the view");
}
VF_CONTRACT(pass_direction, const ConstLanelet& l, const Config& cfg) {
  Rules r(cfg);
  participantOf(r);
  ConstLanelet ll = forward(l);
  vf_assert(r.canPass(ll.invert()) == (r.canPass(ll) && !r.isOneWay(ll)), "a lanelet can be passed against its direction iff it can be passed along it and is not one way");
}
VF_CONTRACT(pass_direction_rule, const ConstLanelet& l, const Config& cfg, bool v) {
  Rules r(cfg);
  r.verdict = v;
  participantOf(r);
  ConstLanelet ll = forward(l);
  vf_assert(r.canPass(ll.invert()) == (v && !r.isOneWay(ll)), "a regulatory element does not lift the one way rule");
}
// ---------------------------------------------------------------- transitions
VF_CONTRACT(pass_lanelets, const ConstLanelet& a, const ConstLanelet& b, const Config& cfg) {
  vf_valid(a, b);
  vf_valid(a.leftBound(), a.rightBound(), b.leftBound(), b.rightBound());
  AnyRules r(cfg);
  participantOf(r);
  vf_assert(r.canPass(a, b) == (geometry::follows(a, b) && r.canPass(a) && r.canPass(b)), "a transition between lanelets is passable iff the second follows the first and both are passable");
}
VF_CONTRACT(pass_to_area, const ConstLanelet& a, const ConstArea& b, const Config& cfg) {
  vf_valid(a);
  vf_valid(b);
  vf_valid(a.leftBound(), a.rightBound());
  vf_assume(!a.leftBound().empty() && !a.rightBound().empty());
  for (auto& x : b.outerBound()) { vf_valid(x); vf_assume(!x.empty()); }
  AnyRules r(cfg);
  participantOf(r);
  vf_assert(!r.canPass(a, b) || (r.canPass(a) && r.canPass(b)), "a transition to an area needs both to be passable");
}
VF_CONTRACT(pass_from_area, const ConstArea& a, const ConstLanelet& b, const Config& cfg) {
  vf_valid(a);
  vf_valid(b);
  vf_valid(b.leftBound(), b.rightBound());
  vf_assume(!b.leftBound().empty() && !b.rightBound().empty());
  for (auto& x : a.outerBound()) { vf_valid(x); vf_assume(!x.empty()); }
  AnyRules r(cfg);
  participantOf(r);
  vf_assert(!r.canPass(a, b) || (r.canPass(a) && r.canPass(b)), "a transition from an area needs both to be passable");
}
VF_CONTRACT(pass_areas, const ConstArea& a, const ConstArea& b, const Config& cfg) {
  vf_valid(a);
  vf_valid(b);
  for (auto& x : a.outerBound()) vf_valid(x);
  for (auto& x : b.outerBound()) vf_valid(x);
  AnyRules r(cfg);
  participantOf(r);
  vf_assert(!r.canPass(a, b) || (r.canPass(a) && r.canPass(b)), "a transition between areas needs both to be passable");
}
// ---------------------------------------------------------------- rules of a country
VF_CONTRACT(german_vehicle, const ConstLanelet& l, const ConstArea& a, const Config& cfg) {
  Rules r(cfg);
  traffic_rules::GermanVehicle gv(cfg);
  const traffic_rules::TrafficRules& g = gv;
  participantOf(r);
  ConstLanelet ll = forward(l);
  vf_assert(g.canPass(ll) == r.canPass(ll), "the german rules for vehicles follow the generic ones on lanelets");
  vf_assert(!g.canPass(a), "areas are closed to vehicles in germany");
}
VF_CONTRACT(german_pedestrian, const ConstLanelet& l, const ConstArea& a, const Config& cfg) {
  Rules r(cfg);
  traffic_rules::GermanPedestrian gp(cfg);
  const traffic_rules::TrafficRules& g = gp;
  participantOf(r);
  ConstLanelet ll = forward(l);
  vf_valid(a);
  vf_assert(g.canPass(ll) == r.canPass(ll), "the german rules for pedestrians follow the generic ones on lanelets");
  vf_assert(g.canPass(a) == r.canPass(a), "the german rules for pedestrians follow the generic ones on areas");
}
VF_CONTRACT(german_bicycle, const ConstLanelet& l, const ConstArea& a, const Config& cfg) {
  Rules r(cfg);
  traffic_rules::GermanBicycle gb(cfg);
  const traffic_rules::TrafficRules& g = gb;
  participantOf(r);
  ConstLanelet ll = forward(l);
  vf_valid(a);
  vf_assert(g.canPass(ll) == r.canPass(ll), "the german rules for bicycles follow the generic ones on lanelets");
  vf_assert(g.canPass(a) == r.canPass(a), "the german rules for bicycles follow the generic ones on areas");
}
#ifdef VF_NATIVE
// the rules of the factory, on random primitives and participants, against the tables
static Optional<bool> overrideFor(const AttributeMap& m, const std::string& prefix, const std::string& p, bool& several) {
  Optional<bool> r;
  int n = 0;
  for (auto& a : m)
    if (matches(a.first, prefix, prefix + ":" + p)) {
      ++n;
      r = a.second.value() == "yes" || a.second.value() == "true" || a.second.value() == "1"   ? Optional<bool>(true)
          : a.second.value() == "no" || a.second.value() == "false" || a.second.value() == "0" ? Optional<bool>(false)
                                                                                               : Optional<bool>();
    }
  several = n > 1;
  return r;
}
static bool expectedPass(const AttributeMap& m, const std::string& p) {
  bool several;
  auto o = overrideFor(m, "participant", p, several);
  if (several) throw vf::Discard{};
  if (overrides(m, "participant")) return !!o && *o;
  return bySubtype(m.find("subtype") != m.end() ? m.find("subtype")->second.value() : "", p);
}
static bool expectedOneWay(const AttributeMap& m, const std::string& p) {
  bool several;
  if (m.find("one_way") != m.end()) {
    auto o = m.find("one_way")->second.asBool();
    if (!!o) return *o;
  }
  auto o = overrideFor(m, "one_way", p, several);
  if (several) throw vf::Discard{};
  if (overrides(m, "one_way")) return !o || *o;
  return p != "pedestrian";
}
VF_BOUNDED(factory_rules) {
  auto p = ch.pick(vf::participants());
  auto r = traffic_rules::TrafficRulesFactory::create(Locations::Germany, p);
  vf_assert(r->participant() == p && r->location() == Locations::Germany, "the rules of the factory are those of the participant asked for");
  ConstLanelet l = vf::Gen<Lanelet>::make(ch), f = l.inverted() ? l.invert() : l;
  ConstArea a = vf::Gen<Area>::make(ch);
  vf::note(p);
  for (auto& x : f.attributes()) vf::note(x.first + "=" + x.second.value());
  bool pass = expectedPass(f.attributes(), p), one = expectedOneWay(f.attributes(), p);
  vf_assert(r->canPass(f) == pass, "a lanelet is passable along its direction iff its overrides, otherwise its subtype, allow it");
  vf_assert(r->isOneWay(f) == one && r->isOneWay(f.invert()) == one, "lanelets are one way unless stated otherwise or for pedestrians");
  vf_assert(r->canPass(f.invert()) == (pass && !one), "a lanelet is passable against its direction iff it is passable and not one way");
  bool vehicle = startsWith(p, "vehicle");
  vf_assert(r->canPass(a) == (!vehicle && expectedPass(a.attributes(), p)), "areas follow the same overrides and subtypes and are closed to vehicles");
}
#endif
