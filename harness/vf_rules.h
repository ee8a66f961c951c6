// helpers for traffic rules: a concrete rule set whose country specific parts are arbitrary values
#pragma once
using namespace lanelet;
using traffic_rules::CountrySpeedLimits;
using traffic_rules::GenericTrafficRules;
using traffic_rules::LaneChangeType;
using traffic_rules::SpeedLimitInformation;

using Config = std::map<std::string, Attribute>;
struct Rules : GenericTrafficRules {
  using GenericTrafficRules::GenericTrafficRules;
  using GenericTrafficRules::canPass;
  int verdict{-1};  // of the regulatory elements: -1 none
  bool hasLimit{false};
  SpeedLimitInformation limit;
  CountrySpeedLimits limits;
  Optional<bool> canPass(const RegulatoryElementConstPtrs&) const override {
    return verdict < 0 ? Optional<bool>() : Optional<bool>(verdict > 0);
  }
  const CountrySpeedLimits& countrySpeedLimits() const override { return limits; }
  Optional<SpeedLimitInformation> speedLimit(const RegulatoryElementConstPtrs&) const override {
    return hasLimit ? Optional<SpeedLimitInformation>(limit) : Optional<SpeedLimitInformation>();
  }
};
// the same rules with an arbitrary contract for the passability of single primitives
struct AnyRules : Rules {
  using Rules::Rules;
  using Rules::canPass;
  bool canPass(const ConstLanelet& l) const override { return vf_pred(l.id(), l.inverted() ? 1 : 0); }
  bool canPass(const ConstArea& a) const override { return vf_pred(a.id(), 2); }
  LaneChangeType laneChangeType(const ConstLineString3d& b, bool virt) const override {
    bool left = vf_pred(b.id(), b.inverted() ? 4 : 3), right = vf_pred(b.id(), b.inverted() ? 3 : 4);
    if (virt && vf_pred(b.id(), 5)) return LaneChangeType::Both;
    return left ? (right ? LaneChangeType::Both : LaneChangeType::ToLeft) : (right ? LaneChangeType::ToRight : LaneChangeType::None);
  }
};
static bool startsWith(const std::string& s, const std::string& t) { return s.compare(0, t.size(), t) == 0; }
static std::string participantOf(const traffic_rules::TrafficRules& r) {
  auto& c = r.configuration();
  auto it = c.find("participant");
  vf_assume(it != c.end());
  return it->second.value();
}
// lookup by key and by name agree (C04)
template <typename P>
static void attributesOf(const P& p, AttributeName a, const char* n) {
  const AttributeMap& m = p.attributes();
  vf_assume(m.find(a) == m.find(n));
}
template <typename P>
static std::string textOf(const P& p, AttributeName name) {
  const AttributeMap& m = p.attributes();
  auto it = m.find(name);
  return it == m.end() ? std::string() : it->second.value();
}

// value of the attribute of the map that decides about an override with the given prefix for the given name. Overrides at
// different levels are forbidden: at most one attribute matches.
enum Override { None, No, Yes, Unreadable };
static bool overrides(const AttributeMap& m, const char* prefix) {
  bool any = false;
  for (auto& a : m) any = any || startsWith(a.first, prefix);
  return any;
}
static bool matches(const std::string& name, const std::string& prefix, const std::string& full) {
  return name.size() >= prefix.size() && startsWith(full, name);
}
