// C04: attribute maps and attribute values
#include <boost/variant.hpp>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <iostream>

#include <lanelet2_core/Forward.h>
#include <lanelet2_core/utility/HybridMap.h>
#include <lanelet2_core/utility/Optional.h>
// the invariant of the cache is stated over the private member of Attribute
#define private public
#include <lanelet2_core/Attribute.h>
#undef private
#include <lanelet2_core/primitives/Lanelet.h>
#include <lanelet2_core/utility/Units.h>

#include <boost/lexical_cast.hpp>
#include <cmath>

#include "vf.h"
using namespace lanelet;
using AN = AttributeName;
using AS = AttributeNamesString;

static const char* nameOf(AN a) {
  switch (a) {
    case AN::Type: return "type";
    case AN::Subtype: return "subtype";
    case AN::OneWay: return "one_way";
    case AN::ParticipantVehicle: return "participant:vehicle";
    case AN::ParticipantPedestrian: return "participant:pedestrian";
    case AN::SpeedLimit: return "speed_limit";
    case AN::Location: return "location";
    default: return "dynamic";
  }
}
// representation invariant: lookup by key and by name agree
static bool coherent(const AttributeMap& m, AN a) { return m.find(a) == m.find(nameOf(a)); }
static void coherentAll(const AttributeMap& m) {
  for (int i = 0; i < 8; ++i) vf_assume(coherent(m, AN(i)));
}

VF_CONTRACT(map_find, const AttributeMap& m, int e) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  vf_assert((m.find(a) == m.end()) == (m.find(nameOf(a)) == m.end()), "a key is present iff its name is");
}
VF_CONTRACT(map_insert, AttributeMap& m, const std::string& k, const Attribute& v, int e) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  bool had = m.find(k) != m.end();
  size_t n = m.size();
  auto r = m.insert(std::make_pair(k, v));
  vf_assert(r.second == !had && r.first == m.find(k) && r.first != m.end(), "insert yields the element with the name");
  vf_assert(m.size() == (had ? n : n + 1), "insert adds at most one element");
  vf_assert(r.first->first == k, "insert keeps the name");
  vf_assert(had || r.first->second.value() == v.value(), "insert stores the value");
  vf_assert(coherent(m, a), "insert keeps lookup by key and name consistent");
}
VF_CONTRACT(map_erase, AttributeMap& m, const std::string& k, int e) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  coherentAll(m);
  bool had = m.find(k) != m.end();
  auto r = m.erase(k);
  vf_assert(r == (had ? 1u : 0u), "erase counts the erased elements");
  vf_assert(m.find(k) == m.end(), "an erased name is gone");
  vf_assert(coherent(m, a), "erase keeps lookup by key and name consistent");
}
VF_CONTRACT(map_index_name, AttributeMap& m, const std::string& k, const Attribute& v, int e) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  m[k] = v;
  vf_assert(m.find(k) != m.end() && m.find(k)->second.value() == v.value(), "assignment by name stores the value");
  vf_assert(coherent(m, a), "assignment by name keeps lookup by key and name consistent");
}
VF_CONTRACT(map_index_key, AttributeMap& m, const Attribute& v, int e, int f) {
  vf_assume(e >= 0 && e < 8 && f >= 0 && f < 8);
  AN a = AN(e), b = AN(f);
  vf_assume(coherent(m, a) && coherent(m, b));
  m[b] = v;
  vf_assert(m.find(nameOf(b)) != m.end() && m.find(nameOf(b))->second.value() == v.value(), "assignment by key stores the value under the name");
  vf_assert(coherent(m, a) && coherent(m, b), "assignment by key keeps lookup by key and name consistent");
}
VF_CONTRACT(map_clear, AttributeMap& m, const std::string& k, int e) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  m.clear();
  vf_assert(m.empty() && m.size() == 0 && m.find(k) == m.end() && m.find(a) == m.end(), "a cleared map has no elements");
}
VF_CONTRACT(map_index_other, AttributeMap& m, const std::string& k, const std::string& j, const Attribute& v) {
  vf_assume(!(j == k) && m.find(j) != m.end());
  std::string old = m.find(j)->second.value();
  m[k] = v;
  vf_assert(m.find(j) != m.end() && m.find(j)->second.value() == old, "assignment leaves the other attributes as they are");
}
VF_CONTRACT(map_erase_other, AttributeMap& m, const std::string& k, const std::string& j) {
  vf_assume(!(j == k) && m.find(j) != m.end());
  std::string old = m.find(j)->second.value();
  m.erase(k);
  vf_assert(m.find(j) != m.end() && m.find(j)->second.value() == old, "erase leaves the other attributes as they are");
}
VF_CONTRACT(map_at, const AttributeMap& m, const std::string& k, int e) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  bool thrown = false, thrownKey = false;
  const Attribute* v = nullptr;
  const Attribute* w = nullptr;
  try { v = &m.at(k); } catch (std::out_of_range&) { thrown = true; }
  try { w = &m.at(a); } catch (std::out_of_range&) { thrownKey = true; }
  vf_assert(thrown == (m.find(k) == m.end()), "at(name) throws exactly for missing attributes");
  vf_assert(thrownKey == (m.find(a) == m.end()), "at(key) throws exactly for missing attributes");
  vf_assert(thrown || v == &m.find(k)->second, "at(name) yields the element with the name");
  vf_assert(thrownKey || w == &m.find(a)->second, "at(key) yields the element with the key");
}
VF_CONTRACT(map_copy, const AttributeMap& m, int e, const std::string& k) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  AttributeMap c(m);
  const AttributeMap& cc = c;
  vf_assert((cc.find(k) != cc.end()) == (m.find(k) != m.end()), "a copy has the same names");
  vf_assert(coherent(cc, a), "copy keeps lookup by key and name consistent");
}
VF_CONTRACT(map_move, AttributeMap& m, int e, const std::string& k) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  bool had = m.find(k) != m.end();
  AttributeMap c(std::move(m));
  const AttributeMap& cc = c;
  vf_assert((cc.find(k) != cc.end()) == had, "a moved map has the same names");
  vf_assert(coherent(cc, a), "move keeps lookup by key and name consistent");
}
VF_CONTRACT(map_move_assign, AttributeMap& m, AttributeMap& c, int e, const std::string& k) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  bool had = m.find(k) != m.end();
  c = std::move(m);
  const AttributeMap& cc = c;
  vf_assert((cc.find(k) != cc.end()) == had, "a moved map has the same names");
  vf_assert(coherent(cc, a), "move keeps lookup by key and name consistent");
}
VF_CONTRACT(map_copy_assign, const AttributeMap& m, AttributeMap& c, int e, const std::string& k) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  c = m;
  const AttributeMap& cc = c;
  vf_assert((cc.find(k) != cc.end()) == (m.find(k) != m.end()), "an assigned map has the same names");
  vf_assert(coherent(cc, a), "assignment keeps lookup by key and name consistent");
}
VF_CONTRACT(map_insert_hint, AttributeMap& m, const std::string& k, const Attribute& v, int e) {
  vf_assume(e >= 0 && e < 8);
  AN a = AN(e);
  vf_assume(coherent(m, a));
  const AttributeMap& cm = m;
  auto it = m.insert(cm.begin(), std::make_pair(k, v));
  vf_assert(it == m.find(k) && it != m.end(), "insert with a hint yields the element with the name");
  vf_assert(coherent(m, a), "insert with a hint keeps lookup by key and name consistent");
}
// ---------------------------------------------------------------- values
static int boolOf(const std::string& s) {
  try {
    return boost::lexical_cast<bool>(s) ? 1 : 0;
  } catch (boost::bad_lexical_cast&) {
    return s == "true" || s == "yes" ? 1 : s == "false" || s == "no" ? 0 : -1;
  }
}
template <typename T>
static bool parse(const std::string& s, T& v) {
  try {
    v = boost::lexical_cast<T>(s);
    return true;
  } catch (boost::bad_lexical_cast&) {
    return false;
  }
}
static void checkBool(const Attribute& a, const std::string& s) {
  Optional<bool> b = a.asBool();
  int w = boolOf(s);
  vf_assert(!b == (w < 0), "a text is a bool if it is 0, 1, yes, no, true or false");
  vf_assert(!b || *b == (w == 1), "a bool is read from the current text");
}
template <typename T>
static void checkNum(const Attribute& a, const std::string& s) {
  Optional<T> b = a.as<T>();
  T w{};
  bool ok = parse<T>(s, w);
  vf_assert(!b == !ok, "a number can be read exactly if the current text is one");
  vf_assert(!b || *b == w, "a number is read from the current text");
}
VF_CONTRACT(attr_set_bool, Attribute& a, const std::string& s) {
  a.setValue(s);
  vf_assert(a.value() == s, "setValue sets the text");
  checkBool(a, s);
  checkBool(a, s);
}
VF_CONTRACT(attr_set_double, Attribute& a, const std::string& s) {
  a.setValue(s);
  checkNum<double>(a, s);
  checkNum<double>(a, s);
}
VF_CONTRACT(attr_set_int, Attribute& a, const std::string& s) {
  a.setValue(s);
  checkNum<int>(a, s);
  checkNum<int>(a, s);
}
VF_CONTRACT(attr_set_id, Attribute& a, const std::string& s) {
  a.setValue(s);
  checkNum<Id>(a, s);
  checkNum<Id>(a, s);
}
// invariant: a cached value is what its type reads from the text
template <typename A>
static auto cacheOf(const A& a, int) -> decltype(&*a.cache_) {
  return a.cache_ ? &*a.cache_ : nullptr;
}
template <typename A>
static const Attribute::Cache* cacheOf(const A&, long) {
  vf_assume(false);  // the representation has changed: the invariant can not be stated
  return nullptr;
}
template <typename T>
static const T* cacheAs(const Attribute& a) {
  const Attribute::Cache* c = cacheOf(a, 0);
  return c ? boost::get<T>(c) : nullptr;
}
template <typename T>
static bool cached(const Attribute& a, const T& v) {
  const T* p = cacheAs<T>(a);
  return !p || *p == v;
}
template <typename T>
static bool notCached(const Attribute& a) {
  return !cacheAs<T>(a);
}
template <typename T>
static bool validAs(const Attribute& a, const std::string& s) {
  T w{};
  return parse<T>(s, w) ? cached<T>(a, w) : notCached<T>(a);
}
static bool validBool(const Attribute& a, const std::string& s) {
  int w = boolOf(s);
  return w < 0 ? notCached<bool>(a) : cached<bool>(a, w == 1);
}
static bool validVelocity(const Attribute& a, const std::string& s) {
  double w = 0;
  return !parse<double>(s, w) || cached<Velocity>(a, Velocity(w * units::KmH()));
}
static bool valid(const Attribute& a, const std::string& s) {
  return validBool(a, s) && validAs<int>(a, s) && validAs<Id>(a, s) && validAs<double>(a, s) && validVelocity(a, s);
}
VF_CONTRACT(attr_inv_bool, const Attribute& a) {
  vf_assume(valid(a, a.value()));
  checkBool(a, a.value());
  vf_assert(valid(a, a.value()), "reading a bool keeps the cache consistent with the text");
}
VF_CONTRACT(attr_inv_int, const Attribute& a) {
  vf_assume(valid(a, a.value()));
  checkNum<int>(a, a.value());
  vf_assert(valid(a, a.value()), "reading an int keeps the cache consistent with the text");
}
VF_CONTRACT(attr_inv_id, const Attribute& a) {
  vf_assume(valid(a, a.value()));
  checkNum<Id>(a, a.value());
  vf_assert(valid(a, a.value()), "reading an id keeps the cache consistent with the text");
}
VF_CONTRACT(attr_inv_double, const Attribute& a) {
  vf_assume(valid(a, a.value()));
  checkNum<double>(a, a.value());
  vf_assert(valid(a, a.value()), "reading a number keeps the cache consistent with the text");
}
VF_CONTRACT(attr_inv_velocity, const Attribute& a, double w) {
  vf_assume(valid(a, a.value()));
  vf_assume(parse<double>(a.value(), w));
  auto v = a.asVelocity();
  vf_assert(!!v && *v == Velocity(w * units::KmH()), "a number is a velocity in km/h");
  vf_assert(valid(a, a.value()), "reading a velocity keeps the cache consistent with the text");
}
VF_CONTRACT(attr_inv_set, Attribute& a, const std::string& s) {
  a.setValue(s);
  vf_assert(valid(a, s), "assigning a text makes the cache consistent with it");
}
VF_CONTRACT(attr_inv_copy, const Attribute& a, Attribute& c) {
  vf_assume(valid(a, a.value()));
  Attribute b(a);
  vf_assert(b.value() == a.value() && valid(b, a.value()), "a copy has the text and a cache consistent with it");
  c = a;
  vf_assert(c.value() == a.value() && valid(c, a.value()), "an assigned attribute has the text and a cache consistent with it");
}
// interpretations do not influence each other
VF_CONTRACT(attr_mixed, const std::string& s) {
  Attribute a(s);
  checkNum<double>(a, s);
  checkNum<int>(a, s);
  checkBool(a, s);
  checkNum<Id>(a, s);
  checkNum<double>(a, s);
}
// a change after an interpretation is seen; copies are independent of each other
VF_CONTRACT(attr_change, const std::string& s, const std::string& t) {
  Attribute a(s);
  checkNum<double>(a, s);
  Attribute b(a);
  b.setValue(t);
  checkNum<double>(b, t);
  vf_assert(a.value() == s, "changing a copy leaves the original as it is");
  checkNum<double>(a, s);
  a.setValue(t);
  checkBool(a, t);
  a.setValue(s);
  checkBool(a, s);
}
VF_CONTRACT(attr_typed, bool b, int i, Id d, double x) {
  vf_assert(*Attribute(b).asBool() == b, "a bool reads back as assigned");
  vf_assert(*Attribute(i).asInt() == i, "an int reads back as assigned");
  vf_assert(*Attribute(d).asId() == d, "an id reads back as assigned");
  vf_assert(*Attribute(x).asDouble() == x, "a number reads back as assigned");
}
VF_CONTRACT(attr_equal, const Attribute& a, const Attribute& b) {
  vf_assert((a == b) == (a.value() == b.value()) && (a != b) == !(a == b), "attributes are equal iff their texts are");
}
VF_CONTRACT(attr_velocity_number, const std::string& s, double w) {
  vf_assume(parse<double>(s, w));
  Attribute a(s);
  auto v = a.asVelocity();
  vf_assert(!!v, "a number is a velocity");
  vf_assert(std::abs(units::KmHQuantity(*v).value() - w) <= 1e-9 * std::abs(w), "velocities without unit are in km/h");
}
VF_CONTRACT(attr_or, const ConstLanelet& ll, int e, const std::string& k, bool dflt, double x) {
  vf_assume(e >= 0 && e < 8);
  vf_valid(ll);
  AN a = AN(e);
  const AttributeMap& m = ll.attributes();
  bool v = ll.attributeOr(a, dflt);
  auto it = m.find(a);
  Optional<bool> want = it == m.end() ? Optional<bool>() : it->second.asBool();
  vf_assert(v == (!!want ? *want : dflt), "attributeOr(key) yields the attribute or the default");
  double d = ll.attributeOr(k, x);
  auto it2 = m.find(k);
  Optional<double> wantd = it2 == m.end() ? Optional<double>() : it2->second.asDouble();
  vf_assert(d == (!!wantd ? *wantd : x), "attributeOr(name) yields the attribute or the default");
  vf_assert(ll.hasAttribute(a) == (it != m.end()) && ll.hasAttribute(k) == (it2 != m.end()), "hasAttribute says whether there is one");
}
#ifdef VF_NATIVE
#include <map>
VF_BOUNDED(map_history) {
  std::vector<std::string> names{"type", "subtype", "one_way", "participant:vehicle", "participant:pedestrian", "speed_limit", "location", "dynamic", "other", "zz", "Type", "one_wa"};
  AttributeMap m;
  std::map<std::string, std::string> model;
  for (int i = ch.range(1, 10); i > 0; --i) {
    std::string k = names[ch.choose(12)];
    std::string v = vf::Gen<std::string>::make(ch);
    AN a = AN(ch.choose(8));
    switch (ch.choose(9)) {
      case 0: m[k] = v; model[k] = v; break;
      case 1: m[a] = v; model[nameOf(a)] = v; break;
      case 2: m.insert(std::make_pair(k, Attribute(v))); model.insert({k, v}); break;
      case 3: vf_assert(m.erase(k) == model.erase(k), "erase counts"); break;
      case 4: { AttributeMap c(m); m.clear(); m = c; break; }
      case 5: { AttributeMap c(std::move(m)); m = AttributeMap{{"speed_limit", "1"}}; m = std::move(c); break; }
      case 6: { AttributeMap c{{"type", "x"}, {"zz", "y"}}; c = m; m[k] = v; m = c; break; }
      case 7: { AttributeMap c(m.begin(), m.end()); m = c; break; }
      default:
        if (ch.flip(1, 4)) { m.clear(); model.clear(); }
        else { auto it = m.find(a); if (it != m.end()) { m.erase(it); model.erase(nameOf(a)); } }
    }
    vf_assert(m.size() == model.size(), "size after a history");
    for (auto& n : names) {
      auto it = m.find(n);
      vf_assert((it != m.end()) == (model.count(n) > 0), "presence after a history");
      vf_assert(it == m.end() || it->second.value() == model[n], "values after a history");
    }
    for (int e = 0; e < 8; ++e) vf_assert(coherent(m, AN(e)), "lookup by key and name agree after a history");
  }
}
VF_BOUNDED(attr_velocity_units) {
  static const struct { const char* u; double f; } U[] = {{"", 1 / 3.6}, {" km/h", 1 / 3.6}, {"kmh", 1 / 3.6}, {" m/s", 1.}, {"mps", 1.}, {" mps", 1.}, {"mph", 0.44704}, {" mph", 0.44704}, {" m/h", 0.44704}, {"m/s", 1.}, {"km/h", 1 / 3.6}};
  auto& u = U[ch.choose(11)];
  double x = ch.range(0, 300) * 0.5;
  Attribute a(std::to_string(x) + u.u);
  auto v = a.asVelocity();
  vf_assert(!!v && std::abs(units::MPSQuantity(*v).value() - x * u.f) < 1e-3 * (1 + x), "velocities are read in their unit");
  auto v2 = a.asVelocity();
  vf_assert(!!v2 && *v2 == *v, "repeated interpretation yields the same velocity");
  Attribute c(*v);
  vf_assert(c.asVelocity() && *c.asVelocity() == *v, "a velocity reads back as assigned");
  vf_assert(std::abs(*Attribute(c.value()).asDouble() - x * u.f * 3.6) < 1e-3 * (1 + x), "the text of a velocity is in km/h");
  static const char* bad[] = {"abc", "", "50 foo", "km/h", "x 5"};
  vf_assert(!Attribute(bad[ch.choose(5)]).asVelocity(), "a text that is no velocity yields none");
}
VF_BOUNDED(attr_texts) {
  static const char* T[] = {"0", "1", "yes", "no", "true", "false", "2", "-3", "1.5", "1e3", "abc", "", " 1", "1 ", "123456789012", "Yes", "12x"};
  std::string s = T[ch.choose(17)], t = T[ch.choose(17)];
  Attribute a(s);
  for (int i = ch.range(1, 4); i > 0; --i) {
    switch (ch.choose(5)) {
      case 0: checkBool(a, s); break;
      case 1: checkNum<double>(a, s); break;
      case 2: checkNum<int>(a, s); break;
      case 3: checkNum<Id>(a, s); break;
      default: a.setValue(t); std::swap(s, t);
    }
  }
  int w = s == "1" || s == "yes" || s == "true" ? 1 : s == "0" || s == "no" || s == "false" ? 0 : -1;
  auto b = a.asBool();
  vf_assert(!b == (w < 0) && (!b || *b == (w == 1)), "bools are 0, 1, yes, no, true, false");
}
#endif
