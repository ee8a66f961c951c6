// Self test of the verifier: claims that hold must be proved, claims whose name starts with FALSE must not be.
#include <algorithm>
#include <vector>

#include "vf.h"
using V = std::vector<double>;
using VI = std::vector<int>;
struct Pt { double x, y; };
using VP = std::vector<Pt>;

VF_CONTRACT(find_if, const VI& v, int x, size_t k) {
  auto it = std::find_if(v.begin(), v.end(), [&](int a) { return a == x; });
  size_t pos = it - v.begin();
  vf_assert(pos <= v.size(), "pos in range");
  vf_assert(it == v.end() || *it == x, "found element matches");
  if (k < pos) vf_assert(v[k] != x, "first match");
  vf_assert(pos < v.size(), "FALSE always found");
  vf_assert(pos == 0, "FALSE2");
}
VF_CONTRACT(pushback, VI& v, int x, size_t k) {
  auto n = v.size();
  VI w = v;
  w.push_back(x);
  vf_assert(w.size() == n + 1, "size");
  vf_assume(k < n);
  vf_assert(w[k] == v[k], "kept");
  vf_assert(w[n] == x, "appended");
  vf_assert(v.size() == n, "source unchanged");
  vf_assert(w[k] == x, "FALSE appended everywhere");
}
VF_CONTRACT(transform, const VI& v, size_t k) {
  VI w;
  for (auto& e : v) w.push_back(e + 1);
  vf_assert(w.size() == v.size(), "size");
  vf_assume(k < v.size());
  vf_assert(w[k] == v[k] + 1, "mapped");
  vf_assert(w[k] == v[k], "FALSE mapped");
}
VF_CONTRACT(filter, const VI& v, size_t k, size_t m) {
  VI w;
  for (auto& e : v)
    if (e > 3) w.push_back(e);
  vf_assert(w.size() <= v.size(), "size");
  vf_assume(k < w.size());
  vf_assert(w[k] > 3, "filtered");
  bool found = false;
  for (auto& e : v) found = found || e == w[k];
  vf_assert(found, "subset");
  vf_assert(w.size() == v.size(), "FALSE size");
}
VF_CONTRACT(filter_complete, const VI& v, size_t m) {
  VI w;
  for (auto& e : v)
    if (e > 3) w.push_back(e);
  vf_assume(m < v.size());
  vf_assume(v[m] > 3);
  vf_assert(std::find(w.begin(), w.end(), v[m]) != w.end(), "complete");
  vf_assert(std::find(w.begin(), w.end(), 17) != w.end(), "FALSE complete");
}
VF_CONTRACT(minimum, const V& v, size_t k) {
  vf_assume(!v.empty());
  auto it = std::min_element(v.begin(), v.end());
  vf_assume(k < v.size());
  vf_assert(*it <= v[k], "min");
  size_t pos = it - v.begin();
  vf_assert(pos < v.size(), "in range");
  if (k < pos) vf_assert(v[k] > *it, "first min");
  vf_assert(*it < v[k], "FALSE min");
}
VF_CONTRACT(sum, const V& v) {
  double s = 0;
  for (auto e : v) {
    vf_assume(e >= 0);
    s += e;
  }
  vf_assert(s >= 0, "nonneg");
  double t = 0;
  for (size_t i = 0; i < v.size(); ++i) t = t + v[i];
  vf_assert(s == t, "same sum");
  vf_assert(s > 0, "FALSE pos");
}
VF_CONTRACT(anyof, const VP& v, size_t k) {
  bool a = std::any_of(v.begin(), v.end(), [](const Pt& p) { return p.x > p.y; });
  vf_assume(k < v.size());
  if (!a) vf_assert(v[k].x <= v[k].y, "none");
  if (a) vf_assert(v[k].x > v[k].y, "FALSE any");
}
VF_CONTRACT(flag, const VP& v, size_t k) {
  bool a = false;
  for (auto& p : v)
    if (p.x > p.y) a = true;
  vf_assume(k < v.size());
  if (v[k].x > v[k].y) vf_assert(a, "flag set");
  if (a) vf_assert(v[k].x > v[k].y, "FALSE any");
}
VF_CONTRACT(rev, const VI& v, size_t k) {
  VI w(v.rbegin(), v.rend());
  vf_assert(w.size() == v.size(), "size");
  vf_assume(k < v.size());
  vf_assert(w[k] == v[v.size() - 1 - k], "reversed");
}
VF_CONTRACT(inserterase, VI& v, size_t k, size_t i, int x) {
  size_t n = v.size();
  vf_assume(i <= n);
  vf_assume(k < n);
  int old = v[k];
  v.insert(v.begin() + i, x);
  vf_assert(v.size() == n + 1, "size");
  vf_assert(v[i] == x, "inserted");
  vf_assert(v[k < i ? k : k + 1] == old, "others");
  v.erase(v.begin() + i);
  vf_assert(v.size() == n, "size2");
  vf_assert(v[k] == old, "restored");
  vf_assert(v[0] == old, "FALSE restored");
}
VF_CONTRACT(nested, const std::vector<VI>& v, size_t a, size_t b) {
  bool any = false;
  for (auto& r : v)
    for (auto& e : r)
      if (e == 7) any = true;
  vf_assume(a < v.size());
  vf_assume(b < v[a].size());
  if (!any) vf_assert(v[a][b] != 7, "none");
  vf_assert(any, "FALSE any");
}
VF_CONTRACT(nested_ret, const std::vector<VI>& v, size_t a, size_t b) {
  auto f = [&]() {
    for (auto& r : v)
      for (auto& e : r)
        if (e == 7) return true;
    return false;
  };
  bool any = f();
  vf_assume(a < v.size());
  vf_assume(b < v[a].size());
  if (!any) vf_assert(v[a][b] != 7, "none");
  vf_assert(any, "FALSE any");
}
VF_CONTRACT(removeif, VI& v, size_t k, int x) {
  v.erase(std::remove_if(v.begin(), v.end(), [&](int e) { return e == x; }), v.end());
  vf_assume(k < v.size());
  vf_assert(v[k] != x, "removed");
}
VF_CONTRACT(assumeloop, const VI& v, size_t k) {
  for (size_t i = 0; i < v.size(); ++i) vf_assume(v[i] > 0);
  vf_assume(k < v.size());
  vf_assert(v[k] > 0, "all positive");
  vf_assert(v[k] > 1, "FALSE");
}
VF_CONTRACT(inplace, VI& v, size_t k) {
  vf_assume(k < v.size());
  int old = v[k];
  for (auto& e : v) e = e + 2;
  vf_assert(v[k] == old + 2, "in place");
  std::reverse(v.begin(), v.end());
  vf_assert(v[v.size() - 1 - k] == old + 2, "std::reverse");
}
VF_CONTRACT(prefix, const V& v, size_t k) {
  V w;
  double s = 0;
  for (auto e : v) {
    vf_assume(e >= 0);
    s += e;
    w.push_back(s);
  }
  vf_assume(k < v.size() && k + 1 < v.size());
  vf_assert(w[k] <= w[k + 1], "monotone");
}
