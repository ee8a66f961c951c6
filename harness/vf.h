// Specification API of the contracts. The verifier gives these functions their meaning; vf_native.cpp implements them
// for the native (replay / bounded) runs of the same contracts.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
void vf_assume(bool);                      // precondition
void vf_assert(bool, const char* name);    // obligation
void vf_cover(const char* name);           // must be reachable (vacuity guard)
size_t vf_index(size_t n);                 // an arbitrary index below n (all of them, for the verifier)
int64_t vf_any_id();
int vf_any_int(int lo, int hi);
bool vf_any_bool();
double vf_any_real();
bool vf_pred(int64_t key, int which);        // an arbitrary predicate
}
#ifdef VF_NATIVE
#include "vf_gen.h"
#define VF_CONTRACT(NAME, ...)                                  \
  extern "C" void vc_##NAME(__VA_ARGS__);                       \
  static vf::Registrar vfreg_##NAME(#NAME, &vc_##NAME);         \
  extern "C" void vc_##NAME(__VA_ARGS__)
#define VF_BOUNDED(NAME)                                        \
  static void vb_##NAME(vf::Chooser& ch);                       \
  static vf::Registrar vfreg_##NAME(#NAME, &vb_##NAME);         \
  static void vb_##NAME(vf::Chooser& ch)
#else
#define VF_CONTRACT(NAME, ...) extern "C" void vc_##NAME(__VA_ARGS__)
#endif
// functions that the contracts of this file use through their own contract instead of their body
#define VF_MODULAR(NAME) extern "C" __attribute__((used)) void vfm_##NAME() {}
// class invariant of primitives: they always refer to data (established by their constructors)
template <typename... T>
inline void vf_valid(const T&... x) { (vf_assume(x.constData() != nullptr && x.constData().use_count() > 0), ...); }
