// Harness intrinsics of the verification-condition generator (irvc).
// The same harness can also be compiled natively against native/vp_native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint64_t vp_u64(const char*);
std::int64_t vp_i64(const char*);
std::uint32_t vp_u32(const char*);
std::int32_t vp_i32(const char*);
std::uint16_t vp_u16(const char*);
std::uint8_t vp_u8(const char*);
bool vp_bool(const char*);
double vp_double(const char*);
std::uint32_t vp_choose(const char*, std::uint32_t n); // forks: 0..n-1
std::uint64_t vp_concretize(std::uint64_t);
bool vp_decide(bool);
void vp_assume(bool);
void vp_assume_nc(bool); // consistency not checked on the spot (axioms)
bool vp_known(bool);     // already true syntactically (never forks)
void vp_assume_eq(double lhs, double rhs); // oriented: lhs is rewritten to rhs
void vp_assert(bool, const char*);
void vp_assert_eq(double, double, const char*);
void vp_cover(const char*);
[[noreturn]] void vp_stop();
bool vp_symbolic();
void* vp_lazy(const char* cls, const char* name, std::size_t size);
void* vp_alloc_sym(std::size_t size, const char* name);
void vp_havoc(void*, std::size_t);
void vp_replace(const char* regexOnDemangledName, void* stub);
void vp_replace_opt(const char* regexOnDemangledName, void* stub);
void vp_unreplace(const char* regex);
void vp_bounded(const char* reason);
void vp_trust(const char* what);
bool vp_is_live(const void*);
bool vp_same_obj(const void*, const void*);
void vp_print(const char*, std::uint64_t);
void vp_printd(const char*, double);
double vp_ufr_1_0(const char*, std::uint64_t);
double vp_ufr_2_0(const char*, std::uint64_t, std::uint64_t);
double vp_ufr_3_0(const char*, std::uint64_t, std::uint64_t, std::uint64_t);
double vp_ufr_4_0(const char*, std::uint64_t, std::uint64_t, std::uint64_t, std::uint64_t);
double vp_ufr_0_1(const char*, double);
double vp_ufr_0_2(const char*, double, double);
double vp_ufr_1_1(const char*, std::uint64_t, double);
std::uint64_t vp_ufu_1_0(const char*, std::uint64_t);
std::uint64_t vp_ufu_0_2(const char*, double, double);
std::uint64_t vp_ufu_2_0(const char*, std::uint64_t, std::uint64_t);
std::uint64_t vp_ufu_3_0(const char*, std::uint64_t, std::uint64_t, std::uint64_t);
}
#define VP_HARNESS extern "C" __attribute__((noinline, used)) void
template <class F> inline void* vp_fn(F* f) { return reinterpret_cast<void*>(f); }
