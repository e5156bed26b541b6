// Runs one contract harness on concrete inputs (the verifier's counterexample).
// usage: replay <harness> name=value ...   exit 1: assertion fails on the real code
#include "vp.h"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <string>
#include <utility>
#include <vector>

static std::vector<std::pair<std::string, std::string>> in;
static std::size_t pos = 0;
static std::string next(const char* n) {
  for (std::size_t i = pos; i < in.size(); i++) {
    if (in[i].first == n) {
      pos = i + 1;
      return in[i].second;
    }
  }
  return "0";
}
static double toD(const std::string& s) {
  const auto k = s.find('/');
  if (k == std::string::npos) return std::strtod(s.c_str(), nullptr);
  return static_cast<double>(std::strtold(s.substr(0, k).c_str(), nullptr) / std::strtold(s.substr(k + 1).c_str(), nullptr));
}
[[noreturn]] static void na(const char* w) {
  std::printf("NOT-NATIVE %s\n", w);
  std::fflush(stdout);
  std::_Exit(77);
}
extern "C" {
std::uint64_t vp_u64(const char* n) { return std::strtoull(next(n).c_str(), nullptr, 10); }
std::int64_t vp_i64(const char* n) { return static_cast<std::int64_t>(vp_u64(n)); }
std::uint32_t vp_u32(const char* n) { return static_cast<std::uint32_t>(vp_u64(n)); }
std::int32_t vp_i32(const char* n) { return static_cast<std::int32_t>(vp_u64(n)); }
std::uint16_t vp_u16(const char* n) { return static_cast<std::uint16_t>(vp_u64(n)); }
std::uint8_t vp_u8(const char* n) { return static_cast<std::uint8_t>(vp_u64(n)); }
bool vp_bool(const char* n) { return vp_u64(n) != 0; }
double vp_double(const char* n) { return toD(next(n)); }
std::uint32_t vp_choose(const char* n, std::uint32_t k) { return static_cast<std::uint32_t>(vp_u64(n)) % k; }
std::uint64_t vp_concretize(std::uint64_t x) { return x; }
bool vp_decide(bool b) { return b; }
void vp_assume(bool b) {
  if (!b) na("assumption false on the concrete input");
}
void vp_assume_nc(bool b) { vp_assume(b); }
bool vp_known(bool b) { return b; }
void vp_assume_eq(double a, double b) {
  if (!(std::abs(a - b) < 1e-9 * (1 + std::abs(b)))) na("assumption false on the concrete input");
}
void vp_assert(bool b, const char* l) {
  if (!b) {
    std::printf("FAIL %s\n", l);
    std::fflush(stdout);
    std::_Exit(1);
  }
}
void vp_assert_eq(double a, double b, const char* l) {
  if (!(std::abs(a - b) <= 1e-7 * (1 + std::abs(b)))) {
    std::printf("FAIL %s: got %.17g want %.17g\n", l, a, b);
    std::fflush(stdout);
    std::_Exit(1);
  }
}
void vp_cover(const char*) {}
void vp_stop() { std::exit(0); }
bool vp_symbolic() { return false; }
void* vp_lazy(const char*, const char*, std::size_t) { na("opaque object"); }
void* vp_alloc_sym(std::size_t, const char*) { na("symbolic object"); }
void vp_havoc(void*, std::size_t) { na("havoc"); }
void vp_replace(const char*, void*) { na("contract stub"); }
void vp_replace_opt(const char*, void*) {}
void vp_unreplace(const char*) {}
void vp_bounded(const char*) {}
void vp_trust(const char*) {}
bool vp_is_live(const void*) { return true; }
bool vp_same_obj(const void*, const void*) { na("object identity"); }
void vp_print(const char*, std::uint64_t) {}
void vp_printd(const char*, double) {}
double vp_ufr_1_0(const char*, std::uint64_t) { na("uf"); }
double vp_ufr_2_0(const char*, std::uint64_t, std::uint64_t) { na("uf"); }
double vp_ufr_3_0(const char*, std::uint64_t, std::uint64_t, std::uint64_t) { na("uf"); }
double vp_ufr_4_0(const char*, std::uint64_t, std::uint64_t, std::uint64_t, std::uint64_t) { na("uf"); }
double vp_ufr_0_1(const char*, double) { na("uf"); }
double vp_ufr_0_2(const char*, double, double) { na("uf"); }
double vp_ufr_1_1(const char*, std::uint64_t, double) { na("uf"); }
std::uint64_t vp_ufu_0_2(const char*, double, double) { na("uf"); }
std::uint64_t vp_ufu_1_0(const char*, std::uint64_t) { na("uf"); }
std::uint64_t vp_ufu_2_0(const char*, std::uint64_t, std::uint64_t) { na("uf"); }
std::uint64_t vp_ufu_3_0(const char*, std::uint64_t, std::uint64_t, std::uint64_t) { na("uf"); }
}
int main(int argc, char** argv) {
  for (int i = 2; i < argc; i++) {
    const std::string s = argv[i];
    const auto k = s.find('=');
    in.emplace_back(s.substr(0, k), s.substr(k + 1));
  }
  auto* f = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
  if (f == nullptr) na("no such harness");
  try {
    f();
  } catch (const std::exception& e) {
    std::printf("FAIL uncaught exception %s\n", e.what());
    return 1;
  }
  std::printf("OK\n");
  return 0;
}
