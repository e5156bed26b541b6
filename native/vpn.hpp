// Native (concrete) companion of the contracts: runs the real code on random inputs and
// evaluates the same postconditions at run time.  Used to find a failing input.
#pragma once
#include <chrono>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace vpn {
struct Rng {
  std::mt19937_64 g;
  std::uint64_t u64() { return g(); }
  std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : g() % n; }
  std::int64_t range(std::int64_t a, std::int64_t b) { return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a + 1))); }
  bool coin(double p = 0.5) { return real() < p; }
  double real() { return static_cast<double>(g() >> 11) * 0x1.0p-53; }
  double real(double a, double b) { return a + (b - a) * real(); }
  // angles with special values mixed in
  double angle() {
    const double pi = 3.14159265358979323846;
    switch (below(6)) {
    case 0:
      return static_cast<double>(range(-8, 8)) * pi / 4;
    case 1:
      return static_cast<double>(range(-8, 8)) * pi / 2;
    case 2:
      return static_cast<double>(range(-4, 4));
    case 3: {
      auto k = range(1, 9);
      return (coin() ? 1 : -1) * pi / static_cast<double>(k);
    }
    default:
      return real(-7, 7);
    }
  }
};
inline std::uint64_t curCase = 0, curSeed = 0;
inline std::uint64_t checks = 0, nontrivial = 0;
inline std::string what; // description of the current case
inline void fail(const std::string& msg) {
  std::printf("FAIL case=%llu seed=%llu what=[%s] %s\n", static_cast<unsigned long long>(curCase),
              static_cast<unsigned long long>(curSeed), what.c_str(), msg.c_str());
  std::fflush(stdout);
  std::_Exit(1);
}
inline void require(bool c, const std::string& msg) {
  ++checks;
  if (!c) {
    fail(msg);
  }
}
inline void close(double a, double b, const std::string& msg, double tol = 1e-9) {
  ++checks;
  if (!(std::abs(a - b) <= tol * (1 + std::abs(b)))) {
    std::ostringstream o;
    o.precision(17);
    o << msg << ": got " << a << " want " << b;
    fail(o.str());
  }
}
inline void close(std::complex<double> a, std::complex<double> b, const std::string& msg, double tol = 1e-9) {
  close(a.real(), b.real(), msg + " (re)", tol);
  close(a.imag(), b.imag(), msg + " (im)", tol);
}
inline void onSignal(int s) {
  char buf[256];
  const int n = std::snprintf(buf, sizeof buf, "\nFAIL case=%llu seed=%llu the real code %s (signal %d)\n",
                              static_cast<unsigned long long>(curCase), static_cast<unsigned long long>(curSeed),
                              s == SIGALRM ? "does not terminate within the case limit" : "crashed", s);
  if (n > 0) {
    auto r = write(1, buf, static_cast<std::size_t>(n));
    (void)r;
  }
  std::_Exit(1);
}
using CaseFn = void (*)(Rng&);
// usage: driver <seed> <seconds> [case]
inline int run(int argc, char** argv, CaseFn f, std::uint64_t maxCases = ~0ULL, unsigned caseLimit = 90) {
  const std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
  const double secs = argc > 2 ? std::atof(argv[2]) : 5;
  curSeed = seed;
#if !defined(__SANITIZE_ADDRESS__)
  for (const int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
    std::signal(s, onSignal);
  }
#endif
  std::signal(SIGALRM, onSignal);
  const auto t0 = std::chrono::steady_clock::now();
  std::uint64_t n = 0;
  std::uint64_t i = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 0;
  const bool single = argc > 3;
  for (;; ++i) {
    curCase = i;
    what.clear();
    Rng r{std::mt19937_64((seed + 1) * 0x9E3779B97F4A7C15ULL ^ (i * 0xD1B54A32D192ED03ULL + 12345))};
    alarm(caseLimit);
    try {
      f(r);
    } catch (const std::exception& e) {
      fail(std::string("unexpected exception: ") + e.what());
    }
    ++n;
    if (single || n >= maxCases) {
      break;
    }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) {
      break;
    }
  }
  alarm(0);
  std::printf("OK cases=%llu checks=%llu nontrivial=%llu last=[%s]\n", static_cast<unsigned long long>(n),
              static_cast<unsigned long long>(checks), static_cast<unsigned long long>(nontrivial), what.c_str());
  return 0;
}
} // namespace vpn
