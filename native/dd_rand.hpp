// random decision diagrams of all shapes, with their dense meaning
#pragma once
#include "spec_dense.hpp"
#include "dd/GateMatrixDefinitions.hpp"
namespace ddr {
using namespace spec;
inline C entry(vpn::Rng& r) {
  switch (r.below(8)) {
  case 0: case 1: case 2: return {};
  case 3: return 1;
  case 4: return {0, r.coin() ? 1.0 : -1.0};
  case 5: return {r.real(-1, 1), 0};
  default: return {r.real(-1, 1), r.real(-1, 1)};
  }
}
inline dd::mEdge matrix(dd::Package& p, vpn::Rng& r, std::size_t n) {
  switch (r.below(6)) {
  case 0: return dd::mEdge::one();
  case 1: if (r.coin(0.3)) return dd::mEdge::zero(); [[fallthrough]];
  case 2: { // lower levels only
    const auto k = 1 + r.below(n);
    dd::CMat m(1ULL << k, std::vector<std::complex<dd::fp>>(1ULL << k));
    for (auto& row : m) for (auto& x : row) x = entry(r);
    return p.makeDDFromMatrix(m);
  }
  case 3: { // product of gates
    auto e = dd::mEdge::one();
    for (std::size_t k = 0; k < 1 + r.below(4); k++) {
      const auto o = randomOp(r, n);
      const auto g = o.t;
      qc::Controls cs = o.cs;
      dd::mEdge d;
      if (qc::isTwoQubitGate(g)) d = p.makeTwoQubitGateDD(dd::opToTwoQubitGateMatrix(g, o.p), cs, o.ts.at(0), o.ts.at(1));
      else d = p.makeGateDD(dd::opToSingleQubitGateMatrix(g, o.p), cs, o.ts.at(0));
      e = p.multiply(d, e);
    }
    return e;
  }
  case 4: { // repeated blocks
    const auto k = n;
    dd::CMat m(1ULL << k, std::vector<std::complex<dd::fp>>(1ULL << k));
    std::array<C, 3> pool{entry(r), entry(r), entry(r)};
    for (auto& row : m) for (auto& x : row) x = r.coin(0.3) ? C{} : pool[r.below(3)];
    return p.makeDDFromMatrix(m);
  }
  default: {
    dd::CMat m(1ULL << n, std::vector<std::complex<dd::fp>>(1ULL << n));
    for (auto& row : m) for (auto& x : row) x = entry(r);
    return p.makeDDFromMatrix(m);
  }
  }
}
inline dd::vEdge vec(dd::Package& p, vpn::Rng& r, std::size_t n) {
  dd::CVec v(1ULL << n);
  std::array<C, 3> pool{entry(r), entry(r), entry(r)};
  const bool rep = r.coin(0.4);
  const bool sparse = r.coin(0.4);
  for (auto& x : v) {
    x = rep ? pool[r.below(3)] : entry(r);
    if (sparse && r.coin(0.7)) x = 0;
  }
  if (r.coin(0.15)) return p.makeZeroState(n);
  return p.makeStateFromVector(v);
}
// a state of norm one
inline dd::vEdge state(dd::Package& p, vpn::Rng& r, std::size_t n) {
  dd::CVec v(1ULL << n);
  double s = 0;
  while (s < 1e-3) {
    s = 0;
    for (auto& x : v) { x = entry(r); s += std::norm(x); }
  }
  for (auto& x : v) x /= std::sqrt(s);
  return p.makeStateFromVector(v);
}
template <class E> E pin(dd::Package& p, const E& e) { p.incRef(e); return e; }
} // namespace ddr
