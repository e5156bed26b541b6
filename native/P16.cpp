// Native companion of contracts/P16.cpp: density matrices under gates, noise and measurements
// against dense Kraus sums; stochastic noise against the same channel on average.
#include "dd/NoiseFunctionality.hpp"
#include "dd_rand.hpp"
#include "vpn.hpp"
using namespace ddr;
namespace {
M2 mat2(C a, C b, C c, C d) {
  M2 m;
  m[0] = a;
  m[1] = b;
  m[2] = c;
  m[3] = d;
  return m;
}
Mat channel(std::size_t n, const Mat& R, char c, double p, std::size_t q) {
  std::vector<M2> ks;
  if (c == 'I') return R;
  if (c == 'A') ks = {mat2(1, 0, 0, std::sqrt(1 - p)), mat2(0, std::sqrt(p), 0, 0)};
  if (c == 'P') ks = {mat2(std::sqrt(1 - p), 0, 0, std::sqrt(1 - p)), mat2(std::sqrt(p), 0, 0, -std::sqrt(p))};
  if (c == 'D') {
    const double a = std::sqrt(1 - 0.75 * p), b = std::sqrt(p) / 2;
    ks = {mat2(a, 0, 0, a), mat2(0, b, b, 0), mat2(0, C(0, -b), C(0, b), 0), mat2(b, 0, 0, -b)};
  }
  Mat N(1ULL << n);
  for (const auto& k : ks) {
    const auto E = embed1(n, k, {}, q);
    N = N + E * R * adj(E);
  }
  return N;
}
dd::mEdge gateDD(dd::Package& p, const Op& o) {
  if (qc::isTwoQubitGate(o.t)) return p.makeTwoQubitGateDD(dd::opToTwoQubitGateMatrix(o.t, o.p), o.cs, o.ts.at(0), o.ts.at(1));
  return p.makeGateDD(dd::opToSingleQubitGateMatrix(o.t, o.p), o.cs, o.ts.at(0));
}
double probability(vpn::Rng& r) { return r.coin(0.3) ? 0.5 : r.coin(0.1) ? 0. : r.coin(0.1) ? 1. : r.real(); }
std::string effects(vpn::Rng& r) {
  // 'A' at most once
  std::string all = "APDI", e;
  for (std::size_t k = 0; k < 1 + r.below(3); k++) {
    const auto i = r.below(all.size());
    e += all[i];
    if (all[i] == 'A') all.erase(i, 1);
  }
  std::string u;
  for (const char c : e)
    if (u.find(c) == std::string::npos || c != 'A') u += c;
  return u;
}
void density(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(3), N = n + (r.coin(0.3) ? r.below(3) : 0);
  dd::Package p(N, dd::DENSITY_MATRIX_SIMULATOR_DD_PACKAGE_CONFIG);
  auto rho = p.makeZeroDensityOperator(n);
  Mat R(1ULL << n);
  R(0, 0) = 1;
  const auto eff = effects(r);
  const double ps = probability(r), pm = probability(r), as = probability(r), am = probability(r);
  std::ostringstream log;
  log << "n=" << n << "/" << N << " " << eff << " " << ps << " " << pm << " " << as << " " << am << "; ";
  dd::DeterministicNoiseFunctionality nf(p, n, ps, pm, as, am, eff);
  std::mt19937_64 mt(r.u64());
  for (int k = 0; k < 8; k++) {
    const auto o = randomOp(r, n);
    log << o.str() << "; ";
    vpn::what = log.str();
    const auto d = gateDD(p, o);
    const Mat U = gate(n, o.t, o.p, o.cs, o.ts);
    R = U * R * adj(U);
    rho = p.applyOperationToDensity(rho, d);
    if (r.coin(0.7)) {
      const std::unique_ptr<qc::Operation> op = std::make_unique<qc::StandardOperation>(o.op());
      log << "noise; ";
      vpn::what = log.str();
      nf.applyNoiseEffects(rho, op);
      const auto used = op->getUsedQubits();
      for (const auto q : used)
        for (const char c : eff) R = channel(n, R, c, c == 'A' ? (used.size() == 1 ? as : am) : (used.size() == 1 ? ps : pm), q);
    }
    if (r.coin(0.3)) {
      const auto q = r.below(n);
      auto copy = mt;
      const double th = std::uniform_real_distribution<double>(0, 1)(copy);
      double p0 = 0;
      for (std::size_t i = 0; i < R.d; i++)
        if (((i >> q) & 1) == 0) p0 += R(i, i).real();
      const bool one = th >= p0;
      const double po = one ? 1 - p0 : p0;
      if (std::abs(th - p0) < 1e-9 || po < 1e-4) break;
      log << "measure " << q << "; ";
      vpn::what = log.str();
      const char c = p.measureOneCollapsing(rho, static_cast<dd::Qubit>(q), mt);
      vpn::require((c == '1') == one, "the outcome has the wrong probability");
      for (std::size_t i = 0; i < R.d; i++)
        for (std::size_t j = 0; j < R.d; j++)
          if ((((i >> q) & 1) != 0) != one || (((j >> q) & 1) != 0) != one)
            R(i, j) = 0;
          else
            R(i, j) /= po;
    }
    const auto M = rho.getMatrix(n);
    for (std::size_t i = 0; i < R.d; i++)
      for (std::size_t j = 0; j < R.d; j++) vpn::require(std::abs(M[i][j] - R(i, j)) < 1e-7, "the density matrix is wrong");
    vpn::nontrivial++;
  }
}
void stochastic(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(2);
  dd::Package p(n, dd::STOCHASTIC_NOISE_SIMULATOR_DD_PACKAGE_CONFIG);
  const auto eff = effects(r);
  const double f = r.coin() ? 2 : 1;
  const double ps = probability(r) / f, as = probability(r) / f;
  dd::StochasticNoiseFunctionality nf(p, n, ps, as, f, eff);
  dd::StochasticNoiseFunctionality other(p, n, probability(r), probability(r), 1, effects(r)); // shares the package
  std::ostringstream log;
  log << "n=" << n << " " << eff << " " << ps << " " << as << " x" << f << "; ";
  std::mt19937_64 mt(r.u64());
  auto s = p.makeZeroState(n);
  Mat R(1ULL << n);
  R(0, 0) = 1;
  for (int k = 0; k < 2; k++) {
    const auto o = randomOp(r, n);
    log << o.str() << "; ";
    const Mat U = gate(n, o.t, o.p, o.cs, o.ts);
    R = U * R * adj(U);
    s = p.applyOperation(gateDD(p, o), s);
  }
  const auto o = randomOp(r, n);
  log << "noisy " << o.str();
  vpn::what = log.str();
  const Mat U = gate(n, o.t, o.p, o.cs, o.ts);
  R = U * R * adj(U);
  const auto op = o.op();
  const auto used = op.getUsedQubits();
  for (const auto q : used)
    for (const char c : eff) R = channel(n, R, c, (c == 'A' ? as : ps) * (used.size() == 1 ? 1 : f), q);
  const std::size_t T = 1500;
  Mat S(1ULL << n);
  for (std::size_t t = 0; t < T; t++) {
    auto e = s;
    p.incRef(e);
    if (t % 7 == 0) { // noise of somebody else in between
      auto e2 = s;
      p.incRef(e2);
      other.applyNoiseOperation(used, gateDD(p, o), e2, mt);
      p.decRef(e2);
    }
    nf.applyNoiseOperation(used, gateDD(p, o), e, mt);
    const auto v = e.getVector();
    double norm = 0;
    for (const auto& a : v) norm += std::norm(a);
    vpn::require(std::abs(norm - 1) < 1e-7, "the state is not normalised");
    for (std::size_t i = 0; i < R.d; i++)
      for (std::size_t j = 0; j < R.d; j++) S(i, j) += v[i] * std::conj(v[j]);
    p.decRef(e);
  }
  const double tol = 6.5 / std::sqrt(static_cast<double>(T)); // entries are bounded by one
  for (std::size_t i = 0; i < R.d; i++)
    for (std::size_t j = 0; j < R.d; j++) vpn::require(std::abs(S(i, j) / static_cast<double>(T) - R(i, j)) < tol, "the average over many runs is not the noise channel");
  vpn::nontrivial++;
}
} // namespace
int main(int argc, char** argv) {
  return vpn::run(argc, argv, [](vpn::Rng& r) {
    if (r.coin(0.02))
      stochastic(r);
    else
      density(r);
  });
}
