// Native companion of contracts/P22.cpp: simulating circuits and building their functionality
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Operations.hpp"
#include "dd/Simulation.hpp"
#include "dd_rand.hpp"
#include "ir/QuantumComputation.hpp"
using namespace ddr;
namespace {
qc::Permutation randomPerm(vpn::Rng& r, std::size_t n) {
  std::vector<qc::Qubit> v(n);
  for (std::size_t i = 0; i < n; i++) v[i] = static_cast<qc::Qubit>(i);
  for (std::size_t i = n; i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  qc::Permutation p;
  for (std::size_t i = 0; i < n; i++) p[static_cast<qc::Qubit>(i)] = v[i];
  return p;
}
std::string str(const qc::Permutation& p) {
  std::string s;
  for (const auto& [k, v] : p) s += std::to_string(k) + ">" + std::to_string(v) + " ";
  return s;
}
struct Circuit {
  qc::QuantumComputation qc;
  Mat u;         // on circuit qubits
  double phase = 0;
  std::string s;
};
Circuit random(vpn::Rng& r, std::size_t n, std::size_t len, bool phases) {
  Circuit c{qc::QuantumComputation(n), Mat::id(1ULL << n), 0, ""};
  for (std::size_t i = 0; i < len; i++) {
    if (n > 1 && r.coin(0.3)) {
      const auto a = static_cast<qc::Qubit>(r.below(n));
      const auto b = static_cast<qc::Qubit>((a + 1 + r.below(n - 1)) % n);
      c.qc.swap(a, b);
      c.u = gate(n, qc::SWAP, {}, {}, {a, b}) * c.u;
      c.s += "swap " + std::to_string(a) + " " + std::to_string(b) + "; ";
      continue;
    }
    const auto o = randomOp(r, n);
    c.qc.emplace_back<qc::StandardOperation>(o.op());
    c.u = o.mat(n) * c.u;
    c.s += o.str() + "; ";
  }
  if (phases && r.coin(0.3)) {
    c.phase = r.angle();
    c.qc.gphase(c.phase);
    c.s += "phase " + std::to_string(c.phase) + "; ";
  }
  return c;
}
// moves bit i of the index to position p(i)
std::size_t place(std::size_t x, const qc::Permutation& p) {
  std::size_t y = 0;
  for (const auto& [k, v] : p)
    if (bit(x, k)) y |= 1ULL << v;
  return y;
}
void functionality(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4);
  auto c = random(r, n, r.below(9), true);
  const bool perm = r.coin(0.7);
  qc::Permutation in, out;
  for (std::size_t i = 0; i < n; i++) in[static_cast<qc::Qubit>(i)] = out[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(i);
  if (perm) {
    in = randomPerm(r, n);
    out = randomPerm(r, n);
  }
  c.qc.initialLayout = in;
  c.qc.outputPermutation = out;
  // garbage outputs and ancillary inputs (logical qubits)
  std::size_t anc = 0, garb = 0;
  const bool some = r.coin(0.3);
  if (some)
    for (std::size_t q = 0; q < n; q++) {
      if (n > 1 && q + 1 < n && r.coin(0.3)) {
        c.qc.setLogicalQubitAncillary(static_cast<qc::Qubit>(q));
        anc |= 1ULL << q;
      }
      if (r.coin(0.3)) {
        c.qc.setLogicalQubitGarbage(static_cast<qc::Qubit>(q));
        garb |= 1ULL << q;
      }
    }
  const auto N = 1ULL << n;
  vpn::what = "n=" + std::to_string(n) + " in " + str(in) + " out " + str(out) + " anc " + std::to_string(anc) + " garb " + std::to_string(garb) + " : " + c.s;
  // matrix on levels: level in(q) holds circuit qubit q before, level out(q) after
  Mat U(N);
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = 0; j < N; j++) U(place(i, out), place(j, in)) = c.u(i, j) * ei(c.phase);
  auto reduced = [&](Mat m) {
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t j = 0; j < N; j++)
        if ((j & anc) != 0) m(i, j) = 0;
    return m;
  };
  const auto R = reduced(U);
  dd::Package p(n);
  auto check = [&](const dd::mEdge& e, const char* l) {
    const auto M = dense(e, n);
    if (garb == 0) {
      same(M, R, l, 1e-7);
      return;
    }
    for (std::size_t i = 0; i < N; i++)
      for (std::size_t j = 0; j < N; j++) {
        double s = 0;
        if ((i & garb) == 0)
          for (std::size_t x = 0; x < N; x++)
            if ((x & ~garb) == i) s += std::norm(R(x, j));
        vpn::close(std::abs(M(i, j)), std::sqrt(s), l, 1e-6);
      }
  };
  const auto f = dd::buildFunctionality(c.qc, p);
  check(f, "functionality");
  p.decRef(f);
  const auto g = dd::buildFunctionalityRecursive(c.qc, p);
  check(g, "functionality built recursively");
  p.decRef(g);
  // simulation
  const auto st = state(p, r, n);
  const auto V = dense(st, n);
  const auto W = U * V;
  const auto e = dd::simulate(c.qc, st, p);
  const auto got = dense(e, n);
  if (garb == 0) same(got, W, "simulated state", 1e-7);
  else
    for (std::size_t i = 0; i < N; i++) {
      double s = 0;
      if ((i & garb) == 0)
        for (std::size_t x = 0; x < N; x++)
          if ((x & ~garb) == i) s += std::norm(W[x]);
      vpn::close(std::abs(got[i]), std::sqrt(s), "probability after simulation", 1e-6);
    }
  p.decRef(e);
  p.garbageCollect(true);
  vpn::require(p.getUniqueTable<dd::vNode>().getNumEntries() == 0, "nothing of the simulation stays referenced");
  vpn::require(p.getUniqueTable<dd::mNode>().getNumEntries() == 0, "nothing of the functionality stays referenced");
}
// classical circuits have one outcome
void sampling(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4), bits = 1 + r.below(5);
  const bool registers = r.coin(0.6);
  qc::QuantumComputation c(n, registers ? bits : 0);
  c.initialLayout = randomPerm(r, n);
  c.outputPermutation = randomPerm(r, n);
  std::string s = "n=" + std::to_string(n) + " bits " + std::to_string(registers ? bits : 0) + " in " + str(c.initialLayout) + " out " + str(c.outputPermutation) + " : ";
  std::vector<bool> v(n), cl(registers ? bits : 0);
  std::vector<bool> done(n);
  const bool mid = r.coin(0.4);
  const bool swapsOnly = r.coin(0.3); // after the first measurement
  bool onlySwaps = false;
  std::size_t measured = 0;
  std::vector<std::size_t> bitOrder(bits);
  auto gates = [&](std::size_t k) {
    for (std::size_t i = 0; i < k; i++) {
      const auto a = static_cast<qc::Qubit>(r.below(n));
      if (onlySwaps && n == 1) return;
      if (!onlySwaps && (n == 1 || r.coin(0.3))) {
        c.x(a);
        v[a] = !v[a];
        s += "x" + std::to_string(a) + " ";
      } else {
        const auto b = static_cast<qc::Qubit>((a + 1 + r.below(n - 1)) % n);
        if (onlySwaps || r.coin()) {
          c.swap(a, b);
          const bool t = v[a];
          v[a] = v[b];
          v[b] = t;
          s += "swap" + std::to_string(a) + std::to_string(b) + " ";
        } else {
          c.cx(a, b);
          v[b] = v[b] != v[a];
          s += "cx" + std::to_string(a) + std::to_string(b) + " ";
        }
      }
    }
  };
  gates(r.below(6));
  const bool measures = registers && r.coin(0.7);
  if (measures) {
    onlySwaps = swapsOnly;
    for (std::size_t k = 0; k < 1 + r.below(3); k++) {
      const auto q = static_cast<qc::Qubit>(r.below(n));
      const auto b = r.below(bits);
      c.measure(q, b);
      cl[b] = v[q];
      measured++;
      s += "m" + std::to_string(q) + ">" + std::to_string(b) + " ";
      if (mid) gates(r.below(3));
      if (mid && !onlySwaps && r.coin(0.3)) {
        const auto t = static_cast<qc::Qubit>(r.below(n));
        c.classicControlled(qc::X, t, static_cast<qc::Bit>(b));
        if (cl[b]) v[t] = !v[t];
        s += "if" + std::to_string(b) + " x" + std::to_string(t) + " ";
      }
      if (mid && !onlySwaps && r.coin(0.2)) {
        const auto t = static_cast<qc::Qubit>(r.below(n));
        c.reset(t);
        v[t] = false;
        s += "r" + std::to_string(t) + " ";
      }
    }
    if (r.coin(0.4)) {
      // only some of the qubits are outputs
      c.initializeIOMapping();
      s += "io ";
    }
  }
  vpn::what = s;
  dd::Package p(n);
  const auto shots = 1 + r.below(5);
  const auto h = dd::sample(c, p.makeZeroState(n), p, shots, 1 + r.below(1000));
  std::string want;
  if (measured > 0) {
    want.assign(bits, '0');
    for (std::size_t b = 0; b < bits; b++)
      if (cl[b]) want[bits - 1 - b] = '1';
  } else {
    const auto len = std::max(n, cl.size()); // every output has its bit
    want.assign(len, '0');
    for (const auto& [q, b] : c.outputPermutation)
      if (v[q]) want[len - 1 - b] = '1';
  }
  std::size_t total = 0;
  for (const auto& [k, m] : h) total += m;
  vpn::require(total == shots, "one outcome per shot");
  vpn::require(h.size() == 1 && h.begin()->first == want, "sampled " + (h.empty() ? std::string("nothing") : h.begin()->first) + " instead of " + want);
}
// outcomes of arbitrary circuits have positive probability
void support(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(3);
  auto c = random(r, n, r.below(6), false);
  c.qc.initialLayout = randomPerm(r, n);
  c.qc.outputPermutation = randomPerm(r, n);
  vpn::what = "n=" + std::to_string(n) + " in " + str(c.qc.initialLayout) + " out " + str(c.qc.outputPermutation) + " : " + c.s;
  Vec z(1ULL << n);
  z[0] = 1;
  const auto w = c.u * z;
  for (const auto& [k, m] : dd::sample(c.qc, 16, 1 + r.below(1000))) {
    std::size_t x = 0;
    for (const auto& [q, b] : c.qc.outputPermutation)
      if (k[k.size() - 1 - b] == '1') x |= 1ULL << q;
    vpn::require(std::norm(w[x]) > 1e-12, "an impossible outcome " + k);
  }
}
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  const auto k = std::getenv("VPK") ? std::atoi(std::getenv("VPK")) : r.below(4);
  if (k < 2) functionality(r);
  else if (k == 2) sampling(r);
  else support(r);
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
