// Native companion of contracts/P08.cpp: diagrams of gates and operations against dense matrices
#include "dd/Operations.hpp"
#include "dd_rand.hpp"
using namespace ddr;
namespace {
qc::Permutation perm(vpn::Rng& r, std::size_t n, bool some) {
  qc::Permutation p;
  if (!some) return p;
  std::vector<qc::Qubit> to(n);
  for (std::size_t i = 0; i < n; i++) to[i] = static_cast<qc::Qubit>(i);
  for (std::size_t i = n; i > 1; i--) std::swap(to[i - 1], to[r.below(i)]);
  for (std::size_t i = 0; i < n; i++) p[static_cast<qc::Qubit>(i)] = to[i];
  return p;
}
Op mapped(const Op& o, const qc::Permutation& p) {
  Op q = o;
  for (auto& t : q.ts) t = p.empty() ? t : p.at(t);
  q.cs.clear();
  for (const auto& c : o.cs) q.cs.insert(qc::Control{p.empty() ? c.qubit : p.at(c.qubit), c.type});
  return q;
}
void one(vpn::Rng& r, dd::Package& p, const std::size_t n) {
  vpn::nontrivial++;
  switch (r.below(5)) {
  case 0: { // any one-qubit matrix
    dd::GateMatrix m;
    M2 w;
    for (std::size_t i = 0; i < 4; i++) w[i] = m[i] = entry(r);
    const auto o = randomOp(r, n, false);
    vpn::what = "matrix like " + o.str();
    same(dense(p.makeGateDD(m, o.cs, o.ts.at(0)), n), embed1(n, w, o.cs, o.ts[0]), "controlled matrix");
    same(dense(p.makeGateDD(m, o.ts[0]), n), embed1(n, w, {}, o.ts[0]), "matrix");
    if (!o.cs.empty()) same(dense(p.makeGateDD(m, *o.cs.begin(), o.ts[0]), n), embed1(n, w, {*o.cs.begin()}, o.ts[0]), "singly controlled matrix");
    break;
  }
  case 1: { // any two-qubit matrix
    if (n < 2) break;
    dd::TwoQubitGateMatrix m;
    M4 w;
    for (std::size_t i = 0; i < 4; i++)
      for (std::size_t j = 0; j < 4; j++) w[i * 4 + j] = m[i][j] = entry(r);
    auto o = randomOp(r, n);
    while (o.ts.size() != 2) o = randomOp(r, n);
    vpn::what = "matrix like " + o.str();
    same(dense(p.makeTwoQubitGateDD(m, o.cs, o.ts[0], o.ts[1]), n), embed2(n, w, o.cs, o.ts[0], o.ts[1]), "controlled two-qubit matrix");
    same(dense(p.makeTwoQubitGateDD(m, o.ts[0], o.ts[1]), n), embed2(n, w, {}, o.ts[0], o.ts[1]), "two-qubit matrix");
    if (!o.cs.empty()) same(dense(p.makeTwoQubitGateDD(m, *o.cs.begin(), o.ts[0], o.ts[1]), n), embed2(n, w, {*o.cs.begin()}, o.ts[0], o.ts[1]), "singly controlled two-qubit matrix");
    break;
  }
  case 2: { // operations, permuted
    const auto o = randomOp(r, n, true, 0.4, true);
    const auto pm = perm(r, n, r.coin(0.6));
    vpn::what = o.str();
    const auto op = o.op();
    const auto want = mapped(o, pm).mat(n);
    same(dense(dd::getDD(op, p, pm), n), want, "diagram of an operation");
    same(dense(dd::getInverseDD(op, p, pm), n), adj(want), "diagram of the inverse of an operation");
    break;
  }
  case 3: { // sequences
    const auto pm = perm(r, n, r.coin(0.6));
    Mat want = Mat::id(1ULL << n);
    qc::CompoundOperation c;
    std::string s;
    for (std::size_t k = 0; k < 1 + r.below(5); k++) {
      const auto o = randomOp(r, n, true, 0.4, true);
      s += o.str() + "; ";
      want = mapped(o, pm).mat(n) * want;
      if (r.coin(0.2)) {
        auto in = std::make_unique<qc::CompoundOperation>();
        in->emplace_back(std::make_unique<qc::StandardOperation>(o.op()));
        c.emplace_back(std::move(in));
      } else {
        c.emplace_back(std::make_unique<qc::StandardOperation>(o.op()));
      }
    }
    vpn::what = s;
    same(dense(dd::getDD(c, p, pm), n), want, "diagram of a sequence");
    same(dense(dd::getInverseDD(c, p, pm), n), adj(want), "diagram of the inverse of a sequence");
    break;
  }
  default: { // gates that do not fit
    const auto nq = p.qubits();
    const auto t = static_cast<qc::Qubit>(r.below(nq + 3)), c = static_cast<qc::Qubit>(r.below(nq + 3)), u = static_cast<qc::Qubit>(r.below(nq + 3));
    if (t == c || t == u || c == u) break;
    const auto threw = [](auto f) {
      try {
        f();
      } catch (const std::runtime_error&) {
        return true;
      }
      return false;
    };
    vpn::require(threw([&] { p.makeGateDD(dd::opToSingleQubitGateMatrix(qc::H), qc::Control{c}, t); }) == (t >= nq || c >= nq), "gates that do not fit are rejected");
    vpn::require(threw([&] { p.makeTwoQubitGateDD(dd::opToTwoQubitGateMatrix(qc::SWAP), qc::Control{c}, t, u); }) == (t >= nq || c >= nq || u >= nq), "two-qubit gates that do not fit are rejected");
  }
  }
}
void cse(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(5);
  dd::Package p(n + r.below(3));
  for (int k = 0; k < 10; k++) one(r, p, n);
}
} // namespace
int main(int c, char** v) { return vpn::run(c, v, cse); }
