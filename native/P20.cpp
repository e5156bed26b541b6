// Native companion of contracts/P20.cpp: equality, inverse and commutation of operations
#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "spec_dense.hpp"

#include <algorithm>
#include <map>
using namespace spec;
namespace {
bool near(const Mat& a, const Mat& b, double tol = 1e-8) {
  for (std::size_t i = 0; i < a.d; i++)
    for (std::size_t j = 0; j < a.d; j++)
      if (std::abs(a(i, j) - b(i, j)) > tol) return false;
  return true;
}
// few parameter values, so that equal ones are frequent
void coarse(vpn::Rng& r, Op& o) {
  static const std::array<double, 4> V{0.5, -0.5, 1.25, 2.5};
  for (auto& p : o.p) p = V[r.below(V.size())];
}
Op pick(vpn::Rng& r, std::size_t n) {
  Op o = randomOp(r, n, true, 0.6, false);
  coarse(r, o);
  return o;
}
// a variation of an operation: other qubits, controls exchanged with the target, other polarity, ...
Op vary(vpn::Rng& r, const Op& o, std::size_t n) {
  Op v = o;
  switch (r.below(6)) {
  case 0: return v;
  case 1:
    if (!v.cs.empty()) {
      const auto c = *v.cs.begin();
      v.cs.erase(v.cs.begin());
      v.cs.emplace(v.ts[0], c.type);
      v.ts[0] = c.qubit;
    }
    return v;
  case 2:
    if (!v.cs.empty()) {
      auto c = *v.cs.begin();
      v.cs.erase(v.cs.begin());
      c.type = c.type == qc::Control::Type::Pos ? qc::Control::Type::Neg : qc::Control::Type::Pos;
      v.cs.insert(c);
    }
    return v;
  case 3: std::reverse(v.ts.begin(), v.ts.end()); return v;
  case 4: coarse(r, v); return v;
  default: return pick(r, n);
  }
}
std::unique_ptr<qc::CompoundOperation> compound(const std::vector<Op>& v) {
  auto c = std::make_unique<qc::CompoundOperation>();
  for (const auto& o : v) c->emplace_back<qc::StandardOperation>(o.op());
  return c;
}
void bits(const qc::Operation& op, std::vector<std::uint64_t>& w) {
  if (const auto* m = dynamic_cast<const qc::NonUnitaryOperation*>(&op)) {
    if (op.getType() == qc::Measure) w.insert(w.end(), m->getClassics().begin(), m->getClassics().end());
  } else if (const auto* c = dynamic_cast<const qc::ClassicControlledOperation*>(&op)) {
    if (c->getControlBit().has_value()) w.push_back(*c->getControlBit());
    if (c->getControlRegister().has_value())
      for (std::size_t i = 0; i < c->getControlRegister()->getSize(); i++) w.push_back(c->getControlRegister()->getStartIndex() + i);
  }
}
void cse(vpn::Rng& r) {
  const std::size_t n = 2 + r.below(2);
  vpn::nontrivial++;
  switch (r.below(6)) {
  case 0: { // equality
    const Op a = pick(r, n), b = vary(r, a, n);
    vpn::what = "equality " + a.str() + " / " + b.str();
    const auto x = a.op(), y = b.op();
    const bool e = x == y;
    if (e) vpn::require(near(dense(x, n), dense(y, n)), "operations that compare equal have the same matrix");
    if (x.getType() == y.getType() && x.getParameter() == y.getParameter() && x.getControls() == y.getControls() && x.getTargets() == y.getTargets()) vpn::require(e, "identical operations compare equal");
    vpn::require(e == (y == x), "equality is symmetric");
    break;
  }
  case 1: { // equality up to a permutation of the qubits
    const Op a = pick(r, n);
    std::vector<qc::Qubit> pi(n);
    for (std::size_t i = 0; i < n; i++) pi[i] = static_cast<qc::Qubit>(i);
    for (std::size_t i = n; i-- > 1;) std::swap(pi[i], pi[r.below(i + 1)]);
    qc::Permutation p;
    for (std::size_t i = 0; i < n; i++) p[static_cast<qc::Qubit>(i)] = pi[i];
    auto x = a.op();
    auto y = vary(r, a, n).op();
    vpn::what = "permuted equality " + a.str();
    auto xp = x;
    xp.apply(p);
    if (x.equals(y, p, {})) vpn::require(near(dense(xp, n), dense(y, n)), "operations equal up to a permutation have the same matrix after it");
    vpn::require(x.equals(xp, p, {}) && xp.equals(x, {}, p), "an operation equals its permuted copy");
    break;
  }
  case 2: { // inverse
    const Op a = pick(r, n), b = vary(r, a, n);
    auto x = a.op();
    auto y = b.op();
    if (r.coin()) y.invert();
    vpn::what = "inverse " + a.str() + " / " + b.str();
    if (x.isInverseOf(y)) vpn::require(near(dense(x, n), adj(dense(y, n))), "operations reported as inverse are inverse");
    y = a.op();
    y.invert();
    if (x.getType() != qc::U2) vpn::require(x.isInverseOf(y), "the inverse is recognised"); // (rounding of pi in U2)
    break;
  }
  case 3: { // inverse of compound operations
    auto v = randomCircuit(r, n, 1 + r.below(4));
    for (auto& o : v) coarse(r, o);
    auto w = v;
    const auto k = r.below(4);
    if (k == 0) w[r.below(w.size())] = pick(r, n);
    if (k == 1) std::swap(w[r.below(w.size())], w[r.below(w.size())]);
    auto a = compound(v), b = compound(w);
    double ga = 0, gb = 0;
    if (r.coin(0.4)) {
      ga = 0.25;
      a->emplace_back<qc::StandardOperation>(qc::Targets{}, qc::GPhase, std::vector{ga});
    }
    if (r.coin(0.4)) {
      gb = r.coin() ? 0.25 : 0.75;
      b->emplace_back<qc::StandardOperation>(qc::Targets{}, qc::GPhase, std::vector{gb});
    }
    b->invert();
    vpn::what = "compound inverse " + str(v) + " / " + str(w) + " phases " + std::to_string(ga) + " " + std::to_string(gb);
    Mat x = dense(v, n), y = dense(w, n);
    const bool same = near(x, y) && ga == gb;
    if (a->isInverseOf(*b)) vpn::require(same, "compound operations reported as inverse are inverse");
    break;
  }
  case 4: { // commutation
    const Op a = pick(r, n), b = vary(r, a, n);
    vpn::what = "commutation " + a.str() + " / " + b.str();
    const auto x = a.op(), y = b.op();
    bool all = true;
    const auto* first = static_cast<const qc::Operation*>(&x);
    const auto ca = compound({a});
    if (r.coin(0.3)) first = ca.get();
    for (std::size_t q = 0; q < n; q++) all = all && first->commutesAtQubit(y, static_cast<qc::Qubit>(q));
    if (all) {
      const auto m = dense(x, n), k = dense(y, n);
      vpn::require(near(m * k, k * m), "operations that commute at every qubit commute");
    }
    break;
  }
  default: { // reordering keeps the functionality and the order on every qubit and bit
    qc::QuantumComputation q(n, 2);
    const auto v = randomCircuit(r, n, 2 + r.below(6));
    std::vector<std::uint64_t> id;
    for (const auto& o : v) {
      const auto k = r.below(5);
      if (k == 0) q.measure(static_cast<qc::Qubit>(r.below(n)), r.below(2));
      else if (k == 1) q.emplace_back<qc::ClassicControlledOperation>(std::make_unique<qc::StandardOperation>(o.op()), qc::Bit{r.below(2)}, 1U);
      else if (k == 2) q.emplace_back<qc::StandardOperation>(qc::Targets{}, qc::GPhase, std::vector{0.25});
      else q.emplace_back<qc::StandardOperation>(o.op());
    }
    vpn::what = "reordering";
    std::vector<const qc::Operation*> before;
    for (const auto& o : q) before.push_back(o.get());
    q.reorderOperations();
    vpn::require(q.size() == before.size(), "no operation is lost");
    std::map<const qc::Operation*, std::size_t> pos;
    for (std::size_t i = 0; i < q.size(); i++) pos[q.at(i).get()] = i;
    for (std::size_t i = 0; i < before.size(); i++) {
      vpn::require(pos.count(before[i]) == 1, "the operations are kept");
      for (std::size_t j = i + 1; j < before.size(); j++) {
        bool dep = false;
        for (const auto u : before[i]->getUsedQubits()) dep = dep || before[j]->actsOn(u);
        std::vector<std::uint64_t> bi, bj;
        bits(*before[i], bi);
        bits(*before[j], bj);
        for (const auto b : bi) dep = dep || std::find(bj.begin(), bj.end(), b) != bj.end();
        if (dep) vpn::require(pos[before[i]] < pos[before[j]], "operations that share a qubit or a classical bit keep their order");
      }
    }
  }
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
