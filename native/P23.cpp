// Native companion of contracts/P23.cpp: circuit optimisations preserve the behaviour of circuits
#include "circuit_optimizer/CircuitOptimizer.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "spec_dense.hpp"

#include <functional>
#include <map>
using namespace spec;
using O = qc::CircuitOptimizer;
namespace {
// ---------------------------------------------------------------- reference semantics
using Bits = std::uint64_t;
struct Branch {
  Bits bits;
  Vec v;
};
using State = std::vector<Branch>;
double norm(const Vec& v) {
  double s = 0;
  for (auto x : v) s += std::norm(x);
  return s;
}
void step(const qc::Operation& op, std::size_t n, State& st);
void flip(Vec& v, std::size_t q) {
  for (std::size_t i = 0; i < v.size(); i++)
    if (!bit(i, q)) std::swap(v[i], v[i | (1ULL << q)]);
}
void split(State& st, std::size_t q, const std::function<void(Branch&, bool)>& f) {
  State out;
  for (auto& b : st)
    for (int k = 0; k < 2; k++) {
      Branch x{b.bits, Vec(b.v.size())};
      for (std::size_t i = 0; i < b.v.size(); i++)
        if (bit(i, q) == (k == 1)) x.v[i] = b.v[i];
      if (norm(x.v) < 1e-14) continue;
      f(x, k == 1);
      out.push_back(std::move(x));
    }
  st = std::move(out);
}
bool holds(const qc::ClassicControlledOperation& c, Bits bits) {
  std::uint64_t v = 0;
  if (const auto& r = c.getControlRegister(); r.has_value()) v = (bits >> r->getStartIndex()) & ((1ULL << r->getSize()) - 1);
  if (const auto& b = c.getControlBit(); b.has_value()) v = (bits >> *b) & 1;
  const auto e = c.getExpectedValue();
  switch (c.getComparisonKind()) {
  case qc::Eq: return v == e;
  case qc::Neq: return v != e;
  case qc::Lt: return v < e;
  case qc::Leq: return v <= e;
  case qc::Gt: return v > e;
  default: return v >= e;
  }
}
void apply(const Mat& m, Vec& v) { v = m * v; }
void step(const qc::Operation& op, std::size_t n, State& st) {
  if (const auto* c = dynamic_cast<const qc::CompoundOperation*>(&op)) {
    for (const auto& o : *c) step(*o, n, st);
    return;
  }
  if (const auto* c = dynamic_cast<const qc::ClassicControlledOperation*>(&op)) {
    State out;
    for (auto& b : st) {
      State one{b};
      if (holds(*c, b.bits)) step(*c->getOperation(), n, one);
      for (auto& x : one) out.push_back(x);
    }
    st = std::move(out);
    return;
  }
  if (op.getType() == qc::Measure) {
    const auto& m = dynamic_cast<const qc::NonUnitaryOperation&>(op);
    for (std::size_t k = 0; k < m.getTargets().size(); k++)
      split(st, m.getTargets()[k], [&](Branch& b, bool one) {
        const Bits mask = 1ULL << m.getClassics()[k];
        b.bits = one ? b.bits | mask : b.bits & ~mask;
      });
    return;
  }
  if (op.getType() == qc::Reset) {
    for (const auto q : op.getTargets())
      split(st, q, [&](Branch& b, bool one) {
        if (one) flip(b.v, q);
      });
    return;
  }
  const auto m = gate(n, op.getType(), op.getParameter(), op.getControls(), op.getTargets());
  for (auto& b : st) apply(m, b.v);
}
State behave(const qc::QuantumComputation& c, std::size_t n, const Vec& in) {
  State st{{0, in}};
  for (const auto& op : c) step(*op, n, st);
  return st;
}
// classical outcomes with the density matrix of the qubits
std::map<Bits, Mat> densities(const State& st) {
  std::map<Bits, Mat> r;
  for (const auto& b : st) {
    auto& m = r.try_emplace(b.bits, Mat(b.v.size())).first->second;
    for (std::size_t i = 0; i < b.v.size(); i++)
      for (std::size_t j = 0; j < b.v.size(); j++) m(i, j) += b.v[i] * std::conj(b.v[j]);
  }
  return r;
}
void sameChannel(const State& a, const State& b, const std::string& l) {
  auto x = densities(a), y = densities(b);
  for (auto& [k, m] : x) y.try_emplace(k, Mat(m.d));
  for (auto& [k, m] : y) x.try_emplace(k, Mat(m.d));
  for (auto& [k, m] : x) same(m, y.at(k), l + " for outcome " + std::to_string(k), 1e-7);
}
void sameOutcomes(const State& a, const State& b, const std::string& l) {
  std::map<Bits, double> x, y;
  for (auto& s : a) x[s.bits] += norm(s.v);
  for (auto& s : b) y[s.bits] += norm(s.v);
  for (auto& [k, p] : x) vpn::close(y[k], p, l + ": probability of outcome " + std::to_string(k), 1e-7);
  for (auto& [k, p] : y) vpn::close(p, x[k], l + ": probability of outcome " + std::to_string(k), 1e-7);
}
Vec randomState(vpn::Rng& r, std::size_t n) {
  Vec v(1ULL << n);
  double s = 0;
  for (auto& x : v) {
    x = {r.real(-1, 1), r.real(-1, 1)};
    s += std::norm(x);
  }
  for (auto& x : v) x /= std::sqrt(s);
  return v;
}
// states on more qubits whose additional qubits are zero
Vec extend(const Vec& v, std::size_t n) {
  Vec r(1ULL << n);
  for (std::size_t i = 0; i < v.size(); i++) r[i] = v[i];
  return r;
}
std::string str(const qc::QuantumComputation& c) {
  std::stringstream s;
  for (const auto& op : c) {
    const std::function<void(const qc::Operation&)> show = [&](const qc::Operation& o) {
      if (const auto* x = dynamic_cast<const qc::CompoundOperation*>(&o)) {
        s << "{ ";
        for (const auto& y : *x) show(*y);
        s << "} ";
        return;
      }
      if (const auto* x = dynamic_cast<const qc::ClassicControlledOperation*>(&o)) {
        s << "if";
        if (x->getControlBit().has_value()) s << " b" << *x->getControlBit();
        if (x->getControlRegister().has_value()) s << " r" << x->getControlRegister()->getStartIndex() << "+" << x->getControlRegister()->getSize();
        s << " " << x->getComparisonKind() << x->getExpectedValue() << " ";
        show(*x->getOperation());
        return;
      }
      s << qc::toString(o.getType());
      for (const auto& k : o.getControls()) s << (k.type == qc::Control::Type::Pos ? " c" : " n") << k.qubit;
      for (const auto t : o.getTargets()) s << " t" << t;
      for (const auto p : o.getParameter()) s << " (" << p << ")";
      if (const auto* x = dynamic_cast<const qc::NonUnitaryOperation*>(&o))
        for (const auto b : x->getClassics()) s << " >" << b;
      s << "; ";
    };
    show(*op);
  }
  return s.str();
}
// ---------------------------------------------------------------- circuits
struct Opts {
  bool compound = true, measure = false, reset = false, classic = false, barrier = true, phase = true;
  bool registers = false; // classical control by registers and all comparisons
  double few = 0.6;       // probability of the gates that the passes look at
  bool multi = true;      // measurements and resets of several qubits
};
std::unique_ptr<qc::Operation> unitary(vpn::Rng& r, std::size_t n, const Opts& o) {
  if (o.phase && r.coin(0.02)) return std::make_unique<qc::StandardOperation>(qc::Targets{}, qc::GPhase, std::vector<double>{r.angle()});
  const auto a = static_cast<qc::Qubit>(r.below(n));
  const auto b = n > 1 ? static_cast<qc::Qubit>((a + 1 + r.below(n - 1)) % n) : a;
  if (r.coin(o.few)) {
    const auto k = r.below(n > 1 ? 10 : 5);
    static const qc::OpType ones[] = {qc::X, qc::Y, qc::Z, qc::H, qc::S, qc::Sdg, qc::T, qc::Tdg, qc::SX, qc::SXdg, qc::I, qc::V};
    if (k < 4) return std::make_unique<qc::StandardOperation>(a, ones[r.below(12)]);
    if (k < 5) return std::make_unique<qc::StandardOperation>(a, qc::P, std::vector<double>{r.angle()});
    if (k < 8) return std::make_unique<qc::StandardOperation>(qc::Control{a, r.coin(0.85) ? qc::Control::Type::Pos : qc::Control::Type::Neg}, b, r.coin(0.8) ? qc::X : qc::Z);
    return std::make_unique<qc::StandardOperation>(qc::Targets{a, b}, qc::SWAP);
  }
  return std::make_unique<qc::StandardOperation>(randomOp(r, n).op());
}
std::unique_ptr<qc::Operation> any(vpn::Rng& r, std::size_t n, std::size_t nb, const Opts& o, bool nested) {
  const auto a = static_cast<qc::Qubit>(r.below(n));
  if (o.compound && !nested && r.coin(0.1)) {
    auto c = std::make_unique<qc::CompoundOperation>(r.coin());
    for (std::size_t k = 1 + r.below(3); k > 0; k--) c->emplace_back(any(r, n, nb, o, true));
    return c;
  }
  if (o.barrier && r.coin(0.05)) {
    qc::Targets t;
    for (std::size_t q = 0; q < n; q++)
      if (r.coin()) t.push_back(static_cast<qc::Qubit>(q));
    if (t.empty()) t.push_back(a);
    return std::make_unique<qc::StandardOperation>(t, qc::Barrier);
  }
  if (o.measure && r.coin(0.15)) {
    if (o.multi && n > 1 && nb > 1 && r.coin(0.2)) {
      const auto b = static_cast<qc::Qubit>((a + 1 + r.below(n - 1)) % n);
      const auto x = r.below(nb);
      return std::make_unique<qc::NonUnitaryOperation>(std::vector<qc::Qubit>{a, b}, std::vector<qc::Bit>{x, (x + 1) % nb});
    }
    return std::make_unique<qc::NonUnitaryOperation>(a, static_cast<qc::Bit>(r.below(nb)));
  }
  if (o.reset && r.coin(0.12)) {
    std::vector<qc::Qubit> t{a};
    if (o.multi && n > 1 && r.coin(0.2)) t.push_back(static_cast<qc::Qubit>((a + 1 + r.below(n - 1)) % n));
    return std::make_unique<qc::NonUnitaryOperation>(t, qc::Reset);
  }
  if (o.classic && r.coin(0.2)) {
    auto inner = unitary(r, n, o);
    const auto kind = o.registers ? static_cast<qc::ComparisonKind>(r.below(6)) : qc::Eq;
    if (o.registers && r.coin()) {
      const auto s = r.below(nb);
      return std::make_unique<qc::ClassicControlledOperation>(std::move(inner), qc::ClassicalRegister(s, 1 + r.below(nb - s), "c"), r.below(4), kind);
    }
    return std::make_unique<qc::ClassicControlledOperation>(std::move(inner), static_cast<qc::Bit>(r.below(nb)), r.below(2), o.registers && r.coin() ? qc::Neq : qc::Eq);
  }
  return unitary(r, n, o);
}
qc::QuantumComputation circuit(vpn::Rng& r, std::size_t n, std::size_t nb, std::size_t len, const Opts& o) {
  qc::QuantumComputation c(n, nb);
  for (std::size_t i = 0; i < len; i++) c.emplace_back(any(r, n, nb, o, false));
  return c;
}
std::size_t count(const qc::QuantumComputation& c, const std::function<bool(const qc::Operation&)>& f) {
  std::size_t k = 0;
  const std::function<void(const qc::Operation&)> go = [&](const qc::Operation& o) {
    if (f(o)) k++;
    if (const auto* x = dynamic_cast<const qc::CompoundOperation*>(&o))
      for (const auto& y : *x) go(*y);
  };
  for (const auto& op : c) go(*op);
  return k;
}
// ---------------------------------------------------------------- passes that keep the behaviour
void keeps(vpn::Rng& r, const char* name, const std::function<void(qc::QuantumComputation&)>& f, const Opts& o, const std::function<void(const qc::QuantumComputation&)>& post = {}) {
  const std::size_t n = 1 + r.below(4), nb = 1 + r.below(3);
  auto c = circuit(r, n, nb, r.below(9), o);
  vpn::what = std::string(name) + " n=" + std::to_string(n) + ": " + str(c);
  const auto in = randomState(r, n);
  const auto before = behave(c, n, in);
  f(c);
  vpn::what += " -> " + str(c);
  vpn::require(c.getNqubits() == n, "qubits are kept");
  sameChannel(before, behave(c, n, in), name);
  if (o.phase && !o.measure && !o.reset && !o.classic) same(before[0].v, behave(c, n, in)[0].v, name, 1e-7);
  if (post) post(c);
}
void outcomes(vpn::Rng& r, const char* name, const std::function<void(qc::QuantumComputation&)>& f, Opts o, bool endMeasured, const std::function<void(const qc::QuantumComputation&)>& post = {}) {
  const std::size_t n = 1 + r.below(3), nb = 1 + r.below(3);
  auto c = circuit(r, n, nb, r.below(8), o);
  if (endMeasured)
    for (std::size_t q = 0; q < n; q++)
      if (r.coin(0.7)) c.emplace_back<qc::NonUnitaryOperation>(static_cast<qc::Qubit>(q), static_cast<qc::Bit>(q % nb));
  vpn::what = std::string(name) + " n=" + std::to_string(n) + ": " + str(c);
  const auto in = randomState(r, n);
  const auto before = behave(c, n, in);
  try {
    f(c);
  } catch (const std::runtime_error&) {
    return; // documented limits
  }
  vpn::what += " -> " + str(c);
  const auto m = c.getNqubits();
  if (m > 8) return;
  sameOutcomes(before, behave(c, m, extend(in, m)), name);
  if (post) post(c);
}
bool typed(const qc::Operation& o, qc::OpType t) { return o.getType() == t; }
} // namespace
#include "P23_cases.hpp"
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
