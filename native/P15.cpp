// Native companion of contracts/P15.cpp: measuring, collapsing and resetting random states under random
// permutations and classical conditions, against dense states and a copy of the generator.
#include "dd/Operations.hpp"
#include "dd_rand.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "vpn.hpp"

#include <unordered_map>
using namespace ddr;
namespace {
double norm2(const Vec& v) {
  double s = 0;
  for (const auto& x : v) s += std::norm(x);
  return s;
}
void same(dd::vEdge e, std::size_t n, const Vec& v, const char* m) {
  const auto d = e.getVector();
  vpn::require(d.size() == (1ULL << n), m);
  for (std::size_t i = 0; i < v.size(); i++) vpn::require(std::abs(d[i] - v[i]) < 1e-7, m);
}
// measure qubit q of the dense state with the next number of the generator
int measured(Vec& v, std::size_t q, std::mt19937_64& g, bool& close) {
  const double th = std::uniform_real_distribution<double>(0, 1)(g);
  double p0 = 0;
  const double s = norm2(v);
  for (std::size_t i = 0; i < v.size(); i++)
    if (!bit(i, q)) p0 += std::norm(v[i]);
  p0 /= s;
  const int o = th < p0 ? 0 : 1;
  const double po = o == 1 ? 1 - p0 : p0;
  if (std::abs(th - p0) < 1e-9 || po < 1e-4) {
    close = true;
    return o;
  }
  for (std::size_t i = 0; i < v.size(); i++) v[i] = bit(i, q) != (o == 1) ? C{} : v[i] / std::sqrt(po * s);
  return o;
}
void run(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4);
  dd::Package p(n + r.below(3));
  dd::CVec v(1ULL << n);
  Vec d(v.size());
  {
    const bool rep = r.coin(0.4), sparse = r.coin(0.5);
    std::array<C, 3> pool{entry(r), entry(r), entry(r)};
    double s = 0;
    for (auto& x : d) {
      x = rep ? pool[r.below(3)] : entry(r);
      if (sparse && r.coin(0.6)) x = 0;
      s += std::norm(x);
    }
    if (s < 1e-3) {
      d[0] = 1;
      s = norm2(d);
    }
    for (auto& x : d) x /= std::sqrt(s);
    for (std::size_t i = 0; i < v.size(); i++) v[i] = d[i];
  }
  auto e = p.makeStateFromVector(v);
  std::vector<qc::Qubit> map(n);
  for (std::size_t k = 0; k < n; k++) map[k] = static_cast<qc::Qubit>(k);
  for (std::size_t k = n; k > 1; k--) std::swap(map[k - 1], map[r.below(k)]);
  qc::Permutation perm;
  const bool usePerm = r.coin();
  if (usePerm)
    for (std::size_t k = 0; k < n; k++) perm[static_cast<qc::Qubit>(k)] = map[k];
  else
    for (std::size_t k = 0; k < n; k++) map[k] = static_cast<qc::Qubit>(k);
  const std::size_t nb = 1 + r.below(6);
  std::vector<bool> bits(nb);
  for (std::size_t k = 0; k < nb; k++) bits[k] = r.coin();
  std::mt19937_64 mt(r.u64()), ref = mt;
  std::ostringstream log;
  log << "n=" << n << (usePerm ? " permuted; " : "; ");
  for (std::size_t i = 0; i < d.size(); i++) log << d[i] << " ";
  log << "; ";
  for (int k = 0; k < 8; k++) {
    // the probabilities of every subdiagram and qubit
    for (std::size_t q = 0; q < n; q++) {
      const auto [a, b] = dd::Package::determineMeasurementProbabilities(e, static_cast<dd::Qubit>(q));
      double w[2] = {0, 0};
      for (std::size_t i = 0; i < d.size(); i++) w[bit(i, q) ? 1 : 0] += std::norm(d[i]);
      vpn::what = log.str();
      vpn::require(std::abs(a - w[0]) < 1e-7 && std::abs(b - w[1]) < 1e-7, "the probabilities of a qubit are wrong");
    }
    {
      std::unordered_map<const dd::vNode*, dd::fp> probs;
      const double s = dd::Package::assignProbabilities(e, probs);
      vpn::require(std::abs(s - norm2(d)) < 1e-7, "the squared norm is wrong");
    }
    bool close = false;
    switch (r.below(6)) {
    case 0: { // gate
      const auto o = randomOp(r, n);
      log << o.str() << "; ";
      vpn::what = log.str();
      dd::mEdge g;
      if (qc::isTwoQubitGate(o.t)) g = p.makeTwoQubitGateDD(dd::opToTwoQubitGateMatrix(o.t, o.p), o.cs, o.ts.at(0), o.ts.at(1));
      else g = p.makeGateDD(dd::opToSingleQubitGateMatrix(o.t, o.p), o.cs, o.ts.at(0));
      d = gate(n, o.t, o.p, o.cs, o.ts) * d;
      e = p.applyOperation(g, e);
      break;
    }
    case 1: { // measurement of several qubits
      std::vector<qc::Qubit> ts;
      std::vector<qc::Bit> cs;
      const std::size_t m = 1 + r.below(n);
      for (std::size_t j = 0; j < m; j++) {
        ts.push_back(static_cast<qc::Qubit>(r.below(n)));
        cs.push_back(r.below(nb));
      }
      const qc::NonUnitaryOperation op(ts, cs);
      auto want = bits;
      log << "measure";
      for (std::size_t j = 0; j < m && !close; j++) {
        log << " " << ts[j] << "->" << cs[j];
        want[cs[j]] = measured(d, map[ts[j]], ref, close) == 1;
      }
      log << "; ";
      vpn::what = log.str();
      if (close) return;
      e = dd::applyMeasurement(op, e, p, mt, bits, perm);
      vpn::require(bits == want, "the measured values are wrong");
      break;
    }
    case 2: { // reset
      std::vector<qc::Qubit> ts;
      for (std::size_t q = 0; q < n; q++)
        if (r.coin()) ts.push_back(static_cast<qc::Qubit>(q));
      if (ts.empty()) break;
      const qc::NonUnitaryOperation op(ts, qc::Reset);
      log << "reset";
      for (const auto t : op.getTargets()) {
        log << " " << t;
        if (measured(d, map[t], ref, close) == 1) d = embed1(n, matrix1(qc::X, {}), {}, map[t]) * d;
        if (close) return;
      }
      log << "; ";
      vpn::what = log.str();
      e = dd::applyReset(op, e, p, mt, perm);
      break;
    }
    case 3: { // classical control
      auto o = randomOp(r, n);
      std::unique_ptr<qc::Operation> in = std::make_unique<qc::StandardOperation>(o.op());
      const auto kind = static_cast<qc::ComparisonKind>(r.below(6));
      std::unique_ptr<qc::Operation> c;
      std::uint64_t value = 0;
      bool yes = false;
      if (r.coin(0.3)) {
        const auto b = r.below(nb);
        const auto want = r.below(2);
        const bool neq = r.coin();
        c = std::make_unique<qc::ClassicControlledOperation>(std::move(in), b, want, neq ? qc::Neq : qc::Eq);
        yes = ((bits[b] ? 1U : 0U) == want) != neq;
        log << "if bit " << b << (neq ? " != " : " == ") << want;
      } else {
        const auto start = r.below(nb), size = 1 + r.below(nb - start);
        for (std::size_t j = 0; j < size; j++)
          if (bits[start + j]) value |= 1ULL << j;
        const auto want = r.coin() ? value : r.below(1ULL << size);
        c = std::make_unique<qc::ClassicControlledOperation>(std::move(in), qc::ClassicalRegister(start, size, "c"), want, kind);
        const bool t[] = {value == want, value != want, value < want, value <= want, value > want, value >= want};
        yes = t[static_cast<std::size_t>(kind)];
        log << "if [" << start << "+" << size << "] " << qc::toString(kind) << " " << want;
      }
      if (r.coin()) c = c->clone();
      log << " " << o.str() << "; ";
      vpn::what = log.str();
      if (yes) {
        qc::Controls cs;
        for (const auto& x : o.cs) cs.insert(qc::Control{map[x.qubit], x.type});
        std::vector<qc::Qubit> ts;
        for (const auto t : o.ts) ts.push_back(map[t]);
        d = gate(n, o.t, o.p, cs, ts) * d;
      }
      e = dd::applyClassicControlledOperation(dynamic_cast<const qc::ClassicControlledOperation&>(*c), e, p, bits, perm);
      break;
    }
    case 4: { // a single qubit
      const auto q = r.below(n);
      log << "measure qubit " << q << "; ";
      vpn::what = log.str();
      const int want = measured(d, q, ref, close);
      if (close) return;
      const char c = p.measureOneCollapsing(e, static_cast<dd::Qubit>(q), mt);
      vpn::require((c == '1') == (want == 1), "the measured value is wrong");
      break;
    }
    default: { // all qubits
      const bool collapse = r.coin(0.3);
      log << "measure all" << (collapse ? " and collapse; " : "; ");
      vpn::what = log.str();
      Vec x = d;
      std::string want(n, '0');
      for (std::size_t q = n; q-- > 0;) {
        if (measured(x, q, ref, close) == 1) want[n - 1 - q] = '1';
        if (close) return;
      }
      vpn::require(p.measureAll(e, collapse, mt) == want, "the measured values are wrong");
      if (collapse) {
        for (auto& y : d) y = 0;
        d[std::stoull(want, nullptr, 2)] = 1;
      }
    }
    }
    vpn::what = log.str();
    same(e, n, d, "the state is wrong");
    vpn::nontrivial++;
    if (r.coin(0.2)) p.garbageCollect(true);
    vpn::what = log.str();
    same(e, n, d, "the state is wrong after garbage collection");
  }
  p.decRef(e);
  p.garbageCollect(true);
  vpn::what = log.str();
  vpn::require(p.getUniqueTable<dd::vNode>().getNumEntries() == 0, "references are left over");
}
} // namespace
int main(int argc, char** argv) {
  return vpn::run(argc, argv, run);
}
