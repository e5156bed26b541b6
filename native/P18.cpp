// Native companion of contracts/P18.cpp: symbolic operations under random assignments.
#include "ir/operations/SymbolicOperation.hpp"
#include "spec_gates.hpp"
#include "vpn.hpp"
using namespace qc;
namespace {
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  const auto& all1 = spec::single();
  const auto& all2 = spec::two();
  spec::G g{};
  bool two = r.coin(0.4);
  do { g = two ? all2[r.below(all2.size())] : all1[r.below(all1.size())]; } while (g.nparams == 0);
  const sym::Variable xs[3] = {sym::Variable("x"), sym::Variable("y"), sym::Variable("z")};
  sym::VariableAssignment a;
  for (const auto& x : xs) a[x] = r.coin() ? r.angle() : r.real(-3, 3);
  std::vector<SymbolOrNumber> ps;
  std::vector<double> vals;
  bool any = false;
  std::ostringstream o;
  o.precision(17);
  o << toString(g.type);
  for (std::size_t i = 0; i < g.nparams; i++) {
    if (r.coin(0.6)) {
      Symbolic e(r.coin() ? 0.0 : r.angle());
      for (const auto& x : xs)
        if (r.coin()) e += sym::Term<double>(x, static_cast<double>(r.range(1, 4)) / 2);
      if (e.getTerms().empty()) e += sym::Term<double>(xs[0], 1.0);
      any = true;
      ps.emplace_back(e);
      vals.push_back(e.evaluate(a));
      o << " " << e;
    } else {
      const double v = r.angle();
      ps.emplace_back(v);
      vals.push_back(v);
      o << " " << v;
    }
  }
  for (const auto& x : xs) o << " " << x.getName() << "=" << a[x];
  vpn::what = o.str();
  const Qubit q = static_cast<Qubit>(r.below(4)), s = q + 1;
  const Targets ts = two ? Targets{q, s} : Targets{q};
  const Control c{7, r.coin() ? Control::Type::Pos : Control::Type::Neg};
  SymbolicOperation op(Controls{c}, ts, g.type, ps);
  const auto isM = [&](const Operation& x, bool adj, const std::string& l) {
    const auto& p = x.getParameter();
    if (two) {
      const auto w = spec::matrix2(g.type, vals);
      const auto m = spec::matrix2(x.getType(), p);
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) vpn::close(m[4 * i + j], adj ? std::conj(w[4 * j + i]) : w[4 * i + j], l, 2e-8);
    } else {
      const auto w = spec::matrix1(g.type, vals);
      const auto m = spec::matrix1(x.getType(), p);
      for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) vpn::close(m[2 * i + j], adj ? std::conj(w[2 * j + i]) : w[2 * i + j], l, 2e-8);
    }
    vpn::require(x.getControls() == Controls{c}, l + ": controls kept");
  };
  vpn::require(op.isSymbolicOperation() == any, "an operation is symbolic exactly if a parameter is");
  const auto st = op.getInstantiatedOperation(a);
  isM(st, false, "instantiated operation has the evaluated parameters");
  vpn::require(st.getTargets() == ts, "instantiation keeps the targets");
  SymbolicOperation cp = op;
  vpn::require(cp.equals(op), "a copy equals the original");
  isM(cp.getInstantiatedOperation(a), false, "a copied symbolic operation instantiates alike");
  cp.invert();
  isM(cp.getInstantiatedOperation(a), true, "inverted symbolic operation instantiates to the adjoint");
  op.instantiate(a);
  vpn::require(!op.isSymbolicOperation() && op.isStandardOperation(), "an instantiated operation is not symbolic");
  isM(static_cast<StandardOperation&>(op), false, "in-place instantiation has the evaluated parameters");
  op.instantiate(a);
  isM(static_cast<StandardOperation&>(op), false, "instantiating twice changes nothing");
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
