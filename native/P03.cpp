// Native companion of contracts/P03.cpp: canonicalising a gate keeps its matrix.
#include "ir/operations/StandardOperation.hpp"
#include "spec_gates.hpp"
#include "vpn.hpp"
namespace {
const double PI = 3.14159265358979323846;
double ang(vpn::Rng& r) {
  double a = r.angle();
  if (r.coin(0.3)) a = static_cast<double>(r.range(-8, 8)) * PI / 4;
  if (r.coin(0.05)) a += (r.coin() ? 1 : -1) * 1e-11;
  return a;
}
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  const auto two = r.coin(0.3);
  const auto& tab = two ? spec::two() : spec::single();
  auto g = tab[r.below(tab.size())];
  if (!two && r.coin(0.6)) g = spec::G{r.coin(0.6) ? qc::U : (r.coin() ? qc::U2 : qc::P), 0};
  g.nparams = g.type == qc::U ? 3 : g.type == qc::U2 ? 2 : g.type == qc::P ? 1 : g.nparams;
  std::vector<double> p;
  for (std::size_t i = 0; i < g.nparams; i++) p.push_back(ang(r));
  std::ostringstream o;
  o.precision(17);
  o << qc::toString(g.type);
  for (auto x : p) o << " " << x;
  vpn::what = o.str();
  const auto check = [&](const qc::StandardOperation& op, qc::Targets ts) {
    if (two) {
      const auto a = spec::matrix2(g.type, p);
      const auto b = spec::matrix2(op.getType(), op.getParameter());
      for (int i = 0; i < 16; i++) vpn::close(b[i], a[i], "canonicalised two-qubit gate keeps its matrix", 2e-8);
    } else {
      const auto a = spec::matrix1(g.type, p);
      const auto b = spec::matrix1(op.getType(), op.getParameter());
      for (int i = 0; i < 4; i++) vpn::close(b[i], a[i], "canonicalised gate keeps its matrix", 2e-8);
    }
    vpn::require(op.getTargets() == ts, "targets kept");
  };
  const qc::Qubit q = r.below(50), s = q + 1 + r.below(4);
  const auto c = static_cast<qc::Qubit>(100 + r.below(5));
  if (two) {
    check(qc::StandardOperation(qc::Targets{q, s}, g.type, p), {q, s});
    check(qc::StandardOperation(qc::Control{c}, qc::Targets{q, s}, g.type, p), {q, s});
  } else {
    check(qc::StandardOperation(q, g.type, p), {q});
    check(qc::StandardOperation(qc::Targets{q}, g.type, p), {q});
    const qc::StandardOperation co(qc::Control{c, r.coin() ? qc::Control::Type::Pos : qc::Control::Type::Neg}, q, g.type, p);
    check(co, {q});
    vpn::require(co.getControls().size() == 1 && co.getControls().begin()->qubit == c, "controls kept");
    // copies, and copies of copies, denote the same gate
    qc::StandardOperation cp = co;
    check(cp, {q});
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
