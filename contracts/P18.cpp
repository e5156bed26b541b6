// @sources src/dd/GateMatrixDefinitions.cpp src/ir/operations/SymbolicOperation.cpp src/ir/operations/StandardOperation.cpp src/ir/operations/Operation.cpp src/ir/operations/OpType.cpp src/ir/operations/Expression.cpp src/ir/Permutation.cpp /verif/contracts/rt.cpp
// @opts * {"timeout": 500, "steps": 60000000}
// Contracts: symbolic operations denote, for every assignment, the gate with the evaluated parameters.
#include "vp.h"
#include "dd/GateMatrixDefinitions.hpp"
#include "ir/operations/Expression.hpp"
#include "ir/operations/SymbolicOperation.hpp"

#include <cmath>
#include <vector>
using namespace dd;
using qc::Symbolic;
using qc::SymbolOrNumber;
namespace {
constexpr qc::OpType ONE[] = {qc::P, qc::RX, qc::RY, qc::RZ};
constexpr qc::OpType TWO1[] = {qc::RXX, qc::RYY, qc::RZZ, qc::RZX};
constexpr qc::OpType TWO2[] = {qc::XXminusYY, qc::XXplusYY};
double value(std::uint64_t id) { return vp_ufr_1_0("value", id); }
// contract of Term::evaluate: coefficient times the assigned value (lookup in the standard map)
double evalStub(const sym::Term<double>* t, const sym::VariableAssignment&) { return t->getCoeff() * value(t->getVar().id); }
void keep(double&) {}
// contract of checkUgate: canonicalisation keeps the matrix (P03)
void noCanon(qc::StandardOperation*) {}
struct Par {
  SymbolOrNumber p;
  double v;
};
Par par(const char* n, bool symb) {
  if (!symb) {
    const double x = vp_double(n);
    return {SymbolOrNumber(x), x};
  }
  std::uint64_t id = vp_u64("var");
  const sym::Variable var = *reinterpret_cast<sym::Variable*>(&id);
  const double c = vp_double(n), k = vp_double(n);
  return {SymbolOrNumber(Symbolic(std::vector<sym::Term<double>>{sym::Term<double>(var, c)}, k)), c * value(id) + k};
}
void same(const GateMatrix& a, const GateMatrix& b, const char* l) {
  for (int k = 0; k < 4; k++) {
    vp_assert_eq(a[k].real(), b[k].real(), l);
    vp_assert_eq(a[k].imag(), b[k].imag(), l);
  }
}
void same(const TwoQubitGateMatrix& a, const TwoQubitGateMatrix& b, const char* l) {
  for (int i = 0; i < 4; i++) {
    for (int j = 0; j < 4; j++) {
      vp_assert_eq(a[i][j].real(), b[i][j].real(), l);
      vp_assert_eq(a[i][j].imag(), b[i][j].imag(), l);
    }
  }
}
GateMatrix adj(const GateMatrix& m) { return {std::conj(m[0]), std::conj(m[2]), std::conj(m[1]), std::conj(m[3])}; }
TwoQubitGateMatrix adj(const TwoQubitGateMatrix& m) {
  TwoQubitGateMatrix r{};
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) r[i][j] = std::conj(m[j][i]);
  return r;
}
void setup() {
  vp_bounded("symbolic parameters of the form c*x+k (evaluation of longer expressions: property P17)");
  vp_replace("^sym::Term<double, void>::evaluate\\(", vp_fn(evalStub));
  vp_replace_opt("^qc::StandardOperation::checkInteger\\(double&\\)$", vp_fn(keep));
  vp_replace_opt("^qc::StandardOperation::checkFractionPi\\(double&\\)$", vp_fn(keep));
  vp_replace("^qc::StandardOperation::checkUgate\\(", vp_fn(noCanon));
}
sym::VariableAssignment* asg() { return static_cast<sym::VariableAssignment*>(vp_alloc_sym(sizeof(sym::VariableAssignment), "assignment")); }
template <class F> void go(qc::OpType t, const qc::Targets& ts, std::vector<Par>& ps, F matrix) {
  std::vector<SymbolOrNumber> in;
  std::vector<double> vals;
  bool anySym = false;
  for (auto& p : ps) {
    anySym = anySym || p.p.index() == 0;
    in.push_back(p.p);
    vals.push_back(p.v);
  }
  const auto want = matrix(t, vals);
  const qc::Qubit c = vp_u32("control");
  qc::SymbolicOperation op(qc::Control{c, vp_choose("polarity", 2) ? qc::Control::Type::Pos : qc::Control::Type::Neg}, ts, t, in);
  const auto ctl = *op.getControls().begin();
  vp_assert(op.isSymbolicOperation() == anySym, "an operation is symbolic exactly if a parameter is");
  const auto& a = *asg();
  switch (vp_choose("what", 4)) {
  case 0: {
    const auto inst = op.getInstantiatedOperation(a);
    same(matrix(inst.getType(), inst.getParameter()), want, "instantiated operation has the evaluated parameters");
    vp_assert(inst.getTargets() == ts, "instantiation keeps the targets");
    vp_assert(inst.getControls().size() == 1 && *inst.getControls().begin() == ctl, "instantiation keeps the controls");
    break;
  }
  case 1: {
    op.instantiate(a);
    vp_assert(!op.isSymbolicOperation() && op.isStandardOperation(), "an instantiated operation is not symbolic");
    same(matrix(op.getType(), op.qc::Operation::getParameter()), want, "in-place instantiation has the evaluated parameters");
    op.instantiate(a);
    same(matrix(op.getType(), op.qc::Operation::getParameter()), want, "instantiating twice changes nothing");
    break;
  }
  case 2: {
    op.invert();
    const auto inst = op.getInstantiatedOperation(a);
    same(matrix(inst.getType(), inst.getParameter()), adj(want), "inverted symbolic operation instantiates to the adjoint");
    vp_assert(inst.getTargets() == ts, "inversion keeps the targets");
    break;
  }
  default: {
    const qc::SymbolicOperation cp = op;
    vp_assert(cp.equals(op), "a copy equals the original");
    const auto inst = cp.getInstantiatedOperation(a);
    same(matrix(inst.getType(), inst.getParameter()), want, "a copied symbolic operation instantiates alike");
  }
  }
  vp_cover("symbolic operation");
}
GateMatrix m1(qc::OpType t, const std::vector<double>& p) { return opToSingleQubitGateMatrix(t, p); }
TwoQubitGateMatrix m2(qc::OpType t, const std::vector<double>& p) { return opToTwoQubitGateMatrix(t, p); }
bool sy(const char* n) { return vp_choose(n, 2) == 1; }
} // namespace
VP_HARNESS H_one() {
  setup();
  const auto t = ONE[vp_choose("type", 4)];
  std::vector<Par> ps;
  ps.push_back(par("p0", sy("s0")));
  go(t, {vp_u32("t0")}, ps, m1);
}
VP_HARNESS H_u2() {
  setup();
  std::vector<Par> ps;
  ps.push_back(par("phi", sy("s0")));
  ps.push_back(par("lambda", sy("s1")));
  go(qc::U2, {vp_u32("t0")}, ps, m1);
}
namespace {
void u3(int mask) {
  setup();
  std::vector<Par> ps;
  ps.push_back(par("theta", mask & 1));
  ps.push_back(par("phi", mask & 2));
  ps.push_back(par("lambda", mask & 4));
  go(qc::U, {vp_u32("t0")}, ps, m1);
}
} // namespace
VP_HARNESS H_u000() { u3(0); }
VP_HARNESS H_u100() { u3(1); }
VP_HARNESS H_u010() { u3(2); }
VP_HARNESS H_u110() { u3(3); }
VP_HARNESS H_u001() { u3(4); }
VP_HARNESS H_u101() { u3(5); }
VP_HARNESS H_u011() { u3(6); }
VP_HARNESS H_u111() { u3(7); }
VP_HARNESS H_two() {
  setup();
  std::vector<Par> ps;
  if (vp_choose("n", 2) == 0) {
    ps.push_back(par("p0", sy("s0")));
    go(TWO1[vp_choose("type", 4)], {vp_u32("t0"), vp_u32("t1")}, ps, m2);
  } else {
    ps.push_back(par("p0", sy("s0")));
    ps.push_back(par("p1", sy("s1")));
    go(TWO2[vp_choose("type", 2)], {vp_u32("t0"), vp_u32("t1")}, ps, m2);
  }
}
