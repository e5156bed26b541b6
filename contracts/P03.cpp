// @sources src/dd/GateMatrixDefinitions.cpp src/ir/operations/StandardOperation.cpp src/ir/operations/Operation.cpp src/ir/operations/OpType.cpp src/ir/Permutation.cpp
// Contract of the StandardOperation constructors: gate canonicalisation keeps the matrix.
#include "vp.h"
#include "dd/GateMatrixDefinitions.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <vector>
using namespace dd;
namespace {
void same(const GateMatrix& a, const GateMatrix& b, const char* l) {
  for (int k = 0; k < 4; k++) {
    vp_assert_eq(a[k].real(), b[k].real(), l);
    vp_assert_eq(a[k].imag(), b[k].imag(), l);
  }
}
// contract of checkInteger / checkFractionPi: in exact arithmetic they do not change the
// value (they only snap values that already are, up to the tolerance, the target); H_snap
// verifies both bodies against it.
void keep(double&) {}
void go(qc::OpType t, const std::vector<double>& p, const char* l) {
  const auto want = opToSingleQubitGateMatrix(t, p);
  const qc::Qubit q = vp_u32("q");
  vp_replace_opt("^qc::StandardOperation::checkInteger\\(double&\\)$", vp_fn(keep));
  vp_replace_opt("^qc::StandardOperation::checkFractionPi\\(double&\\)$", vp_fn(keep));
  const qc::StandardOperation op(q, t, p);
  const auto got = opToSingleQubitGateMatrix(op.getType(), op.getParameter());
  same(got, want, l);
  vp_assert(op.getTargets().size() == 1 && op.getTargets()[0] == q, "constructor keeps the target");
  vp_cover("canon");
}
} // namespace
VP_HARNESS H_P() { go(qc::P, {vp_double("lambda")}, "canonicalised P gate has the same matrix"); }
VP_HARNESS H_U2() { go(qc::U2, {vp_double("phi"), vp_double("lambda")}, "canonicalised U2 gate has the same matrix"); }
VP_HARNESS H_U() {
  go(qc::U, {vp_double("theta"), vp_double("phi"), vp_double("lambda")}, "canonicalised U gate has the same matrix");
}
VP_HARNESS H_R() {
  go(qc::RX, {vp_double("theta")}, "RX construction keeps the matrix");
  go(qc::RY, {vp_double("theta")}, "RY construction keeps the matrix");
  go(qc::RZ, {vp_double("theta")}, "RZ construction keeps the matrix");
}
VP_HARNESS H_snap() {
  double x = vp_double("x");
  const double x0 = x;
  qc::StandardOperation::checkInteger(x);
  vp_assert_eq(x, x0, "snapping to an integer keeps the value");
  double y = vp_double("y");
  const double y0 = y;
  qc::StandardOperation::checkFractionPi(y);
  vp_assert_eq(y, y0, "snapping to a fraction of pi keeps the value");
}
