// @sources src/dd/GateMatrixDefinitions.cpp src/dd/Operations.cpp src/ir/operations/StandardOperation.cpp src/ir/operations/Operation.cpp src/ir/operations/OpType.cpp src/ir/Permutation.cpp src/ir/operations/CompoundOperation.cpp src/ir/QuantumComputation.cpp
// Contract: inverting an operation yields the adjoint.
#include "vp.h"
#include "dd/GateMatrixDefinitions.hpp"
#include "dd/Operations.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <array>
#include <cmath>
#include <complex>
#include <vector>

using namespace dd;
namespace {
constexpr std::array ONE{qc::I, qc::H, qc::X, qc::Y, qc::Z, qc::S, qc::Sdg, qc::T, qc::Tdg, qc::V, qc::Vdg, qc::SX, qc::SXdg,
                         qc::P, qc::RX, qc::RY, qc::RZ, qc::U2, qc::U};
constexpr std::array TWO{qc::SWAP, qc::iSWAP, qc::iSWAPdg, qc::Peres, qc::Peresdg, qc::DCX, qc::ECR, qc::RXX, qc::RYY, qc::RZZ,
                         qc::RZX, qc::XXminusYY, qc::XXplusYY};
std::size_t nparams(qc::OpType t) {
  switch (t) {
  case qc::P: case qc::RX: case qc::RY: case qc::RZ: case qc::RXX: case qc::RYY: case qc::RZZ: case qc::RZX:
    return 1;
  case qc::U2: case qc::XXminusYY: case qc::XXplusYY:
    return 2;
  case qc::U:
    return 3;
  default:
    return 0;
  }
}
// invert() is verified for every (type, parameters) state, canonical or not
void noCanon(qc::StandardOperation*) {}
void anyState() { vp_replace("^qc::StandardOperation::checkUgate\\(", vp_fn(noCanon)); }
std::vector<double> params(qc::OpType t) {
  std::vector<double> p;
  const auto n = nparams(t);
  if (n > 0) p.push_back(vp_double("p0"));
  if (n > 1) p.push_back(vp_double("p1"));
  if (n > 2) p.push_back(vp_double("p2"));
  return p;
}
void adjoint(const GateMatrix& a, const GateMatrix& b, const char* l) {
  for (int i = 0; i < 2; i++) {
    for (int j = 0; j < 2; j++) {
      vp_assert_eq(b[i * 2 + j].real(), a[j * 2 + i].real(), l);
      vp_assert_eq(b[i * 2 + j].imag(), -a[j * 2 + i].imag(), l);
    }
  }
}
int sw(int i, bool s) { return s ? ((i & 1) << 1) | (i >> 1) : i; }
void adjoint(const TwoQubitGateMatrix& a, const TwoQubitGateMatrix& b, bool swapped, const char* l) {
  for (int i = 0; i < 4; i++) {
    for (int j = 0; j < 4; j++) {
      vp_assert_eq(b[sw(i, swapped)][sw(j, swapped)].real(), a[j][i].real(), l);
      vp_assert_eq(b[sw(i, swapped)][sw(j, swapped)].imag(), -a[j][i].imag(), l);
    }
  }
}
} // namespace

VP_HARNESS H_invert1() {
  anyState();
  const auto t = ONE[vp_choose("type", ONE.size())];
  const qc::Qubit q = vp_u32("q");
  qc::StandardOperation op(q, t, params(t));
  const auto before = opToSingleQubitGateMatrix(op.getType(), op.getParameter());
  op.invert();
  const auto after = opToSingleQubitGateMatrix(op.getType(), op.getParameter());
  adjoint(before, after, "invert() of a single-qubit gate is the adjoint");
  vp_assert(op.targets.size() == 1 && op.targets[0] == q, "invert() keeps the target");
  vp_cover("invert1");
}

VP_HARNESS H_invert2() {
  anyState();
  const auto t = TWO[vp_choose("type", TWO.size())];
  const qc::Qubit q = vp_u32("q"), r = vp_u32("r");
  vp_assume(q != r);
  qc::StandardOperation op(qc::Targets{q, r}, t, params(t));
  const auto before = opToTwoQubitGateMatrix(op.getType(), op.getParameter());
  op.invert();
  const auto after = opToTwoQubitGateMatrix(op.getType(), op.getParameter());
  vp_assert(op.targets.size() == 2, "invert() keeps two targets");
  const bool keep = op.targets[0] == q && op.targets[1] == r;
  const bool swapped = op.targets[0] == r && op.targets[1] == q;
  vp_assert(keep || swapped, "invert() keeps the set of targets");
  adjoint(before, after, vp_decide(swapped), "invert() of a two-qubit gate is the adjoint");
  vp_cover("invert2");
}

VP_HARNESS H_gphase() {
  anyState();
  const double g = vp_double("phase");
  qc::StandardOperation op(qc::Targets{}, qc::GPhase, {g});
  op.invert();
  vp_assert(op.getType() == qc::GPhase, "inverse of a global phase is a global phase");
  vp_assert_eq(std::cos(op.getParameter().at(0)), std::cos(g), "inverse global phase (re)");
  vp_assert_eq(std::sin(op.getParameter().at(0)), -std::sin(g), "inverse global phase (im)");
}

// --- decision-diagram level: the gate handed to the DD construction for the inverse
namespace {
GateMatrix* gotM;
TwoQubitGateMatrix* gotM2;
qc::Qubit gotT0, gotT1;
int calls;
mEdge stubGate(Package*, const GateMatrix& m, const qc::Controls&, qc::Qubit t) {
  *gotM = m;
  gotT0 = t;
  calls++;
  return mEdge{};
}
mEdge stubGate2(Package*, const TwoQubitGateMatrix& m, const qc::Controls&, qc::Qubit t0, qc::Qubit t1) {
  *gotM2 = m;
  gotT0 = t0;
  gotT1 = t1;
  calls++;
  return mEdge{};
}
} // namespace

VP_HARNESS H_dd_inverse1() {
  anyState();
  vp_replace("^dd::Package::makeGateDD\\(", vp_fn(stubGate));
  const auto t = ONE[vp_choose("type", ONE.size())];
  const qc::Qubit q = vp_u32("q");
  GateMatrix a{}, b{};
  auto* dd = static_cast<Package*>(vp_lazy("Package", "dd", 0));
  qc::StandardOperation op(q, t, params(t));
  gotM = &a;
  calls = 0;
  getStandardOperationDD(op, *dd, qc::Controls{}, qc::Targets{q}, false);
  vp_assert(calls == 1 && gotT0 == q, "gate DD is built once, on the requested target");
  gotM = &b;
  getStandardOperationDD(op, *dd, qc::Controls{}, qc::Targets{q}, true);
  vp_assert(calls == 2 && gotT0 == q, "inverse gate DD is built once, on the requested target");
  adjoint(a, b, "inverse single-qubit gate DD is built from the adjoint matrix");
  const auto m = opToSingleQubitGateMatrix(op.getType(), op.getParameter());
  for (int k = 0; k < 4; k++) {
    vp_assert_eq(a[k].real(), m[k].real(), "gate DD is built from the gate's matrix");
    vp_assert_eq(a[k].imag(), m[k].imag(), "gate DD is built from the gate's matrix");
  }
  vp_cover("dd1");
}

VP_HARNESS H_dd_inverse2() {
  anyState();
  vp_replace("^dd::Package::makeTwoQubitGateDD\\(.*unsigned int, unsigned int\\)$", vp_fn(stubGate2));
  const auto t = TWO[vp_choose("type", TWO.size())];
  const qc::Qubit q = vp_u32("q"), r = vp_u32("r");
  vp_assume(q != r);
  TwoQubitGateMatrix a{}, b{};
  auto* dd = static_cast<Package*>(vp_lazy("Package", "dd", 0));
  qc::StandardOperation op(qc::Targets{q, r}, t, params(t));
  gotM2 = &a;
  calls = 0;
  getStandardOperationDD(op, *dd, qc::Controls{}, qc::Targets{q, r}, false);
  vp_assert(calls == 1 && gotT0 == q && gotT1 == r, "two-qubit gate DD is built once, on the requested targets");
  gotM2 = &b;
  getStandardOperationDD(op, *dd, qc::Controls{}, qc::Targets{q, r}, true);
  vp_assert(calls == 2, "inverse two-qubit gate DD is built once");
  const bool keep = gotT0 == q && gotT1 == r;
  const bool swapped = gotT0 == r && gotT1 == q;
  vp_assert(keep || swapped, "inverse two-qubit gate DD is built on the requested targets");
  adjoint(a, b, vp_decide(swapped), "inverse two-qubit gate DD is built from the adjoint matrix");
  vp_cover("dd2");
}

VP_HARNESS H_compound() {
  anyState();
  // three arbitrary rotations; the inverse must be the reversed sequence of inverses
  const double x = vp_double("x"), y = vp_double("y"), z = vp_double("z");
  qc::CompoundOperation c;
  c.emplace_back<qc::StandardOperation>(vp_u32("a"), qc::RX, std::vector<double>{x});
  c.emplace_back<qc::StandardOperation>(vp_u32("b"), qc::RY, std::vector<double>{y});
  c.emplace_back<qc::StandardOperation>(vp_u32("c"), qc::RZ, std::vector<double>{z});
  c.invert();
  vp_assert(c.size() == 3, "inverse of a compound operation keeps the number of operations");
  vp_assert(c.ops[0]->getType() == qc::RZ && c.ops[1]->getType() == qc::RY && c.ops[2]->getType() == qc::RX,
            "inverse of a compound operation is reversed");
  vp_assert_eq(c.ops[0]->getParameter()[0], -z, "inverse of a compound operation inverts each element");
  vp_assert_eq(c.ops[1]->getParameter()[0], -y, "inverse of a compound operation inverts each element");
  vp_assert_eq(c.ops[2]->getParameter()[0], -x, "inverse of a compound operation inverts each element");
}

// circuit level: reversed order, every operation inverted exactly once, global phase negated.
// The circuit object is an arbitrary one: only the fields the method may look at are constrained.
VP_HARNESS H_circuit() {
  anyState();
  const double x = vp_double("x"), y = vp_double("y"), g = vp_double("g");
  vp_assume(g >= 0 && g < 2 * qc::PI); // class invariant established by gphase()
  auto* c = static_cast<qc::QuantumComputation*>(vp_alloc_sym(sizeof(qc::QuantumComputation), "circuit"));
  new (&c->ops) std::vector<std::unique_ptr<qc::Operation>>();
  new (&c->initialLayout) qc::Permutation();
  new (&c->outputPermutation) qc::Permutation();
  c->globalPhase = g;
  c->ops.emplace_back(new qc::StandardOperation(vp_u32("a"), qc::RX, std::vector<double>{x}));
  c->ops.emplace_back(new qc::StandardOperation(vp_u32("b"), qc::S));
  c->ops.emplace_back(new qc::StandardOperation(vp_u32("c"), qc::RY, std::vector<double>{y}));
  c->invert();
  vp_assert(c->ops.size() == 3, "inverse of a circuit keeps the number of operations");
  vp_assert(c->ops[0]->getType() == qc::RY && c->ops[1]->getType() == qc::Sdg && c->ops[2]->getType() == qc::RX,
            "inverse of a circuit is the reversed sequence of inverses");
  vp_assert_eq(c->ops[0]->getParameter()[0], -y, "inverse of a circuit inverts each element");
  vp_assert_eq(c->ops[2]->getParameter()[0], -x, "inverse of a circuit inverts each element");
  vp_assert(c->globalPhase >= 0 && c->globalPhase < 2 * qc::PI, "global phase stays reduced");
  vp_assert_eq(std::cos(c->globalPhase), std::cos(g), "inverse of a circuit has the opposite global phase (re)");
  vp_assert_eq(std::sin(c->globalPhase), -std::sin(g), "inverse of a circuit has the opposite global phase (im)");
  vp_cover("circuit");
}
