// @sources src/dd/GateMatrixDefinitions.cpp src/ir/operations/SymbolicOperation.cpp src/ir/operations/StandardOperation.cpp src/ir/operations/NonUnitaryOperation.cpp src/ir/operations/ClassicControlledOperation.cpp src/ir/operations/CompoundOperation.cpp src/ir/operations/Operation.cpp src/ir/operations/OpType.cpp src/ir/operations/Expression.cpp src/ir/Permutation.cpp /verif/contracts/rt.cpp
// @opts * {"timeout": 500, "steps": 60000000}
// Contracts: operations that compare equal, are reported as inverse or as commuting really are.
#include "vp.h"
#include "dd/GateMatrixDefinitions.hpp"
#include "ir/Permutation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"
#include "ir/operations/SymbolicOperation.hpp"

#include <cmath>
#include <memory>
#include <vector>
using namespace qc;
namespace {
using U64 = std::uint64_t;
struct Acc : Operation {
  static constexpr auto T = &Acc::type;
  static constexpr auto PAR = &Acc::parameter;
};
constexpr OpType Operation::* TYPE = Acc::T;
// the gate types whose controlled versions treat controls and target alike: diagonal, first entry one
bool phaseLike(OpType t) { return (t == I) | (t == Barrier) | (t == Z) | (t == S) | (t == Sdg) | (t == T) | (t == Tdg) | (t == P); }
bool diagonal(OpType t) { return phaseLike(t) | (t == RZ) | (t == RZZ); }
void noCanon(StandardOperation*) {} // contract of checkUgate: the matrix is kept (P03)
OpType anyType() { return static_cast<OpType>(vp_u8("type")); }
bool gateType(OpType t) {
  bool r = false;
  for (const auto k : {GPhase, I, Barrier, H, X, Y, Z, S, Sdg, T, Tdg, V, Vdg, U, U2, P, SX, SXdg, RX, RY, RZ, SWAP, iSWAP, iSWAPdg, Peres, Peresdg, DCX, ECR, RXX, RYY, RZZ, RZX, XXminusYY, XXplusYY}) r = r | (t == k);
  return r;
}
bool twoQubit(OpType t) {
  bool r = false;
  for (const auto k : {SWAP, iSWAP, iSWAPdg, Peres, Peresdg, DCX, ECR, RXX, RYY, RZZ, RZX, XXminusYY, XXplusYY}) r = r | (t == k);
  return r;
}
// permutations: arbitrary maps, injective on the qubits of an operation
const Permutation* perms[2];
Qubit image(const Permutation* p, Qubit q) {
  if (p->empty()) return q;
  return static_cast<Qubit>(vp_ufu_2_0("permutation", p == perms[0] ? 0 : 1, q) & 0xffffffffU);
}
Qubit atStub(const Permutation* p, Qubit q) { return image(p, q); }
struct Shape {
  std::uint32_t nc, nt;
};
struct Q {
  Qubit q;
  bool pos;
};
struct O {
  std::vector<Q> c;
  std::vector<Qubit> t;
  std::vector<double> par;
  StandardOperation* op;
};
// an arbitrary operation with the given numbers of controls, targets and parameters
O operation(std::uint32_t nc, std::uint32_t nt, std::uint32_t np) {
  O o{};
  Controls cs;
  for (std::uint32_t i = 0; i < nc; i++) {
    const Qubit q = vp_u32("c");
    if (i > 0) vp_assume(o.c[i - 1].q < q);
    o.c.push_back({q, vp_choose("pol", 2) == 1});
    cs.emplace_hint(cs.end(), q, o.c[i].pos ? Control::Type::Pos : Control::Type::Neg);
  }
  for (std::uint32_t i = 0; i < nt; i++) {
    const Qubit q = vp_u32("t");
    for (const auto& c : o.c) vp_assume(q != c.q);
    for (const auto x : o.t) vp_assume(q != x);
    o.t.push_back(q);
  }
  for (std::uint32_t i = 0; i < np; i++) o.par.push_back(vp_double("par"));
  o.op = new StandardOperation(cs, o.t, X, {});
  o.op->getParameter() = o.par;
  const auto t = anyType();
  vp_assume_nc(gateType(t) & ((nt == 2) == twoQubit(t)));
  o.op->*TYPE = t;
  return o;
}
void common() {
  vp_replace("^qc::StandardOperation::checkUgate\\(", vp_fn(noCanon));
  vp_replace_opt("^qc::Permutation::at\\(unsigned int\\) const$", vp_fn(atStub));
}
void injective(const O& o, const Permutation* p) {
  if (p->empty()) return;
  std::vector<Qubit> all = o.t;
  for (const auto& c : o.c) all.push_back(c.q);
  for (std::size_t i = 0; i < all.size(); i++)
    for (std::size_t j = 0; j < i; j++) vp_assume_nc(image(p, all[i]) != image(p, all[j]));
}
bool member(Qubit q, const O& o, const Permutation* p, int pol) { // 0 neg, 1 pos, 2 control, 3 target, 4 any
  bool r = false;
  if (pol <= 2 || pol == 4)
    for (const auto& c : o.c)
      if (pol >= 2 || (pol == 1) == c.pos) r = r | (image(p, c.q) == q);
  if (pol >= 3)
    for (const auto t : o.t) r = r | (image(p, t) == q);
  return r;
}
bool subset(const O& a, const Permutation* pa, const O& b, const Permutation* pb, bool sym) {
  bool r = true;
  for (const auto& c : a.c) {
    const auto q = image(pa, c.q);
    r = r & (sym ? (c.pos ? member(q, b, pb, 4) & !member(q, b, pb, 0) : member(q, b, pb, 0)) : member(q, b, pb, c.pos ? 1 : 0));
  }
  if (sym)
    for (const auto t : a.t) r = r & member(image(pa, t), b, pb, 4) & !member(image(pa, t), b, pb, 0);
  return r;
}
// the two operations have the same controls (with polarity) and the same targets in the same order
bool exact(const O& a, const O& b) {
  if (a.t.size() != b.t.size()) return false;
  bool r = subset(a, perms[0], b, perms[1], false) & subset(b, perms[1], a, perms[0], false);
  for (std::size_t i = 0; i < a.t.size(); i++) r = r & (image(perms[0], a.t[i]) == image(perms[1], b.t[i]));
  return r;
}
bool alike(const O& a, const O& b) { return subset(a, perms[0], b, perms[1], true) & subset(b, perms[1], a, perms[0], true); }
bool samePar(const O& a, const O& b) {
  if (a.par.size() != b.par.size()) return false;
  bool r = true;
  for (std::size_t i = 0; i < a.par.size(); i++) r = r & (a.par[i] == b.par[i]);
  return r;
}
template <std::uint32_t NC, int PERM = 0> void equality() {
  constexpr bool permuted = PERM > 0;
  vp_bounded("at most two controls and two targets per operation (arbitrary qubits, polarities, types, parameters)");
  common();
  Permutation p1, p2;
  if (permuted) {
    if ((PERM & 1) != 0) p1 = Permutation{{0, 0}};
    if ((PERM & 2) != 0) p2 = Permutation{{0, 0}};
  }
  perms[0] = &p1;
  perms[1] = &p2;
  const auto nt = NC < 2 ? vp_choose("targets", 2) + 1 : 1;
  const auto np = NC + PERM < 2 ? vp_choose("parameters", 2) : 1;
  const auto a = operation(NC, nt, np);
  const auto b = operation(NC + (NC < 2 ? vp_choose("more", 2) : 0), nt, np);
  injective(a, &p1);
  injective(b, &p2);
  const OpType ta = a.op->*TYPE, tb = b.op->*TYPE;
  const bool r = permuted ? a.op->equals(*b.op, p1, p2) : *a.op == *b.op;
  const bool ok = (ta == tb) & samePar(a, b) & (exact(a, b) | ((phaseLike(ta) | ((ta == RZZ) & (NC == 0))) & alike(a, b)));
  if (vp_decide(r)) {
    vp_assert(ok, "operations that compare equal act alike: same type, parameters, controls and targets (up to exchanging controls and target of phase gates)");
    vp_cover("equal");
  } else {
    vp_assert(!((ta == tb) & samePar(a, b) & exact(a, b)), "operations with the same type, parameters, controls and targets compare equal");
    vp_cover("different");
  }
}
} // namespace
VP_HARNESS H_eq0() { equality<0>(); }
VP_HARNESS H_eq1() { equality<1>(); }
VP_HARNESS H_eq2() { equality<2>(); }
VP_HARNESS H_eqp0() { equality<0, 3>(); }
VP_HARNESS H_eqp0l() { equality<0, 1>(); }
VP_HARNESS H_eqp1() { equality<1, 3>(); }
VP_HARNESS H_eqp1r() { equality<1, 2>(); }

// The two lemmas the contracts rest on, over the real gate matrices.
namespace {
bool isZeroC(std::complex<double> z) { return (z.real() == 0) & (z.imag() == 0); }
std::vector<double> params(OpType t, bool& two) {
  std::uint32_t n = 0;
  two = false;
  switch (t) {
  case P: case RX: case RY: case RZ: n = 1; break;
  case U2: n = 2; break;
  case U: n = 3; break;
  case RXX: case RYY: case RZZ: case RZX: n = 1; two = true; break;
  case XXminusYY: case XXplusYY: n = 2; two = true; break;
  case SWAP: case iSWAP: case iSWAPdg: case Peres: case Peresdg: case DCX: case ECR: two = true; break;
  default: break;
  }
  std::vector<double> r;
  for (std::uint32_t i = 0; i < n; i++) r.push_back(vp_double("par"));
  return r;
}
constexpr OpType GATES[] = {I, H, X, Y, Z, S, Sdg, T, Tdg, V, Vdg, U, U2, P, SX, SXdg, RX, RY, RZ, SWAP, iSWAP, iSWAPdg, Peres, Peresdg, DCX, ECR, RXX, RYY, RZZ, RZX, XXminusYY, XXplusYY};
constexpr std::uint32_t NG = sizeof(GATES) / sizeof(GATES[0]);
} // namespace
VP_HARNESS H_diag() {
  const auto t = GATES[vp_choose("gate", NG)];
  bool two = false;
  const auto ps = params(t, two);
  vp_assert(((+t & OpTypeDiag) != 0) == diagonal(t), "the diagonal flag of the gate type");
  if (!diagonal(t)) return;
  if (two) {
    const auto m = dd::opToTwoQubitGateMatrix(t, ps);
    for (std::size_t i = 0; i < 4; i++)
      for (std::size_t j = 0; j < 4; j++)
        if (i != j) vp_assert(isZeroC(m[i][j]), "gates flagged as diagonal are diagonal");
    // exchanging the qubits does not change an uncontrolled gate
    vp_assert_eq(m[1][1].real(), m[2][2].real(), "the diagonal two-qubit gate is symmetric");
    vp_assert_eq(m[1][1].imag(), m[2][2].imag(), "the diagonal two-qubit gate is symmetric");
    vp_assert(!phaseLike(t), "phase gates act on one qubit");
  } else {
    const auto m = dd::opToSingleQubitGateMatrix(t, ps);
    vp_assert(isZeroC(m[1]) & isZeroC(m[2]), "gates flagged as diagonal are diagonal");
    if (phaseLike(t)) {
      vp_assert_eq(m[0].real(), 1, "the first entry of a phase gate is one");
      vp_assert_eq(m[0].imag(), 0, "the first entry of a phase gate is one");
    }
  }
  vp_cover("diagonal");
}
// gates of the same type with at most one parameter commute
VP_HARNESS H_same() {
  const auto t = GATES[vp_choose("gate", NG)];
  bool two = false;
  const auto a = params(t, two);
  if (a.empty() || a.size() > 1) return; // identical matrices or not claimed
  const std::vector<double> b{vp_double("par")};
  if (two) {
    const auto m = dd::opToTwoQubitGateMatrix(t, a), n = dd::opToTwoQubitGateMatrix(t, b);
    for (std::size_t i = 0; i < 4; i++) {
      for (std::size_t j = 0; j < 4; j++) {
        std::complex<double> x{}, y{};
        for (std::size_t k = 0; k < 4; k++) {
          x += std::complex<double>(m[i][k].real() * n[k][j].real() - m[i][k].imag() * n[k][j].imag(), m[i][k].real() * n[k][j].imag() + m[i][k].imag() * n[k][j].real());
          y += std::complex<double>(n[i][k].real() * m[k][j].real() - n[i][k].imag() * m[k][j].imag(), n[i][k].real() * m[k][j].imag() + n[i][k].imag() * m[k][j].real());
        }
        vp_assert_eq(x.real(), y.real(), "gates of the same type with one parameter commute");
        vp_assert_eq(x.imag(), y.imag(), "gates of the same type with one parameter commute");
      }
    }
  } else {
    const auto m = dd::opToSingleQubitGateMatrix(t, a), n = dd::opToSingleQubitGateMatrix(t, b);
    for (std::size_t i = 0; i < 2; i++) {
      for (std::size_t j = 0; j < 2; j++) {
        std::complex<double> x{}, y{};
        for (std::size_t k = 0; k < 2; k++) {
          const auto p = m[2 * i + k], q = n[2 * k + j], r = n[2 * i + k], u = m[2 * k + j];
          x += std::complex<double>(p.real() * q.real() - p.imag() * q.imag(), p.real() * q.imag() + p.imag() * q.real());
          y += std::complex<double>(r.real() * u.real() - r.imag() * u.imag(), r.real() * u.imag() + r.imag() * u.real());
        }
        vp_assert_eq(x.real(), y.real(), "gates of the same type with one parameter commute");
        vp_assert_eq(x.imag(), y.imag(), "gates of the same type with one parameter commute");
      }
    }
  }
  vp_cover("same");
}

// ---------------------------------------------------------------- commutation at a qubit
namespace {
bool control(const O& o, Qubit q) {
  bool r = false;
  for (const auto& c : o.c) r = r | (c.q == q);
  return r;
}
bool target(const O& o, Qubit q) {
  bool r = false;
  for (const auto t : o.t) r = r | (t == q);
  return r;
}
template <std::uint32_t NC, bool SWAPPED, std::uint32_t NT> void commutation() {
  vp_bounded("at most two controls, two targets and two parameters per operation (arbitrary qubits, polarities, types, parameters)");
  common();
  Permutation none;
  perms[0] = perms[1] = &none;
  const std::uint32_t np = NC == 0 ? vp_choose("parameters", 3) : NC == 1 ? 1 + vp_choose("parameters", 2) : 1;
  const auto a = operation(NC, NT, np);
  const auto b = operation(vp_choose("controls", 2), vp_choose("targets", 2) + 1, NC == 0 ? vp_choose("parameters", 3) : np);
  const OpType ta = a.op->*TYPE, tb = b.op->*TYPE;
  // types fix the number of parameters
  vp_assume_nc(!(ta == tb) | (a.par.size() == b.par.size()));
  const Qubit q = vp_u32("q");
  const bool r = SWAPPED ? b.op->commutesAtQubit(*a.op, q) : a.op->commutesAtQubit(*b.op, q);
  const bool blockA = control(a, q) | (target(a, q) & diagonal(ta)), blockB = control(b, q) | (target(b, q) & diagonal(tb));
  bool sameTargets = a.t.size() == b.t.size();
  for (std::size_t i = 0; i < a.t.size() && i < b.t.size(); i++) sameTargets = sameTargets & (a.t[i] == b.t[i]);
  const bool same = (ta == tb) & sameTargets & target(a, q) & ((a.par.size() <= 1) | samePar(a, b));
  const bool disjoint = !(control(a, q) | target(a, q)) | !(control(b, q) | target(b, q));
  if (vp_decide(r)) {
    vp_assert(disjoint | (blockA & blockB) | same, "operations reported as commuting at a qubit are diagonal there, or of the same type on the same targets, or not both on it");
    vp_cover("commute");
  } else {
    vp_assert(!disjoint, "operations that do not share the qubit commute at it");
    vp_cover("unknown");
  }
}
struct Sub {
  bool a, b;
};
const Operation* subOps[2];
const Operation* otherOp;
const Qubit* atQ;
bool subResult[2];
bool commStub(const StandardOperation* self, const Operation& other, const Qubit& q) {
  vp_assert((&other == otherOp) & (&q == atQ || q == *atQ), "the operations of a compound operation are compared with the other operation at this qubit");
  vp_assert((self == subOps[0]) | (self == subOps[1]), "an operation of the compound operation is compared");
  return self == subOps[0] ? subResult[0] : subResult[1];
}
} // namespace
VP_HARNESS H_comm0_1() { commutation<0, false, 1>(); }
VP_HARNESS H_comm0_2() { commutation<0, false, 2>(); }
VP_HARNESS H_comm0s1() { commutation<0, true, 1>(); }
VP_HARNESS H_comm0s2() { commutation<0, true, 2>(); }
VP_HARNESS H_comm1_1() { commutation<1, false, 1>(); }
VP_HARNESS H_comm1_2() { commutation<1, false, 2>(); }
VP_HARNESS H_comm1s1() { commutation<1, true, 1>(); }
VP_HARNESS H_comm1s2() { commutation<1, true, 2>(); }
VP_HARNESS H_comm2_1() { commutation<2, false, 1>(); }
VP_HARNESS H_comm2_2() { commutation<2, false, 2>(); }
VP_HARNESS H_comm2s1() { commutation<2, true, 1>(); }
VP_HARNESS H_comm2s2() { commutation<2, true, 2>(); }
VP_HARNESS H_commCompound() {
  common();
  vp_replace("^qc::StandardOperation::commutesAtQubit\\(", vp_fn(commStub));
  CompoundOperation c;
  const auto n = vp_choose("n", 3);
  for (std::uint32_t i = 0; i < n; i++) {
    c.emplace_back<StandardOperation>(static_cast<Qubit>(vp_u32("t")), X);
    subOps[i] = c.getOps()[i].get();
    subResult[i] = vp_bool("r");
  }
  auto* o = new StandardOperation(static_cast<Qubit>(vp_u32("t")), Y);
  otherOp = o;
  const Qubit q = vp_u32("q");
  atQ = &q;
  const bool r = c.commutesAtQubit(*o, q);
  bool want = true;
  for (std::uint32_t i = 0; i < n; i++) want = want & subResult[i];
  vp_assert(r == want, "a compound operation commutes exactly if all its operations do");
  vp_cover("compound");
}
// a standard operation asks a compound operation
namespace {
const Operation* asked;
bool compStub(const CompoundOperation* self, const Operation& other, const Qubit&) {
  vp_assert((self == otherOp) & (&other == asked), "the compound operation is asked");
  return subResult[0];
}
} // namespace
VP_HARNESS H_commOther() {
  common();
  vp_replace("^qc::CompoundOperation::commutesAtQubit\\(", vp_fn(compStub));
  auto* c = new CompoundOperation();
  otherOp = c;
  auto* o = new StandardOperation(static_cast<Qubit>(vp_u32("t")), X);
  asked = o;
  subResult[0] = vp_bool("r");
  const Qubit q = vp_u32("q");
  vp_assert(o->commutesAtQubit(*c, q) == subResult[0], "commutation is symmetric for compound operations");
  vp_cover("asked");
}
// symbolic operations with several parameters: unknown values
VP_HARNESS H_commSym() {
  common();
  const auto t = vp_choose("type", 2) == 0 ? U2 : XXplusYY;
  const Targets ts = t == U2 ? Targets{vp_u32("t")} : Targets{1, 2};
  sym::Variable v1 = *reinterpret_cast<const sym::Variable*>(new U64(vp_u64("v1"))), v2 = *reinterpret_cast<const sym::Variable*>(new U64(vp_u64("v2")));
  const Symbolic s1(std::vector<sym::Term<double>>{sym::Term<double>(v1, vp_double("c"))}, 0.), s2(std::vector<sym::Term<double>>{sym::Term<double>(v2, vp_double("c"))}, 0.);
  const SymbolicOperation a(ts, t, {SymbolOrNumber(s1), SymbolOrNumber(s1)}), b(ts, t, {SymbolOrNumber(s2), SymbolOrNumber(s2)});
  const StandardOperation c(ts, t, {0., 0.});
  vp_assert(!a.commutesAtQubit(b, ts[0]), "gates with several symbolic parameters are not reported as commuting");
  vp_assert(!a.commutesAtQubit(c, ts[0]) && !c.commutesAtQubit(a, ts[0]), "symbolic and numeric gates with several parameters are not reported as commuting");
  vp_cover("symbolic");
}

// ---------------------------------------------------------------- measurements and resets
VP_HARNESS H_measure() {
  vp_bounded("measurements of up to two qubits");
  common();
  Permutation p1, p2;
  const auto pp = vp_choose("perm", 4);
  if ((pp & 1U) != 0) p1 = Permutation{{0, 0}};
  if ((pp & 2U) != 0) p2 = Permutation{{0, 0}};
  perms[0] = &p1;
  perms[1] = &p2;
  std::vector<Qubit> t[2];
  std::vector<Bit> c[2];
  for (int k = 0; k < 2; k++) {
    const auto n = vp_choose("n", 2) + 1;
    for (std::uint32_t i = 0; i < n; i++) {
      t[k].push_back(vp_u32("t"));
      c[k].push_back(vp_u64("c"));
    }
  }
  const NonUnitaryOperation a(t[0], c[0]), b(t[1], c[1]);
  const bool r = a.equals(b, p1, p2);
  const auto in = [&](int k, std::size_t i) {
    bool x = false;
    for (std::size_t j = 0; j < t[1 - k].size(); j++) x = x | ((image(perms[k], t[k][i]) == image(perms[1 - k], t[1 - k][j])) & (c[k][i] == c[1 - k][j]));
    return x;
  };
  bool want = t[0].size() == t[1].size();
  for (int k = 0; k < 2; k++)
    for (std::size_t i = 0; i < t[k].size(); i++) want = want & in(k, i);
  vp_assert(r == want, "measurements are equal exactly if they measure the same qubits into the same bits");
  vp_cover("measure");
}
VP_HARNESS H_reset() {
  common();
  Permutation none;
  perms[0] = perms[1] = &none;
  const Qubit q = vp_u32("t"), u = vp_u32("t");
  const NonUnitaryOperation a(Targets{q}), b(Targets{u});
  const NonUnitaryOperation m(q, Bit{vp_u64("c")});
  const StandardOperation s(q, X);
  vp_assert((a == b) == (q == u), "resets are equal exactly if they reset the same qubit");
  vp_assert(!(a == m) && !(m == a) && !(m == s) && !(a == s) && !(s == a) && !(s == m), "operations of different kinds are different");
  vp_cover("reset");
}

// ---------------------------------------------------------------- classic-controlled and compound operations
namespace {
const Operation* l[2];
const Operation* rr[2];
bool res[2];
int ncmp;
bool eqStub(const StandardOperation* self, const Operation& op, const Permutation& a, const Permutation& b) {
  vp_assert((&a == perms[0] || (a.empty() && perms[0]->empty())) && (&b == perms[1] || (b.empty() && perms[1]->empty())), "the permutations of the caller are used");
  for (int i = 0; i < 2; i++)
    if (self == l[i]) {
      vp_assert(&op == rr[i], "corresponding operations are compared");
      return res[i];
    }
  vp_assert(false, "only the controlled operations are compared");
  return false;
}
} // namespace
VP_HARNESS H_classic() {
  common();
  vp_replace("^qc::StandardOperation::equals\\(qc::Operation const&, qc::Permutation const&", vp_fn(eqStub));
  Permutation p1, p2;
  perms[0] = &p1;
  perms[1] = &p2;
  const auto kinds = vp_choose("kinds", 4);
  std::unique_ptr<ClassicControlledOperation> o[2];
  U64 bit[2], reg[2], len[2], val[2];
  ComparisonKind kind[2];
  bool isReg[2];
  const auto names = vp_choose("names", 2);
  for (int k = 0; k < 2; k++) {
    auto s = std::make_unique<StandardOperation>(static_cast<Qubit>(vp_u32("t")), X);
    (k == 0 ? l : rr)[0] = s.get();
    (k == 0 ? l : rr)[1] = s.get();
    isReg[k] = (kinds >> k & 1U) != 0;
    val[k] = vp_u64("value");
    const auto kk = vp_u8("kind");
    vp_assume(kk < 6);
    kind[k] = static_cast<ComparisonKind>(kk);
    if (isReg[k]) {
      reg[k] = vp_u64("start");
      len[k] = vp_u64("size");
      o[k] = std::make_unique<ClassicControlledOperation>(std::move(s), ClassicalRegister(reg[k], len[k], k == 0 || names == 0 ? "c" : "d"), val[k], kind[k]);
    } else {
      bit[k] = vp_u64("bit");
      vp_assume(val[k] <= 1); // documented requirement of single-bit controls
      vp_assume((kind[k] == Eq) | (kind[k] == Neq));
      o[k] = std::make_unique<ClassicControlledOperation>(std::move(s), bit[k], val[k], kind[k]);
    }
  }
  // registers of a circuit are identified by their names
  if (isReg[0] && isReg[1] && names == 0) vp_assume((reg[0] == reg[1]) & (len[0] == len[1]));
  res[0] = res[1] = vp_bool("same");
  const bool r = o[0]->equals(*o[1], p1, p2);
  if (vp_decide(r)) {
    vp_assert(res[0] && isReg[0] == isReg[1], "equal classic-controlled operations control the same operation by the same kind of control");
    if (isReg[0]) vp_assert((names == 0) & (reg[0] == reg[1]) & (len[0] == len[1]), "by the same register");
    else vp_assert(bit[0] == bit[1], "by the same bit");
    // the conditions are satisfied for the same values
    const U64 x = vp_u64("x");
    if (!isReg[0]) vp_assume(x <= 1);
    const auto holds = [](ComparisonKind k, U64 a, U64 b) { return ((k == Eq) & (a == b)) | ((k == Neq) & (a != b)) | ((k == Lt) & (a < b)) | ((k == Leq) & (a <= b)) | ((k == Gt) & (a > b)) | ((k == Geq) & (a >= b)); };
    vp_assert(holds(kind[0], x, val[0]) == holds(kind[1], x, val[1]), "the controls are satisfied by the same values");
    vp_cover("equal");
  } else {
    bool all = res[0] && isReg[0] == isReg[1];
    if (all) all = (val[0] == val[1]) & (kind[0] == kind[1]) & (isReg[0] ? (names == 0) & (reg[0] == reg[1]) & (len[0] == len[1]) : bit[0] == bit[1]);
    vp_assert(!all, "identical classic-controlled operations are equal");
    vp_cover("different");
  }
}
VP_HARNESS H_compound() {
  common();
  vp_replace("^qc::StandardOperation::equals\\(qc::Operation const&, qc::Permutation const&", vp_fn(eqStub));
  vp_bounded("compound operations of up to two operations");
  Permutation p1, p2;
  perms[0] = &p1;
  perms[1] = &p2;
  CompoundOperation a, b;
  const auto n = vp_choose("n", 3), m = vp_choose("m", 3);
  for (std::uint32_t i = 0; i < n; i++) {
    a.emplace_back<StandardOperation>(static_cast<Qubit>(vp_u32("t")), X);
    l[i] = a.getOps()[i].get();
    res[i] = vp_bool("same");
  }
  for (std::uint32_t i = 0; i < m; i++) {
    b.emplace_back<StandardOperation>(static_cast<Qubit>(vp_u32("t")), X);
    rr[i] = b.getOps()[i].get();
  }
  bool want = n == m;
  for (std::uint32_t i = 0; i < n && n == m; i++) want = want & res[i];
  vp_assert(a.equals(b, p1, p2) == want, "compound operations are equal exactly if their operations are, in order");
  vp_assert(!a.equals(*new StandardOperation(0, X), p1, p2), "a compound operation is not a standard operation");
  vp_cover("compound");
}

// ---------------------------------------------------------------- inverse
namespace {
const Operation* invArg;
int ninv;
void invStub(StandardOperation* o) {
  invArg = o;
  ninv++;
}
const Operation* eqSelf;
const Operation* eqArg;
bool eqCap(const Operation* self, const Operation& op, const Permutation& a, const Permutation& b) {
  vp_assert(a.empty() && b.empty(), "compared without permutation");
  eqSelf = self;
  eqArg = &op;
  vp_assert(&op == invArg && ninv == 1, "compared with the inverse");
  return res[0];
}
} // namespace
VP_HARNESS H_inverse() {
  common();
  vp_replace("^qc::StandardOperation::invert\\(", vp_fn(invStub));
  vp_replace("^qc::Operation::equals\\(qc::Operation const&, qc::Permutation const&", vp_fn(eqCap));
  ninv = 0;
  const auto a = operation(1, 1, 1), b = operation(1, 1, 1);
  res[0] = vp_bool("same");
  const bool r = a.op->isInverseOf(*b.op);
  vp_assert(r == res[0] && ninv == 1 && eqSelf == a.op, "an operation is the inverse of another one exactly if it equals its inverse");
  vp_assert(invArg != b.op && invArg != a.op, "the operation itself is not inverted");
  vp_cover("inverse");
}

// ---------------------------------------------------------------- symbolic operations
VP_HARNESS H_symEq() {
  common();
  Permutation none;
  perms[0] = perms[1] = &none;
  vp_bounded("symbolic gates with one or two parameters of the form c*x+k");
  const std::uint32_t n = 1 + vp_choose("n", 2);
  constexpr std::uint32_t PAT[] = {3, 15, 6, 12, 13};
  const auto pat = n == 1 ? 3 : PAT[vp_choose("pattern", 5)];
  std::vector<SymbolOrNumber> ps[2];
  U64 var[2][2];
  double co[2][2], k[2][2], num[2][2];
  const Qubit q[2] = {vp_u32("t"), vp_u32("t")};
  for (int s = 0; s < 2; s++)
    for (std::uint32_t i = 0; i < n; i++) {
      const bool symb = (pat >> (2 * i + static_cast<std::uint32_t>(s)) & 1U) != 0;
      if (symb) {
        var[s][i] = vp_u64("var");
        co[s][i] = vp_double("c");
        k[s][i] = vp_double("k");
        const auto id = var[s][i];
        ps[s].emplace_back(Symbolic(std::vector<sym::Term<double>>{sym::Term<double>(*reinterpret_cast<const sym::Variable*>(&id), co[s][i])}, k[s][i]));
      } else {
        num[s][i] = vp_double("p");
        ps[s].emplace_back(num[s][i]);
      }
    }
  const auto t = n == 1 ? RX : XXplusYY;
  const auto ts = [&](Qubit x) { return n == 1 ? Targets{x} : Targets{x, 7}; };
  vp_assume((q[0] != 7) & (q[1] != 7));
  const SymbolicOperation a(ts(q[0]), t, ps[0]), b(ts(q[1]), t, ps[1]);
  bool want = q[0] == q[1];
  for (std::uint32_t i = 0; i < n; i++) {
    const bool sa = (pat >> (2 * i) & 1U) != 0, sb = (pat >> (2 * i + 1U) & 1U) != 0;
    if (sa != sb) want = false;
    else if (sa) want = want & (var[0][i] == var[1][i]) & (co[0][i] == co[1][i]) & (k[0][i] == k[1][i]);
    else want = want & (num[0][i] == num[1][i]);
  }
  const bool r = a.equals(b, none, none);
  if (vp_decide(r)) {
    vp_assert(want, "symbolic operations that compare equal have the same expressions and numbers as parameters, on the same qubit");
    vp_cover("equal");
  } else {
    vp_assert(!want, "identical symbolic operations compare equal");
    vp_cover("different");
  }
}
