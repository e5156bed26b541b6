// @sources src/circuit_optimizer/CircuitOptimizer.cpp src/ir/QuantumComputation.cpp src/ir/Permutation.cpp src/ir/operations/Operation.cpp src/ir/operations/StandardOperation.cpp src/ir/operations/NonUnitaryOperation.cpp src/ir/operations/ClassicControlledOperation.cpp src/ir/operations/CompoundOperation.cpp src/ir/operations/SymbolicOperation.cpp src/ir/operations/OpType.cpp src/ir/operations/Expression.cpp /verif/contracts/rt.cpp
// @opts * {"timeout": 500, "steps": 60000000}
// Contracts: the passes of the circuit optimiser keep the behaviour of circuits.
//
// Every harness runs the real pass on all circuits of a few operations from the alphabet of the pass and
// interprets the circuit before and after it on a state with arbitrary (symbolic) amplitudes.  Phase gates and
// generic gates have arbitrary matrices; a measurement into the classical bit, which is interpreted as one
// more wire, is an arbitrary map of the measured qubit and the bit where only the order matters.
#include "vp.h"
#include "circuit_optimizer/CircuitOptimizer.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <memory>
#include <vector>
using namespace qc;
namespace {
using U64 = std::uint64_t;
using Opt = CircuitOptimizer;
void noCanon(StandardOperation*) {} // contract of checkUgate: the matrix is kept (P03)
std::size_t NQ;                     // qubits; wire NQ is the classical bit
struct C {
  double re, im;
};
C operator*(C a, C b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
C operator+(C a, C b) { return {a.re + b.re, a.im + b.im}; }
constexpr std::size_t DIM = 16;
struct St {
  C a[DIM];
  int h = 0, f = 0; // amplitudes are to be divided by sqrt(2)^h 5^f
  std::size_t dim() const { return std::size_t{1} << (NQ + 1); }
};
C ph[2]; // arbitrary phases
C gen[4];
St input() {
  St s;
  for (std::size_t i = 0; i < s.dim(); i++) s.a[i] = {vp_double("a"), 0};
  return s;
}
bool on(std::size_t i, std::size_t q) { return ((i >> q) & 1U) != 0; }
bool selected(std::size_t i, const Controls& c, bool bitToo) {
  for (const auto& k : c)
    if (on(i, k.qubit) != (k.type == Control::Type::Pos)) return false;
  return !bitToo || on(i, NQ);
}
void apply(St& s, const Controls& c, bool bitToo, std::size_t q, C a, C b, C x, C y) {
  for (std::size_t i = 0; i < s.dim(); i++)
    if (!on(i, q) && selected(i, c, bitToo)) {
      const std::size_t j = i | (std::size_t{1} << q);
      const C l = s.a[i], m = s.a[j];
      s.a[i] = a * l + b * m;
      s.a[j] = x * l + y * m;
    }
}
void exchange(St& s, const Controls& c, bool bitToo, std::size_t p, std::size_t q) {
  for (std::size_t i = 0; i < s.dim(); i++)
    if (on(i, p) && !on(i, q) && selected(i, c, bitToo)) {
      const std::size_t j = (i ^ (std::size_t{1} << p)) | (std::size_t{1} << q);
      const C t = s.a[i];
      s.a[i] = s.a[j];
      s.a[j] = t;
    }
}
void step(St& s, const Operation& o, bool bitToo = false) {
  if (o.isCompoundOperation()) {
    for (const auto& x : static_cast<const CompoundOperation&>(o)) step(s, *x, bitToo);
    return;
  }
  if (o.isClassicControlledOperation()) {
    const auto& c = static_cast<const ClassicControlledOperation&>(o);
    vp_assert(c.getControlBit().has_value() && *c.getControlBit() == 0 && c.getExpectedValue() == 1 && c.getComparisonKind() == Eq, "conditions are kept");
    step(s, *c.getOperation(), true);
    return;
  }
  const auto& c = o.getControls();
  const auto& t = o.getTargets();
  const C z{0, 0}, e{1, 0}, me{-1, 0}, i{0, 1}, mi{0, -1};
  const bool scaled = c.empty() && !bitToo;
  switch (o.getType()) {
  case I:
  case Barrier: return;
  case GPhase:
    for (std::size_t k = 0; k < s.dim(); k++) s.a[k] = ph[1] * s.a[k];
    return;
  case X: apply(s, c, bitToo, t[0], z, e, e, z); return;
  case Y: apply(s, c, bitToo, t[0], z, mi, i, z); return;
  case Z: apply(s, c, bitToo, t[0], e, z, z, me); return;
  case S: apply(s, c, bitToo, t[0], e, z, z, i); return;
  case Sdg: apply(s, c, bitToo, t[0], e, z, z, mi); return;
  case H:
    vp_assert(scaled, "no controlled Hadamard gates appear");
    s.h++;
    apply(s, c, bitToo, t[0], e, e, e, me);
    return;
  case T:
  case Tdg: // any pair of inverse phases: (3 +- 4i) / 5
    vp_assert(scaled, "no controlled T gates appear");
    s.f++;
    apply(s, c, bitToo, t[0], {5, 0}, z, z, {3, o.getType() == T ? 4. : -4.});
    return;
  case SX:
  case SXdg: {
    vp_assert(scaled, "no controlled SX gates appear");
    const C u{1, o.getType() == SX ? 1. : -1.}, v{1, o.getType() == SX ? -1. : 1.};
    s.h += 2;
    apply(s, c, bitToo, t[0], u, v, v, u);
    return;
  }
  case P: apply(s, c, bitToo, t[0], e, z, z, ph[0]); return;
  case U2: apply(s, c, bitToo, t[0], gen[0], gen[1], gen[2], gen[3]); return;
  case RZZ: // an arbitrary diagonal gate
    for (std::size_t k = 0; k < s.dim(); k++)
      if (selected(k, c, bitToo)) s.a[k] = (on(k, t[0]) == on(k, t[1]) ? ph[1] : ph[0]) * s.a[k];
    return;
  case SWAP: exchange(s, c, bitToo, t[0], t[1]); return;
  case Measure: { // an arbitrary map of qubit and bit
    const auto& m = static_cast<const NonUnitaryOperation&>(o);
    for (std::size_t k = 0; k < t.size(); k++) {
      vp_assert(m.getClassics()[k] == 0, "classical bits are kept");
      apply(s, {}, false, t[k], {2, 1}, {1, 0}, {0, 3}, {5, 0});
      apply(s, Controls{Control{t[k]}}, false, NQ, {1, 0}, {3, 0}, {0, 1}, {2, 0});
    }
    return;
  }
  case Reset:
    for (const auto q : t) apply(s, {}, false, q, {1, 0}, {3, 1}, {0, 7}, {2, 0});
    return;
  default: vp_assert(false, "only gates of the alphabet appear");
  }
}
St run(const QuantumComputation& q, St s) {
  for (const auto& o : q) step(s, *o);
  return s;
}
void sameState(const St& x, const St& y, const char* l) {
  int h = x.h - y.h, f = x.f - y.f;
  vp_assert(h % 2 == 0, l);
  double sx = 1, sy = 1; // cross-multiplied scales
  for (; h > 0; h -= 2) sy *= 2;
  for (; h < 0; h += 2) sx *= 2;
  for (; f > 0; f--) sy *= 5;
  for (; f < 0; f++) sx *= 5;
  for (std::size_t i = 0; i < x.dim(); i++) {
    vp_assert_eq(x.a[i].re * sx, y.a[i].re * sy, l);
    vp_assert_eq(x.a[i].im * sx, y.a[i].im * sy, l);
  }
}
// ---------------------------------------------------------------- circuits
QuantumComputation& circuit(std::size_t n) {
  vp_replace_opt("^qc::StandardOperation::checkUgate\\(\\)", vp_fn(noCanon));
  NQ = n;
  for (auto& p : ph) p = {vp_double("re"), vp_double("im")};
  for (auto& g : gen) g = {vp_double("re"), vp_double("im")};
  return *new QuantumComputation(n, 1, 7);
}
template <class T, class... A> std::unique_ptr<Operation> mk(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); }
using Op = StandardOperation;
using NU = NonUnitaryOperation;
using Gates = std::unique_ptr<Operation> (*)(std::uint32_t);
constexpr double TH = 0.3;
const std::vector<double> ANGLE{TH}, ANGLES{TH, TH};
void fill(QuantumComputation& q, std::size_t k, Gates g, std::uint32_t size, int first = -1) {
  for (std::size_t i = 0; i < k; i++) {
    const auto c = first >= 0 && i == 0 ? static_cast<std::uint32_t>(first) : vp_choose("gate", size + 1);
    if (c < size) q.emplace_back(g(c)); // the last choice: no operation
  }
}
} // namespace
// ---------------------------------------------------------------- fusion of single-qubit gates
namespace {
std::unique_ptr<Operation> fuseGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Qubit{0}, X);
  case 1: return mk<Op>(Qubit{0}, S);
  case 2: return mk<Op>(Qubit{0}, Sdg);
  case 3: return mk<Op>(Qubit{0}, H);
  case 4: return mk<Op>(Qubit{0}, SX);
  case 5: return mk<Op>(Qubit{0}, SXdg);
  case 6: return mk<Op>(Qubit{0}, P, std::vector<double>{TH});
  case 7: return mk<Op>(Control{0}, Qubit{1}, X);
  case 8: return mk<NU>(Qubit{0}, Bit{0});
  case 9: return mk<ClassicControlledOperation>(mk<Op>(Qubit{0}, X), Bit{0}, 1U);
  case 10: return mk<Op>(Targets{}, GPhase, std::vector<double>{TH});
  default: return mk<NU>(std::vector<Qubit>{0}, Reset);
  }
}
void fuse(int first) {
  vp_bounded("circuits of up to three operations on two qubits");
  auto& q = circuit(2);
  fill(q, 3, fuseGates, 12, first);
  const auto in = input();
  const auto want = run(q, in);
  Opt::singleQubitGateFusion(q);
  sameState(want, run(q, in), "fusion keeps the behaviour");
  vp_cover("fuse");
}
} // namespace
#define VP_FUSE(n) VP_HARNESS H_fuse_##n() { fuse(n); }
VP_FUSE(0)
VP_FUSE(1)
VP_FUSE(2)
VP_FUSE(3)
VP_FUSE(4)
VP_FUSE(5)
VP_FUSE(6)
VP_FUSE(7)
VP_FUSE(8)
VP_FUSE(9)
VP_FUSE(10)
VP_FUSE(11)
namespace {
template <class... A> std::unique_ptr<Operation> group(bool custom, A&&... a) {
  auto c = std::make_unique<CompoundOperation>(custom);
  (c->emplace_back(std::forward<A>(a)), ...);
  return c;
}
std::unique_ptr<Operation> onlyIf(std::unique_ptr<Operation> o) { return mk<ClassicControlledOperation>(std::move(o), Bit{0}, 1U); }
template <class F> bool any(const Operation& o, F f) {
  if (f(o)) return true;
  if (o.isCompoundOperation())
    for (const auto& x : static_cast<const CompoundOperation&>(o))
      if (any(*x, f)) return true;
  return false;
}
template <class F> void none(const QuantumComputation& q, F f, const char* l) {
  for (const auto& o : q) vp_assert(!any(*o, f), l);
}
// ---------------------------------------------------------------- identities and compound operations
std::unique_ptr<Operation> identityGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Qubit{0}, I);
  case 1: return mk<Op>(Qubit{1}, U2, ANGLES);
  case 2: return mk<Op>(Control{1}, Qubit{0}, I);
  case 3: return group(false, mk<Op>(Qubit{1}, I), mk<Op>(Qubit{0}, X));
  case 4: return group(true, mk<Op>(Qubit{1}, I));
  case 5: return group(true, mk<Op>(Control{1}, Qubit{0}, X), mk<Op>(Qubit{1}, I), mk<Op>(Qubit{1}, U2, ANGLES));
  default: return mk<NU>(Qubit{0}, Bit{0});
  }
}
std::unique_ptr<Operation> nestedGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Control{0}, Qubit{1}, X);
  case 1: return mk<Op>(Qubit{1}, U2, ANGLES);
  case 2: return group(false, mk<Op>(Qubit{1}, U2, ANGLES), mk<Op>(Control{1}, Qubit{0}, X));
  case 3: return group(true, mk<Op>(Qubit{1}, H), mk<NU>(Qubit{0}, Bit{0}));
  case 4: return group(false, mk<Op>(Qubit{0}, U2, ANGLES), group(true, mk<Op>(Qubit{1}, X), mk<Op>(Qubit{1}, H)), mk<Op>(Control{1}, Qubit{0}, X));
  default: return group(true, group(false, mk<Op>(Control{1}, Qubit{0}, X)), mk<Op>(Qubit{0}, U2, ANGLES));
  }
}
} // namespace
VP_HARNESS H_identities() {
  vp_bounded("circuits of up to three operations on two qubits");
  auto& q = circuit(2);
  fill(q, 3, identityGates, 7);
  const auto in = input();
  const auto want = run(q, in);
  Opt::removeIdentities(q);
  sameState(want, run(q, in), "removing identities keeps the behaviour");
  none(q, [](const Operation& o) { return o.getType() == I; }, "no identities are left");
  vp_cover("identities");
}
VP_HARNESS H_flatten() {
  vp_bounded("circuits of up to two operations on two qubits");
  auto& q = circuit(2);
  fill(q, 2, nestedGates, 6);
  const bool custom = vp_choose("customGatesOnly", 2) == 1;
  const auto in = input();
  const auto want = run(q, in);
  Opt::flattenOperations(q, custom);
  sameState(want, run(q, in), "flattening keeps the behaviour");
  if (custom)
    for (const auto& o : q) vp_assert(!o->isCompoundOperation() || !static_cast<const CompoundOperation&>(*o).isCustomGate(), "no custom gates are left");
  else none(q, [](const Operation& o) { return o.isCompoundOperation(); }, "no compound operations are left");
  vp_cover("flatten");
}
// ---------------------------------------------------------------- CNOT and SWAP gates
namespace {
std::unique_ptr<Operation> cnotGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Control{0}, Qubit{1}, X);
  case 1: return mk<Op>(Control{1}, Qubit{0}, X);
  case 2: return mk<Op>(Targets{1, 0}, SWAP);
  case 3: return mk<Op>(Control{1}, Qubit{2}, X);
  case 4: return mk<Op>(Control{0, Control::Type::Neg}, Qubit{1}, X);
  case 5: return mk<Op>(Control{0}, Qubit{1}, Z);
  case 6: return mk<Op>(Controls{Control{1}, Control{2}}, Qubit{0}, X);
  case 7: return mk<Op>(Qubit{0}, U2, ANGLES);
  case 8: return mk<Op>(Control{2}, Targets{0, 1}, SWAP);
  case 9: return onlyIf(mk<Op>(Control{0}, Qubit{1}, X));
  default: return group(false, mk<Op>(Control{0}, Qubit{1}, X), mk<Op>(Control{1}, Qubit{0}, X));
  }
}
void cnots(int first, bool cancel, std::uint32_t size, std::size_t k) {
  vp_bounded("circuits of up to three operations, or four CNOT and SWAP gates, on three qubits");
  auto& q = circuit(3);
  fill(q, k, cnotGates, size, first);
  const auto in = input();
  const auto want = run(q, in);
  if (cancel) Opt::cancelCNOTs(q);
  else Opt::swapReconstruction(q);
  sameState(want, run(q, in), cancel ? "cancelling CNOTs keeps the behaviour" : "reconstructing SWAPs keeps the behaviour");
  vp_cover("cnots");
}
std::unique_ptr<Operation> swapGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Targets{0, 1}, SWAP);
  case 1: return mk<Op>(Targets{2, 1}, SWAP);
  case 2: return mk<Op>(Control{2}, Targets{0, 1}, SWAP);
  case 3: return group(true, mk<Op>(Qubit{0}, U2, ANGLES), mk<Op>(Targets{0, 2}, SWAP));
  case 4: return mk<Op>(Control{0}, Qubit{1}, X);
  default: return onlyIf(mk<Op>(Targets{0, 1}, SWAP));
  }
}
std::unique_ptr<Operation> mcxGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Qubit{0}, X);
  case 1: return mk<Op>(Control{0}, Qubit{1}, X);
  case 2: return mk<Op>(Controls{Control{2}, Control{0, Control::Type::Neg}}, Qubit{1}, X);
  case 3: return group(true, mk<Op>(Qubit{0}, U2, ANGLES), mk<Op>(Control{1}, Qubit{0}, X));
  case 4: return mk<Op>(Control{0}, Qubit{1}, Z);
  default: return onlyIf(mk<Op>(Qubit{0}, X));
  }
}
} // namespace
#define VP_CNOT(n)                                               \
  VP_HARNESS H_reconstruct_##n() { cnots(n, false, 11, 3); }     \
  VP_HARNESS H_cancel_##n() { cnots(n, true, 11, 3); }
VP_CNOT(0)
VP_CNOT(1)
VP_CNOT(2)
VP_CNOT(3)
VP_CNOT(4)
VP_CNOT(5)
VP_CNOT(6)
VP_CNOT(7)
VP_CNOT(8)
VP_CNOT(9)
VP_CNOT(10)
VP_HARNESS H_reconstruct_four() { cnots(-1, false, 3, 4); }
VP_HARNESS H_cancel_four() { cnots(-1, true, 3, 4); }
VP_HARNESS H_swaps() {
  vp_bounded("circuits of up to two operations on three qubits");
  auto& q = circuit(3);
  fill(q, 2, swapGates, 6);
  const auto in = input();
  const auto want = run(q, in);
  Opt::decomposeSWAP(q, vp_choose("directed", 2) == 1);
  sameState(want, run(q, in), "decomposing SWAPs keeps the behaviour");
  none(q, [](const Operation& o) { return o.getType() == SWAP && o.getNcontrols() == 0 && !o.isClassicControlledOperation(); }, "no SWAP is left");
  vp_cover("swaps");
}
VP_HARNESS H_mcx() {
  vp_bounded("circuits of up to two operations on three qubits");
  auto& q = circuit(3);
  fill(q, 2, mcxGates, 6);
  const auto in = input();
  const auto want = run(q, in);
  Opt::replaceMCXWithMCZ(q);
  sameState(want, run(q, in), "replacing MCX by MCZ keeps the behaviour");
  none(q, [](const Operation& o) { return o.getType() == X && o.getNcontrols() > 0 && !o.isClassicControlledOperation(); }, "no controlled X is left");
  vp_cover("mcx");
}
// ---------------------------------------------------------------- blocks
namespace {
std::unique_ptr<Operation> blockGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Qubit{0}, U2, ANGLES);
  case 1: return mk<Op>(Qubit{2}, U2, ANGLES);
  case 2: return mk<Op>(Control{0}, Qubit{1}, X);
  case 3: return mk<Op>(Control{1}, Qubit{2}, X);
  case 4: return mk<Op>(Control{2}, Qubit{0}, X);
  default: return mk<Op>(Controls{Control{1}, Control{2}}, Qubit{0}, X);
  }
}
// contract of reorderOperations: the circuit becomes an equivalent one, which is enumerated as well (H_reorder)
void keepOrder(QuantumComputation*) {}
void blocks(int first) {
  vp_replace("^qc::QuantumComputation::reorderOperations\\(\\)", vp_fn(keepOrder));
  vp_bounded("circuits of three operations, four for blocks of two qubits, on three qubits");
  auto& q = circuit(3);
  q.emplace_back(blockGates(static_cast<std::uint32_t>(first)));
  const std::size_t size = 1 + vp_choose("size", 3);
  for (int i = 0; i < 2; i++) q.emplace_back(blockGates(vp_choose("gate", 6)));
  if (size == 2) q.emplace_back(blockGates(1 + vp_choose("gate", 4)));
  const auto in = input();
  const auto want = run(q, in);
  Opt::collectBlocks(q, size);
  sameState(want, run(q, in), "collecting blocks keeps the behaviour");
  for (const auto& o : q) vp_assert(!o->isCompoundOperation() || o->getUsedQubits().size() <= size, "blocks are small enough");
  vp_cover("blocks");
}
} // namespace
namespace {
// hash values of pointers: any function is allowed, e.g. numbers in the order of their first use
const Operation* hashed[16];
std::size_t nhashed = 0;
std::size_t hashOf(const void*, const Operation* o) {
  for (std::size_t i = 0; i < nhashed; i++)
    if (hashed[i] == o) return i;
  hashed[nhashed] = o;
  return nhashed++;
}
} // namespace
VP_HARNESS H_reorder() {
  vp_replace_opt("^std::hash<qc::Operation( const)?\\*>::operator\\(\\)", vp_fn(hashOf));
  vp_bounded("circuits of up to three operations on three qubits");
  auto& q = circuit(3);
  fill(q, 3, blockGates, 6);
  const auto in = input();
  const auto want = run(q, in);
  q.reorderOperations();
  sameState(want, run(q, in), "reordering keeps the behaviour");
  vp_cover("reorder");
}
#define VP_BLOCKS(n) VP_HARNESS H_blocks_##n() { blocks(n); }
VP_BLOCKS(0)
VP_BLOCKS(1)
VP_BLOCKS(2)
VP_BLOCKS(3)
VP_BLOCKS(4)
VP_BLOCKS(5)
// ---------------------------------------------------------------- permutations
namespace {
constexpr Qubit layouts[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 1, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}};
Permutation layout(std::size_t k) {
  Permutation p;
  for (Qubit i = 0; i < 3; i++) p[i] = layouts[k][i];
  return p;
}
// logical amplitudes of a state whose qubits are laid out by p
std::size_t place(std::size_t logical, const Permutation& p) {
  std::size_t y = logical & ~std::size_t{7};
  for (const auto& [phys, log] : p)
    if (on(logical, log)) y |= std::size_t{1} << phys;
  return y;
}
St logical(const QuantumComputation& q, const St& in) {
  St s;
  for (std::size_t i = 0; i < in.dim(); i++) s.a[place(i, q.initialLayout)] = in.a[i];
  s = run(q, s);
  St r = s;
  for (std::size_t i = 0; i < in.dim(); i++) r.a[i] = s.a[place(i, q.outputPermutation)];
  return r;
}
std::unique_ptr<Operation> permGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Targets{0, 1}, SWAP);
  case 1: return mk<Op>(Targets{2, 1}, SWAP);
  case 2: return mk<Op>(Control{2}, Targets{0, 1}, SWAP);
  case 3: return group(true, mk<Op>(Qubit{0}, U2, ANGLES), mk<Op>(Targets{0, 2}, SWAP), mk<Op>(Control{1}, Qubit{2}, X));
  case 4: return mk<Op>(Control{0}, Qubit{1}, X);
  default: return mk<Op>(Qubit{2}, U2, ANGLES);
  }
}
void elide(int first) {
  vp_bounded("circuits of up to three operations on three qubits, three initial and two output layouts");
  auto& q = circuit(3);
  q.initialLayout = layout(vp_choose("in", 3));
  q.outputPermutation = layout(2 * vp_choose("out", 2) + 1);
  fill(q, 3, permGates, 6, first);
  const auto in = input();
  const auto want = logical(q, in);
  Opt::elidePermutations(q);
  sameState(want, logical(q, in), "eliding permutations keeps the behaviour");
  none(q, [](const Operation& o) { return o.getType() == SWAP && o.getNcontrols() == 0; }, "no SWAP is left");
  vp_cover("elide");
}
void track(const Operation& o, Permutation& at) {
  if (o.isCompoundOperation()) {
    for (const auto& x : static_cast<const CompoundOperation&>(o)) track(*x, at);
  } else if (o.getType() == SWAP && o.getNcontrols() == 0) {
    const auto a = o.getTargets()[0], b = o.getTargets()[1];
    const auto t = at.at(a);
    at.at(a) = at.at(b);
    at.at(b) = t;
  }
}
} // namespace
VP_HARNESS H_elide_0() { elide(0); }
VP_HARNESS H_elide_1() { elide(1); }
VP_HARNESS H_elide_2() { elide(2); }
VP_HARNESS H_elide_3() { elide(3); }
VP_HARNESS H_elide_4() { elide(4); }
VP_HARNESS H_backpropagate() {
  vp_bounded("circuits of up to three operations on three qubits, partial output permutations");
  auto& q = circuit(3);
  const auto full = layout(1 + 2 * vp_choose("out", 3));
  const auto keep = vp_choose("kept", 8);
  Permutation part;
  for (Qubit i = 0; i < 3; i++)
    if (on(keep, i)) part[i] = full.at(i);
  q.outputPermutation = part;
  fill(q, 2, permGates, 5);
  Opt::backpropagateOutputPermutation(q);
  vp_assert(q.initialLayout.size() == 3, "the layout is complete");
  std::size_t seen = 0;
  for (Qubit i = 0; i < 3; i++) seen |= std::size_t{1} << q.initialLayout.at(i);
  vp_assert(seen == 7, "the layout is a permutation");
  auto at = q.initialLayout;
  for (const auto& o : q) track(*o, at);
  for (const auto& [k, v] : part) vp_assert(at.at(k) == v, "every output is reached through the SWAPs");
  vp_cover("backpropagate");
}
// ---------------------------------------------------------------- circuits with measurements
namespace {
// branches of the measurement outcomes; amplitudes are to be divided by sqrt(2)^h 5^f
struct Branch {
  std::uint32_t bits;
  C a[DIM];
};
struct Dyn {
  std::vector<Branch> b;
  int h = 0, f = 0;
};
std::size_t nq; // qubits of the circuit that is interpreted
std::size_t dims() { return std::size_t{1} << nq; }
Dyn start(std::size_t n) {
  Dyn d;
  d.b.emplace_back();
  d.b[0].bits = 0;
  for (std::size_t i = 0; i < DIM; i++) d.b[0].a[i] = {0, 0};
  for (std::size_t i = 0; i < std::size_t{1} << n; i++) d.b[0].a[i] = {vp_double("re"), vp_double("im")};
  return d;
}
template <class F> void splitOn(Dyn& d, std::size_t q, F f) {
  std::vector<Branch> r;
  for (const auto& x : d.b)
    for (int v = 0; v < 2; v++) {
      r.push_back(x);
      auto& y = r.back();
      for (std::size_t i = 0; i < dims(); i++)
        if (on(i, q) != (v == 1)) y.a[i] = {0, 0};
      f(y, v == 1);
    }
  d.b = std::move(r);
}
void flip(Branch& b, std::size_t q) {
  for (std::size_t i = 0; i < dims(); i++)
    if (!on(i, q)) {
      const auto j = i | (std::size_t{1} << q);
      const C t = b.a[i];
      b.a[i] = b.a[j];
      b.a[j] = t;
    }
}
constexpr std::uint32_t ALWAYS = 99;
void play(Dyn& d, const Operation& o, std::uint32_t ifBit = ALWAYS) {
  if (o.isCompoundOperation()) {
    for (const auto& x : static_cast<const CompoundOperation&>(o)) play(d, *x, ifBit);
    return;
  }
  if (o.isClassicControlledOperation()) {
    const auto& c = static_cast<const ClassicControlledOperation&>(o);
    vp_assert(c.getControlBit().has_value() && c.getExpectedValue() == 1 && c.getComparisonKind() == Eq, "conditions are kept");
    play(d, *c.getOperation(), static_cast<std::uint32_t>(*c.getControlBit()));
    return;
  }
  const auto& c = o.getControls();
  const auto& t = o.getTargets();
  if (o.getType() == Measure) {
    const auto& m = static_cast<const NonUnitaryOperation&>(o);
    for (std::size_t k = 0; k < t.size(); k++) {
      const std::uint32_t mask = 1U << m.getClassics()[k];
      splitOn(d, t[k], [mask](Branch& b, bool one) { b.bits = one ? b.bits | mask : b.bits & ~mask; });
    }
    return;
  }
  if (o.getType() == Reset) {
    for (const auto q : t)
      splitOn(d, q, [q](Branch& b, bool one) {
        if (one) flip(b, q);
      });
    return;
  }
  const bool scaled = c.empty() && ifBit == ALWAYS;
  if (o.getType() == H) d.h++;
  if (o.getType() == RZZ) d.f++;
  vp_assert(scaled || (o.getType() != H && o.getType() != RZZ), "only gates of the alphabet appear");
  const C z{0, 0}, e{1, 0}, me{-1, 0}, i{0, 1};
  for (auto& b : d.b) {
    if (ifBit != ALWAYS && ((b.bits >> ifBit) & 1U) == 0) continue;
    const auto each = [&](C p, C q, C x, C y) {
      for (std::size_t k = 0; k < dims(); k++)
        if (!on(k, t[0]) && selected(k, c, false)) {
          const auto j = k | (std::size_t{1} << t[0]);
          const C l = b.a[k], m = b.a[j];
          b.a[k] = p * l + q * m;
          b.a[j] = x * l + y * m;
        }
    };
    switch (o.getType()) {
    case I:
    case Barrier: break;
    case H: each(e, e, e, me); break;
    case X: each(z, e, e, z); break;
    case Z: each(e, z, z, me); break;
    case qc::S: each(e, z, z, i); break;
    case RZZ: // any pair of conjugate phases: (3 +- 4i) / 5
      for (std::size_t k = 0; k < dims(); k++) b.a[k] = C{3, on(k, t[0]) == on(k, t[1]) ? -4. : 4.} * b.a[k];
      break;
    default: vp_assert(false, "only gates of the alphabet appear");
    }
  }
}
Dyn playAll(const QuantumComputation& q, const Dyn& in) {
  nq = q.getNqubits();
  Dyn d = in;
  for (const auto& o : q) play(d, *o);
  return d;
}
// the probabilities of the classical outcomes, or of the outcomes of measuring all qubits
void sameProbabilities(const Dyn& x, const Dyn& y, bool qubits, const char* l) {
  double sx = 1, sy = 1;
  for (int k = x.h; k < y.h; k++) sx *= 2;
  for (int k = y.h; k < x.h; k++) sy *= 2;
  for (int k = x.f; k < y.f; k++) sx *= 25;
  for (int k = y.f; k < x.f; k++) sy *= 25;
  const auto prob = [&](const Dyn& d, std::size_t v) {
    double p = 0;
    for (const auto& b : d.b)
      for (std::size_t i = 0; i < DIM; i++)
        if ((qubits ? i : b.bits) == v) p += b.a[i].re * b.a[i].re + b.a[i].im * b.a[i].im;
    return p;
  };
  for (std::size_t v = 0; v < 4; v++) vp_assert_eq(prob(x, v) * sx, prob(y, v) * sy, l);
}
QuantumComputation& dynamic() {
  vp_replace_opt("^qc::StandardOperation::checkUgate\\(\\)", vp_fn(noCanon));
  return *new QuantumComputation(2, 2, 7);
}
std::unique_ptr<Operation> measureAll() { return mk<NU>(std::vector<Qubit>{0, 1}, std::vector<Bit>{0, 1}); }
std::unique_ptr<Operation> diagonalGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<Op>(Qubit{0}, qc::S);
  case 1: return mk<Op>(Control{0}, Qubit{1}, Z);
  case 2: return mk<Op>(Targets{0, 1}, RZZ, std::vector<double>{TH});
  case 3: return mk<Op>(Qubit{0}, H);
  case 4: return mk<NU>(Qubit{0}, Bit{0});
  case 5: return group(false, mk<Op>(Qubit{1}, qc::S), mk<Op>(Control{0}, Qubit{1}, Z));
  case 6: return mk<Op>(Control{1, Control::Type::Neg}, Qubit{0}, Z);
  case 7: return mk<Op>(Control{0}, Qubit{1}, X);
  case 8: return group(true, mk<Op>(Qubit{0}, Z), mk<NU>(Qubit{0}, Bit{0}));
  case 9: return onlyIf(mk<Op>(Qubit{1}, Z));
  default: return mk<Op>(Targets{0, 1}, Barrier);
  }
}
void diagonals(int first) {
  vp_bounded("circuits of up to three operations on two qubits followed by measurements");
  auto& q = dynamic();
  fill(q, 2, diagonalGates, 11, first);
  if (const auto c = vp_choose("gate", 7); c < 6) q.emplace_back(diagonalGates(c));
  if (vp_choose("measured", 2) == 0) q.emplace_back(measureAll());
  else q.emplace_back(mk<NU>(Qubit{1}, Bit{1}));
  const auto in = start(2);
  const auto want = playAll(q, in);
  Opt::removeDiagonalGatesBeforeMeasure(q);
  sameProbabilities(want, playAll(q, in), false, "removing diagonal gates keeps the outcomes");
  vp_cover("diagonals");
}
std::unique_ptr<Operation> finalGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<NU>(Qubit{0}, Bit{0});
  case 1: return mk<NU>(Qubit{1}, Bit{1});
  case 2: return mk<NU>(std::vector<Qubit>{0, 1}, std::vector<Bit>{1, 0});
  case 3: return mk<Op>(Targets{0, 1}, Barrier);
  case 4: return mk<Op>(Qubit{0}, H);
  case 5: return mk<Op>(Control{0}, Qubit{1}, X);
  case 6: return group(false, mk<Op>(Qubit{1}, H), mk<NU>(Qubit{0}, Bit{0}));
  case 7: return group(true, mk<NU>(Qubit{0}, Bit{1}), mk<NU>(Qubit{1}, Bit{1}));
  default: return onlyIf(mk<Op>(Qubit{1}, X));
  }
}
void finals(int first) {
  vp_bounded("circuits of up to three operations on two qubits");
  auto& q = dynamic();
  fill(q, 3, finalGates, 9, first);
  const auto in = start(2);
  const auto want = playAll(q, in);
  bool classic = false;
  for (const auto& o : q) classic = classic || o->isClassicControlledOperation();
  Opt::removeFinalMeasurements(q);
  sameProbabilities(want, playAll(q, in), true, "removing final measurements keeps the distribution of the qubits");
  if (!classic) {
    bool used[2] = {false, false};
    for (std::size_t i = q.size(); i-- > 0;) {
      const auto& o = *q.at(i);
      bool last = true;
      for (const auto x : o.getUsedQubits()) {
        last = last && !used[x];
        used[x] = true;
      }
      vp_assert(o.getType() != Measure || !last, "no final measurement is left");
    }
  }
  vp_cover("finals");
}
std::unique_ptr<Operation> resetGates(std::uint32_t k) {
  switch (k) {
  case 0: return mk<NU>(std::vector<Qubit>{0}, Reset);
  case 1: return mk<NU>(std::vector<Qubit>{1, 0}, Reset);
  case 2: return mk<Op>(Qubit{0}, H);
  case 3: return mk<Op>(Control{0}, Qubit{1}, X);
  case 4: return mk<NU>(Qubit{0}, Bit{0});
  case 5: return onlyIf(mk<Op>(Qubit{0}, X));
  case 6: return group(false, mk<NU>(std::vector<Qubit>{0}, Reset), mk<Op>(Qubit{0}, H));
  default: return group(true, mk<Op>(Control{0}, Qubit{1}, X), mk<NU>(std::vector<Qubit>{1}, Reset));
  }
}
void resets(int first) {
  vp_bounded("circuits of up to three operations on two qubits with at most two resets, followed by measurements");
  auto& q = dynamic();
  fill(q, 3, resetGates, 8, first);
  q.emplace_back(measureAll());
  const auto in = start(2);
  std::size_t n = 0;
  for (const auto& o : q) {
    if (o->getType() == Reset) n += o->getNtargets();
    if (o->isCompoundOperation()) n++;
  }
  if (n > 2) return;
  const auto want = playAll(q, in);
  Opt::eliminateResets(q);
  sameProbabilities(want, playAll(q, in), false, "eliminating resets keeps the outcomes");
  none(q, [](const Operation& o) { return o.getType() == Reset; }, "no reset is left");
  vp_cover("resets");
}
} // namespace
VP_HARNESS H_diagonals_0() { diagonals(0); }
VP_HARNESS H_diagonals_1() { diagonals(1); }
VP_HARNESS H_diagonals_2() { diagonals(2); }
VP_HARNESS H_diagonals_3() { diagonals(3); }
VP_HARNESS H_diagonals_4() { diagonals(4); }
VP_HARNESS H_diagonals_5() { diagonals(5); }
VP_HARNESS H_diagonals_6() { diagonals(6); }
VP_HARNESS H_diagonals_7() { diagonals(7); }
VP_HARNESS H_diagonals_8() { diagonals(8); }
VP_HARNESS H_diagonals_9() { diagonals(9); }
VP_HARNESS H_diagonals_10() { diagonals(10); }
VP_HARNESS H_finals_0() { finals(0); }
VP_HARNESS H_finals_1() { finals(1); }
VP_HARNESS H_finals_2() { finals(2); }
VP_HARNESS H_finals_3() { finals(3); }
VP_HARNESS H_finals_4() { finals(4); }
VP_HARNESS H_finals_5() { finals(5); }
VP_HARNESS H_finals_6() { finals(6); }
VP_HARNESS H_finals_7() { finals(7); }
VP_HARNESS H_finals_8() { finals(8); }
VP_HARNESS H_resets_0() { resets(0); }
VP_HARNESS H_resets_1() { resets(1); }
VP_HARNESS H_resets_2() { resets(2); }
VP_HARNESS H_resets_3() { resets(3); }
VP_HARNESS H_resets_4() { resets(4); }
VP_HARNESS H_resets_5() { resets(5); }
VP_HARNESS H_resets_6() { resets(6); }
VP_HARNESS H_resets_7() { resets(7); }
