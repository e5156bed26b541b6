// @sources src/dd/Simulation.cpp src/dd/FunctionalityConstruction.cpp src/dd/Operations.cpp src/dd/GateMatrixDefinitions.cpp src/dd/Package.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/Node.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp src/ir/Permutation.cpp src/ir/operations/Operation.cpp src/ir/operations/StandardOperation.cpp src/ir/operations/NonUnitaryOperation.cpp src/ir/operations/ClassicControlledOperation.cpp src/ir/operations/CompoundOperation.cpp src/ir/operations/SymbolicOperation.cpp src/ir/operations/OpType.cpp src/ir/operations/Expression.cpp /verif/contracts/rt.cpp
// @opts * {"timeout": 500, "steps": 60000000}
// Contracts: simulating circuits, sampling from them and building their functionality.
//
// Ghost state: where[q] is the level that holds the content of circuit qubit q after the operations
// processed so far.  Applying an operation through applyUnitaryOperation is right if the permutation
// translates every qubit to that level; an uncontrolled SWAP may be applied, or skipped and accounted for
// by exchanging the levels.
#include "dd.hpp"
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Operations.hpp"
#include "dd/Simulation.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <map>
#include <memory>
#include <new>
#include <string>
#include <vector>
using namespace vpdd;
namespace {
constexpr std::size_t N = 3;
using Perm = qc::Permutation;
Complex weight(const char* n) { return {reinterpret_cast<RealNumber*>(vp_u64(n)), reinterpret_cast<RealNumber*>(vp_u64(n))}; }
std::size_t where[N];
qc::QuantumComputation* QC;
std::size_t nextOp;
bool isSwap(const qc::Operation& o) { return o.getType() == qc::SWAP && o.getNcontrols() == 0; }
constexpr std::size_t layouts[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 1, 0}, {0, 2, 1}, {1, 0, 2}, {2, 0, 1}};
void setPerm(Perm& p, std::size_t k) {
  for (std::size_t i = 0; i < N; i++) p[static_cast<qc::Qubit>(i)] = static_cast<qc::Qubit>(layouts[k][i]);
}
// an empty circuit on three qubits with an arbitrary layout
qc::QuantumComputation& circuit(std::size_t in, std::size_t out) {
  auto& c = *static_cast<qc::QuantumComputation*>(vp_alloc_sym(sizeof(qc::QuantumComputation), "circuit"));
  new (&c.ops) std::vector<std::unique_ptr<qc::Operation>>();
  new (&c.initialLayout) Perm();
  new (&c.outputPermutation) Perm();
  new (&c.ancillary) std::vector<bool>(N);
  new (&c.garbage) std::vector<bool>(N);
  new (&c.classicalRegisters) qc::ClassicalRegisterMap();
  c.nqubits = N;
  c.nancillae = 0;
  c.nclassics = 0;
  c.globalPhase = 0;
  setPerm(c.initialLayout, in);
  setPerm(c.outputPermutation, out);
  for (std::size_t i = 0; i < N; i++) where[i] = layouts[in][i];
  QC = &c;
  nextOp = 0;
  return c;
}
template <class T, class... A> void add(A&&... a) { QC->ops.push_back(std::make_unique<T>(std::forward<A>(a)...)); }
enum Gate { SWAP01, SWAP12, CSWAP, HGATE };
void addGate(std::uint32_t g) {
  switch (g) {
  case SWAP01: add<qc::StandardOperation>(qc::Targets{0, 1}, qc::SWAP); return;
  case SWAP12: add<qc::StandardOperation>(qc::Targets{2, 1}, qc::SWAP); return;
  case CSWAP: add<qc::StandardOperation>(qc::Control{0}, qc::Targets{1, 2}, qc::SWAP); return;
  default: add<qc::StandardOperation>(qc::Control{2}, qc::Qubit{0}, qc::H);
  }
}
void virtualSwap(const qc::Operation& o) {
  const auto& t = o.getTargets();
  std::swap(where[t[0]], where[t[1]]);
}
// operations up to `op` that were not applied must be SWAPs that are accounted for
void advanceTo(const qc::Operation* op, const char* l) {
  while (nextOp < QC->ops.size() && QC->ops[nextOp].get() != op) {
    vp_assert(isSwap(*QC->ops[nextOp]), l);
    virtualSwap(*QC->ops[nextOp]);
    nextOp++;
  }
  vp_assert(op == nullptr || nextOp < QC->ops.size(), "operations are applied once and in order");
  if (op != nullptr) nextOp++;
}
void located(const Perm& p, const char* l) {
  for (std::size_t q = 0; q < N; q++) vp_assert(p.at(static_cast<qc::Qubit>(q)) == where[q], l);
}
// ---------------------------------------------------------------- states and references
struct Tok {
  U64 p;
  Complex w;
  int refs;
};
Tok toks[32];
std::size_t ntok;
template <class E> E fresh(int refs) {
  const U64 p = vp_u64("state");
  vp_assume_nc((p != 0) & (p != 64));
  for (std::size_t i = 0; i < ntok; i++) vp_assume_nc(toks[i].p != p);
  const E e{reinterpret_cast<decltype(E::p)>(p), weight("w")};
  toks[ntok++] = {p, e.w, refs};
  return e;
}
template <class E> Tok& tok(const E& e) {
  for (std::size_t i = 0; i < ntok; i++)
    if (vp_known(toks[i].p == id(e.p))) {
      vp_assert((toks[i].w.r == e.w.r) & (toks[i].w.i == e.w.i), "weights are kept");
      return toks[i];
    }
  vp_assert(false, "only known diagrams are used");
  return toks[0];
}
U64 current; // the diagram after the steps so far
template <class E> void isCurrent(const E& e) {
  tok(e);
  vp_assert(id(e.p) == current, "every step continues with the result of the last one");
}
template <class E> E step(const E& e) { // references are handed over
  auto& t = tok(e);
  isCurrent(e);
  t.refs--;
  const auto r = fresh<E>(1);
  current = id(r.p);
  return r;
}
vEdge applyV(const qc::Operation& op, const vEdge& in, Package&, const Perm& p) {
  advanceTo(&op, "no operation is dropped");
  located(p, "operations act on the levels that hold their qubits");
  return step(in);
}
mEdge applyM(const qc::Operation& op, const mEdge& in, Package&, const Perm& p, const bool left) {
  advanceTo(&op, "no operation is dropped");
  located(p, "operations act on the levels that hold their qubits");
  vp_assert(left, "later operations are multiplied from the left");
  return step(in);
}
int permuted, reducedA, reducedG;
template <class E> void change(E& on, Perm& from, const Perm& to, Package&, bool regular) {
  advanceTo(nullptr, "no operation is dropped");
  located(from, "the outputs are where the operations left them");
  vp_assert(regular, "outputs are permuted from the left");
  bool same = to.size() == QC->outputPermutation.size();
  for (const auto& [k, v] : QC->outputPermutation) same = same && to.at(k) == v;
  vp_assert(same, "the outputs move to their requested positions");
  permuted++;
  for (const auto& [k, v] : to) {
    for (std::size_t q = 0; q < N; q++)
      if (where[q] == v) where[q] = where[k];
    where[k] = v;
    from.at(k) = v;
  }
  for (std::size_t q = 0; q < N; q++) from.at(static_cast<qc::Qubit>(q)) = static_cast<qc::Qubit>(where[q]);
  on = step(on);
}
mEdge ancillae(Package*, mEdge e, const std::vector<bool>& a, bool regular) {
  vp_assert(&a == &QC->ancillary && regular, "the ancillary qubits of the circuit are reduced");
  reducedA++;
  return step(e);
}
mEdge garbageM(Package*, const mEdge& e, const std::vector<bool>& g, bool regular, bool mags) {
  vp_assert(&g == &QC->garbage && regular && !mags, "the garbage qubits of the circuit are reduced");
  vp_assert(permuted == 1, "garbage qubits are reduced at the position of the outputs");
  reducedG++;
  return step(e);
}
vEdge garbageV(Package*, vEdge& e, const std::vector<bool>& g, bool mags) {
  vp_assert(&g == &QC->garbage && !mags, "the garbage qubits of the circuit are reduced");
  vp_assert(permuted == 1, "garbage qubits are reduced at the position of the outputs");
  reducedG++;
  return step(e);
}
mEdge initialM(Package*, const std::vector<bool>& a) {
  vp_assert(&a == &QC->ancillary, "the ancillary qubits of the circuit are reduced");
  const auto e = fresh<mEdge>(1);
  current = id(e.p);
  return e;
}
Complex wInc, wDec;
int nInc, nDec;
void incW(ComplexNumbers*, const Complex& w) {
  nInc++;
  wInc = w;
}
void decW(ComplexNumbers*, const Complex& w) {
  nDec++;
  wDec = w;
}
RealNumber* entryOf(double v) {
  const U64 k = vp_u64("entry");
  vp_assume_nc((k == id(&constants::zero)) == (v == 0));
  vp_assume_nc((k == id(&constants::one)) == (v == 1));
  vp_assume_eq(vp_ufr_1_0("val", k), v);
  return reinterpret_cast<RealNumber*>(k);
}
Complex look(ComplexNumbers*, const ComplexValue& v) { return {entryOf(v.r), entryOf(v.i)}; }
void setup() {
  ntok = 0;
  current = 0;
  permuted = reducedA = reducedG = nInc = nDec = 0;
  useNumbers();
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(dd::ComplexValue const&\\)", vp_fn(look));
  vp_replace_opt("^dd::ComplexNumbers::incRef\\(", vp_fn(incW));
  vp_replace_opt("^dd::ComplexNumbers::decRef\\(", vp_fn(decW));
  vp_replace_opt("^dd::applyUnitaryOperation\\(qc::Operation const&, dd::Edge<dd::vNode> const&", vp_fn(applyV));
  vp_replace_opt("^dd::applyUnitaryOperation\\(qc::Operation const&, dd::Edge<dd::mNode> const&", vp_fn(applyM));
  vp_replace_opt("^void dd::changePermutation<dd::Edge<dd::vNode> >\\(", vp_fn(change<vEdge>));
  vp_replace_opt("^void dd::changePermutation<dd::Edge<dd::mNode> >\\(", vp_fn(change<mEdge>));
  vp_replace_opt("^dd::Package::reduceAncillae\\(", vp_fn(ancillae));
  vp_replace_opt("^dd::Package::reduceGarbage\\(dd::Edge<dd::mNode> const&", vp_fn(garbageM));
  vp_replace_opt("^dd::Package::reduceGarbage\\(dd::Edge<dd::vNode>&", vp_fn(garbageV));
  vp_replace_opt("^dd::Package::createInitialMatrix\\(", vp_fn(initialM));
}
// the result: the last diagram, times the global phase
template <class E> void finished(const E& r, double phase) {
  advanceTo(nullptr, "no operation is dropped");
  for (const auto& [k, v] : QC->outputPermutation) vp_assert(where[k] == v, "the outputs end up at their requested positions");
  vp_assert(id(r.p) == current, "the result is the diagram after the last step");
  for (std::size_t i = 0; i < ntok; i++)
    if (vp_known(toks[i].p == current)) {
      const Cx w = cx(toks[i].w);
      eqc(cx(r.w), w * Cx{std::cos(phase), std::sin(phase)}, "the global phase is part of the result");
      const bool changed = nInc != 0 || nDec != 0;
      if (changed) {
        vp_assert((nInc == 1) & (nDec == 1), "the reference of the weight moves along");
        vp_assert((wInc.r == r.w.r) & (wInc.i == r.w.i) & (wDec.r == toks[i].w.r) & (wDec.i == toks[i].w.i), "the reference of the weight moves along");
      } else {
        vp_assert((r.w.r == toks[i].w.r) & (r.w.i == toks[i].w.i), "the weight keeps its reference");
      }
    }
  for (std::size_t i = 0; i < ntok; i++) vp_assert(toks[i].refs == (vp_known(toks[i].p == current) ? 1 : 0), "exactly the result stays referenced");
}
void gates(std::size_t k) {
  for (std::size_t i = 0; i < k; i++) addGate(vp_choose("gate", 4));
}
double phaseOf(bool some) {
  const double p = some ? vp_double("phase") : 0;
  QC->globalPhase = p;
  if (some) vp_assume(p != 0);
  return p;
}
template <int K> void simulates(std::size_t in, bool ph) {
  vp_bounded("circuits on three qubits with up to three gates");
  setup();
  auto& c = circuit(in, vp_choose("output", 2));
  gates(K);
  const double phase = phaseOf(ph);
  const auto e = fresh<vEdge>(1);
  current = id(e.p);
  const auto r = simulate(c, e, package());
  finished(r, phase);
  vp_assert(reducedG == 1, "garbage qubits are reduced");
  vp_cover("simulated");
  vp_stop();
}
template <int K> void builds(std::size_t in, bool ph) {
  vp_bounded("circuits on three qubits with up to three gates");
  setup();
  auto& c = circuit(in, vp_choose("output", 2));
  gates(K);
  const double phase = phaseOf(ph);
  const auto r = buildFunctionality(c, package());
  finished(r, phase);
  vp_assert((reducedA == 1) & (reducedG == 1), "ancillary and garbage qubits are reduced");
  vp_cover("functionality");
  vp_stop();
}
} // namespace
VP_HARNESS H_sim_0() { simulates<0>(vp_choose("layout", 6), vp_choose("phase", 2) == 1); }
VP_HARNESS H_sim_2() { simulates<2>(vp_choose("layout", 6), false); }
VP_HARNESS H_sim_3() { simulates<3>(1, false); }
VP_HARNESS H_build_0() { builds<0>(vp_choose("layout", 6), vp_choose("phase", 2) == 1); }
VP_HARNESS H_build_2() { builds<2>(vp_choose("layout", 6), false); }
VP_HARNESS H_build_3() { builds<3>(1, false); }
VP_HARNESS H_build_none() {
  setup();
  auto& c = circuit(0, 0);
  c.nqubits = 0;
  const auto r = vp_choose("how", 2) == 0 ? buildFunctionality(c, package()) : buildFunctionalityRecursive(c, package());
  vp_assert((r.p == nullptr) & (r.w.r == &constants::one) & (r.w.i == &constants::zero), "a circuit without qubits is a scalar");
  vp_cover("no qubits");
}

// ---------------------------------------------------------------- recursive construction
// A diagram stands for the product of the operations first <= k < last (SWAPs may be missing: they are
// accounted for by the levels); the identity stands for no operation at all.
namespace {
struct Part {
  U64 p;
  std::size_t first, last; // among the operations that were turned into diagrams
  bool collected;
};
Part parts[32];
std::size_t nparts, made1;
template <class E> Part* part(const E& e) {
  if (vp_known(e.p == nullptr)) {
    vp_assert((e.w.r == &constants::one) & (e.w.i == &constants::zero), "the identity");
    return nullptr;
  }
  for (std::size_t i = 0; i < nparts; i++)
    if (vp_known(parts[i].p == id(e.p))) {
      vp_assert(!parts[i].collected, "diagrams in use are not collected");
      return &parts[i];
    }
  vp_assert(false, "only known diagrams are used");
  return nullptr;
}
mEdge newPart(std::size_t a, std::size_t b) {
  const auto e = fresh<mEdge>(0);
  parts[nparts++] = {id(e.p), a, b, false};
  return e;
}
mEdge getStub(const qc::Operation& op, Package&, const Perm& p, bool inverse) {
  advanceTo(&op, "no operation is dropped");
  located(p, "operations act on the levels that hold their qubits");
  vp_assert(!inverse, "operations are not inverted");
  made1++;
  return newPart(made1 - 1, made1);
}
mEdge mulStub(Package*, const mEdge& x, const mEdge& y) {
  auto* a = part(x);
  auto* b = part(y);
  if (a == nullptr && b == nullptr) return mEdge::one();
  if (a == nullptr) return y;
  if (b == nullptr) return x;
  vp_assert(b->last == a->first, "later operations are multiplied from the left");
  return newPart(b->first, a->last);
}
void incStub(Package*, const mEdge& e) {
  if (part(e) != nullptr) tok(e).refs++;
}
void decStub(Package*, const mEdge& e) {
  if (part(e) != nullptr) tok(e).refs--;
}
bool gcStub(Package*, bool) {
  for (std::size_t i = 0; i < nparts; i++)
    for (std::size_t j = 0; j < ntok; j++)
      if (vp_known(parts[i].p == toks[j].p) && toks[j].refs <= 0) parts[i].collected = true;
  return true;
}
// the complete product is permuted and reduced
void changeR(mEdge& on, Perm& from, const Perm& to, Package& p, bool regular) {
  advanceTo(nullptr, "no operation is dropped");
  const auto* a = part(on);
  if (a == nullptr) vp_assert(made1 == 0, "all operations are part of the product");
  else vp_assert((a->first == 0) & (a->last == made1), "all operations are part of the product");
  if (a == nullptr) on = fresh<mEdge>(1);
  current = id(on.p);
  change(on, from, to, p, regular);
}
template <int K> void recursive(std::size_t in) {
  vp_bounded("circuits on three qubits with up to six gates");
  setup();
  nparts = made1 = 0;
  vp_replace_opt("^dd::getDD\\(qc::Operation const&", vp_fn(getStub));
  vp_replace_opt("^dd::Edge<dd::mNode> dd::Package::multiply<dd::mNode, dd::mNode>\\(", vp_fn(mulStub));
  vp_replace_opt("^dd::Package::multiply\\(dd::Edge<dd::mNode> const&, dd::Edge<dd::mNode> const&", vp_fn(mulStub));
  vp_replace_opt("^void dd::Package::incRef<dd::mNode>\\(", vp_fn(incStub));
  vp_replace_opt("^void dd::Package::decRef<dd::mNode>\\(", vp_fn(decStub));
  vp_replace_opt("^dd::Package::garbageCollect\\(", vp_fn(gcStub));
  vp_replace_opt("^void dd::changePermutation<dd::Edge<dd::mNode> >\\(", vp_fn(changeR));
  auto& c = circuit(in, vp_choose("output", 2));
  for (std::size_t i = 0; i < K; i++) addGate(vp_choose("gate", 2) == 0 ? (i % 2 == 0 ? SWAP01 : SWAP12) : HGATE);
  const double phase = K == 1 && vp_choose("phase", 2) == 1 ? phaseOf(true) : 0;
  const auto r = buildFunctionalityRecursive(c, package());
  finished(r, phase);
  vp_assert((reducedA == 1) & (reducedG == 1), "ancillary and garbage qubits are reduced");
  vp_cover("recursive");
  vp_stop();
}
} // namespace
VP_HARNESS H_rec_0() { recursive<0>(vp_choose("layout", 6)); }
VP_HARNESS H_rec_1() { recursive<1>(vp_choose("layout", 6)); }
VP_HARNESS H_rec_2() { recursive<2>(vp_choose("layout", 6)); }
VP_HARNESS H_rec_3() { recursive<3>(1); }
VP_HARNESS H_rec_4() { recursive<4>(2); }
VP_HARNESS H_rec_5() { recursive<5>(1); }
VP_HARNESS H_rec_6() { recursive<6>(3); }

// ---------------------------------------------------------------- moving the outputs
namespace {
std::size_t levelOf[N]; // level that holds the content of qubit q
template <class E> E current2;
std::size_t sw[2];
bool chReg;
int chInc, chDec;
U64 chIncP, chDecP;
mEdge swapDD(Package*, const TwoQubitGateMatrix& m, qc::Qubit a, qc::Qubit b) {
  bool ok = true;
  for (std::size_t i = 0; i < 4; i++)
    for (std::size_t j = 0; j < 4; j++) ok = ok && m[i][j].real() == (i == (j == 1 ? 2U : j == 2 ? 1U : j) ? 1. : 0.) && m[i][j].imag() == 0;
  vp_assert(ok, "outputs are exchanged by SWAPs");
  vp_assert(a != b && a < N && b < N, "different levels are exchanged");
  sw[0] = a;
  sw[1] = b;
  return {reinterpret_cast<mNode*>(std::uintptr_t{64}), Complex::one()};
}
void exchanged() {
  for (auto& l : levelOf) l = l == sw[0] ? sw[1] : l == sw[1] ? sw[0] : l;
}
template <class E> E mulC(Package*, const mEdge& x, const E& y) {
  const bool left = id(x.p) == 64;
  vp_assert(left && id(y.p) == current, "the SWAP is multiplied from the left");
  vp_assert(chReg, "the SWAP is multiplied from the left");
  exchanged();
  const auto r = fresh<E>(0);
  current = id(r.p);
  return r;
}
mEdge mulCM(Package*, const mEdge& x, const mEdge& y) {
  const bool left = id(x.p) == 64;
  vp_assert(left ? id(y.p) == current : id(y.p) == 64 && id(x.p) == current, "the diagram is multiplied by the SWAP");
  vp_assert(left == chReg, "the SWAP is multiplied from the requested side");
  exchanged();
  const auto r = fresh<mEdge>(0);
  current = id(r.p);
  return r;
}
template <class E> void incC(Package*, const E& e) { tok(e).refs++; }
template <class E> void decC(Package*, const E& e) { tok(e).refs--; }
bool gcC(Package*, bool) {
  for (std::size_t i = 0; i < ntok; i++)
    if (vp_known(toks[i].p == current)) vp_assert(toks[i].refs == 1, "the diagram in use is referenced when nodes are collected");
  return true;
}
template <class E> void changes(std::size_t in, bool regular) {
  vp_bounded("permutations of three qubits");
  setup();
  vp_unreplace("^void dd::changePermutation<dd::Edge<dd::vNode> >\\(");
  vp_unreplace("^void dd::changePermutation<dd::Edge<dd::mNode> >\\(");
  vp_replace_opt("^dd::Package::makeTwoQubitGateDD\\(std::array<.*>, 4ul> const&, unsigned int, unsigned int\\)", vp_fn(swapDD));
  if constexpr (std::is_same_v<E, vEdge>) vp_replace_opt("dd::Package::multiply", vp_fn(mulC<vEdge>));
  else vp_replace_opt("dd::Package::multiply", vp_fn(mulCM));
  vp_replace_opt("^void dd::Package::incRef<", vp_fn(incC<E>));
  vp_replace_opt("^void dd::Package::decRef<", vp_fn(decC<E>));
  vp_replace_opt("^dd::Package::garbageCollect\\(", vp_fn(gcC));
  chReg = regular || std::is_same_v<E, vEdge>;
  Perm from, to;
  setPerm(from, in);
  const auto out = vp_choose("output", 6), keys = vp_choose("outputs", 8);
  for (std::size_t q = 0; q < N; q++) {
    levelOf[q] = layouts[in][q];
    if (((keys >> q) & 1) != 0) to[static_cast<qc::Qubit>(q)] = static_cast<qc::Qubit>(layouts[out][q]);
  }
  auto e = fresh<E>(1);
  vp_assume_nc(id(e.p) != 64);
  vp_assume_nc(!((id(e.w.r) == id(&constants::zero)) & (id(e.w.i) == id(&constants::zero))));
  current = id(e.p);
  changePermutation(e, from, to, package(), regular);
  vp_assert(id(e.p) == current, "the result is the last diagram");
  for (const auto& [k, v] : to) vp_assert(levelOf[k] == v, "every output is moved to its requested position");
  for (std::size_t q = 0; q < N; q++) vp_assert(from.at(static_cast<qc::Qubit>(q)) == levelOf[q], "the permutation keeps track of the levels");
  for (std::size_t i = 0; i < ntok; i++) vp_assert(toks[i].refs == (vp_known(toks[i].p == current) ? 1 : 0), "exactly the result stays referenced");
  vp_cover("permuted");
  vp_stop();
}
} // namespace
VP_HARNESS H_change_v() { changes<vEdge>(vp_choose("layout", 6), vp_choose("regular", 2) == 0); }
VP_HARNESS H_change_m() { changes<mEdge>(vp_choose("layout", 6), true); }
VP_HARNESS H_change_mr() { changes<mEdge>(vp_choose("layout", 6), false); }

// ---------------------------------------------------------------- sampling
namespace {
char outcome[N]; // of the levels
int drawn;
bool dynamic;
std::string measureStub(Package*, vEdge& e, bool collapse, std::mt19937_64&, fp) {
  isCurrent(e);
  vp_assert(tok(e).refs == 1, "the measured state is referenced");
  vp_assert(!collapse, "the state is measured repeatedly");
  drawn++;
  std::string s;
  for (std::size_t l = N; l-- > 0;) s += outcome[l];
  return s;
}
void decS(Package*, const vEdge& e) { tok(e).refs--; }
void incS(Package*, const vEdge& e) { tok(e).refs++; }
bool bits[4];
bool bitUsed[4];
// the value of qubit q when it is measured
vEdge measS(const qc::NonUnitaryOperation& op, vEdge in, Package&, std::mt19937_64&, std::vector<bool>& m, const Perm& p) {
  advanceTo(&op, "no operation is dropped");
  located(p, "operations act on the levels that hold their qubits");
  vp_assert(m.size() == QC->nclassics, "there is a value for every classical bit");
  for (std::size_t b = 0; b < m.size(); b++) vp_assert(m[b] == bits[b], "classical values are kept");
  const auto b = op.getClassics().at(0);
  bits[b] = outcome[where[op.getTargets().at(0)]] == '1';
  m[b] = bits[b];
  return step(in);
}
vEdge resetS(const qc::NonUnitaryOperation& op, vEdge in, Package&, std::mt19937_64&, const Perm& p) {
  advanceTo(&op, "no operation is dropped");
  located(p, "operations act on the levels that hold their qubits");
  return step(in);
}
vEdge ctrlS(const qc::ClassicControlledOperation& op, const vEdge& in, Package&, const std::vector<bool>& m, const Perm& p) {
  advanceTo(&op, "no operation is dropped");
  located(p, "operations act on the levels that hold their qubits");
  for (std::size_t b = 0; b < m.size(); b++) vp_assert(m[b] == bits[b], "classical values are kept");
  return step(in);
}
void sampleSetup(std::size_t nbits, bool many) {
  setup();
  for (auto& o : outcome) o = vp_choose("outcome", 2) == 1 ? '1' : '0';
  for (auto& b : bits) b = false;
  for (auto& b : bitUsed) b = false;
  drawn = 0;
  vp_replace_opt("^dd::Package::measureAll", vp_fn(measureStub));
  vp_replace_opt("^void dd::Package::incRef<dd::vNode>\\(", vp_fn(incS));
  vp_replace_opt("^void dd::Package::decRef<dd::vNode>\\(", vp_fn(decS));
  vp_replace_opt("^dd::applyMeasurement\\(", vp_fn(measS));
  vp_replace_opt("^dd::applyReset\\(", vp_fn(resetS));
  vp_replace_opt("^dd::applyClassicControlledOperation\\(", vp_fn(ctrlS));
  circuit(many ? 1 : vp_choose("layout", 2) * 2 + 1, vp_choose("output", 2));
  QC->nclassics = nbits;
}
// SWAPs and gates, then measurements
template <int BITS, int MEAS> void sampled() {
  vp_bounded("circuits on three qubits with up to two gates and three measurements");
  sampleSetup(BITS, MEAS == 2);
  for (std::size_t i = 0; i < 2; i++) addGate((MEAS == 2 && i == 1) || vp_choose("gate", 2) == 0 ? (i == 0 ? SWAP01 : SWAP12) : HGATE);
  std::size_t at[N];
  for (std::size_t q = 0; q < N; q++) at[q] = layouts[0][q];
  bool value[4] = {false, false, false, false};
  for (std::size_t k = 0; k < MEAS; k++) {
    const auto q = static_cast<qc::Qubit>(vp_choose("qubit", N));
    const auto b = vp_choose("bit", BITS);
    add<qc::NonUnitaryOperation>(q, static_cast<qc::Bit>(b));
  }
  // where the qubits are in the end
  std::size_t w[N];
  for (std::size_t q = 0; q < N; q++) w[q] = QC->initialLayout.at(static_cast<qc::Qubit>(q));
  for (std::size_t i = 0; i < 2; i++)
    if (isSwap(*QC->ops[i])) std::swap(w[QC->ops[i]->getTargets()[0]], w[QC->ops[i]->getTargets()[1]]);
  std::size_t len = BITS;
  if (MEAS == 0) {
    len = BITS > N ? BITS : N;
    for (const auto& [q, b] : QC->outputPermutation) value[b] = outcome[w[q]] == '1';
  }
  for (std::size_t k = 0; k < MEAS; k++) {
    const auto* m = static_cast<const qc::NonUnitaryOperation*>(QC->ops[2 + k].get());
    value[m->getClassics()[0]] = outcome[w[m->getTargets()[0]]] == '1';
  }
  std::string want;
  for (std::size_t b = len; b-- > 0;) want += value[b] ? '1' : '0';
  const auto e = fresh<vEdge>(1);
  current = id(e.p);
  const std::size_t shots = 2;
  const auto r = sample(*QC, e, package(), shots, 7);
  vp_assert(drawn == 2, "every shot is drawn from the final state");
  vp_assert(r.size() == 1 && r.begin()->first == want && r.begin()->second == shots, "every bit shows the qubit that was measured into it");
  for (std::size_t i = 0; i < ntok; i++) vp_assert(toks[i].refs == 0, "nothing stays referenced");
  vp_cover("sampled");
  vp_stop();
}
// measurements anywhere, resets and classical control: shot by shot
vEdge first;
template <int K> void shots() {
  vp_bounded("dynamic circuits on three qubits with up to four operations, two classical bits");
  sampleSetup(2, K == 2);
  for (std::size_t i = 0; i < K; i++) {
    switch (vp_choose("operation", 5)) {
    case 0: addGate(i % 2 == 0 ? SWAP01 : SWAP12); break;
    case 1: addGate(HGATE); break;
    case 2: add<qc::NonUnitaryOperation>(static_cast<qc::Qubit>(i % 3), static_cast<qc::Bit>(i % 2)); break;
    case 3: add<qc::NonUnitaryOperation>(std::vector<qc::Qubit>{static_cast<qc::Qubit>((i + 1) % 3)}, qc::Reset); break;
    default: add<qc::ClassicControlledOperation>(std::make_unique<qc::StandardOperation>(1, qc::H), static_cast<qc::Bit>(i % 2));
    }
  }
  // reset or control at the end: certainly dynamic
  if (vp_choose("last", 2) == 0) add<qc::NonUnitaryOperation>(std::vector<qc::Qubit>{0}, qc::Reset);
  else {
    add<qc::NonUnitaryOperation>(qc::Qubit{1}, qc::Bit{1});
    addGate(HGATE);
  }
  first = fresh<vEdge>(1);
  current = id(first.p);
  const auto r = sample(*QC, first, package(), 1, 7);
  advanceTo(nullptr, "no operation is dropped");
  std::string want;
  want += bits[1] ? '1' : '0';
  want += bits[0] ? '1' : '0';
  vp_assert(r.size() == 1 && r.begin()->first == want && r.begin()->second == 1, "every bit shows the last measurement into it");
  for (std::size_t i = 0; i < ntok; i++) vp_assert(toks[i].refs == (vp_known(toks[i].p == id(first.p)) ? 1 : 0), "the initial state stays available for further shots");
  vp_cover("shot");
  vp_stop();
}
// SWAPs between measurements: a bit shows the qubit where it was when it was measured
template <bool LATER> void swappedLater() {
  vp_bounded("circuits on three qubits with two measurements and a SWAP after or between them");
  sampleSetup(2, false);
  std::size_t w[N];
  for (std::size_t q = 0; q < N; q++) w[q] = QC->initialLayout.at(static_cast<qc::Qubit>(q));
  bool value[2] = {false, false};
  const bool later = LATER;
  for (std::size_t k = 0; k < 2; k++) {
    if (k == 0 || later) {
      const auto q = static_cast<qc::Qubit>(vp_choose("qubit", N));
      add<qc::NonUnitaryOperation>(q, static_cast<qc::Bit>(k));
      value[k] = outcome[w[q]] == '1';
    }
    if (k == 1) break;
    addGate(vp_choose("swap", 2) == 0 ? SWAP01 : SWAP12);
    const auto& t = QC->ops.back()->getTargets();
    std::swap(w[t[0]], w[t[1]]);
  }
  first = fresh<vEdge>(1);
  current = id(first.p);
  const auto r = sample(*QC, first, package(), 1, 7);
  std::string want;
  want += value[1] ? '1' : '0';
  want += value[0] ? '1' : '0';
  vp_assert(r.size() == 1 && r.begin()->first == want && r.begin()->second == 1, "every bit shows the qubit that was measured into it, where it was at that time");
  vp_cover("swapped after a measurement");
  vp_stop();
}
} // namespace
VP_HARNESS H_sample_swap() { swappedLater<false>(); }
VP_HARNESS H_sample_swap2() { swappedLater<true>(); }
VP_HARNESS H_sample_0() { sampled<2, 0>(); }
VP_HARNESS H_sample_0w() { sampled<4, 0>(); }
VP_HARNESS H_sample_1() { sampled<2, 1>(); }
VP_HARNESS H_sample_2() { sampled<2, 2>(); }
VP_HARNESS H_shot_1() { shots<1>(); }
VP_HARNESS H_shot_2() { shots<2>(); }

// ---------------------------------------------------------------- one operation
namespace {
const qc::Operation* aOp;
const Perm* aPerm;
U64 aGate;
bool aLeft;
int aMul;
mEdge getA(const qc::Operation& op, Package&, const Perm& p, bool inverse) {
  vp_assert(&op == aOp && &p == aPerm && !inverse, "the diagram of the operation under the permutation");
  return {reinterpret_cast<mNode*>(aGate), Complex::one()};
}
vEdge mulAV(Package*, const mEdge& x, const vEdge& y, bool) {
  aMul++;
  vp_assert(id(x.p) == aGate && id(y.p) == current, "the operation is multiplied to the state");
  const auto r = fresh<vEdge>(0);
  current = id(r.p);
  return r;
}
mEdge mulAM(Package*, const mEdge& x, const mEdge& y, bool) {
  aMul++;
  vp_assert(id((aLeft ? x : y).p) == aGate && id((aLeft ? y : x).p) == current, "the operation is multiplied from the requested side");
  const auto r = fresh<mEdge>(0);
  current = id(r.p);
  return r;
}
template <class E> void incA(Package*, const E& e) {
  tok(e).refs++;
}
template <class E> void decA(Package*, const E& e) {
  tok(e).refs--;
}
bool gcA(Package*, bool force) {
  vp_assert(!force, "collections are not forced");
  for (std::size_t i = 0; i < ntok; i++)
    if (vp_known(toks[i].p == current)) vp_assert(toks[i].refs == 1, "the result is referenced before a collection");
  return true;
}
template <class E> void applies() {
  setup();
  vp_unreplace("^dd::applyUnitaryOperation\\(qc::Operation const&, dd::Edge<dd::vNode> const&");
  vp_unreplace("^dd::applyUnitaryOperation\\(qc::Operation const&, dd::Edge<dd::mNode> const&");
  vp_replace_opt("^dd::getDD\\(qc::Operation const&", vp_fn(getA));
  vp_replace_opt("^dd::Edge<dd::vNode> dd::Package::multiply<dd::mNode, dd::vNode>\\(", vp_fn(mulAV));
  vp_replace_opt("^dd::Edge<dd::mNode> dd::Package::multiply<dd::mNode, dd::mNode>\\(", vp_fn(mulAM));
  vp_replace_opt("^void dd::Package::incRef<", vp_fn(incA<E>));
  vp_replace_opt("^void dd::Package::decRef<", vp_fn(decA<E>));
  vp_replace_opt("^dd::Package::garbageCollect\\(", vp_fn(gcA));
  const qc::StandardOperation op(1, qc::H);
  const Perm p;
  aOp = &op;
  aPerm = &p;
  aMul = 0;
  const auto e = fresh<E>(1);
  current = id(e.p);
  aGate = vp_u64("gate");
  vp_assume_nc((aGate != 0) & (aGate != id(e.p)));
  aLeft = std::is_same_v<E, vEdge> || vp_choose("left", 2) == 0;
  E r;
  if constexpr (std::is_same_v<E, vEdge>) r = applyUnitaryOperation(op, e, package(), p);
  else r = applyUnitaryOperation(op, e, package(), p, aLeft);
  vp_assert(aMul == 1 && id(r.p) == current, "the result is the product");
  tok(r);
  for (std::size_t i = 0; i < ntok; i++) vp_assert(toks[i].refs == (vp_known(toks[i].p == current) ? 1 : 0), "the reference is handed over to the result");
  vp_cover("applied");
  vp_stop();
}
} // namespace
VP_HARNESS H_apply_v() { applies<vEdge>(); }
VP_HARNESS H_apply_m() { applies<mEdge>(); }
