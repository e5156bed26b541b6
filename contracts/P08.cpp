// @sources src/dd/Package.cpp src/dd/Operations.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/Node.cpp src/dd/RealNumber.cpp src/dd/Complex.cpp src/dd/ComplexNumbers.cpp src/dd/ComplexValue.cpp src/ir/Permutation.cpp src/ir/operations/StandardOperation.cpp src/ir/operations/Operation.cpp src/ir/operations/OpType.cpp src/ir/operations/CompoundOperation.cpp src/ir/operations/ClassicControlledOperation.cpp src/ir/operations/NonUnitaryOperation.cpp /verif/contracts/rt.cpp
// @opts * {"timeout": 400, "steps": 30000000, "bvsplit": true}
// Contracts: the diagram built for a gate represents the (controlled) gate on its qubits.
//
// A matrix over the involved qubits is determined by its contractions with arbitrary products of
// one-qubit coefficients a_j[row*2+col]; a skipped level contributes a_j[0] + a_j[3].  The contract
// of makeDDNode (P04) is stated for this contraction, so the gate built is checked in all entries
// at once.
#include "dd.hpp"
#include "dd/Operations.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/StandardOperation.hpp"
using namespace vpdd;
namespace {
constexpr std::size_t MAX = 5;
std::size_t nq;     // involved qubits, in ascending order
Qubit qs[MAX];
double a[MAX][4];   // coefficients
double delta(std::size_t j) { return a[j][0] + a[j][3]; }
struct Sub {
  U64 p;
  int top; // position of the top level among the involved qubits, -1: terminal
  Cx val;   // value of the edge handed out, with weight w
  double w;
};
Sub subs[64];
std::size_t nsubs;
// value of an edge seen from just above position j-1
Cx value(U64 p, Cx w, std::size_t j) {
  Cx v = w;
  int top = -1;
  if (!vp_known(p == 0)) {
    std::size_t k = 0;
    while (k < nsubs && !vp_known(subs[k].p == p)) k++;
    vp_assert(k < nsubs, "edges point to nodes of the package");
    v = subs[k].val;
    if (!(vp_known(w.re == subs[k].w) && vp_known(w.im == 0))) v = w * Cx{v.re / subs[k].w, v.im / subs[k].w};
    top = subs[k].top;
  }
  vp_assert(top < static_cast<int>(j), "successors lie strictly below their node");
  for (std::size_t i = static_cast<std::size_t>(top + 1); i < j; i++) v = {v.re * delta(i), v.im * delta(i)};
  return v;
}
std::size_t position(Qubit v) {
  for (std::size_t j = 0; j < nq; j++)
    if (vp_decide(v == qs[j])) return j;
  vp_assert(false, "nodes are created for involved qubits only");
  return 0;
}
mCachedEdge makeStub(Package*, const Qubit v, const std::array<mCachedEdge, 4>& e, bool) {
  const auto j = position(v);
  Cx s{0, 0};
  for (std::size_t i = 0; i < 4; i++) {
    if (vp_known(e[i].w.r == 0) && vp_known(e[i].w.i == 0)) continue;
    const Cx c = value(id(e[i].p), cx(e[i].w), j);
    s = s + Cx{a[j][i] * c.re, a[j][i] * c.im};
  }
  const double w = vp_double("madew");
  vp_assume(w > 0);
  const U64 p = vp_u64("made");
  vp_assume(p != 0);
  subs[nsubs++] = {p, static_cast<int>(j), s, w};
  return {reinterpret_cast<mNode*>(p), ComplexValue{w, 0}};
}
// contract of the lookup (P09): an entry with that value
Complex lookupV(ComplexNumbers*, const ComplexValue& v) {
  const U64 r = vp_u64("entry"), i = vp_u64("entry");
  vp_assume_eq(vp_ufr_1_0("val", r), v.r);
  vp_assume_eq(vp_ufr_1_0("val", i), v.i);
  return {reinterpret_cast<RealNumber*>(r), reinterpret_cast<RealNumber*>(i)};
}
void begin(std::size_t n) {
  useNumbers();
  vp_unreplace("^dd::ComplexNumbers::lookup\\(");
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(dd::ComplexValue const&\\)", vp_fn(lookupV));
  vp_replace_opt("^dd::.*CachedEdge<.*dd::Package::makeDDNode<", vp_fn(makeStub));
  nq = n;
  nsubs = 0;
  for (std::size_t j = 0; j < n; j++) {
    qs[j] = vp_u16("q");
    if (j > 0) vp_assume(qs[j - 1] < qs[j]);
    for (auto& x : a[j]) x = vp_double("a");
  }
}
Package& pkg() {
  auto& p = package();
  p.nqubits = vp_u64("nqubits");
  vp_assume((p.nqubits > qs[nq - 1]) & (p.nqubits <= 65536));
  return p;
}
qc::Control::Type ctype() { return vp_choose("neg", 2) == 1 ? qc::Control::Type::Neg : qc::Control::Type::Pos; }
// controls at the positions of `at`; act = product of the active projections, all = product of deltas
qc::Controls controls(const bool* at, double& act, double& all) {
  qc::Controls cs;
  act = all = 1;
  for (std::size_t j = 0; j < nq; j++) {
    if (!at[j]) continue;
    const auto t = ctype();
    cs.insert(qc::Control{qs[j], t});
    act = act * a[j][t == qc::Control::Type::Pos ? 3 : 0];
    all = all * delta(j);
  }
  return cs;
}
void gate1(std::size_t below, std::size_t above) {
  begin(below + 1 + above);
  auto& p = pkg();
  bool at[MAX]{};
  for (std::size_t j = 0; j < nq; j++) at[j] = j != below;
  double act, all;
  const auto cs = controls(at, act, all);
  GateMatrix m;
  for (auto& x : m) x = {vp_double("m"), vp_double("m")};
  const auto r = p.makeGateDD(m, cs, qs[below]);
  Cx g{0, 0};
  for (std::size_t i = 0; i < 4; i++) g = g + Cx{a[below][i] * m[i].real(), a[below][i] * m[i].imag()};
  const Cx want{act * g.re + (all - act) * delta(below), act * g.im};
  eqc(value(id(r.p), cx(r.w), nq), want, "the diagram is the controlled gate");
  vp_cover("gate");
}
void gate2(std::size_t below, std::size_t between, std::size_t above, bool desc) {
  begin(below + between + above + 2);
  auto& p = pkg();
  const std::size_t lo = below, hi = below + 1 + between;
  bool at[MAX]{};
  for (std::size_t j = 0; j < nq; j++) at[j] = j != lo && j != hi;
  double act, all;
  const auto cs = controls(at, act, all);
  TwoQubitGateMatrix m;
  for (auto& row : m)
    for (auto& x : row) x = {vp_double("m"), vp_double("m")};
  const auto t0 = desc ? hi : lo, t1 = desc ? lo : hi; // the first target is the more significant one
  const auto r = p.makeTwoQubitGateDD(m, cs, qs[t0], qs[t1]);
  Cx g{0, 0};
  for (std::size_t i = 0; i < 4; i++)
    for (std::size_t j = 0; j < 4; j++) {
      const double c = a[t0][(i / 2) * 2 + j / 2] * a[t1][(i % 2) * 2 + j % 2];
      g = g + Cx{c * m[i][j].real(), c * m[i][j].imag()};
    }
  const Cx want{act * g.re + (all - act) * delta(lo) * delta(hi), act * g.im};
  eqc(value(id(r.p), cx(r.w), nq), want, "the diagram is the controlled two-qubit gate");
  vp_cover("gate2");
}
} // namespace
#define G1(B, A) VP_HARNESS H_gate1_##B##A() { gate1(B, A); }
G1(0, 0) G1(0, 1) G1(1, 0) G1(1, 1) G1(0, 2) G1(2, 0) G1(2, 1) G1(1, 2) G1(3, 0) G1(0, 3)
#define G2(B, M, A) VP_HARNESS H_gate2_##B##M##A() { gate2(B, M, A, true); } VP_HARNESS H_gate2r_##B##M##A() { gate2(B, M, A, false); }
G2(0, 0, 0) G2(1, 0, 0) G2(0, 1, 0) G2(0, 0, 1) G2(1, 1, 0) G2(1, 0, 1) G2(0, 1, 1) G2(1, 1, 1) G2(0, 2, 0) G2(0, 0, 2)
// ------------------------------------------------------------ requests that do not fit
namespace {
bool built;
mCachedEdge anyNode(Package*, const Qubit, const std::array<mCachedEdge, 4>&, bool) {
  built = true;
  return {reinterpret_cast<mNode*>(vp_u64("p")), ComplexValue{vp_double("w"), vp_double("w")}};
}
template <class F> bool throws(F f) {
  try {
    f();
  } catch (const std::runtime_error&) {
    return true;
  }
  return false;
}
std::string noText(std::size_t) { return {}; }
void fits(bool two) {
  vp_replace_opt("^std::.*to_string\\(unsigned long\\)", vp_fn(noText)); // texts of messages are irrelevant
  useNumbers();
  vp_unreplace("^dd::ComplexNumbers::lookup\\(");
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(dd::ComplexValue const&\\)", vp_fn(lookupV));
  vp_replace_opt("^dd::.*CachedEdge<.*dd::Package::makeDDNode<", vp_fn(anyNode));
  auto& p = package();
  p.nqubits = vp_u64("nqubits");
  vp_assume((p.nqubits >= 1) & (p.nqubits <= 65536));
  const qc::Qubit t = vp_u32("t"), u = vp_u32("u"), c = vp_u32("c");
  vp_assume((t != c) & (t != u) & (u != c));
  const bool withControl = vp_choose("control", 2) == 1;
  qc::Controls cs;
  if (withControl) cs.insert(qc::Control{c, ctype()});
  built = false;
  GateMatrix m1{};
  TwoQubitGateMatrix m2{};
  const bool r = throws([&] {
    if (two) p.makeTwoQubitGateDD(m2, cs, t, u);
    else p.makeGateDD(m1, cs, t);
  });
  const bool ok = (t < p.nqubits) & (!two | (u < p.nqubits)) & (!withControl | (c < p.nqubits));
  vp_assert(r == !ok, "exactly the gates on qubits of the package are built");
  vp_assert(built == ok, "nothing is built for a gate that does not fit");
  vp_cover("fits");
}
} // namespace
VP_HARNESS H_fits1() { fits(false); }
VP_HARNESS H_fits2() { fits(true); }
// ------------------------------------------------------------ from operations to gates
namespace {
qc::Controls* gotC;
qc::Qubit got0, got1;
std::size_t ncalls;
GateMatrix gotM;
mEdge answer() { return {reinterpret_cast<mNode*>(vp_u64("gate")), Complex{reinterpret_cast<RealNumber*>(vp_u64("w")), reinterpret_cast<RealNumber*>(vp_u64("w"))}}; }
mEdge out;
mEdge gateStub(Package*, const GateMatrix& m, const qc::Controls& c, qc::Qubit t) {
  *gotC = c;
  gotM = m;
  got0 = t;
  ncalls++;
  return out = answer();
}
mEdge gate2Stub(Package*, const TwoQubitGateMatrix&, const qc::Controls& c, qc::Qubit t, qc::Qubit u) {
  *gotC = c;
  got0 = t;
  got1 = u;
  ncalls++;
  return out = answer();
}
// the matrices are those of the type and the parameters (P01, P02): here only whose they are
qc::OpType wantType;
const double* wantParam;
void isWanted(qc::OpType t, const std::vector<double>& p) {
  vp_assert(t == wantType, "the matrix is that of the operation");
  vp_assert(p.size() == 1, "the parameters are those of the operation");
  vp_assert_eq(p[0], *wantParam, "the parameters are those of the operation");
}
GateMatrix m1Stub(qc::OpType t, const std::vector<double>& p) {
  isWanted(t, p);
  return {};
}
TwoQubitGateMatrix m2Stub(qc::OpType t, const std::vector<double>& p) {
  isWanted(t, p);
  return {};
}
bool sameE(const mEdge& a, const mEdge& b) { return (id(a.p) == id(b.p)) & (id(a.w.r) == id(b.w.r)) & (id(a.w.i) == id(b.w.i)); }
void canon(qc::StandardOperation*) {}
void dispatch() {
  useNumbers();
  vp_unreplace("^dd::ComplexNumbers::lookup\\(");
  vp_replace_opt("^qc::StandardOperation::checkUgate\\(", vp_fn(canon));
  vp_replace_opt("^dd::Package::makeGateDD\\(.*qc::Control, .*unsigned int\\)$", vp_fn(gateStub));
  vp_replace_opt("^dd::Package::makeTwoQubitGateDD\\(.*qc::Control, .*unsigned int, unsigned int\\)$", vp_fn(gate2Stub));
  vp_replace_opt("^dd::opToSingleQubitGateMatrix\\(", vp_fn(m1Stub));
  vp_replace_opt("^dd::opToTwoQubitGateMatrix\\(", vp_fn(m2Stub));
  ncalls = 0;
  gotC = new qc::Controls();
}
constexpr std::size_t NQ = 4;
qc::Qubit from[NQ], to[NQ];
// an arbitrary permutation of four arbitrary qubits (or none)
qc::Permutation permutation(bool some) {
  for (std::size_t i = 0; i < NQ; i++) {
    from[i] = vp_u32("from");
    to[i] = some ? vp_u32("to") : from[i];
    if (i > 0) vp_assume(from[i - 1] < from[i]);
    for (std::size_t j = 0; j < i; j++) vp_assume(to[i] != to[j]);
  }
  qc::Permutation p;
  if (some)
    for (std::size_t i = 0; i < NQ; i++) p[from[i]] = to[i];
  return p;
}
qc::Control::Type kind[2];
bool has(const qc::Controls& cs, qc::Qubit q, qc::Control::Type t) {
  for (const auto& c : cs)
    if (vp_decide((c.qubit == q) & (c.type == t))) return true;
  return false;
}
void mapped(std::size_t nt, bool some) {
  dispatch();
  const auto perm = permutation(some);
  qc::Controls cs;
  for (std::size_t k = 0; k < 2; k++) {
    kind[k] = k == 0 ? qc::Control::Type::Neg : qc::Control::Type::Pos;
    cs.insert(qc::Control{from[k], kind[k]});
  }
  const double x = vp_double("x");
  wantParam = &x;
  wantType = nt == 1 ? qc::RX : qc::RZX;
  const bool flip = vp_choose("flip", 2) == 1;
  const std::size_t t0 = flip ? 3 : 2, t1 = flip ? 2 : 3;
  const qc::StandardOperation op(cs, nt == 1 ? qc::Targets{from[t0]} : qc::Targets{from[t0], from[t1]}, wantType, {x});
  const auto r = getDD(op, package(), perm);
  vp_assert(ncalls == 1, "one gate is built");
  vp_assert(sameE(r, out), "the result is the gate's diagram");
  vp_assert(got0 == to[t0], "the target is mapped");
  if (nt == 2) vp_assert(got1 == to[t1], "the second target is mapped");
  vp_assert(gotC->size() == 2, "no control is lost");
  for (std::size_t k = 0; k < 2; k++) vp_assert(has(*gotC, to[k], kind[k]), "the controls are mapped and keep their kind");
  vp_cover("mapped");
}
} // namespace
VP_HARNESS H_op1() { mapped(1, false); }
VP_HARNESS H_op1_perm() { mapped(1, true); }
VP_HARNESS H_op2() { mapped(2, false); }
VP_HARNESS H_op2_perm() { mapped(2, true); }
VP_HARNESS H_gphase() {
  dispatch();
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(double, double\\)", vp_fn(+[](ComplexNumbers*, double r, double i) {
                   const ComplexValue v{r, i};
                   return lookupV(nullptr, v);
                 }));
  const auto perm = permutation(true);
  const double x = vp_double("x");
  const bool inverse = vp_choose("inverse", 2) == 1;
  const double y = inverse ? -x : x;
  const std::size_t nc = vp_choose("controls", 3);
  double act = 1, all = 1;
  nq = NQ;
  for (std::size_t j = 0; j < NQ; j++)
    for (auto& c : a[j]) c = vp_double("a");
  qc::Controls cs;
  for (std::size_t k = 0; k < nc; k++) {
    const auto t = ctype();
    cs.insert(qc::Control{from[k], t});
    act = act * a[k][t == qc::Control::Type::Pos ? 3 : 0];
    all = all * delta(k);
  }
  const qc::StandardOperation op(cs, qc::Targets{}, qc::GPhase, {x});
  const auto r = getDD(op, package(), perm, inverse);
  const Cx e{std::cos(y), std::sin(y)};
  if (nc == 0) {
    vp_assert(id(r.p) == 0, "a global phase is a multiple of the identity");
    eqc(cx(r.w), e, "the phase");
    vp_cover("plain");
    return;
  }
  // a controlled phase may be built as any one-qubit gate on one of the controls
  vp_assert((ncalls == 1) && sameE(r, out), "a controlled phase is a gate on the controls");
  Cx g{0, 0};
  double act2 = 1, all2 = 1, dt = 1;
  bool found = false;
  for (std::size_t k = 0; k < nc; k++)
    if (vp_decide(got0 == to[k])) {
      for (std::size_t i = 0; i < 4; i++) g = g + Cx{a[k][i] * gotM[i].real(), a[k][i] * gotM[i].imag()};
      dt = delta(k);
      found = true;
    }
  vp_assert(found, "the gate acts on the controls");
  std::size_t n = 1;
  for (const auto& c : *gotC)
    for (std::size_t k = 0; k < nc; k++)
      if (vp_decide(c.qubit == to[k])) {
        act2 = act2 * a[k][c.type == qc::Control::Type::Pos ? 3 : 0];
        all2 = all2 * delta(k);
        n++;
      }
  vp_assert((n == nc) & (gotC->size() + 1 == nc), "every control takes part");
  eqc({act2 * g.re + (all2 - act2) * dt, act2 * g.im}, {act * e.re + all - act, act * e.im}, "the phase is controlled");
  vp_cover("controlled");
}
VP_HARNESS H_barrier() {
  dispatch();
  const auto perm = permutation(false);
  const qc::StandardOperation op(qc::Targets{from[0], from[1]}, qc::Barrier);
  const auto r = getDD(op, package(), perm, vp_bool("inverse"));
  vp_assert((id(r.p) == 0) & (id(r.w.r) == id(&constants::one)) & (id(r.w.i) == id(&constants::zero)), "a barrier does nothing");
}
// sequences: the diagrams of the elements are multiplied in the right order
namespace {
std::size_t nprod;
mEdge factor[8];     // diagram of the k-th element
int expect[8];       // what the current product consists of (left to right), as element numbers
std::size_t nfactor;
U64 prodId[8];
std::size_t prodLen[8];
int prodSeq[8][8];
int elementOf(const mEdge& e) {
  for (std::size_t k = 0; k < nfactor; k++)
    if (vp_known(id(e.p) == id(factor[k].p))) return static_cast<int>(k);
  return -1;
}
// left-to-right sequence of element numbers denoted by an edge
std::size_t sequence(const mEdge& e, int* seq) {
  if (vp_known(id(e.p) == 0)) {
    vp_assert((id(e.w.r) == id(&constants::one)) & (id(e.w.i) == id(&constants::zero)), "products start from the identity");
    return 0;
  }
  const int k = elementOf(e);
  if (k >= 0) {
    vp_assert(sameE(e, factor[k]), "elements are used with their weight");
    seq[0] = k;
    return 1;
  }
  for (std::size_t i = 0; i < nprod; i++)
    if (vp_known(id(e.p) == prodId[i])) {
      for (std::size_t j = 0; j < prodLen[i]; j++) seq[j] = prodSeq[i][j];
      return prodLen[i];
    }
  vp_assert(false, "operands are elements or earlier products");
  return 0;
}
mEdge mulStub(Package*, const mEdge* x, const mEdge* y, bool) {
  int* s = prodSeq[nprod];
  const auto n = sequence(*x, s);
  prodLen[nprod] = n + sequence(*y, s + n);
  const auto r = answer();
  vp_assume(id(r.p) != 0);
  prodId[nprod++] = id(r.p);
  return r;
}
mEdge elemStub(const mEdge*) { return factor[0]; }
mEdge gateSeq(Package*, const GateMatrix&, const qc::Controls&, qc::Qubit t) {
  // element k acts on qubit k
  for (std::size_t k = 0; k < nfactor; k++)
    if (vp_decide(t == to[k])) return factor[k];
  vp_assert(false, "elements act on their mapped qubits");
  return {};
}
void compound(bool inverse, bool nested) {
  dispatch();
  vp_unreplace("^dd::Package::makeGateDD\\(");
  vp_replace("^dd::Package::makeGateDD\\(.*qc::Control, .*unsigned int\\)$", vp_fn(gateSeq));
  vp_unreplace("^dd::opToSingleQubitGateMatrix\\(");
  vp_replace("^dd::opToSingleQubitGateMatrix\\(", vp_fn(+[](qc::OpType, const std::vector<double>&) { return GateMatrix{}; }));
  vp_replace("^dd::Edge<.*> dd::Package::multiply<", vp_fn(mulStub));
  const auto perm = permutation(true);
  nprod = 0;
  nfactor = 3;
  for (std::size_t k = 0; k < 3; k++) {
    factor[k] = answer();
    vp_assume(id(factor[k].p) != 0);
  }
  qc::CompoundOperation c;
  c.emplace_back<qc::StandardOperation>(from[0], qc::RX, std::vector<double>{vp_double("x")});
  if (nested) {
    auto in = std::make_unique<qc::CompoundOperation>();
    in->emplace_back<qc::StandardOperation>(from[1], qc::H);
    in->emplace_back<qc::StandardOperation>(from[2], qc::S);
    c.emplace_back(std::move(in));
  } else {
    c.emplace_back<qc::StandardOperation>(from[1], qc::H);
    c.emplace_back<qc::StandardOperation>(from[2], qc::S);
  }
  const auto r = getDD(c, package(), perm, inverse);
  int seq[8];
  vp_assert(sequence(r, seq) == 3, "every element takes part once");
  // the first operation is the rightmost factor; the inverse is the product of the inverses the other way round
  for (int k = 0; k < 3; k++) vp_assert(seq[k] == (inverse ? k : 2 - k), "the elements are applied in order");
  vp_cover("sequence");
}
} // namespace
VP_HARNESS H_compound() { compound(false, false); }
VP_HARNESS H_compound_inv() { compound(true, false); }
VP_HARNESS H_nested() { compound(false, true); }
VP_HARNESS H_nested_inv() { compound(true, true); }
