// @sources src/dd/statistics/TableStatistics.cpp src/dd/GateMatrixDefinitions.cpp src/dd/NoiseFunctionality.cpp src/dd/Package.cpp src/dd/Node.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp /verif/contracts/rt.cpp
// @opts * {"timeout": 500, "steps": 30000000, "bvsplit": true}
// Contracts: density matrices and noise.
#include "dd.hpp"
#include "dd/GateMatrixDefinitions.hpp"
#include "dd/NoiseFunctionality.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <memory>
#include <random>
#include <set>
#include <string>
#include <utility>
#include <vector>
using namespace vpdd;
namespace {
Qubit VAR;
dCachedEdge arbitrary(const char* n) { return {reinterpret_cast<dNode*>(vp_u64(n)), ComplexValue{vp_double("re"), vp_double("im")}}; }
Complex weight(const char* n) { return {reinterpret_cast<RealNumber*>(vp_u64(n)), reinterpret_cast<RealNumber*>(vp_u64(n))}; }
dNode* ptr(U64 p) { return reinterpret_cast<dNode*>(p); }

// ---------------------------------------------------------------- temporary modifications of nodes
// A pointer tagged with (conjugate 1, path below the first off-diagonal 2, density matrix 4) stands for
// its node with the modifications described by the tags.
void flags(U64 tag) {
  auto* n = static_cast<dNode*>(vp_lazy("node", "x", sizeof(dNode)));
  vp_assume(((n->flags & 7U) == 0) & (n->flags < 16));
  U64 kid[4];
  Complex w[4];
  for (std::size_t i = 0; i < 4; i++) {
    kid[i] = vp_u64("kid");
    vp_assume((kid[i] & 7U) == 0);
    n->e[i].p = ptr(kid[i]);
    n->e[i].w = weight("w");
    w[i] = n->e[i].w;
    vp_assume((id(w[i].i) != (id(&constants::zero) | 1))); // there is no negative zero
  }
  const auto f0 = n->flags;
  dNode* p = ptr(id(n) | tag);
  const bool changed = dNode::applyDmChangesToNode(p);
  vp_assert(p == n, "the pointer is untagged");
  vp_assert(changed == (tag >= 4), "it is reported whether the node has been modified");
  vp_assert(n->flags == (f0 | (tag >= 4 ? tag : 0)), "the modifications are noted in the node");
  const bool conj = (tag & 1) != 0, plain = tag < 4 || ((tag & 2) != 0 && !conj);
  for (std::size_t i = 0; i < 4; i++) {
    const auto j = conj && !plain ? (i == 1 ? 2U : i == 2 ? 1U : i) : i;
    const Complex c{w[j].r, RealNumber::flipPointerSign(w[j].i)};
    const auto& e = n->e[i];
    U64 want = kid[j];
    bool cw = false;
    if (!plain) {
      want |= 4;
      if (conj) {
        want |= 1;
        cw = true;
      } else {
        if (i == 1) want |= 2;
        if (i == 2) {
          want |= 1;
          cw = true;
        }
      }
    }
    vp_assert(id(e.p) == want, "successors are transposed and tagged");
    vp_assert((e.w.r == w[j].r) & (cw ? e.w.i == c.i : e.w.i == w[j].i), "weights are conjugated as required");
  }
  // doing it again is not reported, and leaves the node alone
  if (tag >= 4) {
    dNode* q = ptr(id(n) | tag);
    Edge<dNode> s[4];
    for (std::size_t i = 0; i < 4; i++) s[i] = n->e[i];
    vp_assert(!dNode::applyDmChangesToNode(q) & (q == n), "modifications are applied once");
    bool same = true;
    for (std::size_t i = 0; i < 4; i++) same = same & (s[i].p == n->e[i].p) & (s[i].w.r == n->e[i].w.r) & (s[i].w.i == n->e[i].w.i);
    vp_assert(same, "modifications are applied once");
  }
  dNode::revertDmChangesToNode(p);
  vp_assert((p == n) & (n->flags == f0), "the flags are removed");
  for (std::size_t i = 0; i < 4; i++)
    vp_assert((id(n->e[i].p) == kid[i]) & (n->e[i].w.r == w[i].r) & (n->e[i].w.i == w[i].i), "reverting restores the node");
  vp_cover("flags");
}
} // namespace
VP_HARNESS H_flags_none() { flags(0); }
VP_HARNESS H_flags_first() { flags(4); }
VP_HARNESS H_flags_conj() { flags(5); }
VP_HARNESS H_flags_path() { flags(6); }
VP_HARNESS H_flags_pathconj() { flags(7); }
VP_HARNESS H_flags_terminal() {
  for (U64 tag = 0; tag < 8; tag++) {
    dNode* p = ptr(tag);
    if (tag < 4 && tag != 0) continue;
    vp_assert(!dNode::applyDmChangesToNode(p), "a terminal is not modified");
    vp_assert(p == nullptr, "the pointer is untagged");
    dNode::revertDmChangesToNode(p);
    vp_assert(p == nullptr, "the pointer is untagged");
  }
  vp_cover("terminal");
}

// ---------------------------------------------------------------- the noise channels on the blocks of a qubit
namespace {
constexpr std::size_t E4 = 4;
using Blocks = std::array<dCachedEdge, NEDGE>;
Cx before[E4];
dCachedEdge sumStub(Package*, const dCachedEdge& x, const dCachedEdge& y, const Qubit v) {
  if (x.p != nullptr) vp_assert(x.p->v <= v, "blocks are added at a level that covers them");
  if (y.p != nullptr) vp_assert(y.p->v <= v, "blocks are added at a level that covers them");
  const Cx s = cx(x.w) * L(x.p) + cx(y.w) * L(y.p);
  if (vp_choose("zero sum", 2) == 1) {
    zeroC(s);
    return dCachedEdge::zero();
  }
  return below<dNode>("sum", s);
}
Blocks blocks() {
  useNumbers();
  vp_replace("dd::Package::add2<", vp_fn(sumStub));
  Blocks b;
  for (std::size_t i = 0; i < E4; i++) {
    dNode* p = nullptr;
    const auto k = vp_choose("block", 3);
    if (k == 0) {
      b[i] = dCachedEdge::zero();
      before[i] = {0, 0};
      continue;
    }
    if (k == 1) p = node<dNode>("b", vp_u16("v"));
    b[i] = {p, ComplexValue{vp_double("re"), vp_double("im")}};
    vp_assume((b[i].w.r * b[i].w.r + b[i].w.i * b[i].w.i > 0));
    before[i] = cx(b[i].w) * L(p);
  }
  return b;
}
DeterministicNoiseFunctionality& functionality() {
  auto& f = *static_cast<DeterministicNoiseFunctionality*>(vp_alloc_sym(sizeof(DeterministicNoiseFunctionality), "noise"));
  f.package = &package();
  return f;
}
double probability(const char* n) {
  const double p = vp_double(n);
  vp_assume((p >= 0) & (p <= 1));
  return p;
}
Cx operator*(double s, Cx a) { return {s * a.re, s * a.im}; }
void is(const Blocks& b, std::size_t i, Cx v, const char* l) { eqc(cx(b[i].w) * L(b[i].p), v, l); }
} // namespace
VP_HARNESS H_phaseflip() {
  auto b = blocks();
  auto& f = functionality();
  const double p = probability("p");
  f.applyPhaseFlipToEdges(b, p);
  // (1-p) rho + p Z rho Z
  const Cx s[4] = {before[0], Cx{-before[1].re, -before[1].im}, Cx{-before[2].re, -before[2].im}, before[3]};
  for (std::size_t i = 0; i < 4; i++) is(b, i, (1 - p) * before[i] + p * s[i], "phase flip: (1-p) rho + p Z rho Z");
  vp_cover("phase flip");
}
VP_HARNESS H_amplitude() {
  auto b = blocks();
  auto& f = functionality();
  const double p = probability("p");
  f.applyAmplitudeDampingToEdges(b, p);
  const double s = std::sqrt(1 - p); // K0 = diag(1, sqrt(1-p)), K1 = sqrt(p) |0><1|
  is(b, 0, before[0] + p * before[3], "amplitude damping: K0 rho K0^+ + K1 rho K1^+ (0,0)");
  is(b, 1, s * before[1], "amplitude damping: K0 rho K0^+ + K1 rho K1^+ (0,1)");
  is(b, 2, s * before[2], "amplitude damping: K0 rho K0^+ + K1 rho K1^+ (1,0)");
  is(b, 3, (1 - p) * before[3], "amplitude damping: K0 rho K0^+ + K1 rho K1^+ (1,1)");
  vp_cover("amplitude damping");
}
VP_HARNESS H_depolarisation() {
  auto b = blocks();
  auto& f = functionality();
  const double p = probability("p");
  f.applyDepolarisationToEdges(b, p);
  // (1-3p/4) rho + p/4 (X rho X + Y rho Y + Z rho Z)
  const Cx* r = before;
  const double q = p / 4, o = 1 - 3 * p / 4;
  is(b, 0, o * r[0] + q * (r[3] + r[3] + r[0]), "depolarisation: mixture of the Pauli conjugations (0,0)");
  is(b, 1, o * r[1] + q * ((r[2] - r[2]) - r[1]), "depolarisation: mixture of the Pauli conjugations (0,1)");
  is(b, 2, o * r[2] + q * ((r[1] - r[1]) - r[2]), "depolarisation: mixture of the Pauli conjugations (1,0)");
  is(b, 3, o * r[3] + q * (r[0] + r[0] + r[3]), "depolarisation: mixture of the Pauli conjugations (1,1)");
  vp_cover("depolarisation");
}

// ---------------------------------------------------------------- one level of the noise recursion
namespace {
dNode* theNode;
Complex theWeight;
U64 base[4], tagged[4];
bool applied[4];
int reverted[4];
bool tags; // successors carry tags
std::set<qc::Qubit>* theUsed;
bool firstPath;
Blocks cur;
Cx curv[4];
std::size_t nlog;
int logType[4];
double logProb[4];
bool first0, skipped, mayVanish;
int recursions[4];
bool applyRec(dNode*& p) {
  for (std::size_t i = 0; i < 4; i++)
    if (vp_known(id(p) == tagged[i]) & tags) {
      vp_assert(!applied[i], "a successor is modified once");
      p = ptr(base[i]);
      applied[i] = true;
      return true;
    }
  return false;
}
void revertRec(dNode*& p) {
  for (std::size_t i = 0; i < 4; i++)
    if (vp_known(id(p) == base[i]) & tags) {
      reverted[i]++;
      applied[i] = false;
    }
  vp_assert(!vp_known(p == theNode), "the node itself is left to the caller");
}
dCachedEdge recurse(DeterministicNoiseFunctionality*, dEdge& e, const std::set<qc::Qubit>& used, const bool first, const Qubit level) {
  vp_assert(&used == theUsed, "the affected qubits are passed on");
  vp_assert(level == VAR, "the recursion goes one level down");
  if (skipped) {
    vp_assert(e.p == theNode, "a skipped level has the diagram itself as diagonal blocks");
    eqc(cx(e.w), Cx{1, 0}, "the weight is accounted for once");
    vp_assert(first == first0, "the kind of path is kept");
    dCachedEdge r = below<dNode>("noisy", Cx{vp_ufr_1_0("Nre", 99), vp_ufr_1_0("Nim", 99)});
    return r;
  }
  for (std::size_t i = 0; i < 4; i++)
    if (vp_known(id(e.p) == base[i])) {
      vp_assert(applied[i] == tags, "the modifications of the successor are applied meanwhile");
      eqc(cx(e.w), cx(theNode->e[i].w), "the weight of the successor is passed on");
      vp_assert(first == (first0 | (i == 1)), "off-diagonal blocks have no redundant part");
      recursions[i]++;
      if (mayVanish && vp_choose("zero block", 2) == 1) {
        curv[i] = {0, 0};
        return dCachedEdge::zero();
      }
      curv[i] = {vp_ufr_1_0("Nre", i), vp_ufr_1_0("Nim", i)};
      return below<dNode>("noisy", curv[i]);
    }
  vp_assert(false, "the recursion continues with the successors");
  return dCachedEdge::zero();
}
void channel(int type, Blocks& e, double p) {
  if (nlog == 0) {
    for (std::size_t i = 0; i < 4; i++) {
      Cx want;
      if (skipped) {
        want = i == 0 || i == 3 ? Cx{vp_ufr_1_0("Nre", 99), vp_ufr_1_0("Nim", 99)} : Cx{0, 0};
      } else {
        want = curv[i == 2 && !first0 ? 1 : i];
      }
      eqc(cx(e[i].w) * L(e[i].p), want, "noise acts on the blocks of the qubit");
    }
  } else {
    for (std::size_t i = 0; i < 4; i++) vp_assert((e[i].p == cur[i].p) & (e[i].w.r == cur[i].w.r) & (e[i].w.i == cur[i].w.i), "noise effects are chained");
  }
  logType[nlog] = type;
  logProb[nlog] = p;
  nlog++;
  for (std::size_t i = 0; i < 4; i++) e[i] = cur[i] = arbitrary("after");
}
void pfStub(Blocks& e, double p) { channel('P', e, p); }
void adStub(const DeterministicNoiseFunctionality*, Blocks& e, double p) { channel('A', e, p); }
void dpStub(const DeterministicNoiseFunctionality*, Blocks& e, double p) { channel('D', e, p); }
Cx madeW;
U64 madeP;
dCachedEdge makeNoise(Package*, const Qubit v, const Blocks& e, bool) {
  vp_assert(v == VAR, "the result is created at the current level");
  if (nlog == 0) {
    for (std::size_t i = 0; i < 4; i++) {
      Cx want;
      if (skipped) {
        want = i == 0 || i == 3 ? Cx{vp_ufr_1_0("Nre", 99), vp_ufr_1_0("Nim", 99)} : Cx{0, 0};
      } else {
        want = curv[i == 2 && !first0 ? 1 : i];
      }
      eqc(cx(e[i].w) * L(e[i].p), want, "an unaffected level keeps its blocks");
    }
  } else {
    for (std::size_t i = 0; i < 4; i++) vp_assert((e[i].p == cur[i].p) & (e[i].w.r == cur[i].w.r) & (e[i].w.i == cur[i].w.i), "the noisy blocks form the result");
  }
  madeP = vp_u64("made");
  madeW = {vp_double("mre"), vp_double("mim")};
  return {ptr(madeP), ComplexValue{madeW.re, madeW.im}};
}
const char* const EFFECTS[] = {"A", "P", "D", "I", "PA", "DIA", "APD"};
// kind: 0 at the level, 1 below, 2 terminal
void noise(int kind, std::size_t nused) {
  vp_bounded("operations on 1 to 3 qubits (arbitrary ones); noise configurations A, P, D, I, PA, DIA, APD (3 qubits: APD)");
  useNumbers();
  auto& pk = package();
  const double ps = vp_double("ps"), pm = vp_double("pm"), as = vp_double("as"), am = vp_double("am");
  vp_assume((ps >= 0) & (ps <= 1) & (pm >= 0) & (pm <= 1) & (as >= 0) & (as <= 1) & (am >= 0) & (am <= 1));
  const auto which = nused == 3 ? 6 : vp_choose("effects", std::size(EFFECTS)); // APD
  const std::string effects = EFFECTS[which];
  DeterministicNoiseFunctionality f(pk, 5, ps, pm, as, am, effects);
  vp_replace("^dd::DeterministicNoiseFunctionality::applyNoiseEffects\\(dd::Edge<dd::dNode>&, std::set<.*, bool, unsigned short\\)$", vp_fn(recurse));
  vp_replace("^dd::DeterministicNoiseFunctionality::applyPhaseFlipToEdges\\(", vp_fn(pfStub));
  vp_replace("^dd::DeterministicNoiseFunctionality::applyAmplitudeDampingToEdges\\(", vp_fn(adStub));
  vp_replace("^dd::DeterministicNoiseFunctionality::applyDepolarisationToEdges\\(", vp_fn(dpStub));
  vp_replace("dd::Package::makeDDNode<", vp_fn(makeNoise));
  vp_replace("^dd::dNode::applyDmChangesToNode\\(", vp_fn(applyRec));
  vp_replace("^dd::dNode::revertDmChangesToNode\\(", vp_fn(revertRec));
  std::set<qc::Qubit> used;
  theUsed = &used;
  for (std::size_t i = 0; i < nused; i++) {
    qc::Qubit q = vp_u16("q");
    used.insert(q);
  }
  const Qubit level = vp_u16("level");
  vp_assume((level > 0) & (level < VAR_MAX));
  VAR = static_cast<Qubit>(level - 1);
  skipped = kind != 0;
  mayVanish = nused == 1;
  first0 = vp_choose("first", 2) == 1;
  tags = !skipped && vp_choose("tags", 2) == 1;
  nlog = 0;
  theNode = nullptr;
  if (kind == 0) theNode = node<dNode>("x", VAR);
  if (kind == 1) {
    const auto v = vp_u16("v");
    vp_assume(v < VAR);
    theNode = node<dNode>("x", v);
  }
  for (std::size_t i = 0; i < 4; i++) {
    applied[i] = false;
    reverted[i] = 0;
    recursions[i] = 0;
    curv[i] = {0, 0};
    tagged[i] = vp_u64("kid");
    base[i] = tags ? vp_u64("untagged") : tagged[i];
    if (kind == 0) theNode->e[i].p = ptr(tagged[i]);
  }
  theWeight = weight("w");
  dEdge e{theNode, theWeight};
  const bool zero = isZero(&theWeight) & (theNode == nullptr);
  bool hit = false;
  bool above = true;
  for (const auto q : used) {
    hit = hit | (q == VAR);
    above = above & (q >= level);
  }
  const bool affected = vp_decide(hit);
  const bool done = vp_decide(above | zero);
  const auto r = f.applyNoiseEffects(e, used, first0, level);
  if (done) {
    vp_assert(r.p == theNode, "nothing to be done below the affected qubits");
    eqc(cx(r.w), cx(theWeight), "nothing to be done below the affected qubits");
    vp_cover("done");
    return;
  }
  std::size_t k = 0;
  if (affected)
    for (const char c : effects) {
      if (c == 'I') continue;
      vp_assert(k < nlog && logType[k] == c, "the effects are applied in the given order");
      const bool single = used.size() == 1;
      if (k < nlog) vp_assert_eq(logProb[k], c == 'A' ? (single ? as : am) : (single ? ps : pm), "the probability is the one of the effect and of the number of qubits");
      k++;
    }
  vp_assert(nlog == k, "nothing else is applied");
  if (tags)
    for (std::size_t i = 0; i < 4; i++) vp_assert(!applied[i] & ((reverted[i] > 0) == (recursions[i] > 0)), "modifications of successors are reverted");
  const Cx want = madeW * cx(theWeight);
  eqc(cx(r.w), want, "the weight of the operand is kept");
  vp_assert((id(r.p) == madeP) | ((madeW.re == 0) & (madeW.im == 0)), "the new node is the result");
  if (affected) vp_cover("affected");
  vp_cover("noise");
}
} // namespace
VP_HARNESS H_noise_at1() { noise(0, 1); }
VP_HARNESS H_noise_at2() { noise(0, 2); }
VP_HARNESS H_noise_at3() { noise(0, 3); }
VP_HARNESS H_noise_low1() { noise(1, 1); }
VP_HARNESS H_noise_low2() { noise(1, 2); }
VP_HARNESS H_noise_low3() { noise(1, 3); }
VP_HARNESS H_noise_id1() { noise(2, 1); }
VP_HARNESS H_noise_id2() { noise(2, 2); }
VP_HARNESS H_noise_id3() { noise(2, 3); }

// ---------------------------------------------------------------- applying noise to a density matrix
namespace {
int stage;
dNode* oldNode;
U64 oldTag, resultNode;
Cx resultW;
bool marked;
bool applyTop(dNode*& p) {
  vp_assert(stage == 0, "the modifications of the operand are applied first");
  vp_assert(id(p) == oldTag, "the operand is used");
  stage = 1;
  p = oldNode;
  return true;
}
void revertTop(dNode*& p) {
  vp_assert((stage == 2) & (p == oldNode), "the modifications of the operand are reverted afterwards");
  stage = 3;
}
dCachedEdge recurseTop(DeterministicNoiseFunctionality*, dEdge& e, const std::set<qc::Qubit>& used, const bool first, const Qubit level) {
  vp_assert((stage == 1) & (e.p == oldNode), "noise acts on the density matrix");
  eqc(cx(e.w), cx(theWeight), "noise acts on the density matrix");
  vp_assert(!first & (level == 5), "the recursion starts at the top, on the diagonal");
  vp_assert(used.size() == 2 && used.count(1) == 1 && used.count(3) == 1, "the qubits of the operation are affected");
  stage = 2;
  resultNode = vp_u64("result");
  vp_assume((resultNode & 7U) == 0);
  resultW = {vp_double("re"), vp_double("im")};
  return {ptr(resultNode), ComplexValue{resultW.re, resultW.im}};
}
int counts;
void incTop(Package*, const dEdge& e) {
  vp_assert((stage == 3) & (counts == 0), "the result is referenced before the operand is released");
  vp_assert((id(e.p) == resultNode) | ((resultW.re == 0) & (resultW.im == 0)), "the result is referenced");
  counts = 1;
}
void decTop(Package*, const dEdge& e) {
  vp_assert(counts == 1, "the result is referenced before the operand is released");
  vp_assert((e.p == oldNode) & (e.w.r == theWeight.r) & (e.w.i == theWeight.i), "the operand is released");
  counts = 2;
}
} // namespace
VP_HARNESS H_noise_entry() {
  useNumbers();
  vp_replace("^dd::DeterministicNoiseFunctionality::applyNoiseEffects\\(dd::Edge<dd::dNode>&, std::set<.*, bool, unsigned short\\)$", vp_fn(recurseTop));
  vp_replace("^dd::dNode::applyDmChangesToNode\\(", vp_fn(applyTop));
  vp_replace("^dd::dNode::revertDmChangesToNode\\(", vp_fn(revertTop));
  vp_replace("^void dd::Package::incRef<", vp_fn(incTop));
  vp_replace("^void dd::Package::decRef<", vp_fn(decTop));
  vp_replace("^qc::Operation::getUsedQubits\\(\\) const$", vp_fn(+[](const qc::Operation*) { return std::set<qc::Qubit>{3, 1}; }));
  DeterministicNoiseFunctionality f(package(), 5, 0.5, 0.5, 0.5, 0.5, "A");
  stage = 0;
  counts = 0;
  oldNode = static_cast<dNode*>(vp_lazy("node", "old", sizeof(dNode)));
  oldTag = id(oldNode) | 4;
  theWeight = weight("w");
  dEdge e{ptr(oldTag), theWeight};
  const std::unique_ptr<qc::Operation> op(static_cast<qc::Operation*>(vp_alloc_sym(sizeof(qc::StandardOperation), "op")));
  f.applyNoiseEffects(e, op);
  vp_assert(counts == 2, "references are updated");
  vp_assert((id(e.p) == (resultNode | 4)) | ((resultW.re == 0) & (resultW.im == 0)), "the operand becomes the noisy density matrix");
  eqc(cx(e.w), resultW, "the operand becomes the noisy density matrix");
  vp_cover("entry");
  vp_stop(); // the operation is not destroyed
}

// ---------------------------------------------------------------- products and sums of density matrices
namespace {
struct Side {
  dNode* node;
  bool at, tags;
  U64 base[4], tagged[4];
  bool applied[4];
  Cx w[4]; // contributions at this level: weight and denoted diagram
  U64 den[4];
};
Side SX, SY;
bool gen;
std::size_t IDX;
void flagsOf(Side& s, const char* n) {
  for (std::size_t i = 0; i < 4; i++) {
    s.applied[i] = false;
    if (s.at) {
      s.tagged[i] = vp_u64(n);
      s.base[i] = s.tags ? vp_u64(n) : s.tagged[i];
      s.node->e[i].p = ptr(s.tagged[i]);
      s.w[i] = cx(s.node->e[i].w);
      s.den[i] = s.tagged[i];
    } else {
      s.w[i] = {i == 0 || i == 3 ? 1.0 : 0.0, 0};
      s.den[i] = i == 0 || i == 3 ? id(s.node) : 0;
    }
  }
}
bool applyMul(dNode*& p) {
  for (auto* s : {&SX, &SY})
    if (s->at && s->tags)
      for (std::size_t i = 0; i < 4; i++)
        if (vp_known(id(p) == s->tagged[i])) {
          vp_assert(!s->applied[i], "a successor is modified once at a time");
          p = ptr(s->base[i]);
          s->applied[i] = true;
          return true;
        }
  return false;
}
void revertMul(dNode*& p) {
  for (auto* s : {&SX, &SY}) {
    if (s->at && s->tags)
      for (std::size_t i = 0; i < 4; i++)
        if (vp_known(id(p) == s->base[i]) && s->applied[i]) {
          s->applied[i] = false;
          return;
        }
    if (!s->at && s->node != nullptr) vp_assert(!vp_known(p == s->node), "an operand that skips this level is left alone: it is still in use");
    if (s->at) vp_assert(!vp_known(p == s->node), "the operand is left to the caller");
  }
}
Cx prod(U64 a, U64 b) { return {vp_ufr_2_0("Pre", a, b), vp_ufr_2_0("Pim", a, b)}; }
bool current(const Side& s, U64 p, std::size_t i) {
  if (!s.at) return vp_known(p == s.den[i]);
  return vp_known(p == s.base[i]) && (!s.tags || s.applied[i]);
}
dCachedEdge mulDensity(Package*, const dEdge& x, const dEdge& y, const Qubit v, bool g) {
  vp_assert(v == static_cast<Qubit>(VAR - 1), "the recursion goes exactly one level down");
  const std::size_t row = IDX / 2, col = IDX % 2;
  const Cx wx = cx(x.w), wy = cx(y.w);
  for (std::size_t k = 0; k < 2; k++) {
    const auto a = 2 * row + k, b = 2 * k + col;
    if (!(current(SX, id(x.p), a) && current(SY, id(y.p), b))) continue;
    if (!(vp_known(wx.re == SX.w[a].re) & vp_known(wx.im == SX.w[a].im) & vp_known(wy.re == SY.w[b].re) & vp_known(wy.im == SY.w[b].im))) continue;
    // with skipped levels, several blocks have the same operands: the strictest one decides
    const bool amb = !SX.at && !SY.at;
    if (!amb) vp_assert(g == (gen && IDX != 1), "only the diagonal blocks of a density matrix are density matrices");
    const Cx pr = prod(SX.den[a], SY.den[b]);
    if (vp_known(wx.re == 0) & vp_known(wx.im == 0)) return dCachedEdge::zero();
    if (vp_known(wy.re == 0) & vp_known(wy.im == 0)) return dCachedEdge::zero();
    switch (vp_choose("product", 4)) {
    case 1: zeroC(wx); return dCachedEdge::zero();
    case 2: zeroC(wy); return dCachedEdge::zero();
    case 3: zeroC(pr); return dCachedEdge::zero();
    default: return below<dNode>("prod", wx * wy * pr);
    }
  }
  return below<dNode>("other", Cx{vp_double("v"), vp_double("v")});
}
Cx productSpec() {
  const std::size_t row = IDX / 2, col = IDX % 2;
  Cx s{0, 0};
  for (std::size_t k = 0; k < 2; k++) {
    const auto a = 2 * row + k, b = 2 * k + col;
    s = s + SX.w[a] * SY.w[b] * prod(SX.den[a], SY.den[b]);
  }
  return s;
}
dCachedEdge addDensity(Package*, const dCachedEdge& x, const dCachedEdge& y, const Qubit v) {
  vp_assert(v == static_cast<Qubit>(VAR - 1), "products are added one level down");
  return below<dNode>("sum", cx(x.w) * L(x.p) + cx(y.w) * L(y.p));
}
dNode* resultDensity;
dCachedEdge makeDensity(Package*, const Qubit v, const std::array<dCachedEdge, 4>& e, bool g) {
  vp_assert(v == VAR, "the result node is created at the current level");
  vp_assert(g == gen, "the kind of the result is as requested");
  if (gen) eqc(cx(e[2].w) * L(e[2].p), cx(e[1].w) * L(e[1].p), "one off-diagonal block of a density matrix stands for both");
  const Cx w{vp_double("madew"), vp_double("madew")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  resultDensity = vp_choose("made", 2) == 1 ? nullptr : static_cast<dNode*>(vp_lazy("node", "made", sizeof(dNode)));
  if (resultDensity != nullptr) { // results of makeDDNode<dNode> are no operands of this call (they are in use)
    if (SX.node != nullptr) vp_assume_nc(resultDensity != SX.node);
    if (SY.node != nullptr) vp_assume_nc(resultDensity != SY.node);
  }
  auto& m = made[nmade++];
  m.p = id(resultDensity);
  for (std::size_t i = 0; i < 4; i++) m.d[i] = (cx(e[i].w) * L(e[i].p)) / w;
  return {resultDensity, ComplexValue{w.re, w.im}};
}
dCachedEdge cachedDensity;
bool askedFor;
const dCachedEdge* lookupDensity(void*, dNode* const& x, dNode* const& y, bool density) {
  vp_assert((x == SX.node) & (y == SY.node), "the table is asked for the operands");
  vp_assert(density == gen, "the table is asked for the kind of result");
  if (vp_choose("hit", 2) == 0) return nullptr;
  const U64 p = vp_u64("cached");
  const Cx w{vp_double("cachedw"), vp_double("cachedw")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = p;
  m.d[IDX] = productSpec() / w;
  cachedDensity = {ptr(p), ComplexValue{w.re, w.im}};
  return &cachedDensity;
}
void insertDensity(void*, dNode* const& x, dNode* const& y, const dCachedEdge& r) {
  vp_assert((x == SX.node) & (y == SY.node), "the result is stored under its operands");
  // what P11 guarantees on lookup: results whose node disagrees with the requested kind are not returned
  if (gen)
    vp_assert(r.p != nullptr && (r.p->flags & 8U) != 0, "partial results are stored only if the table can tell them from complete ones");
  else
    vp_assert(r.p == nullptr || (r.p->flags & 8U) == 0, "complete results are stored as such");
  eqc(cx(r.w) * unfoldR(r.p, VAR, IDX), productSpec(), "the stored result is the product of its key");
}
enum Kind { AT, LOWER, IDENT };
dNode* operandD(const char* n, Kind k) {
  if (k == AT) return node<dNode>(n, VAR);
  if (k == LOWER) {
    const auto v = vp_u16("lower");
    vp_assume(v < VAR);
    return node<dNode>(n, v);
  }
  return nullptr;
}
void mul(Kind kx, Kind ky, bool g, std::size_t idx) {
  nmade = 0;
  gen = g;
  IDX = idx;
  VAR = vp_u16("var");
  vp_assume(VAR < VAR_MAX);
  useNumbers();
  vp_replace("dd::Package::multiply2<", vp_fn(mulDensity));
  vp_replace("dd::Package::add2<", vp_fn(addDensity));
  vp_replace("dd::Package::makeDDNode<", vp_fn(makeDensity));
  vp_replace("^dd::ComputeTable<.*::lookup\\(", vp_fn(lookupDensity));
  vp_replace("^dd::ComputeTable<.*::insert\\(", vp_fn(insertDensity));
  vp_replace("^dd::dNode::applyDmChangesToNode\\(", vp_fn(applyMul));
  vp_replace("^dd::dNode::revertDmChangesToNode\\(", vp_fn(revertMul));
  auto& pk = package();
  SX.node = operandD("x", kx);
  SY.node = operandD("y", ky);
  SX.at = kx == AT;
  SY.at = ky == AT;
  if (kx != IDENT && ky != IDENT) vp_assume_nc(SX.node != SY.node); // squares of one node: native check
  SX.tags = vp_choose("x modified", 2) == 1;
  SY.tags = vp_choose("y modified", 2) == 1;
  flagsOf(SX, "xkid");
  flagsOf(SY, "ykid");
  const dEdge x{SX.node, weight("xw")}, y{SY.node, weight("yw")};
  const auto r = pk.multiply2<dNode, dNode>(x, y, VAR, gen);
  if (SX.node == nullptr && SY.node == nullptr) {
    vp_assert(r.p == nullptr, "a multiple of the identity");
    eqc(cx(r.w), cx(x.w) * cx(y.w), "the product of multiples of the identity");
    vp_cover("multiply");
    return;
  }
  eqc(cx(r.w) * unfoldR(r.p, VAR, idx), cx(x.w) * cx(y.w) * productSpec(), "the product is the matrix product");
  if (SX.node != nullptr) vp_assert(!vp_known(r.p == SX.node) || !vp_known(cx(r.w).re != 0), "operands do not become part of the result");
  for (auto* s : {&SX, &SY})
    for (std::size_t i = 0; i < 4; i++) vp_assert(!s->applied[i], "all modifications made are reverted");
  vp_cover("multiply");
}
} // namespace
#define MD(K, X, Y)                                                                                                    \
  VP_HARNESS H_mul_##K##0() { mul(X, Y, false, 0); }                                                                   \
  VP_HARNESS H_mul_##K##1() { mul(X, Y, false, 1); }                                                                   \
  VP_HARNESS H_mul_##K##2() { mul(X, Y, false, 2); }                                                                   \
  VP_HARNESS H_mul_##K##3() { mul(X, Y, false, 3); }                                                                   \
  VP_HARNESS H_gen_##K##0() { mul(X, Y, true, 0); }                                                                    \
  VP_HARNESS H_gen_##K##1() { mul(X, Y, true, 1); }                                                                    \
  VP_HARNESS H_gen_##K##3() { mul(X, Y, true, 3); }
MD(at_at, AT, AT)
MD(at_low, AT, LOWER)
MD(at_id, AT, IDENT)
MD(low_at, LOWER, AT)
MD(low_low, LOWER, LOWER)
MD(low_id, LOWER, IDENT)
MD(id_at, IDENT, AT)
MD(id_low, IDENT, LOWER)
VP_HARNESS H_mul_id_id() { mul(IDENT, IDENT, false, 0); }
VP_HARNESS H_gen_id_id() { mul(IDENT, IDENT, true, 0); }

// ---- sums
namespace {
Cx den(const Side& s, U64 p, Cx w) {
  if (!s.at) return L(ptr(p));
  for (std::size_t i = 0; i < 4; i++)
    if (current(s, p, i)) return L(ptr(s.den[i]));
  vp_assert((w.re == 0) & (w.im == 0), "only blocks of the operands are added, with their modifications applied");
  return {0, 0};
}
dCachedEdge addDens(Package*, const dCachedEdge& x, const dCachedEdge& y, const Qubit v) {
  vp_assert(v == static_cast<Qubit>(VAR - 1), "the recursion goes exactly one level down");
  return below<dNode>("sum", cx(x.w) * den(SX, id(x.p), cx(x.w)) + cx(y.w) * den(SY, id(y.p), cx(y.w)));
}
Cx blk(const Side& s, std::size_t i) {
  if (s.at) return cx(s.node->e[i].w) * L(ptr(s.den[i])); // read late: what is known about zero weights applies
  return i == 0 || i == 3 ? L(s.node) : Cx{0, 0};
}
dCachedEdge makeSum(Package*, const Qubit v, const std::array<dCachedEdge, 4>& e, bool) {
  vp_assert(v == VAR, "the result node is created at the current level");
  const Cx w{vp_double("madew"), vp_double("madew")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = vp_u64("made");
  for (std::size_t i = 0; i < 4; i++) m.d[i] = (cx(e[i].w) * L(e[i].p)) / w;
  return {ptr(m.p), ComplexValue{w.re, w.im}};
}
dCachedEdge addX, addY;
const dCachedEdge* addLookup(void*, const dCachedEdge& x, const dCachedEdge& y) {
  vp_assert((x.p == SX.node) & (y.p == SY.node), "the table is asked for the operands");
  if (vp_choose("hit", 2) == 0) return nullptr;
  const Cx w{vp_double("cachedw"), vp_double("cachedw")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = vp_u64("cached");
  for (std::size_t i = 0; i < 4; i++) m.d[i] = (cx(x.w) * blk(SX, i) + cx(y.w) * blk(SY, i)) / w;
  cachedDensity = {ptr(m.p), ComplexValue{w.re, w.im}};
  return &cachedDensity;
}
void addInsert(void*, const dCachedEdge& x, const dCachedEdge& y, const dCachedEdge& r) {
  vp_assert((x.p == SX.node) & (y.p == SY.node), "the result is stored under its operands");
  for (std::size_t i = 0; i < 4; i++)
    eqc(cx(r.w) * unfoldR(r.p, VAR, i), cx(x.w) * blk(SX, i) + cx(y.w) * blk(SY, i), "the stored result is the sum of its key");
}
void addRun(Kind kx, Kind ky, bool tx = true, bool ty = true) {
  nmade = 0;
  VAR = vp_u16("var");
  vp_assume(VAR < VAR_MAX);
  useNumbers();
  vp_replace("dd::Package::add2<", vp_fn(addDens));
  vp_replace("dd::Package::makeDDNode<", vp_fn(makeSum));
  vp_replace("^dd::ComputeTable<.*::lookup\\(", vp_fn(addLookup));
  vp_replace("^dd::ComputeTable<.*::insert\\(", vp_fn(addInsert));
  vp_replace("^dd::dNode::applyDmChangesToNode\\(", vp_fn(applyMul));
  vp_replace("^dd::dNode::revertDmChangesToNode\\(", vp_fn(revertMul));
  auto& pk = package();
  SX.node = operandD("x", kx);
  SY.node = operandD("y", ky);
  SX.at = kx == AT;
  SY.at = ky == AT;
  if (kx != IDENT && ky != IDENT) vp_assume_nc(SX.node != SY.node);
  SX.tags = SX.at && tx;
  SY.tags = SY.at && ty;
  flagsOf(SX, "xkid");
  flagsOf(SY, "ykid");
  addX = arbitrary("x");
  addY = arbitrary("y");
  addX.p = SX.node;
  addY.p = SY.node;
  const auto r = pk.add2(addX, addY, VAR);
  for (std::size_t i = 0; i < 4; i++) {
    const Cx want = cx(addX.w) * blk(SX, i) + cx(addY.w) * blk(SY, i);
    if (id(r.p) == id(SX.node) && (kx != IDENT || ky == IDENT) && nmade == 0)
      eqc(cx(r.w) * blk(SX, i), want, "the sum is pointwise");
    else if (nmade == 0 && id(r.p) == id(SY.node))
      eqc(cx(r.w) * blk(SY, i), want, "the sum is pointwise");
    else
      eqc(cx(r.w) * unfoldR(r.p, VAR, i), want, "the sum is pointwise");
  }
  for (auto* s : {&SX, &SY})
    for (std::size_t i = 0; i < 4; i++) vp_assert(!s->applied[i], "all modifications made are reverted");
  vp_cover("add");
}
} // namespace
VP_HARNESS H_add_atat_mod() { addRun(AT, AT, true, true); }
VP_HARNESS H_add_atat_left() { addRun(AT, AT, true, false); }
VP_HARNESS H_add_atat_right() { addRun(AT, AT, false, true); }
VP_HARNESS H_add_atat_none() { addRun(AT, AT, false, false); }
VP_HARNESS H_add_atlow() { addRun(AT, LOWER); }
VP_HARNESS H_add_atlow_none() { addRun(AT, LOWER, false); }
VP_HARNESS H_add_atid() { addRun(AT, IDENT); }
VP_HARNESS H_add_atid_none() { addRun(AT, IDENT, false); }
VP_HARNESS H_add_lowat() { addRun(LOWER, AT); }
VP_HARNESS H_add_lowat_none() { addRun(LOWER, AT, true, false); }
VP_HARNESS H_add_lowlow() { addRun(LOWER, LOWER); }
VP_HARNESS H_add_lowid() { addRun(LOWER, IDENT); }
VP_HARNESS H_add_idat() { addRun(IDENT, AT); }
VP_HARNESS H_add_idat_none() { addRun(IDENT, AT, true, false); }
VP_HARNESS H_add_idlow() { addRun(IDENT, LOWER); }
VP_HARNESS H_add_idid() { addRun(IDENT, IDENT); }

// ---- products: the entry point
namespace {
dNode *topX, *topY;
U64 topXt, topYt, topR;
Cx topWx, topWy, topWr;
int appliedX, appliedY; // number of open modifications
bool topGen;
bool applyT(dNode*& p) {
  if (topX != nullptr && vp_known(id(p) == topXt)) {
    p = topX;
    appliedX++;
    return true;
  }
  if (topY != nullptr && vp_known(id(p) == topYt)) {
    p = topY;
    appliedY++;
    return true;
  }
  return false;
}
void revertT(dNode*& p) {
  if (topX != nullptr && vp_known(p == topX)) appliedX--;
  if (topY != nullptr && vp_known(p == topY)) appliedY--;
}
dCachedEdge mulTop(Package*, const dEdge& x, const dEdge& y, const Qubit v, bool g) {
  vp_assert((x.p == topX) & (y.p == topY), "the operands are passed on");
  vp_assert((appliedX == (topX != nullptr)) & (appliedY == (topY != nullptr)), "their modifications are applied");
  eqc(cx(x.w), topWx, "the left weight is passed on");
  eqc(cx(y.w), topWy, "the right weight is passed on");
  vp_assert(v == VAR, "the recursion starts at the highest level of the operands");
  vp_assert(g == topGen, "the kind of result is passed on");
  topR = vp_u64("r");
  topWr = {vp_double("rw"), vp_double("rw")};
  return {ptr(topR), ComplexValue{topWr.re, topWr.im}};
}
void mulEntry(bool tx, bool ty) {
  useNumbers();
  vp_replace("dd::Package::multiply2<", vp_fn(mulTop));
  vp_replace("^dd::dNode::applyDmChangesToNode\\(", vp_fn(applyT));
  vp_replace("^dd::dNode::revertDmChangesToNode\\(", vp_fn(revertT));
  auto& pk = package();
  Qubit a = 0, b = 0;
  topX = topY = nullptr;
  topXt = topYt = 0;
  appliedX = appliedY = 0;
  if (!tx) {
    a = vp_u16("a");
    topX = node<dNode>("x", a);
    topXt = vp_u64("tagged x");
  }
  if (!ty) {
    b = vp_u16("b");
    topY = node<dNode>("y", b);
    topYt = vp_u64("tagged y");
    if (!tx) vp_assume_nc(topX != topY);
  }
  VAR = a > b ? a : b;
  topGen = vp_choose("density", 2) == 1;
  const dEdge x{ptr(topXt), weight("xw")}, y{ptr(topYt), weight("yw")};
  topWx = cx(x.w);
  topWy = cx(y.w);
  const auto r = pk.multiply(x, y, topGen);
  vp_assert((id(r.p) == topR) | ((topWr.re == 0) & (topWr.im == 0)), "the node of the product is returned");
  eqc(cx(r.w), topWr, "the weight of the product is returned");
  vp_assert((appliedX == 0) & (appliedY == 0), "all modifications made are reverted");
  vp_cover("top");
}
} // namespace
VP_HARNESS H_top() { mulEntry(false, false); }
VP_HARNESS H_top_id() { mulEntry(false, true); }
VP_HARNESS H_id_top() { mulEntry(true, false); }
VP_HARNESS H_id_id() { mulEntry(true, true); }

// ---------------------------------------------------------------- traces of density matrices
namespace {
constexpr std::size_t NQ = 3;
bool elim[NQ];
Qubit trV;
bool trAll;
dNode* trX;
// (partial) trace of the levels below n of the diagram p
Cx TR(const dNode* p, std::size_t n) { return {vp_ufr_2_0("TRre", id(p), n), vp_ufr_2_0("TRim", id(p), n)}; }
Cx trKid(std::size_t i) { return cx(trX->e[i].w) * TR(trX->e[i].p, trV); }
dCachedEdge trStub(Package*, const dEdge& a, const std::vector<bool>& el, std::size_t level) {
  vp_assert(level == trV, "the recursion continues right below the node");
  bool same = el.size() == NQ;
  for (std::size_t i = 0; i < NQ; i++) same = same & (el[i] == elim[i]);
  vp_assert(same, "the eliminated qubits are passed on");
  const Cx v = cx(a.w) * TR(a.p, trV);
  if (vp_choose("zero", 2) == 1) {
    zeroC(cx(a.w));
    return dCachedEdge::zero();
  }
  return below<dNode>("tr", v);
}
dCachedEdge trAdd(Package*, const dCachedEdge& x, const dCachedEdge& y, const Qubit) {
  return below<dNode>("sum", cx(x.w) * L(x.p) + cx(y.w) * L(y.p));
}
dCachedEdge trMake(Package*, const Qubit v, const std::array<dCachedEdge, 4>& e, bool) {
  Qubit k = 0;
  for (std::size_t i = 0; i < NQ; i++)
    if (i < trV && !elim[i]) k++;
  vp_assert(v == k, "a kept qubit moves down by the eliminated ones below it");
  const Cx w{vp_double("madew"), vp_double("madew")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = vp_u64("made");
  for (std::size_t i = 0; i < 4; i++) m.d[i] = (cx(e[i].w) * L(e[i].p)) / w;
  return {ptr(m.p), ComplexValue{w.re, w.im}};
}
dCachedEdge* trLookup(void*, dNode* const& x) {
  vp_assert(x == trX, "the table is asked for the operand");
  vp_assert(trAll, "the table is used only if everything below is traced out");
  if (vp_choose("hit", 2) == 0) return nullptr;
  cachedDensity = below<dNode>("cached", trKid(0) + trKid(3));
  return &cachedDensity;
}
void trInsert(void*, dNode* const& x, const dCachedEdge& r) {
  vp_assert(x == trX, "the result is stored under its operand");
  vp_assert(trAll, "the table is used only if everything below is traced out");
  eqc(cx(r.w) * L(r.p), trKid(0) + trKid(3), "the stored trace belongs to its key");
}
constexpr const char* TRACE_REC = "^dd::CachedEdge<dd::dNode> dd::Package::trace<dd::dNode>\\(dd::Edge<dd::dNode> const&, std::vector<bool, std::allocator<bool> > const&, unsigned long\\)$";
template <int V> void traceAt() {
  nmade = 0;
  vp_bounded("trace: 3 qubits (every subset of eliminated qubits, every level)");
  useNumbers();
  vp_replace(TRACE_REC, vp_fn(trStub));
  vp_replace("dd::Package::add2<", vp_fn(trAdd));
  vp_replace("dd::Package::makeDDNode<", vp_fn(trMake));
  vp_replace("^dd::UnaryComputeTable<.*::lookup\\(", vp_fn(trLookup));
  vp_replace("^dd::UnaryComputeTable<.*::insert\\(", vp_fn(trInsert));
  auto& pk = package();
  const auto mask = vp_choose("eliminate", 1U << NQ);
  std::vector<bool> el(NQ);
  for (std::size_t i = 0; i < NQ; i++) {
    elim[i] = ((mask >> i) & 1) != 0;
    el[i] = elim[i];
  }
  trV = V;
  const std::size_t level = V + 1 + vp_choose("skipped", NQ - V);
  double factor = 1;
  for (std::size_t i = V + 1; i < level; i++)
    if (elim[i]) factor *= 2;
  trAll = true;
  bool none = true;
  for (std::size_t i = 0; i <= V; i++) {
    trAll = trAll && elim[i];
    none = none && !elim[i];
  }
  trX = node<dNode>("x", trV);
  const dEdge a{trX, weight("w")};
  if (none)
    for (std::size_t i = 0; i < 4; i++) {
      const auto k = id(a.p->e[i].p);
      vp_assume_eq(vp_ufr_2_0("TRre", k, trV), vp_ufr_1_0("Lre", k));
      vp_assume_eq(vp_ufr_2_0("TRim", k, trV), vp_ufr_1_0("Lim", k));
    }
  const auto r = pk.trace(a, el, level);
  const Cx w = factor * cx(a.w);
  if (elim[V]) {
    eqc(cx(r.w) * L(r.p), w * (trKid(0) + trKid(3)), "an eliminated qubit is summed over its diagonal blocks");
  } else {
    Qubit k = 0;
    for (std::size_t i = 0; i < V; i++)
      if (!elim[i]) k++;
    for (std::size_t i = 0; i < 4; i++) eqc(cx(r.w) * unfoldR(r.p, none ? trV : k, i), w * trKid(i), "a kept qubit keeps its blocks");
  }
  vp_cover("trace");
}
} // namespace
VP_HARNESS H_trace_0() { traceAt<0>(); }
VP_HARNESS H_trace_1() { traceAt<1>(); }
VP_HARNESS H_trace_2() { traceAt<2>(); }
VP_HARNESS H_trace_id() {
  vp_bounded("trace: 3 qubits (every subset of eliminated qubits, every level)");
  useNumbers();
  auto& pk = package();
  const auto mask = vp_choose("eliminate", 1U << NQ);
  std::vector<bool> el(NQ);
  for (std::size_t i = 0; i < NQ; i++) el[i] = ((mask >> i) & 1) != 0;
  const dEdge a{nullptr, weight("w")};
  const std::size_t level = vp_choose("level", NQ + 1);
  double factor = 1;
  for (std::size_t i = 0; i < level; i++)
    if (el[i]) factor *= 2;
  const auto r = pk.trace(a, el, level);
  eqc(cx(r.w), factor * cx(a.w), "the trace of a multiple of the identity");
  vp_assert(r.p == nullptr, "the trace of the identity is a multiple of the identity");
  vp_cover("identity");
}
namespace {
dEdge ttA;
std::size_t ttN;
Cx ttW;
dCachedEdge trTop(Package*, const dEdge& a, const std::vector<bool>& el, std::size_t level) {
  vp_assert((a.p == ttA.p) & (a.w.r == ttA.w.r) & (a.w.i == ttA.w.i), "the operand is passed on");
  vp_assert((level == ttN) & (el.size() == ttN), "all qubits are covered");
  for (std::size_t i = 0; i < el.size(); i++) vp_assert(el[i], "all qubits are traced out");
  ttW = {vp_double("rw"), vp_double("rw")};
  return {nullptr, ComplexValue{ttW.re, ttW.im}};
}
} // namespace
VP_HARNESS H_trace_entry() {
  vp_bounded("trace entry point: up to 4 qubits");
  useNumbers();
  vp_replace(TRACE_REC, vp_fn(trTop));
  ttN = 1 + vp_choose("n", 4);
  ttA = dEdge{vp_choose("terminal", 2) == 1 ? nullptr : node<dNode>("a", vp_u16("v")), weight("w")};
  auto& pk = package();
  eqc(cx(pk.trace(ttA, ttN)), ttW, "the full trace is returned");
  vp_cover("full trace");
}

// ---------------------------------------------------------------- measuring a density matrix
namespace {
dNode* mNode0; // the node of the density matrix
Complex mW;
Qubit mIdx;
std::size_t mQubits;
int ntr;
Cx trE, trP[2];          // traces of the operand and of the projected matrices (unnormalised)
U64 gateP[2], adjP[2], halfP[2], projP[2];
Complex projW[2];
double mU;
bool drawn;
int mRefs;
bool outcomes[2];
bool isMat(const GateMatrix& g, int o) {
  bool r = true;
  for (std::size_t i = 0; i < 4; i++) r = r & (g[i].real() == ((i == 0 && o == 0) || (i == 3 && o == 1) ? 1.0 : 0.0)) & (g[i].imag() == 0);
  return r;
}
mEdge gateM(Package*, const GateMatrix& g, Qubit t, bool) {
  vp_assert(t == mIdx, "the measured qubit is projected");
  const int o = vp_decide(isMat(g, 1)) ? 1 : 0;
  vp_assert(isMat(g, o), "projectors onto the outcomes are used");
  return {reinterpret_cast<mNode*>(gateP[o]), Complex::one()};
}
mEdge adjointM(Package*, const mEdge& e) {
  for (int o = 0; o < 2; o++)
    if (vp_known(id(e.p) == gateP[o])) return {reinterpret_cast<mNode*>(adjP[o]), e.w};
  vp_assert(false, "the projector is transposed");
  return e;
}
U64 tagOf(const dNode* p) { return id(p); }
dEdge mulM(Package*, const dEdge& x, const dEdge& y, bool g) {
  for (int o = 0; o < 2; o++) {
    // projectors are self-adjoint
    const bool rightP = vp_known(id(y.p) == adjP[o]) || vp_known(id(y.p) == gateP[o]);
    const bool leftP = vp_known(id(x.p) == gateP[o]) || vp_known(id(x.p) == adjP[o]);
    if (rightP && vp_known(id(x.p) == (id(mNode0) | 4))) {
      vp_assert(!g, "the intermediate result is no density matrix");
      eqc(cx(x.w), cx(mW), "the density matrix is projected");
      eqc(cx(y.w), Cx{1, 0}, "the density matrix is projected");
      return {ptr(halfP[o]), Complex::one()};
    }
    if (leftP && vp_known(id(y.p) == halfP[o])) {
      vp_assert(g, "the result is a density matrix");
      return {ptr(projP[o]), projW[o]};
    }
  }
  vp_assert(false, "the density matrix is projected from both sides");
  return x;
}
ComplexValue trM(Package*, const dEdge& a, std::size_t n) {
  if (ntr++ == 0) mQubits = n;
  vp_assert(n == mQubits, "all traces cover the same qubits");
  vp_assert((n > mIdx) & (mNode0 == nullptr || n > mNode0->v), "the traces cover all qubits of the matrix");
  if (vp_known(a.p == mNode0)) return ComplexValue{trE.re, trE.im};
  for (int o = 0; o < 2; o++)
    if (vp_known(id(a.p) == projP[o])) return ComplexValue{trP[o].re, trP[o].im};
  vp_assert(false, "the traces of the matrix and its projections are used");
  return ComplexValue{0, 0};
}
using MT = std::mt19937_64;
double drawM(void*, MT&) {
  vp_assert(!drawn, "one random number decides");
  drawn = true;
  return mU;
}
void incM(Package*, const dEdge& e) {
  for (int o = 0; o < 2; o++)
    if (vp_known(id(e.p) == projP[o])) {
      vp_assert(mRefs == 0, "the result is referenced once");
      vp_assert((e.w.r == projW[o].r) & (e.w.i == projW[o].i), "the result is referenced");
      mRefs = 1 + o;
      return;
    }
  vp_assert(false, "the result is referenced");
}
void decM(Package*, const dEdge& e) {
  vp_assert(mRefs > 0, "the result is referenced before the operand is released");
  vp_assert((e.p == mNode0) & (e.w.r == mW.r) & (e.w.i == mW.i), "the operand is released");
  mRefs += 10;
}
int wDec, wInc;
Complex wNow;
void decW(ComplexNumbers*, const Complex& c) {
  const int o = mRefs % 10 - 1;
  vp_assert(mRefs > 10 && c.r == projW[o].r && c.i == projW[o].i, "the weight that is replaced is released");
  wDec++;
}
void incW(ComplexNumbers*, const Complex& c) {
  wNow = c;
  wInc++;
}
void measureD(bool terminal) {
  useNumbers();
  vp_replace("^dd::Package::makeGateDD\\(std::array<std::complex<double>, 4ul> const&, unsigned int\\)$", vp_fn(+[](Package* k, const GateMatrix& g, qc::Qubit t) { return gateM(k, g, static_cast<Qubit>(t), false); }));
  vp_replace("^dd::Package::conjugateTranspose\\(", vp_fn(adjointM));
  vp_replace("^dd::Edge<dd::dNode> dd::Package::multiply<dd::dNode, dd::dNode>", vp_fn(mulM));
  vp_replace("^dd::ComplexValue dd::Package::trace<dd::dNode>", vp_fn(trM));
  vp_replace("^double std::uniform_real_distribution<double>::operator\\(\\).*>&\\)$", vp_fn(drawM));
  vp_replace("^void dd::Package::incRef<dd::dNode>", vp_fn(incM));
  vp_replace("^void dd::Package::decRef<dd::dNode>", vp_fn(decM));
  vp_replace("^dd::ComplexNumbers::incRef\\(", vp_fn(incW));
  vp_replace("^dd::ComplexNumbers::decRef\\(", vp_fn(decW));
  auto& pk = package();
  mIdx = vp_u16("index");
  vp_assume(mIdx < VAR_MAX);
  mNode0 = nullptr;
  if (!terminal) {
    mNode0 = node<dNode>("rho", vp_u16("v"));
    vp_assume(mNode0->v < VAR_MAX);
  }
  mW = weight("w");
  for (int o = 0; o < 2; o++) {
    gateP[o] = vp_u64("gate");
    adjP[o] = vp_u64("adjoint");
    halfP[o] = vp_u64("half");
    projP[o] = vp_u64("projected");
    vp_assume((projP[o] & 7U) == 0);
    projW[o] = weight("pw");
    trP[o] = {vp_double("tr"), 0}; // density matrices are Hermitian and positive
    vp_assume(trP[o].re >= 0);
  }
  trE = {trP[0].re + trP[1].re, 0}; // the projectors sum up to the identity
  vp_assume(trE.re > 0);
  mU = vp_double("u");
  vp_assume((mU >= 0) & (mU < 1));
  ntr = 0;
  drawn = false;
  mRefs = 0;
  wDec = wInc = 0;
  dEdge e{ptr(id(mNode0) | 4), mW};
  auto& mt = *static_cast<MT*>(vp_alloc_sym(sizeof(MT), "generator"));
  const char r = pk.measureOneCollapsing(e, mIdx, mt);
  vp_assert(drawn, "the outcome is random");
  vp_assert((r == '0') | (r == '1'), "the outcome is 0 or 1");
  const int o = r == '1' ? 1 : 0;
  const double p0 = trP[0].re / trE.re;
  vp_assert((o == 0) == (mU < p0), "outcome 0 has probability tr(P0 rho) / tr(rho)");
  vp_assert(id(e.p) == (projP[o] | 4), "the matrix is projected onto the outcome");
  const double po = trP[o].re / trE.re;
  const Cx c = cx(e.w), pw = cx(projW[o]);
  eqc(po * c, pw, "the projected matrix is normalised by the probability of the outcome");
  vp_assert(mRefs == 11 + o, "the result replaces the operand in the reference counts");
  vp_assert((wDec == 1) & (wInc == 1) & (wNow.r == e.w.r) & (wNow.i == e.w.i), "the new weight is referenced instead of the old one");
  vp_cover("measured");
}
} // namespace
VP_HARNESS H_measure() { measureD(false); }
VP_HARNESS H_measure_mixed() { measureD(true); }

// ---------------------------------------------------------------- stochastic noise
namespace {
StochasticNoiseFunctionality* SN;
double sP, sA, sF;
int sRefs;
StochasticNoiseFunctionality& stochastic(const char* effects) {
  useNumbers();
  vp_replace_opt("^void dd::Package::incRef<dd::mNode>", vp_fn(+[](Package*, const mEdge&) { sRefs++; }));
  sP = vp_double("p");
  sA = vp_double("a");
  sF = vp_double("factor");
  vp_assume((sP >= 0) & (sA >= 0) & (sF >= 1) & (sP * sF <= 1) & (sA * sF <= 1));
  sRefs = 0;
  SN = static_cast<StochasticNoiseFunctionality*>(vp_alloc_sym(sizeof(StochasticNoiseFunctionality), "stochastic"));
  new (SN) StochasticNoiseFunctionality(package(), 5, sP, sA, sF, effects);
  return *SN;
}
Cx at(const GateMatrix& m, std::size_t i) { return {m[i].real(), m[i].imag()}; }
bool isPauli(const GateMatrix& m, qc::OpType t) {
  const double re[3][4] = {{0, 1, 1, 0}, {0, 0, 0, 0}, {1, 0, 0, -1}}, im[3][4] = {{0, 0, 0, 0}, {0, -1, 1, 0}, {0, 0, 0, 0}};
  const int k = t == qc::X ? 0 : t == qc::Y ? 1 : 2;
  bool r = true;
  for (std::size_t i = 0; i < 4; i++) r = r & (m[i].real() == re[k][i]) & (m[i].imag() == im[k][i]);
  return r;
}
} // namespace
VP_HARNESS H_kraus() {
  auto& f = stochastic("APD");
  vp_assert(sRefs == 1, "the identity is referenced");
  for (const bool multi : {false, true}) {
    const double a = multi ? sA * sF : sA;
    const auto k1 = f.getAmplitudeDampingOperationMatrix(multi, true), k0 = f.getAmplitudeDampingOperationMatrix(multi, false);
    // K0 = diag(1, sqrt(1-a)), K1 = sqrt(a) |0><1|, hence K0^+ K0 + K1^+ K1 = 1
    for (std::size_t r = 0; r < 2; r++)
      for (std::size_t c = 0; c < 2; c++) {
        Cx s{0, 0};
        for (std::size_t k = 0; k < 2; k++) s = s + conj(at(k0, 2 * k + r)) * at(k0, 2 * k + c) + conj(at(k1, 2 * k + r)) * at(k1, 2 * k + c);
        eqc(s, Cx{r == c ? 1.0 : 0.0, 0}, "the two alternatives of amplitude damping are complementary");
      }
    eqc(at(k1, 1) * conj(at(k1, 1)), Cx{a, 0}, "an excitation is lost with the given probability");
    for (const std::size_t i : {0U, 2U, 3U}) eqc(at(k1, i), Cx{0, 0}, "losing an excitation ends in the ground state");
    eqc(at(k0, 0), Cx{1, 0}, "the ground state is kept");
    vp_assert_eq(f.getNoiseProbability(multi), multi ? sP * sF : sP, "the probability depends on the number of qubits");
  }
  vp_cover("kraus");
  vp_stop();
}
VP_HARNESS H_sample() {
  auto& f = stochastic("APD");
  const bool multi = vp_choose("multi", 2) == 1;
  const double q = multi ? sP * sF : sP;
  const double u = vp_double("u");
  vp_assume((u >= 0) & (u < 1) & (q > 0));
  // depolarisation: X, Y and Z with probability p/4 each
  const double s = vp_double("s"), t = vp_double("t");
  vp_assume((s > 0) & (s < q / 4) & (t > 0) & (t < q / 4));
  qc::OpType o[3];
  bool same = true;
  for (int k = 0; k < 3; k++) {
    o[k] = f.returnNoiseOperation(Depolarization, s + k * q / 4, multi);
    same = same & (o[k] == f.returnNoiseOperation(Depolarization, t + k * q / 4, multi));
  }
  vp_assert(same, "each Pauli operation has an interval of a quarter of the probability");
  bool x = false, y = false, z = false;
  for (const auto& k : o) {
    x = x | (k == qc::X);
    y = y | (k == qc::Y);
    z = z | (k == qc::Z);
  }
  vp_assert(x & y & z, "depolarisation applies each Pauli operation with a quarter of the probability");
  if (u > q * 3 / 4) vp_assert(f.returnNoiseOperation(Depolarization, u, multi) == qc::I, "otherwise nothing happens");
  const auto w = f.returnNoiseOperation(PhaseFlip, u, multi);
  if (u < q) vp_assert(w == qc::Z, "a phase flip happens with the given probability");
  if (u > q) vp_assert(w == qc::I, "otherwise nothing happens");
  vp_assert(f.returnNoiseOperation(Identity, u, multi) == qc::I, "identity noise does nothing");
  vp_cover("sampled");
  vp_stop();
}
// the cache only answers for gates that depend on nothing but their name
namespace {
U64 sGate, sCached, sOp, sOut;
bool sMade, sIns;
qc::OpType sEff;
GateMatrix sMat;
mEdge sStored;
mEdge gateS(Package*, const GateMatrix& m, qc::Qubit t) {
  vp_assert(t == 3, "noise acts on the given qubit");
  for (std::size_t i = 0; i < 4; i++) eqc(at(m, i), at(sMat, i), "noise uses the given matrix");
  sMade = true;
  return {reinterpret_cast<mNode*>(sGate), Complex::one()};
}
mEdge mulS(Package*, const mEdge& x, const mEdge& y, bool) {
  vp_assert((sMade && id(x.p) == sGate) || (!sMade && id(x.p) == sCached), "the noise gate is applied");
  vp_assert(id(y.p) == sOp, "noise is applied after the operation");
  sOut = vp_u64("out");
  return {reinterpret_cast<mNode*>(sOut), Complex::one()};
}
mEdge* lookupS(void*, std::uint8_t k, qc::Qubit t) {
  vp_assert((k == sEff) & (t == 3), "the cache is asked for the operation");
  vp_assert((sEff == qc::X) | (sEff == qc::Y) | (sEff == qc::Z), "only operations without parameters are cached");
  if (vp_choose("hit", 2) == 0) return nullptr;
  sStored = {reinterpret_cast<mNode*>(sCached), Complex::one()};
  return &sStored;
}
void insertS(void*, std::uint8_t k, qc::Qubit t, const mEdge& r) {
  vp_assert((k == sEff) & (t == 3), "the gate is stored under its name");
  vp_assert((sEff == qc::X) | (sEff == qc::Y) | (sEff == qc::Z), "only operations without parameters are cached");
  vp_assert(sMade && id(r.p) == sGate, "the gate is stored");
  sIns = true;
}
} // namespace
VP_HARNESS H_stack() {
  auto& f = stochastic("APD");
  vp_replace("^dd::Package::makeGateDD\\(std::array<std::complex<double>, 4ul> const&, unsigned int\\)$", vp_fn(gateS));
  vp_replace("^dd::Edge<dd::mNode> dd::Package::multiply<dd::mNode, dd::mNode>", vp_fn(mulS));
  vp_replace("^dd::StochasticNoiseOperationTable<.*::lookup\\(", vp_fn(lookupS));
  vp_replace("^dd::StochasticNoiseOperationTable<.*::insert\\(", vp_fn(insertS));
  const qc::OpType all[] = {qc::X, qc::Y, qc::Z, qc::ATrue, qc::AFalse, qc::MultiATrue, qc::MultiAFalse};
  sEff = all[vp_choose("effect", std::size(all))];
  for (auto& x : sMat) x = {vp_double("m"), vp_double("m")};
  sGate = vp_u64("gate");
  sCached = vp_u64("cached");
  sOp = vp_u64("op");
  sMade = sIns = false;
  const auto r = f.stackOperation({reinterpret_cast<mNode*>(sOp), Complex::one()}, 3, sEff, sMat);
  vp_assert(id(r.p) == sOut, "the product is returned");
  vp_cover("stacked");
  vp_stop();
}
VP_HARNESS H_cache() {
  // the table: what was stored for an operation and a qubit, nothing for any other
  vp_bounded("noise table of 4 qubits and 5 operations, two stored operations");
  StochasticNoiseOperationTable<mEdge> t(4, 5);
  const auto k1 = static_cast<std::uint8_t>(vp_choose("k1", 5)), k2 = static_cast<std::uint8_t>(vp_choose("k2", 5));
  const qc::Qubit q1 = vp_choose("q1", 4), q2 = vp_choose("q2", 4);
  const mEdge e1{reinterpret_cast<mNode*>(vp_u64("e1")), Complex::one()}, e2{reinterpret_cast<mNode*>(vp_u64("e2")), Complex::one()};
  vp_assert(t.lookup(k1, q1) == nullptr, "an empty table has no entries");
  t.insert(k1, q1, e1);
  t.insert(k2, q2, e2);
  const auto* r2 = t.lookup(k2, q2);
  vp_assert(r2 != nullptr && r2->p == e2.p, "the stored operation is found");
  const auto* r1 = t.lookup(k1, q1);
  const bool same = k1 == k2 && q1 == q2;
  vp_assert(r1 != nullptr && r1->p == (same ? e2.p : e1.p), "the stored operation is found");
  const auto k3 = static_cast<std::uint8_t>((k1 + 1) % 5);
  if (!(k3 == k2 && q1 == q2)) vp_assert(t.lookup(k3, q1) == nullptr, "other operations are not found");
  t.clear();
  vp_assert(t.lookup(k1, q1) == nullptr && t.lookup(k2, q2) == nullptr, "clearing removes all entries");
  vp_cover("cache");
}
// which operations are stacked for one qubit
namespace {
std::size_t gDraws, gOps;
qc::OpType gType[4], gSampled[4];
std::size_t gNSampled;
NoiseOperations gAsked[4];
double gDrawn[4];
U64 gChain;
bool gMulti, gDamp;
MT* gGen;
double drawG(void*, MT& g) {
  vp_assert(&g == gGen, "the generator of the caller is used");
  gDrawn[gDraws] = vp_double("u");
  return gDrawn[gDraws++];
}
qc::OpType sampleG(const StochasticNoiseFunctionality*, NoiseOperations n, double u, bool multi) {
  vp_assert(gNSampled + 1 == gDraws && u == gDrawn[gNSampled], "every effect draws its own number");
  vp_assert(multi == gMulti, "the number of qubits is passed on");
  gAsked[gNSampled] = n;
  const qc::OpType all[] = {qc::I, qc::X, qc::Y, qc::Z};
  gSampled[gNSampled] = all[vp_choose("sample", 4)];
  return gSampled[gNSampled++];
}
mEdge stackG(const StochasticNoiseFunctionality* f, const mEdge& op, qc::Qubit t, qc::OpType e, const GateMatrix& m) {
  vp_assert(id(op.p) == gChain, "effects are applied one after the other");
  vp_assert(t == 3, "noise acts on the given qubit");
  if (e == qc::X || e == qc::Y || e == qc::Z) {
    vp_assert(isPauli(m, e), "the matrix belongs to the operation");
  } else {
    const auto w = f->getAmplitudeDampingOperationMatrix(gMulti, gDamp);
    for (std::size_t i = 0; i < 4; i++) eqc(at(m, i), at(w, i), "the alternative of amplitude damping is applied");
    e = qc::ATrue;
  }
  gType[gOps++] = e;
  gChain = vp_u64("stacked");
  return {reinterpret_cast<mNode*>(gChain), Complex::one()};
}
} // namespace
VP_HARNESS H_generate() {
  vp_bounded("noise configurations A, P, D, I, DA, PAD");
  const char* const conf[] = {"A", "P", "D", "I", "DA", "PAD"};
  const std::string effects = conf[vp_choose("effects", std::size(conf))];
  auto& f = stochastic(effects.c_str());
  vp_replace("^double std::uniform_real_distribution<double>::operator\\(\\).*>&\\)$", vp_fn(drawG));
  vp_replace("^dd::StochasticNoiseFunctionality::returnNoiseOperation\\(", vp_fn(sampleG));
  vp_replace("^dd::StochasticNoiseFunctionality::stackOperation\\(", vp_fn(stackG));
  gDraws = gOps = gNSampled = 0;
  gMulti = vp_choose("multi", 2) == 1;
  gDamp = vp_choose("damping", 2) == 1;
  gGen = static_cast<MT*>(vp_alloc_sym(sizeof(MT), "generator"));
  gChain = vp_u64("op");
  const auto r = f.generateNoiseOperation({reinterpret_cast<mNode*>(gChain), Complex::one()}, 3, *gGen, gDamp, gMulti);
  vp_assert(id(r.p) == gChain, "the stacked operation is returned");
  std::size_t k = 0, o = 0;
  for (const char c : effects) {
    if (c == 'A') {
      vp_assert(o < gOps && gType[o] == qc::ATrue, "amplitude damping is applied in its place");
      o++;
      continue;
    }
    vp_assert(k < gNSampled && gAsked[k] == (c == 'P' ? PhaseFlip : c == 'D' ? Depolarization : Identity), "the effects are sampled in order");
    if (k < gNSampled && gSampled[k] != qc::I) {
      vp_assert(o < gOps && gType[o] == gSampled[k], "the sampled operation is applied");
      o++;
    }
    k++;
  }
  vp_assert((o == gOps) & (k == gNSampled), "nothing else is applied");
  vp_cover("generated");
  vp_stop();
}
// one application of stochastic noise
namespace {
std::size_t aN, aT, aCalls;
qc::Qubit aQ[3];
U64 aOp, aIdent, aState, aKeep, aDamp, aTmpKeep, aTmpDamp;
Complex aWKeep, aWDamp, aStateW;
double aU;
bool aDrawn, aMul[2];
U64 aTok;
int aRef;
U64 aFinal;
U64& token(MT& g) { return *reinterpret_cast<U64*>(&g); }
void nextTarget() {
  aCalls = 0;
  aDrawn = aMul[0] = aMul[1] = false;
  aKeep = vp_u64("kept");
  aDamp = vp_u64("damped");
  aTmpKeep = vp_u64("state kept");
  aTmpDamp = vp_u64("state damped");
  aWKeep = weight("w");
  aWDamp = weight("w");
  aU = vp_double("u");
  aRef = 0;
}
mEdge generateA(StochasticNoiseFunctionality*, mEdge op, qc::Qubit t, MT& g, bool damp, bool multi) {
  if (aT < aN) vp_assert(t == aQ[aT], "noise acts on every qubit of the operation");
  vp_assert(multi == (aN > 1), "the number of qubits is passed on");
  if (aT == 0)
    vp_assert(id(op.p) == aOp, "the operation itself is applied first");
  else
    vp_assert(op.p == nullptr && op.w.exactlyOne(), "the operation itself is applied once");
  if (aCalls++ == 0)
    aTok = token(g);
  else
    vp_assert(token(g) == aTok, "both alternatives are based on the same samples");
  token(g) = vp_u64("state of the generator");
  return {reinterpret_cast<mNode*>(damp ? aDamp : aKeep), Complex::one()};
}
vEdge multiplyA(Package*, const mEdge& x, const vEdge& y, bool) {
  vp_assert(id(y.p) == aState, "noise acts on the state");
  eqc(cx(y.w), cx(aStateW), "noise acts on the state");
  if (vp_known(id(x.p) == aKeep)) {
    aMul[0] = true;
    return {reinterpret_cast<vNode*>(aTmpKeep), aWKeep};
  }
  vp_assert(id(x.p) == aDamp, "the stacked operation is applied");
  aMul[1] = true;
  return {reinterpret_cast<vNode*>(aTmpDamp), aWDamp};
}
double drawA(void*, MT&) {
  vp_assert(!aDrawn, "one random number decides");
  aDrawn = true;
  return aU;
}
void incA(Package*, const vEdge& e) {
  vp_assert(aRef == 0, "the new state is referenced once");
  aRef = 1;
  aFinal = id(e.p);
  vp_assert(e.w.r == &constants::one && e.w.i == &constants::zero, "the state is normalised");
}
void decA(Package*, const vEdge& e) {
  vp_assert(aRef == 1, "the new state is referenced before the old one is released");
  vp_assert(id(e.p) == aState && e.w.r == aStateW.r && e.w.i == aStateW.i, "the old state is released");
  const Cx w = cx(aWKeep);
  const bool keep = w.re * w.re + w.im * w.im >= aU;
  vp_assert(aDrawn, "the outcome is random");
  vp_assert(aFinal == (vp_decide(keep) ? aTmpKeep : aTmpDamp), "amplitude damping happens with its probability");
  aState = aFinal;
  aStateW = Complex::one();
  aT++;
  nextTarget();
}
} // namespace
VP_HARNESS H_apply() {
  vp_bounded("operations on 1 to 3 qubits");
  auto& f = stochastic("A");
  vp_replace("^dd::StochasticNoiseFunctionality::generateNoiseOperation\\(", vp_fn(generateA));
  vp_replace("^dd::Edge<dd::vNode> dd::Package::multiply<dd::mNode, dd::vNode>", vp_fn(multiplyA));
  vp_replace("^double std::uniform_real_distribution<double>::operator\\(\\).*>&\\)$", vp_fn(drawA));
  vp_replace("^void dd::Package::incRef<dd::vNode>", vp_fn(incA));
  vp_replace("^void dd::Package::decRef<dd::vNode>", vp_fn(decA));
  aN = 1 + vp_choose("targets", 3);
  std::set<qc::Qubit> targets;
  for (std::size_t i = 0; i < aN; i++) {
    aQ[i] = static_cast<qc::Qubit>(2 * i + 1);
    targets.insert(aQ[i]);
  }
  aOp = vp_u64("op");
  aState = vp_u64("state");
  aStateW = weight("w");
  aT = 0;
  nextTarget();
  vEdge s{reinterpret_cast<vNode*>(aState), aStateW};
  auto& mt = *static_cast<MT*>(vp_alloc_sym(sizeof(MT), "generator"));
  f.applyNoiseOperation(targets, {reinterpret_cast<mNode*>(aOp), Complex::one()}, s, mt);
  vp_assert(aT == aN, "noise acts on every qubit of the operation");
  vp_assert(id(s.p) == aState && s.w.r == &constants::one && s.w.i == &constants::zero, "the normalised state is returned");
  vp_cover("applied");
  vp_stop();
}
// ---------------------------------------------------------------- configuration
VP_HARNESS H_sanity() {
  const double p = vp_double("p"), a = vp_double("a"), m = vp_double("m");
  const bool valid = !((p < 0) | (a < 0) | (p * m > 1) | (a * m > 1));
  vp_replace_opt("^std::.*to_string\\(double\\)", vp_fn(+[](double) { return std::string(); }));
  bool thrown = false;
  try {
    sanityCheckOfNoiseProbabilities(p, a, m);
  } catch (const std::exception&) {
    thrown = true;
  }
  vp_assert(thrown == !valid, "probabilities outside of [0, 1] are rejected");
  vp_cover("sanity");
}
