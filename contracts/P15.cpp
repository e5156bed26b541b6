// @sources src/dd/Operations.cpp src/dd/statistics/TableStatistics.cpp src/dd/GateMatrixDefinitions.cpp src/dd/Package.cpp src/dd/Node.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp src/ir/operations/ClassicControlledOperation.cpp src/ir/operations/NonUnitaryOperation.cpp src/ir/operations/StandardOperation.cpp src/ir/operations/Operation.cpp src/ir/operations/OpType.cpp src/ir/Permutation.cpp /verif/contracts/rt.cpp
// @opts * {"timeout": 500, "steps": 30000000, "bvsplit": true}
// Contracts: measuring states, collapsing them, resetting qubits, acting on measured values.
#include "dd.hpp"
#include "dd/GateMatrixDefinitions.hpp"
#include "dd/Operations.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"

#include <memory>
#include <random>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
using namespace vpdd;
namespace {
using MT = std::mt19937_64;
MT& generator() { return *static_cast<MT*>(vp_alloc_sym(sizeof(MT), "generator")); }
constexpr const char* DRAW = "^double std::uniform_real_distribution<double>::operator\\(\\).*>&\\)$";
Complex weight(const char* n) { return {reinterpret_cast<RealNumber*>(vp_u64(n)), reinterpret_cast<RealNumber*>(vp_u64(n))}; }
vNode* vptr(U64 p) { return reinterpret_cast<vNode*>(p); }
double mag2(Cx c) { return c.re * c.re + c.im * c.im; }
void noText() { vp_replace_opt("^std::.*to_string\\(double\\)", vp_fn(+[](double) { return std::string(); })); }

// ---------------------------------------------------------------- one qubit
U64 oNode;
Complex oW;
Qubit oIdx;
double oP[2], oU;
int oDraws, oCollapse;
MT* oGen;
std::pair<fp, fp> probsO(Package*, const vEdge& e, Qubit i) {
  vp_assert((id(e.p) == oNode) & (e.w.r == oW.r) & (e.w.i == oW.i) & (i == oIdx), "the probabilities of the measured qubit are used");
  return {oP[0], oP[1]};
}
double drawO(void*, MT& g) {
  vp_assert(&g == oGen, "the generator of the caller is used");
  oDraws++;
  return oU;
}
void collapseO(Package*, vEdge& e, Qubit i, fp p, bool zero) {
  vp_assert((id(e.p) == oNode) & (e.w.r == oW.r) & (e.w.i == oW.i) & (i == oIdx), "the measured qubit is collapsed");
  vp_assert_eq(p, oP[zero ? 0 : 1], "the state is collapsed with the probability of the outcome");
  oCollapse += zero ? 1 : 2;
  e.p = vptr(vp_u64("collapsed"));
}
void oneQubit(bool normalised) {
  useNumbers();
  noText();
  vp_replace("^dd::Package::determineMeasurementProbabilities\\(", vp_fn(+[](const vEdge& e, Qubit i) { return probsO(nullptr, e, i); }));
  vp_replace("^dd::Package::performCollapsingMeasurement\\(", vp_fn(collapseO));
  vp_replace(DRAW, vp_fn(drawO));
  auto& pk = package();
  oNode = vp_u64("node");
  oW = weight("w");
  oIdx = vp_u16("index");
  for (auto& p : oP) {
    p = vp_double("p");
    vp_assume(p >= 0);
  }
  const double eps = vp_double("epsilon");
  vp_assume((eps >= 0) & (eps < 1));
  const double s = oP[0] + oP[1];
  if (normalised) {
    vp_assume((s - 1 <= eps) & (1 - s <= eps));
  } else {
    vp_assume((s - 1 > eps) | (1 - s > eps));
  }
  oU = vp_double("u");
  vp_assume((oU >= 0) & (oU < 1));
  oDraws = oCollapse = 0;
  oGen = &generator();
  vEdge e{vptr(oNode), oW};
  char r = 0;
  bool threw = false;
  try {
    r = pk.measureOneCollapsing(e, oIdx, *oGen, eps);
  } catch (const std::runtime_error&) {
    threw = true;
  }
  vp_assert(threw == !normalised, "states that are not normalised are rejected");
  if (threw) {
    vp_assert(oCollapse == 0 && oDraws == 0, "a rejected state is left alone");
    vp_assert((id(e.p) == oNode) & (e.w.r == oW.r) & (e.w.i == oW.i), "a rejected state is left alone");
  } else {
    vp_assert(oDraws == 1, "one random number decides");
    vp_assert((r == '0') | (r == '1'), "the outcome is 0 or 1");
    vp_assert((r == '0') == (oU * s < oP[0]), "outcome 0 has its probability");
    vp_assert(oCollapse == (r == '0' ? 1 : 2), "the state is collapsed once, to the outcome that is reported");
  }
  vp_cover("measured");
}
} // namespace
VP_HARNESS H_one() { oneQubit(true); }
VP_HARNESS H_one_invalid() { oneQubit(false); }

// ---------------------------------------------------------------- collapse
namespace {
U64 cGate, cProj;
Complex cProjW;
int cRefs;
bool cZero;
mEdge gateC(Package*, const GateMatrix& g, qc::Qubit t) {
  vp_assert(t == oIdx, "the measured qubit is projected");
  for (std::size_t i = 0; i < 4; i++) {
    vp_assert_eq(g[i].real(), i == (cZero ? 0U : 3U) ? 1.0 : 0.0, "the projector onto the outcome is used");
    vp_assert_eq(g[i].imag(), 0, "the projector onto the outcome is used");
  }
  return {reinterpret_cast<mNode*>(cGate), Complex::one()};
}
vEdge mulC(Package*, const mEdge& x, const vEdge& y, bool) {
  vp_assert((id(x.p) == cGate) & (id(y.p) == oNode) & (y.w.r == oW.r) & (y.w.i == oW.i), "the state is projected");
  return {vptr(cProj), cProjW};
}
Complex cNew;
void incC(Package*, const vEdge& e) {
  vp_assert(cRefs == 0 && id(e.p) == cProj, "the result is referenced once");
  cNew = e.w;
  cRefs = 1;
}
void decC(Package*, const vEdge& e) {
  vp_assert(cRefs == 1, "the result is referenced before the operand is released");
  vp_assert((id(e.p) == oNode) & (e.w.r == oW.r) & (e.w.i == oW.i), "the operand is released");
  cRefs = 2;
}
} // namespace
VP_HARNESS H_collapse() {
  useNumbers();
  vp_replace("^dd::Package::makeGateDD\\(std::array<std::complex<double>, 4ul> const&, unsigned int\\)$", vp_fn(gateC));
  vp_replace("^dd::Edge<dd::vNode> dd::Package::multiply<dd::mNode, dd::vNode>", vp_fn(mulC));
  vp_replace("^void dd::Package::incRef<dd::vNode>", vp_fn(incC));
  vp_replace("^void dd::Package::decRef<dd::vNode>", vp_fn(decC));
  auto& pk = package();
  oNode = vp_u64("node");
  oW = weight("w");
  oIdx = vp_u16("index");
  cGate = vp_u64("gate");
  cProj = vp_u64("projected");
  cProjW = weight("pw");
  cRefs = 0;
  cZero = vp_choose("outcome", 2) == 0;
  const double p = vp_double("p");
  vp_assume(p > 0);
  vEdge e{vptr(oNode), oW};
  pk.performCollapsingMeasurement(e, oIdx, p, cZero);
  vp_assert(id(e.p) == cProj, "the state is the projection onto the outcome");
  const Cx a = cx(e.w), b = cx(cProjW);
  const double s = std::sqrt(p);
  eqc({a.re * s, a.im * s}, b, "the projection is divided by the root of its probability");
  vp_assert(cRefs == 2, "the result replaces the operand in the reference counts");
  vp_assert((cNew.r == e.w.r) & (cNew.i == e.w.i), "the result is referenced with its final weight");
  vp_cover("collapsed");
}

// ---------------------------------------------------------------- probabilities of the subdiagrams
// S(p) is the squared norm of the subdiagram p; the table holds S of nodes it knows.
namespace {
using Table = std::unordered_map<const vNode*, fp>;
double S(const vNode* p) {
  if (p == nullptr) return 1;
  return vp_ufr_1_0("norm", id(p));
}
struct Entry {
  void* next;
  std::pair<const vNode* const, fp> kv;
};
Table* aTab;
const vNode* aTop;
bool aIns;
int aRec;
void* findA(Table* t, const vNode* const& k) {
  vp_assert(t == aTab, "the table of the caller is used");
  vp_assert(k == aTop, "the entry of the node is used");
  if (vp_choose("known", 2) == 0) return nullptr;
  return new Entry{nullptr, {k, S(k)}};
}
std::pair<void*, bool> insertA(Table* t, std::pair<const vNode* const, fp>&& kv) {
  vp_assert(t == aTab && kv.first == aTop, "the result is stored for the node");
  vp_assert_eq(kv.second, S(aTop), "the stored value is the squared norm of the node");
  vp_assert(!aIns, "the result is stored once");
  aIns = true;
  return {nullptr, true};
}
fp recA(const vEdge& e, Table& t) {
  vp_assert(&t == aTab, "the table of the caller is used");
  aRec++;
  return mag2(cx(e.w)) * S(e.p);
}
void assign(bool terminal) {
  useNumbers();
  vp_replace("^std::unordered_map<dd::vNode const\\*, double,.*::find\\(", vp_fn(findA));
  vp_replace("^std::unordered_map<dd::vNode const\\*, double,.*::insert\\(std::pair<dd::vNode const\\* const, double>&&\\)", vp_fn(insertA));
  vp_replace("^dd::Package::assignProbabilities\\(", vp_fn(recA));
  vNode* n = nullptr;
  if (!terminal) {
    n = node<vNode>("x", vp_u16("v"));
    double s = 0;
    for (const auto& e : n->e) s = s + mag2(cx(e.w)) * S(e.p);
    vp_assume_eq(vp_ufr_1_0("norm", id(n)), s);
  }
  const vEdge e{n, weight("w")};
  aTab = static_cast<Table*>(vp_alloc_sym(sizeof(Table), "table"));
  aTop = n;
  aIns = false;
  aRec = 0;
  auto& pk = package();
  const double r = pk.assignProbabilities(e, *aTab);
  vp_assert_eq(r, mag2(cx(e.w)) * S(n), "the result is the squared norm of the diagram");
  vp_assert(aIns || aRec == 0, "computed values are stored");
  vp_cover("assigned");
}
} // namespace
VP_HARNESS H_norm() { assign(false); }
VP_HARNESS H_norm_terminal() { assign(true); }

// ---------------------------------------------------------------- probabilities of one qubit
// Every way two, three or four nodes can be connected over up to three levels; which weights vanish is
// enumerated, their values are arbitrary.
namespace {
vNode* pN[3][2]; // nodes per level, top first
void probabilities(std::size_t levels, std::size_t width1, std::size_t width2, int first = -1) {
  useNumbers();
  vp_bounded("diagrams above and including the measured qubit have up to 3 levels with up to 2 nodes each");
  static vNode pool[8];
  const Qubit top = 7;
  const std::size_t width[3] = {1, width1, width2};
  std::size_t c = 0;
  for (std::size_t l = 0; l < levels; l++)
    for (std::size_t k = 0; k < width[l]; k++) {
      pN[l][k] = &pool[c++];
      pN[l][k]->v = static_cast<Qubit>(top - l);
    }
  const Complex w0 = weight("w");
  double mass[3][2] = {{mag2(cx(w0)), 0}, {0, 0}, {0, 0}};
  double want[2] = {0, 0};
  for (std::size_t l = 0; l < levels; l++)
    for (std::size_t k = 0; k < width[l]; k++)
      for (std::size_t b = 0; b < 2; b++) {
        auto& e = pN[l][k]->e[b];
        if (l + 1 == levels) {
          // the measured level: nothing is known about its weights or successors
          e.w = weight("leaf");
          if (width2 == 2 && width1 == 2) vp_assume((id(e.w.r) != id(&constants::zero)) | (id(e.w.i) != id(&constants::zero))); // zeros: the smaller shapes
          e.p = vptr(vp_u64("below"));
          want[b] = want[b] + mass[l][k] * mag2(cx(e.w));
          continue;
        }
        const auto to = first >= 0 && l == 0 && b == 0 ? static_cast<std::uint32_t>(first) : vp_choose("successor", static_cast<std::uint32_t>(width[l + 1] + 1));
        if (to == width[l + 1]) {
          e.w = Complex::zero();
          e.p = nullptr;
        } else {
          e.w = weight("inner");
          vp_assume((id(e.w.r) != id(&constants::zero)) | (id(e.w.i) != id(&constants::zero)));
          e.p = pN[l + 1][to];
          mass[l + 1][to] = mass[l + 1][to] + mass[l][k] * mag2(cx(e.w));
        }
      }
  // states are no zero vectors: the measured level is reached
  bool reach[3][2] = {{true, false}, {false, false}, {false, false}};
  for (std::size_t l = 0; l + 1 < levels; l++)
    for (std::size_t k = 0; k < width[l]; k++)
      for (std::size_t b = 0; b < 2; b++)
        for (std::size_t t = 0; t < width[l + 1]; t++)
          if (reach[l][k] && pN[l][k]->e[b].p == pN[l + 1][t]) reach[l + 1][t] = true;
  for (std::size_t l = 1; l < levels; l++)
    if (!reach[l][0] && !reach[l][1]) vp_stop();
  auto& pk = package();
  const auto [a, b] = pk.determineMeasurementProbabilities({pN[0][0], w0}, static_cast<Qubit>(top + 1 - levels));
  vp_assert_eq(a, want[0], "the probability of 0 is the squared norm of the half of the state where the qubit is 0");
  vp_assert_eq(b, want[1], "the probability of 1 is the squared norm of the half of the state where the qubit is 1");
  vp_cover("probabilities");
  vp_stop();
}
} // namespace
VP_HARNESS H_probs_1() { probabilities(1, 0, 0); }
VP_HARNESS H_probs_2() { probabilities(2, 2, 0); }
VP_HARNESS H_probs_31() { probabilities(3, 1, 2); }
VP_HARNESS H_probs_320() { probabilities(3, 2, 2, 0); }
VP_HARNESS H_probs_321() { probabilities(3, 2, 2, 1); }
VP_HARNESS H_probs_322() { probabilities(3, 2, 2, 2); }

// ---------------------------------------------------------------- all qubits
namespace {
constexpr std::size_t NQ = 3;
double aU[NQ];
std::size_t aDraws, aMade;
U64 aB[NQ + 1];
std::string aBits; // bit i of qubit i
int aRefs;
vEdge aOld;
double drawA(void*, MT& g) {
  vp_assert(&g == oGen, "the generator of the caller is used");
  return aU[aDraws++];
}
vEdge makeA(Package*, Qubit v, const std::array<vEdge, 2>& e, bool) {
  vp_assert(v == aMade, "the levels of the result are built from below");
  const std::size_t one = aBits[v] == '1' ? 1 : 0;
  vp_assert((id(e[one].p) == (v == 0 ? 0 : aB[v - 1])) & e[one].w.exactlyOne(), "the successor of the measured value is the rest of the basis state");
  vp_assert((e[1 - one].p == nullptr) & e[1 - one].w.exactlyZero(), "the other successor is zero");
  return {vptr(aB[aMade++]), Complex::one()};
}
// contract of ComplexNumbers::mag2 (H_mag2)
double mag2S(const Complex& c) {
  const double r = vp_ufr_2_0("mag2", id(c.r), id(c.i));
  vp_assume_nc(r >= 0);
  return r;
}
void all(std::size_t n, int mode) {
  useNumbers();
  vp_replace("^dd::ComplexNumbers::mag2\\(", vp_fn(mag2S));
  noText();
  vp_bounded("states of up to 3 qubits");
  vp_replace(DRAW, vp_fn(drawA));
  vp_replace("^dd::Edge<dd::vNode> dd::Package::makeDDNode<dd::vNode, dd::Edge>", vp_fn(makeA));
  vp_replace("^void dd::Package::incRef<dd::vNode>", vp_fn(+[](Package*, const vEdge& e) {
               vp_assert(aRefs == 0 && id(e.p) == aB[aMade - 1], "the result is referenced");
               aRefs = 1;
             }));
  vp_replace("^void dd::Package::decRef<dd::vNode>", vp_fn(+[](Package*, const vEdge& e) {
               vp_assert(aRefs == 1, "the result is referenced before the operand is released");
               vp_assert((e.p == aOld.p) & (e.w.r == aOld.w.r) & (e.w.i == aOld.w.i), "the operand is released");
               aRefs = 2;
             }));
  const double eps = 0.001;
  static vNode t[7];
  for (std::size_t k = 0; k < (1U << n) - 1; k++) {
    std::size_t depth = 0;
    while ((2U << depth) - 1 <= k) depth++;
    t[k].v = static_cast<Qubit>(n - 1 - depth);
    for (std::size_t b = 0; b < 2; b++) {
      t[k].e[b].p = 2 * k + 1 + b < (1U << n) - 1 ? &t[2 * k + 1 + b] : nullptr;
      t[k].e[b].w = weight("w");
    }
  }
  for (auto& u : aU) {
    u = vp_double("u");
    vp_assume((u >= 0) & (u < 1));
  }
  for (auto& b : aB) b = vp_u64("built");
  aOld = {&t[0], weight("root")};
  {
    const double s = mag2S(aOld.w);
    vp_assume((s - 1 <= eps) & (1 - s <= eps));
  }
  const bool collapse = vp_choose("collapse", 2) == 1;
  // the specification, decided first
  aBits.assign(n, '0');
  std::size_t k = 0;
  for (std::size_t q = n; q-- > 0;) {
    // along the measured branch the weights are normalised: |w0|^2 + |w1|^2 = 1 up to the tolerance
    const double p0 = mag2S(t[k].e[0].w), p1 = mag2S(t[k].e[1].w), s = p0 + p1;
    if (mode == 1) {
      vp_assume((s - 1 > eps) | (1 - s > eps));
      break;
    }
    vp_assume((s - 1 <= eps) & (1 - s <= eps));
    const bool zero = vp_decide(aU[n - 1 - q] * s < p0);
    aBits[q] = zero ? '0' : '1';
    k = 2 * k + (zero ? 1 : 2);
  }
  aDraws = aMade = 0;
  aRefs = 0;
  oGen = &generator();
  auto& pk = package();
  vEdge e = aOld;
  std::string r;
  bool threw = false;
  try {
    r = pk.measureAll(e, collapse, *oGen, eps);
  } catch (const std::runtime_error&) {
    threw = true;
  }
  vp_assert(threw == (mode == 1), "states that are not normalised are rejected");
  if (threw) {
    vp_assert((e.p == aOld.p) & (e.w.r == aOld.w.r) & (aRefs == 0), "a rejected state is left alone");
    vp_cover("rejected");
    vp_stop();
  }
  vp_assert(aDraws == n, "one random number per qubit");
  vp_assert(r.size() == n, "one character per qubit");
  for (std::size_t q = 0; q < n; q++) vp_assert(r[n - 1 - q] == aBits[q], "every qubit is measured with its conditional probability, the last qubit first in the string");
  if (collapse) {
    vp_assert(aMade == n && id(e.p) == aB[n - 1] && aRefs == 2, "the state becomes the measured basis state");
    vp_assert(e.w.exactlyOne(), "the state becomes the measured basis state");
  } else {
    vp_assert((e.p == aOld.p) & (e.w.r == aOld.w.r) & (e.w.i == aOld.w.i) & (aMade == 0) & (aRefs == 0), "the state is left alone");
  }
  vp_cover("measured");
  vp_stop();
}
} // namespace
VP_HARNESS H_mag2() {
  useNumbers();
  const Complex c = weight("w");
  vp_assert_eq(ComplexNumbers::mag2(c), mag2(cx(c)), "the squared magnitude of a weight");
  vp_cover("mag2");
}
VP_HARNESS H_all_1() { all(1, 0); }
VP_HARNESS H_all_2() { all(2, 0); }
VP_HARNESS H_all_3() { all(3, 0); }
VP_HARNESS H_all_invalid() { all(2, 1); }
VP_HARNESS H_all_zero() {
  useNumbers();
  auto& pk = package();
  vEdge e = vEdge::zero();
  bool threw = false;
  try {
    pk.measureAll(e, false, generator(), 0.001);
  } catch (const std::runtime_error&) {
    threw = true;
  }
  vp_assert(threw, "the zero vector is rejected");
  vEdge one = vEdge::one();
  vp_assert(pk.measureAll(one, true, generator(), 0.001).empty(), "a scalar has no qubits");
  vp_cover("zero");
  vp_stop();
}

// ---------------------------------------------------------------- measurement, reset and classical control as operations
namespace {
U64 xState[8];
std::size_t xN, xMeasured;
qc::Qubit xQ[4], xMap[4];
char xOut[4];
vEdge xIn;
qc::Permutation const* xPerm;
std::size_t xApplied;
std::vector<qc::Qubit> permT(const qc::Permutation* p, const std::vector<qc::Qubit>& t) {
  vp_assert(p == xPerm, "the permutation of the caller is used");
  vp_assert(t.size() == xN, "all targets are translated");
  std::vector<qc::Qubit> r;
  for (std::size_t i = 0; i < t.size(); i++) {
    vp_assert(t[i] == xQ[i], "all targets are translated");
    r.push_back(xMap[i]);
  }
  return r;
}
char oneX(Package*, vEdge& e, Qubit i, MT& g, fp) {
  vp_assert(&g == oGen, "the generator of the caller is used");
  vp_assert(xMeasured < xN, "every target is measured once");
  vp_assert(i == xMap[xMeasured], "the permuted target is measured");
  vp_assert(id(e.p) == xState[2 * xMeasured], "measurements act on the state one after the other");
  e.p = vptr(xState[2 * xMeasured + 1]);
  return xOut[xMeasured++];
}
void setup() {
  useNumbers();
  xN = 1 + vp_choose("targets", 3);
  for (std::size_t k = 0; k < 4; k++) {
    xQ[k] = vp_u32("q");
    xMap[k] = vp_u16("to");
    xOut[k] = vp_choose("outcome", k < xN ? 2 : 1) == 1 ? '1' : '0';
  }
  for (auto& s : xState) s = vp_u64("state");
  xMeasured = xApplied = 0;
  oGen = &generator();
  xPerm = static_cast<const qc::Permutation*>(vp_alloc_sym(sizeof(qc::Permutation), "permutation"));
  vp_replace("^qc::Permutation::apply\\(std::vector<unsigned int", vp_fn(permT));
  vp_replace("^dd::Package::measureOneCollapsing\\(dd::Edge<dd::vNode>&", vp_fn(oneX));
}
} // namespace
VP_HARNESS H_measure() {
  vp_bounded("one to three measured qubits and classical bits");
  setup();
  for (std::size_t k = 0; k + 1 < xN; k++) xState[2 * k + 2] = xState[2 * k + 1];
  std::vector<qc::Qubit> ts(xQ, xQ + xN);
  std::vector<std::uint64_t> cs;
  for (std::size_t k = 0; k < xN; k++) cs.push_back(vp_choose("bit", 3));
  const qc::NonUnitaryOperation op(ts, cs);
  std::vector<bool> m(4), before(4);
  for (std::size_t k = 0; k < 4; k++) m[k] = before[k] = k % 2 == 1;
  const vEdge in{vptr(xState[0]), weight("w")};
  const auto r = applyMeasurement(op, in, package(), *oGen, m, *xPerm);
  vp_assert(xMeasured == xN && id(r.p) == xState[2 * xN - 1], "every target is measured");
  vp_assert((r.w.r == in.w.r) & (r.w.i == in.w.i), "every target is measured");
  for (std::size_t k = 0; k < 4; k++) {
    bool want = before[k];
    for (std::size_t j = 0; j < xN; j++)
      if (cs[j] == k) want = xOut[j] == '1';
    vp_assert(m[k] == want, "every outcome goes to its classical bit, other bits are kept");
  }
  vp_cover("measured");
  vp_stop();
}
namespace {
U64 xAfter[4];
vEdge applyX(const qc::Operation& op, const vEdge& in, Package&, const qc::Permutation& p) {
  const auto k = xMeasured - 1;
  vp_assert(xOut[k] == '1' && !((xApplied >> k) & 1U), "a qubit is flipped exactly if it was measured as 1");
  xApplied |= 1U << k;
  vp_assert(op.getType() == qc::X && op.getNcontrols() == 0 && op.getNtargets() == 1 && op.getTargets()[0] == xMap[k], "the measured qubit is flipped");
  vp_assert(p.empty(), "the qubit is translated once");
  vp_assert(id(in.p) == xState[2 * k + 1], "the collapsed state is flipped");
  return {vptr(xAfter[k]), in.w};
}
} // namespace
VP_HARNESS H_reset() {
  vp_bounded("one to three qubits");
  setup();
  vp_replace("^dd::applyUnitaryOperation\\(qc::Operation const&, dd::Edge<dd::vNode> const&", vp_fn(applyX));
  std::size_t mask = 0;
  vp_assume((xQ[0] < xQ[1]) & (xQ[1] < xQ[2])); // targets of a reset are kept in order
  for (std::size_t k = 0; k < xN; k++) {
    xAfter[k] = vp_u64("flipped");
    if (xOut[k] == '1') mask |= 1U << k;
    xState[2 * k + 2] = xOut[k] == '1' ? xAfter[k] : xState[2 * k + 1];
  }
  const qc::NonUnitaryOperation op(std::vector<qc::Qubit>(xQ, xQ + xN), qc::Reset);
  const vEdge in{vptr(xState[0]), weight("w")};
  const auto r = applyReset(op, in, package(), *oGen, *xPerm);
  vp_assert(xMeasured == xN && xApplied == mask, "every qubit is measured, and flipped if it was 1");
  vp_assert(id(r.p) == xState[2 * xN], "the result is the state after the last step");
  vp_cover("reset");
  vp_stop();
}
namespace {
int kApplied;
const qc::Operation* kOp;
vEdge kIn;
U64 kOut;
vEdge applyK(const qc::Operation& op, const vEdge& in, Package&, const qc::Permutation& p) {
  vp_assert(&op == kOp && &p == xPerm, "the operation is applied under the permutation of the caller");
  vp_assert((in.p == kIn.p) & (in.w.r == kIn.w.r) & (in.w.i == kIn.w.i), "the operation is applied to the state");
  kApplied++;
  return {vptr(kOut), Complex::one()};
}
bool compares(qc::ComparisonKind k, std::uint64_t a, std::uint64_t b) {
  const bool lt = a < b, eq = a == b;
  switch (k) {
  case qc::Eq: return eq;
  case qc::Neq: return !eq;
  case qc::Lt: return lt;
  case qc::Leq: return lt | eq;
  case qc::Gt: return !(lt | eq);
  default: return !lt;
  }
}
void controlled(bool reg, qc::ComparisonKind kind, bool copies = false) {
  useNumbers();
  vp_bounded("registers of up to 4 bits");
  vp_replace("^dd::applyUnitaryOperation\\(qc::Operation const&, dd::Edge<dd::vNode> const&", vp_fn(applyK));
  const std::uint64_t expected = reg ? vp_u64("expected") : vp_choose("expected", 2);
  const std::size_t start = reg ? vp_choose("start", copies ? 1 : 2) * 2 : vp_choose("bit", 5), size = !reg ? 1 : copies ? 2 : 1 + vp_choose("size", 4);
  std::vector<bool> m(6);
  std::uint64_t value = 0;
  for (std::size_t k = 0; k < 6; k++) {
    // bits outside of the register are set to see that they do not matter
    const bool b = k >= start && k < start + size ? vp_choose("value", 2) == 1 : true;
    m[k] = b;
    if (b && k >= start && k < start + size) value |= 1ULL << (k - start);
  }
  auto inner = std::make_unique<qc::StandardOperation>(3, qc::X);
  std::unique_ptr<qc::Operation> o = std::move(inner);
  std::unique_ptr<qc::ClassicControlledOperation> op;
  if (reg) op = std::make_unique<qc::ClassicControlledOperation>(std::move(o), qc::ClassicalRegister(start, size, "c"), expected, kind);
  else op = std::make_unique<qc::ClassicControlledOperation>(std::move(o), start, expected, kind);
  // copies and assigned operations behave like the original
  const auto copy = copies ? 1 + vp_choose("copy", 2) : 0;
  std::unique_ptr<qc::Operation> keep;
  qc::ClassicControlledOperation other(std::make_unique<qc::StandardOperation>(1, qc::H), 0);
  const qc::ClassicControlledOperation* use = op.get();
  if (copy == 1) {
    keep = op->clone();
    use = static_cast<const qc::ClassicControlledOperation*>(keep.get());
  }
  if (copy == 2) {
    other = *op;
    use = &other;
  }
  kOp = use;
  kOut = vp_u64("out");
  kIn = {vptr(vp_u64("in")), weight("w")};
  kApplied = 0;
  xPerm = static_cast<const qc::Permutation*>(vp_alloc_sym(sizeof(qc::Permutation), "permutation"));
  const auto r = applyClassicControlledOperation(*use, kIn, package(), m, *xPerm);
  const bool want = compares(kind, value, expected);
  vp_assert(want == (kApplied == 1) && kApplied <= 1, "the operation is applied exactly if the comparison holds");
  vp_assert(id(r.p) == (kApplied == 1 ? kOut : id(kIn.p)), "otherwise the state is kept");
  vp_cover("controlled");
  vp_stop();
}
} // namespace
VP_HARNESS H_control_eq() { controlled(true, qc::Eq); }
VP_HARNESS H_control_neq() { controlled(true, qc::Neq); }
VP_HARNESS H_control_lt() { controlled(true, qc::Lt); }
VP_HARNESS H_control_leq() { controlled(true, qc::Leq); }
VP_HARNESS H_control_gt() { controlled(true, qc::Gt); }
VP_HARNESS H_control_geq() { controlled(true, qc::Geq); }
VP_HARNESS H_control_bit() { controlled(false, vp_choose("kind", 2) == 0 ? qc::Eq : qc::Neq); }
VP_HARNESS H_control_copy() {
  const qc::ComparisonKind all[] = {qc::Eq, qc::Neq, qc::Lt, qc::Leq, qc::Gt, qc::Geq};
  controlled(true, all[vp_choose("kind", 6)], true);
}
VP_HARNESS H_control_bit_copy() { controlled(false, vp_choose("kind", 2) == 0 ? qc::Eq : qc::Neq, true); }
