// @sources src/dd/Package.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/Node.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp
// @opts * {"timeout": 500, "steps": 30000000, "bvsplit": true}
// Contracts: removing ancillary and garbage qubits from diagrams.
//
// Levels that an edge skips contribute the identity.  At an arbitrary but fixed assignment the four
// blocks of a level j are selected by indicators ind[j][k] (reals, one of them is 1), so a skipped
// level contributes ind[j][0] + ind[j][3].  All claims are linear in the indicators and proved for
// arbitrary values of them.
#include "dd.hpp"

#include <array>
#include <vector>
using namespace vpdd;
namespace {
constexpr std::size_t NQ = 3;
Complex weight(const char* n) { return {reinterpret_cast<RealNumber*>(vp_u64(n)), reinterpret_cast<RealNumber*>(vp_u64(n))}; }
double ind[NQ][4];
bool mask[NQ];
Qubit V;
bool regular, mags;
// levels of the pointers in play; anything else is a terminal
struct Lev {
  U64 p;
  int v;
};
Lev levs[24];
std::size_t nlev;
void atLevel(U64 p, int v) { levs[nlev++] = {p, v}; }
int lev(U64 p) {
  if (vp_known(p == 0)) return -1;
  for (std::size_t i = 0; i < nlev; i++)
    if (vp_known(levs[i].p == p)) return levs[i].v;
  vp_assert(false, "only known diagrams are used");
  return -1;
}
double skip(int from, int to) { // levels from < j < to
  double f = 1;
  for (int j = from + 1; j < to; j++) f = f * (ind[j][0] + ind[j][3]);
  return f;
}
double mag2(Cx a) { return a.re * a.re + a.im * a.im; }
// squared magnitude of a unit-weight subdiagram at the fixed assignment, and after reduction
double G(U64 p) {
  if (vp_known(p == 0)) return 1;
  return vp_ufr_1_0("G", p);
}
double GR(U64 p) {
  if (vp_known(p == 0)) return 1;
  return vp_ufr_1_0("GR", p);
}
Cx LL(U64 p) {
  if (vp_known(p == 0)) return {1, 0};
  return {vp_ufr_1_0("Lre", p), vp_ufr_1_0("Lim", p)};
}
Cx T(U64 p) {
  if (vp_known(p == 0)) return {1, 0};
  return {vp_ufr_1_0("Tre", p), vp_ufr_1_0("Tim", p)};
}
Cx operator*(Cx a, double s) { return {a.re * s, a.im * s}; }
template <class N, class E> Cx seen(const E& e, int k) {
  const auto w = cx(e.w);
  if (vp_known((w.re == 0) & (w.im == 0))) return {0, 0};
  return w * LL(id(e.p)) * skip(lev(id(e.p)), k);
}
template <class N, class E> double seen2(const E& e, int k) {
  const auto w = cx(e.w);
  if (vp_known((w.re == 0) & (w.im == 0))) return 0;
  double f = mag2(w) * G(id(e.p));
  if (MAT<N>) f = f * skip(lev(id(e.p)), k);
  return f;
}
// contract of the number lookup (P09) without a case distinction
RealNumber* entryOf(double v) {
  if (vp_known(v == 0)) return &constants::zero;
  if (vp_known(v == 1)) return &constants::one;
  const U64 k = vp_u64("entry");
  vp_assume_nc((k == id(&constants::zero)) == (v == 0));
  vp_assume_nc((k == id(&constants::one)) == (v == 1));
  vp_assume_eq(vp_ufr_1_0("val", k), v);
  return reinterpret_cast<RealNumber*>(k);
}
Complex look(ComplexNumbers*, const ComplexValue& v) { return {entryOf(v.r), entryOf(v.i)}; }
Complex look1(ComplexNumbers*, double v) { return {entryOf(v), entryOf(0)}; }
void setup() {
  nmade = 0;
  nlev = 0;
  useNumbers();
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(dd::ComplexValue const&\\)", vp_fn(look));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(double\\)", vp_fn(look1));
  for (auto& l : ind)
    for (auto& x : l) x = vp_double("indicator");
}

// ================================================================ ancillary qubits
// induction hypothesis: the reduction of p has the value T(p)
mCachedEdge ancStub(Package*, mNode* p, const std::vector<bool>& a, const Qubit lower, const bool reg) {
  bool same = a.size() == NQ, first = true;
  for (std::size_t i = 0; i < NQ; i++) same = same & (a[i] == mask[i]);
  vp_assert(same & (reg == regular), "the qubits and the direction are passed on");
  for (std::size_t i = 0; i < NQ; i++)
    if (i < lower) first = first & !mask[i];
  vp_assert(first, "no ancillary lies below the lower bound");
  const U64 q = vp_u64("reduced");
  const Cx w{vp_double("re"), vp_double("im")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  vp_assume_nc(q != 0);
  atLevel(q, lev(id(p)));
  setc("Lre", "Lim", q, T(id(p)) / w);
  return {reinterpret_cast<mNode*>(q), ComplexValue{w.re, w.im}};
}
template <class E> bool nonzero(const E& e) {
  const auto w = cx(e.w);
  return !vp_known((w.re == 0) & (w.im == 0));
}
// contract of makeDDNode (P04): the node denotes its successors; if they all carry the same weight,
// this is the weight of the result
template <class E> U64 build(const Qubit v, const std::array<E, 4>& e, Cx& w, int& same) {
  const U64 q = vp_u64("made");
  vp_assume_nc(q != 0);
  same = -1;
  for (int k = 0; k < 4; k++) {
    if (!nonzero(e[k])) continue;
    vp_assert(lev(id(e[k].p)) < static_cast<int>(v), "successors lie below their node");
    if (same == -1) same = k;
    else if (same >= 0) {
      const Cx x = cx(e[same].w), y = cx(e[k].w);
      if (!vp_known((x.re == y.re) & (x.im == y.im))) same = -2;
    }
  }
  if (same >= 0) w = cx(e[same].w);
  else {
    w = {vp_double("re"), vp_double("im")};
    vp_assume(w.re * w.re + w.im * w.im > 0);
  }
  auto& m = made[nmade++];
  m.p = q;
  Cx s{0, 0};
  for (std::size_t k = 0; k < 4; k++) {
    Cx c{0, 0};
    if (nonzero(e[k])) c = (same >= 0 ? LL(id(e[k].p)) : (cx(e[k].w) / w) * LL(id(e[k].p))) * skip(lev(id(e[k].p)), v);
    m.d[k] = c;
    s = s + c * ind[v][k];
  }
  atLevel(q, v);
  setc("Lre", "Lim", q, s);
  return q;
}
mCachedEdge makeC(Package*, const Qubit v, const std::array<mCachedEdge, 4>& e, bool) {
  Cx w{};
  int same = 0;
  const U64 q = build(v, e, w, same);
  return {reinterpret_cast<mNode*>(q), ComplexValue{w.re, w.im}};
}
mEdge makeE(Package*, const Qubit v, const std::array<mEdge, 4>& e, bool) {
  Cx w{};
  int same = 0;
  const U64 q = build(v, e, w, same);
  if (same >= 0) return {reinterpret_cast<mNode*>(q), e[same].w};
  return {reinterpret_cast<mNode*>(q), Complex{entryOf(w.re), entryOf(w.im)}};
}
// levels that are skipped: identity, restricted to the ancillary being zero
double skipAnc(int from, int to) {
  double f = 1;
  for (int j = from + 1; j < to; j++) f = f * (mask[j] ? ind[j][0] : ind[j][0] + ind[j][3]);
  return f;
}
// a successor of a node at level V: zero, a multiple of the identity, a node below, or one of the others
mEdge child(const std::array<mEdge, 4>& e, std::size_t i) {
  const auto k = vp_choose("successor", 2 + V + i);
  if (k == 0) return mEdge::zero();
  if (k == 1) {
    const auto w = weight("w");
    vp_assume_nc(mag2(cx(w)) > 0);
    vp_assume_nc(!((id(w.r) == id(&constants::zero)) & (id(w.i) == id(&constants::zero))));
    return {nullptr, w};
  }
  const auto w = weight("w");
  vp_assume_nc(mag2(cx(w)) > 0);
  if (k >= 2U + V) { // shared with an earlier one
    const auto& o = e[k - 2 - V];
    if (o.p == nullptr) vp_stop();
    return {o.p, w};
  }
  const int l = static_cast<int>(k) - 2;
  auto* p = node<mNode>("c", static_cast<Qubit>(l));
  vp_assume_nc(id(p) != 0);
  for (std::size_t j = 0; j < i; j++)
    if (e[j].p != nullptr) vp_assume_nc(e[j].p != p);
  atLevel(id(p), l);
  return {p, w};
}
// all combinations of successors, or (pairs) those of every two of them, the others being zero
mNode* theNode(bool pairs) {
  auto* p = node<mNode>("x", V);
  std::array<mEdge, 4> e{mEdge::zero(), mEdge::zero(), mEdge::zero(), mEdge::zero()};
  constexpr std::array<std::array<std::size_t, 2>, 6> two{{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}};
  const auto t = pairs ? vp_choose("pair", 6) : 0;
  for (std::size_t i = 0; i < 4; i++) {
    if (!pairs || i == two[t][0] || i == two[t][1]) e[i] = child(e, i);
    p->e[i] = e[i];
  }
  atLevel(id(p), V);
  return p;
}
std::vector<bool> qubits(std::size_t m) {
  std::vector<bool> a(NQ);
  for (std::size_t i = 0; i < NQ; i++) {
    mask[i] = ((m >> i) & 1) != 0;
    a[i] = mask[i];
  }
  return a;
}
Qubit lowest() {
  for (std::size_t i = 0; i < NQ; i++)
    if (mask[i]) return static_cast<Qubit>(i);
  return 0;
}
template <int LV, int M, bool REG> void anc() {
  setup();
  vp_bounded("reduction: nodes up to level 2; successors at every level, at level 2 every two of them at a time");
  V = LV;
  regular = REG;
  const auto a = qubits(M);
  if (lowest() > V) return;
  vp_replace("^dd::Package::reduceAncillaeRecursion\\(", vp_fn(ancStub));
  vp_replace("dd::Package::makeDDNode<dd::mNode, dd::CachedEdge>\\(", vp_fn(makeC));
  auto* p = theNode(V >= 2 || !REG);
  const auto r = package().reduceAncillaeRecursion(p, a, lowest(), REG);
  for (std::size_t k = 0; k < 4; k++) {
    const auto& e = p->e[k];
    Cx want = cx(e.w) * T(id(e.p)) * skipAnc(lev(id(e.p)), V);
    if (e.p == nullptr && id(e.w.r) == id(&constants::zero) && id(e.w.i) == id(&constants::zero)) want = {0, 0};
    if (mask[V] && ((k & (REG ? 1U : 2U)) != 0)) want = {0, 0};
    bool found = false;
    for (std::size_t j = 0; j < nmade; j++)
      if (vp_known(made[j].p == id(r.p))) {
        found = true;
        eqc(cx(r.w) * made[j].d[k], want, "entries of unused ancillary inputs vanish, all others stay");
      }
    vp_assert(found & (lev(id(r.p)) == LV), "the reduced node stays at its level");
  }
  vp_cover("ancillary");
}
} // namespace
#define ANC(L, M) \
  VP_HARNESS H_anc_##L##_##M##_r() { anc<L, M, true>(); } \
  VP_HARNESS H_anc_##L##_##M##_i() { anc<L, M, false>(); }
ANC(0, 1)
ANC(1, 1)
ANC(1, 2)
ANC(1, 3)
ANC(2, 1)
ANC(2, 2)
ANC(2, 3)
ANC(2, 4)
ANC(2, 5)
ANC(2, 6)
ANC(2, 7)
// below the lowest ancillary nothing changes
VP_HARNESS H_anc_low() {
  setup();
  V = vp_u16("v");
  vp_assume(V < VAR_MAX);
  const auto lower = vp_u16("lower");
  vp_assume(V < lower);
  const std::vector<bool> a(NQ);
  auto* p = node<mNode>("x", V);
  const auto r = package().reduceAncillaeRecursion(p, a, lower, vp_bool("regular"));
  vp_assert(r.p == p, "a diagram without ancillaries stays");
  eqc(cx(r.w), {1, 0}, "a diagram without ancillaries stays");
  vp_cover("low");
}

// ---------------------------------------------------------------- entry point
namespace {
struct Refs {
  U64 up, down;
  int nup, ndown;
  Complex upW, downW;
} refs;
void incStub(Package*, const mEdge& e) {
  refs.nup++;
  refs.up = id(e.p);
  refs.upW = e.w;
}
void decStub(Package*, const mEdge& e) {
  refs.ndown++;
  refs.down = id(e.p);
  refs.downW = e.w;
}
void counted(const mEdge& r, const mEdge& e) {
  // unless the operand itself is returned, its reference is handed over to the result
  if (refs.nup == 0) {
    vp_assert((refs.ndown == 0) & (r.p == e.p) & (r.w.r == e.w.r) & (r.w.i == e.w.i), "an unreferenced result is the operand itself");
    return;
  }
  vp_assert((refs.nup == 1) & (refs.up == id(r.p)) & (refs.upW.r == r.w.r) & (refs.upW.i == r.w.i), "the result is referenced once");
  vp_assert((refs.ndown == 1) & (refs.down == id(e.p)) & (refs.downW.r == e.w.r) & (refs.downW.i == e.w.i), "the operand is released once");
}
void refSetup() {
  refs = {};
  vp_replace("^void dd::Package::incRef<dd::mNode>\\(", vp_fn(incStub));
  vp_replace("^void dd::Package::decRef<dd::mNode>\\(", vp_fn(decStub));
}
mEdge operand() {
  const auto k = vp_choose("operand", NQ + 2);
  if (k == 0) return mEdge::zero();
  const auto w = weight("w");
  vp_assume_nc(mag2(cx(w)) > 0);
  vp_assume_nc(!((id(w.r) == id(&constants::zero)) & (id(w.i) == id(&constants::zero))));
  if (k == 1) return {nullptr, w};
  V = static_cast<Qubit>(k - 2);
  auto* p = node<mNode>("x", V);
  vp_assume_nc(id(p) != 0);
  atLevel(id(p), V);
  return {p, w};
}
template <bool REG> void ancTop() {
  setup();
  refSetup();
  vp_bounded("reduction entry points: 3 qubits");
  regular = REG;
  const auto a = qubits(vp_choose("qubits", 1U << NQ));
  vp_replace("^dd::Package::reduceAncillaeRecursion\\(", vp_fn(ancStub));
  vp_replace("dd::Package::makeDDNode<dd::mNode, dd::CachedEdge>\\(", vp_fn(makeC));
  vp_replace("dd::Package::makeDDNode<dd::mNode, dd::Edge>\\(", vp_fn(makeE));
  const auto e = operand();
  const bool zero = e.p == nullptr && id(e.w.r) == id(&constants::zero) && id(e.w.i) == id(&constants::zero);
  bool none = true;
  for (int i = 0; i <= lev(id(e.p)); i++) none = none && !mask[i];
  if (none && e.p != nullptr) { // nothing to reduce: definition of T
    vp_assume_eq(vp_ufr_1_0("Tre", id(e.p)), vp_ufr_1_0("Lre", id(e.p)));
    vp_assume_eq(vp_ufr_1_0("Tim", id(e.p)), vp_ufr_1_0("Lim", id(e.p)));
  }
  const auto r = package().reduceAncillae(e, a, REG);
  const Cx want = zero ? Cx{0, 0} : cx(e.w) * T(id(e.p)) * skipAnc(lev(id(e.p)), NQ);
  eqc(seen<mNode>(r, NQ), want, "entries of unused ancillary inputs vanish, all others stay");
  counted(r, e);
  vp_cover("ancillary top");
}
} // namespace
VP_HARNESS H_anctop_r() { ancTop<true>(); }
VP_HARNESS H_anctop_i() { ancTop<false>(); }
VP_HARNESS H_initial() {
  setup();
  refSetup();
  vp_bounded("reduction entry points: 3 qubits");
  const auto a = qubits(vp_choose("qubits", 1U << NQ));
  vp_replace("dd::Package::makeDDNode<dd::mNode, dd::CachedEdge>\\(", vp_fn(makeC));
  vp_replace("dd::Package::makeDDNode<dd::mNode, dd::Edge>\\(", vp_fn(makeE));
  const auto r = package().createInitialMatrix(a);
  eqc(seen<mNode>(r, NQ), {skipAnc(-1, NQ), 0}, "the initial matrix is the identity on all inputs that are used");
  vp_cover("initial");
}

// ================================================================ garbage qubits
namespace {
ComplexValue nonneg(const char* n) {
  const double m = vp_double(n);
  vp_assume(m > 0);
  return {m, 0};
}
ComplexValue someWeight(const char* n) {
  if (mags) return nonneg(n);
  const ComplexValue w{vp_double(n), vp_double(n)};
  vp_assume(w.r * w.r + w.i * w.i > 0);
  return w;
}
template <class N, class E> void isMag(const E& e) {
  if (!mags) return;
  const auto w = cx(e.w);
  vp_assert((w.re >= 0) & (w.im == 0), "only magnitudes are kept");
}
// contract of addMagnitudes (below): magnitudes combine to the root of the sum of their squares
Qubit topLevel;
template <class N> CachedEdge<N> addMags(Package*, const CachedEdge<N>& x, const CachedEdge<N>& y, const Qubit v) {
  vp_assert(static_cast<Qubit>(v + 1) == topLevel, "blocks are combined one level below their node");
  isMag<N>(x);
  isMag<N>(y);
  const auto w = someWeight("sum");
  const double s = seen2<N>(x, topLevel) + seen2<N>(y, topLevel);
  const bool zero = vp_known(s == 0);
  if (zero) return CachedEdge<N>::zero();
  const U64 q = vp_u64("combined");
  vp_assume_nc(q != 0);
  atLevel(q, topLevel - 1);
  vp_assume_eq(vp_ufr_1_0("G", q), s / (w.r * w.r + w.i * w.i));
  return {reinterpret_cast<N*>(q), w};
}
template <class N, class E> U64 build2(const Qubit v, const std::array<E, W<N>>& e, Cx& w, int& same) {
  const U64 q = vp_u64("made");
  vp_assume_nc(q != 0);
  same = -1;
  for (int k = 0; k < static_cast<int>(W<N>); k++) {
    isMag<N>(e[k]);
    if (!nonzero(e[k])) continue;
    if (same == -1) same = k;
    else if (same >= 0) {
      const Cx x = cx(e[same].w), y = cx(e[k].w);
      if (!vp_known((x.re == y.re) & (x.im == y.im))) same = -2;
    }
  }
  if (same >= 0) w = cx(e[same].w);
  else w = cx(someWeight("w"));
  auto& m = made[nmade++];
  m.p = q;
  double s = 0;
  for (std::size_t k = 0; k < W<N>; k++) {
    double c = 0;
    if (nonzero(e[k])) {
      c = G(id(e[k].p));
      if (same < 0) c = c * mag2(cx(e[k].w)) / mag2(w);
      if (MAT<N>) c = c * skip(lev(id(e[k].p)), v);
    }
    m.d[k] = {c, 0};
    if (MAT<N>) s = s + c * ind[v][k];
  }
  atLevel(q, v);
  if (MAT<N>) vp_assume_eq(vp_ufr_1_0("G", q), s);
  return q;
}
template <class N> CachedEdge<N> makeG(Package*, const Qubit v, const std::array<CachedEdge<N>, W<N>>& e, bool) {
  Cx w{};
  int same = 0;
  const U64 q = build2<N>(v, e, w, same);
  return {reinterpret_cast<N*>(q), ComplexValue{w.re, w.im}};
}
mEdge makeGE(Package*, const Qubit v, const std::array<mEdge, 4>& e, bool) {
  Cx w{};
  int same = 0;
  const U64 q = build2<mNode>(v, e, w, same);
  if (same >= 0) return {reinterpret_cast<mNode*>(q), e[same].w};
  return {reinterpret_cast<mNode*>(q), Complex{entryOf(w.re), entryOf(w.im)}};
}
// induction hypothesis: the reduction of p has the squared magnitude GR(p)
template <class N> CachedEdge<N> garbage(N* p, const std::vector<bool>& a, const Qubit lower, const bool m) {
  bool same = a.size() == NQ, first = true;
  for (std::size_t i = 0; i < NQ; i++) same = same & (a[i] == mask[i]);
  vp_assert(same & (m == mags), "the qubits and the mode are passed on");
  for (std::size_t i = 0; i < NQ; i++)
    if (i < lower) first = first & !mask[i];
  vp_assert(first, "no garbage lies below the lower bound");
  const auto w = someWeight("w");
  const U64 q = vp_u64("reduced");
  vp_assume_nc(q != 0);
  atLevel(q, lev(id(p)));
  vp_assume_eq(vp_ufr_1_0("G", q), GR(id(p)) / (w.r * w.r + w.i * w.i));
  return {reinterpret_cast<N*>(q), w};
}
mCachedEdge garbM(Package*, mNode* p, const std::vector<bool>& a, const Qubit lower, const bool reg, const bool m) {
  vp_assert(reg == regular, "the direction is passed on");
  return garbage(p, a, lower, m);
}
vCachedEdge garbV(Package*, vNode* p, const std::vector<bool>& a, const Qubit lower, const bool m) { return garbage(p, a, lower, m); }
double magStub(const ComplexValue* w) {
  if (vp_known((w->r == 0) & (w->i == 0))) return 0;
  if (vp_known(w->i == 0) && vp_known(w->r >= 0)) return w->r;
  return std::sqrt(w->r * w->r + w->i * w->i);
}
double magC(const Complex& w) {
  const auto v = cx(w);
  const ComplexValue c{v.re, v.im};
  return magStub(&c);
}
double skipGarb(int from, int to) {
  double f = 1;
  for (int j = from + 1; j < to; j++) f = f * (mask[j] ? ind[j][0] + (regular ? ind[j][1] : ind[j][2]) : ind[j][0] + ind[j][3]);
  return f;
}
template <class N> void garbSetup() {
  setup();
  vp_replace_opt("^dd::ComplexValue::mag\\(\\) const", vp_fn(magStub));
  vp_replace_opt("^dd::ComplexNumbers::mag\\(", vp_fn(magC));
  vp_replace("dd::Package::addMagnitudes<", vp_fn(addMags<N>));
  vp_replace(MAT<N> ? "dd::Package::makeDDNode<dd::mNode, dd::CachedEdge>\\(" : "dd::Package::makeDDNode<dd::vNode, dd::CachedEdge>\\(", vp_fn(makeG<N>));
}
template <class N> void isReduced(const CachedEdge<N>& r, std::size_t k, double want) {
  bool found = false;
  for (std::size_t j = 0; j < nmade; j++)
    if (vp_known(made[j].p == id(r.p))) {
      found = true;
      vp_assert_eq(mag2(cx(r.w)) * made[j].d[k].re, want, "magnitudes of garbage entries are combined, all others stay");
    }
  vp_assert(found, "the reduced node stays at its level");
  isMag<N>(r);
}
template <int LV, int M, bool REG, bool MAGS> void garbMat() {
  garbSetup<mNode>();
  vp_bounded("reduction: nodes up to level 2; successors at every level, at level 2 every two of them at a time");
  V = LV;
  topLevel = V;
  regular = REG;
  mags = MAGS;
  const auto a = qubits(M);
  if (lowest() > V && !mags) return;
  vp_replace("^dd::Package::reduceGarbageRecursion\\(dd::mNode\\*", vp_fn(garbM));
  auto* p = theNode(V >= 2 || MAGS || !REG);
  const auto r = package().reduceGarbageRecursion(p, a, lowest(), REG, MAGS);
  double part[4];
  for (std::size_t k = 0; k < 4; k++) {
    const auto& e = p->e[k];
    part[k] = mag2(cx(e.w)) * GR(id(e.p)) * skipGarb(lev(id(e.p)), V);
    if (e.p == nullptr && id(e.w.r) == id(&constants::zero) && id(e.w.i) == id(&constants::zero)) part[k] = 0;
  }
  for (std::size_t k = 0; k < 4; k++) {
    const std::size_t b = REG ? 2 : 1;
    isReduced(r, k, !mask[V] ? part[k] : (k & b) != 0 ? 0 : part[k] + part[k | b]);
  }
  vp_cover("garbage");
}
template <bool MAGS> void garbVec(int lv) {
  garbSetup<vNode>();
  vp_bounded("reduction: nodes up to level 2");
  V = static_cast<Qubit>(lv);
  topLevel = V;
  mags = MAGS;
  const auto a = qubits(vp_choose("qubits", 1U << NQ));
  if (lowest() > V && !mags) return;
  vp_replace("^dd::Package::reduceGarbageRecursion\\(dd::vNode\\*", vp_fn(garbV));
  auto* p = node<vNode>("x", V);
  double part[2];
  for (std::size_t i = 0; i < 2; i++) {
    const auto k = vp_choose("successor", i == 0 ? 2 : 3);
    if (k == 0) {
      p->e[i] = vEdge::zero();
      part[i] = 0;
      continue;
    }
    const auto w = weight("w");
    vp_assume_nc(mag2(cx(w)) > 0);
    vNode* c = nullptr;
    if (k == 2) {
      c = p->e[0].p;
      if (c == nullptr) vp_stop();
    } else if (V > 0) {
      c = node<vNode>("c", static_cast<Qubit>(V - 1));
      vp_assume_nc(id(c) != 0);
      if (i == 1) vp_assume_nc(p->e[0].p != c);
      atLevel(id(c), V - 1);
    }
    p->e[i] = {c, w};
    part[i] = mag2(cx(w)) * GR(id(c));
  }
  atLevel(id(p), V);
  const auto r = package().reduceGarbageRecursion(p, a, lowest(), MAGS);
  isReduced(r, 0, mask[V] ? part[0] + part[1] : part[0]);
  isReduced(r, 1, mask[V] ? 0 : part[1]);
  vp_cover("garbage of a vector");
}
} // namespace
#define GARB(L, M) \
  VP_HARNESS H_garb_##L##_##M##_r() { garbMat<L, M, true, false>(); } \
  VP_HARNESS H_garb_##L##_##M##_i() { garbMat<L, M, false, false>(); } \
  VP_HARNESS H_garb_##L##_##M##_rm() { garbMat<L, M, true, true>(); } \
  VP_HARNESS H_garb_##L##_##M##_im() { garbMat<L, M, false, true>(); }
GARB(0, 1)
GARB(1, 0)
GARB(1, 1)
GARB(1, 2)
GARB(1, 3)
GARB(2, 1)
GARB(2, 2)
GARB(2, 4)
GARB(2, 5)
GARB(2, 7)
VP_HARNESS H_garb_v0() { garbVec<false>(0); }
VP_HARNESS H_garb_v1() { garbVec<false>(1); }
VP_HARNESS H_garb_v2() { garbVec<false>(2); }
VP_HARNESS H_garb_v0m() { garbVec<true>(0); }
VP_HARNESS H_garb_v1m() { garbVec<true>(1); }
VP_HARNESS H_garb_v2m() { garbVec<true>(2); }
VP_HARNESS H_garb_low() {
  setup();
  V = vp_u16("v");
  vp_assume(V < VAR_MAX);
  const auto lower = vp_u16("lower");
  vp_assume(V < lower);
  const std::vector<bool> a(NQ);
  auto* p = node<mNode>("x", V);
  const auto r = package().reduceGarbageRecursion(p, a, lower, vp_bool("regular"), false);
  vp_assert(r.p == p, "a diagram without garbage stays");
  eqc(cx(r.w), {1, 0}, "a diagram without garbage stays");
  auto* q = node<vNode>("y", V);
  const auto s = package().reduceGarbageRecursion(q, a, lower, false);
  vp_assert(s.p == q, "a diagram without garbage stays");
  eqc(cx(s.w), {1, 0}, "a diagram without garbage stays");
  vp_cover("low");
}

// ---------------------------------------------------------------- entry points
namespace {
template <bool REG, bool MAGS> void garbTop() {
  garbSetup<mNode>();
  refSetup();
  vp_bounded("reduction entry points: 3 qubits");
  regular = REG;
  mags = MAGS;
  const auto a = qubits(vp_choose("qubits", 1U << NQ));
  vp_replace("^dd::Package::reduceGarbageRecursion\\(dd::mNode\\*", vp_fn(garbM));
  vp_replace("dd::Package::makeDDNode<dd::mNode, dd::Edge>\\(", vp_fn(makeGE));
  const auto e = operand();
  const bool zero = e.p == nullptr && id(e.w.r) == id(&constants::zero) && id(e.w.i) == id(&constants::zero);
  bool none = true;
  for (int i = 0; i <= lev(id(e.p)); i++) none = none && !mask[i];
  if (none && e.p != nullptr) vp_assume_eq(vp_ufr_1_0("GR", id(e.p)), vp_ufr_1_0("G", id(e.p)));
  const auto r = package().reduceGarbage(e, a, REG, MAGS);
  const double want = zero ? 0 : mag2(cx(e.w)) * GR(id(e.p)) * skipGarb(lev(id(e.p)), NQ);
  vp_assert_eq(seen2<mNode>(r, NQ), want, "magnitudes of garbage entries are combined, all others stay");
  isMag<mNode>(r);
  counted(r, e);
  if (!mags && !mask[0] && !mask[1] && !mask[2]) vp_assert((r.p == e.p) & (r.w.r == e.w.r) & (r.w.i == e.w.i), "without garbage nothing changes");
  vp_cover("garbage top");
}
Refs vrefs;
void incV(Package*, const vEdge& e) {
  refs.nup++;
  refs.up = id(e.p);
  refs.upW = e.w;
}
void decV(Package*, const vEdge& e) {
  refs.ndown++;
  refs.down = id(e.p);
  refs.downW = e.w;
}
template <bool MAGS> void garbTopV() {
  garbSetup<vNode>();
  refs = {};
  vp_replace("^void dd::Package::incRef<dd::vNode>\\(", vp_fn(incV));
  vp_replace("^void dd::Package::decRef<dd::vNode>\\(", vp_fn(decV));
  vp_bounded("reduction entry points: 3 qubits");
  mags = MAGS;
  const auto a = qubits(vp_choose("qubits", 1U << NQ));
  vp_replace("^dd::Package::reduceGarbageRecursion\\(dd::vNode\\*", vp_fn(garbV));
  const auto k = vp_choose("operand", NQ + 2);
  const auto w = weight("w");
  vEdge e{nullptr, w};
  if (k == 0) e = vEdge::zero();
  else vp_assume_nc(mag2(cx(w)) > 0);
  if (k >= 2) {
    V = static_cast<Qubit>(k - 2);
    e.p = node<vNode>("x", V);
    vp_assume_nc(id(e.p) != 0);
    atLevel(id(e.p), V);
  }
  bool none = true;
  for (int i = 0; i <= lev(id(e.p)); i++) none = none && !mask[i];
  if (none && e.p != nullptr) vp_assume_eq(vp_ufr_1_0("GR", id(e.p)), vp_ufr_1_0("G", id(e.p)));
  const vEdge e0 = e;
  const auto r = package().reduceGarbage(e, a, MAGS);
  const double want = k == 0 ? 0 : mag2(cx(e0.w)) * GR(id(e0.p));
  vp_assert_eq(seen2<vNode>(r, NQ), want, "probabilities of garbage amplitudes are combined, all others stay");
  isMag<vNode>(r);
  if (refs.nup == 0) {
    vp_assert((refs.ndown == 0) & (r.p == e0.p) & (r.w.r == e0.w.r) & (r.w.i == e0.w.i), "an unreferenced result is the operand itself");
  } else {
    vp_assert((refs.nup == 1) & (refs.up == id(r.p)) & (refs.upW.r == r.w.r) & (refs.upW.i == r.w.i), "the result is referenced once");
    vp_assert((refs.ndown == 1) & (refs.down == id(e0.p)) & (refs.downW.r == e0.w.r) & (refs.downW.i == e0.w.i), "the operand is released once");
  }
  if (!mags && none) vp_assert((r.p == e0.p) & (r.w.r == e0.w.r) & (r.w.i == e0.w.i), "without garbage nothing changes");
  vp_cover("garbage top of a vector");
}
} // namespace
VP_HARNESS H_garbtop_r() { garbTop<true, false>(); }
VP_HARNESS H_garbtop_i() { garbTop<false, false>(); }
VP_HARNESS H_garbtop_rm() { garbTop<true, true>(); }
VP_HARNESS H_garbtop_im() { garbTop<false, true>(); }
VP_HARNESS H_garbtop_v() { garbTopV<false>(); }
VP_HARNESS H_garbtop_vm() { garbTopV<true>(); }

// ================================================================ addMagnitudes
namespace {
Qubit VAR;
template <class N> double un2(const N* p, std::size_t i) {
  if (p != nullptr && p->v == VAR) return mag2(cx(p->e[i].w)) * G(id(p->e[i].p));
  if (MAT<N> && (i == 1 || i == 2)) return 0;
  return G(id(p));
}
struct Made2 {
  U64 p;
  double d[4];
};
Made2 made2[4];
std::size_t nmade2;
template <class N> double un2R(const N* p, std::size_t i) {
  for (std::size_t k = 0; k < nmade2; k++)
    if (vp_known(made2[k].p == id(p))) return made2[k].d[i];
  return un2(p, i);
}
template <class N> double is2(const CachedEdge<N>& e, double g) {
  const auto w = cx(e.w);
  if (vp_known((w.re == 0) & (w.im == 0))) return 0;
  return mag2(w) * g;
}
template <class N> CachedEdge<N> amStub(Package*, const CachedEdge<N>& x, const CachedEdge<N>& y, const Qubit v) {
  vp_assert(v == static_cast<Qubit>(VAR - 1), "the recursion goes exactly one level down");
  const U64 q = vp_u64("sum");
  const double w = vp_double("w");
  vp_assume(w > 0);
  vp_assume_nc(q != 0);
  vp_assume_eq(vp_ufr_1_0("G", q), (is2(x, G(id(x.p))) + is2(y, G(id(y.p)))) / (w * w));
  return {reinterpret_cast<N*>(q), ComplexValue{w, 0}};
}
template <class N> CachedEdge<N> amMake(Package*, const Qubit v, const std::array<CachedEdge<N>, W<N>>& e, bool) {
  vp_assert(v == VAR, "the result node is created at the current level");
  const U64 q = vp_u64("made");
  const Cx w{vp_double("madew"), vp_double("madew")};
  vp_assume(mag2(w) > 0);
  auto& m = made2[nmade2++];
  m.p = q;
  for (std::size_t i = 0; i < W<N>; i++) m.d[i] = is2(e[i], G(id(e[i].p))) / mag2(w);
  return {reinterpret_cast<N*>(q), ComplexValue{w.re, w.im}};
}
template <class N> CachedEdge<N> amStored;
template <class N> const CachedEdge<N>* amLookup(void*, const CachedEdge<N>& x, const CachedEdge<N>& y) {
  if (vp_choose("hit", 2) == 0) return nullptr;
  const U64 q = vp_u64("cached");
  const Cx w{vp_double("cachedw"), vp_double("cachedw")};
  vp_assume(mag2(w) > 0);
  auto& m = made2[nmade2++];
  m.p = q;
  for (std::size_t i = 0; i < W<N>; i++) m.d[i] = (is2(x, un2(x.p, i)) + is2(y, un2(y.p, i))) / mag2(w);
  amStored<N> = {reinterpret_cast<N*>(q), ComplexValue{w.re, w.im}};
  return &amStored<N>;
}
template <class N> void amInsert(void*, const CachedEdge<N>& x, const CachedEdge<N>& y, const CachedEdge<N>& r) {
  for (std::size_t i = 0; i < W<N>; i++)
    vp_assert_eq(is2(r, un2R(r.p, i)), is2(x, un2(x.p, i)) + is2(y, un2(y.p, i)), "the stored result belongs to its key");
}
enum Kind { AT, LOWER, IDENT };
template <class N> CachedEdge<N> amOperand(const char* n, Kind k) {
  N* p = nullptr;
  if (k == AT) p = node<N>(n, VAR);
  if (k == LOWER) {
    const auto v = vp_u16("lower");
    vp_assume(v < VAR);
    p = node<N>(n, v);
  }
  return {p, ComplexValue{vp_double("w"), vp_double("w")}};
}
template <class N> void am(Kind kx, Kind ky) {
  nmade2 = 0;
  VAR = vp_u16("var");
  vp_assume(VAR < VAR_MAX);
  useNumbers();
  vp_replace_opt("^dd::ComplexValue::mag\\(\\) const", vp_fn(magStub));
  vp_replace("dd::Package::addMagnitudes<", vp_fn(amStub<N>));
  vp_replace(MAT<N> ? "dd::Package::makeDDNode<dd::mNode, dd::CachedEdge>\\(" : "dd::Package::makeDDNode<dd::vNode, dd::CachedEdge>\\(", vp_fn(amMake<N>));
  vp_replace("^dd::ComputeTable<.*::lookup\\(", vp_fn(amLookup<N>));
  vp_replace("^dd::ComputeTable<.*::insert\\(", vp_fn(amInsert<N>));
  auto& pk = package();
  const auto x = amOperand<N>("x", kx);
  const auto y = amOperand<N>("y", ky);
  const auto r = pk.addMagnitudes(x, y, VAR);
  for (std::size_t i = 0; i < W<N>; i++)
    vp_assert_eq(is2(r, un2R(r.p, i)), is2(x, un2(x.p, i)) + is2(y, un2(y.p, i)), "squared magnitudes add up entry by entry");
  vp_cover("add magnitudes");
}
} // namespace
VP_HARNESS H_am_v() { am<vNode>(AT, AT); }
VP_HARNESS H_am_tv() { am<vNode>(IDENT, IDENT); }
VP_HARNESS H_am_m00() { am<mNode>(AT, AT); }
VP_HARNESS H_am_m01() { am<mNode>(AT, LOWER); }
VP_HARNESS H_am_m02() { am<mNode>(AT, IDENT); }
VP_HARNESS H_am_m10() { am<mNode>(LOWER, AT); }
VP_HARNESS H_am_m11() { am<mNode>(LOWER, LOWER); }
VP_HARNESS H_am_m12() { am<mNode>(LOWER, IDENT); }
VP_HARNESS H_am_m20() { am<mNode>(IDENT, AT); }
VP_HARNESS H_am_m21() { am<mNode>(IDENT, LOWER); }
VP_HARNESS H_am_m22() { am<mNode>(IDENT, IDENT); }
