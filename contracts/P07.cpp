// @sources src/dd/Package.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/Node.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp
// @opts * {"timeout": 500, "steps": 30000000}
// Contracts: conjugate, adjoint, inner product, expectation value, tensor product, (partial) trace.
#include "dd.hpp"
using namespace vpdd;
namespace {
Qubit VAR;
Complex weight(const char* n) { return {reinterpret_cast<RealNumber*>(vp_u64(n)), reinterpret_cast<RealNumber*>(vp_u64(n))}; }
// the lower levels: below the last level vectors are 1, identities are real and symmetric
template <class N> void base() {
  if (MAT<N>) {
    vp_assume_eq(vp_ufr_1_0("Lim", 0), 0);
    vp_assume_eq(vp_ufr_1_0("LTim", 0), 0);
    vp_assume_eq(vp_ufr_1_0("LTre", 0), vp_ufr_1_0("Lre", 0));
  } else {
    setc("Lre", "Lim", 0, {1, 0});
  }
}
// value of the lower levels at the transposed position
template <class N> Cx LT(const N* p) { return {vp_ufr_1_0("LTre", id(p)), vp_ufr_1_0("LTim", id(p))}; }

template <class N> CachedEdge<N> makeStub(Package*, const Qubit v, const std::array<CachedEdge<N>, W<N>>& e, bool) {
  vp_assert(v == VAR, "the result node is created at the level of the operand");
  const U64 p = vp_u64("made");
  const Cx w{vp_double("madew"), vp_double("madew")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = p;
  for (std::size_t i = 0; i < W<N>; i++) m.d[i] = (cx(e[i].w) * L(e[i].p)) / w;
  return {reinterpret_cast<N*>(p), ComplexValue{w.re, w.im}};
}
template <class N> N* theX;
// ------------------------------------------------------------ conjugate / adjoint
// component i of the (unit-weight) operand below this level, conjugated (and transposed)
template <class N> Cx conjSpec(std::size_t i) {
  const auto* p = theX<N>;
  if constexpr (MAT<N>) {
    const auto& e = p->e[2 * (i % 2) + i / 2];
    return conj(cx(e.w) * LT(e.p));
  }
  return conj(cx(p->e[i].w) * L(p->e[i].p));
}
template <class N> CachedEdge<N> conjStub(Package*, const Edge<N>& a) {
  const Cx v = MAT<N> ? conj(cx(a.w) * LT(a.p)) : conj(cx(a.w) * L(a.p));
  const U64 p = vp_u64("sub");
  const Cx w{vp_double("re"), vp_double("im")};
  if (vp_choose("zero", 2) == 1) {
    zeroC(cx(a.w));
    return CachedEdge<N>::zero();
  }
  vp_assume(w.re * w.re + w.im * w.im > 0);
  setc("Lre", "Lim", p, v / w);
  return {reinterpret_cast<N*>(p), ComplexValue{w.re, w.im}};
}
template <class N> CachedEdge<N> stored;
template <class N> CachedEdge<N>* ctLookup1(void*, N* const& x) {
  vp_assert(x == theX<N>, "the table is asked for the operand");
  if (vp_choose("hit", 2) == 0) return nullptr;
  const U64 p = vp_u64("cached");
  const Cx w{vp_double("cachedw"), vp_double("cachedw")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = p;
  for (std::size_t i = 0; i < W<N>; i++) m.d[i] = conjSpec<N>(i) / w;
  stored<N> = {reinterpret_cast<N*>(p), ComplexValue{w.re, w.im}};
  return &stored<N>;
}
template <class N> void ctInsert1(void*, N* const& x, const CachedEdge<N>& r) {
  vp_assert(x == theX<N>, "the result is stored under its operand");
  for (std::size_t i = 0; i < W<N>; i++) eqc(cx(r.w) * unfoldR(r.p, VAR, i), conjSpec<N>(i), "the stored result belongs to its key");
}
template <class N> void conjugation() {
  nmade = 0;
  VAR = vp_u16("var");
  vp_assume(VAR < VAR_MAX);
  useNumbers();
  base<N>();
  vp_replace(MAT<N> ? "dd::Package::conjugateTransposeRec\\(" : "dd::Package::conjugateRec\\(", vp_fn(conjStub<N>));
  vp_replace(MAT<N> ? "dd::Package::makeDDNode<dd::mNode, dd::CachedEdge>\\(" : "dd::Package::makeDDNode<dd::vNode, dd::CachedEdge>\\(", vp_fn(makeStub<N>));
  vp_replace("^dd::UnaryComputeTable<.*::lookup\\(", vp_fn(ctLookup1<N>));
  vp_replace("^dd::UnaryComputeTable<.*::insert\\(", vp_fn(ctInsert1<N>));
  auto& pk = package();
  theX<N> = node<N>("x", VAR);
  const Edge<N> a{theX<N>, weight("w")};
  CachedEdge<N> r{};
  if constexpr (MAT<N>) r = pk.conjugateTransposeRec(a);
  else r = pk.conjugateRec(a);
  for (std::size_t i = 0; i < W<N>; i++)
    eqc(cx(r.w) * unfoldR(r.p, VAR, i), conj(cx(a.w)) * conjSpec<N>(i), MAT<N> ? "the result is the adjoint" : "the result is the conjugate");
  vp_cover("conjugation");
}
template <class N> void conjugationTerm() {
  useNumbers();
  base<N>();
  auto& pk = package();
  const Edge<N> a{nullptr, weight("w")};
  CachedEdge<N> r{};
  if constexpr (MAT<N>) r = pk.conjugateTransposeRec(a);
  else r = pk.conjugateRec(a);
  eqc(cx(r.w) * L(r.p), conj(cx(a.w) * L(a.p)), "terminals are conjugated");
  vp_cover("terminal");
}
U64 topR;
Cx topW;
template <class N> Edge<N> topA;
template <class N> CachedEdge<N> conjTop(Package*, const Edge<N>& a) {
  vp_assert((a.p == topA<N>.p) & (a.w.r == topA<N>.w.r) & (a.w.i == topA<N>.w.i), "the operand is passed on");
  topR = vp_u64("r");
  topW = {vp_double("rw"), vp_double("rw")};
  return {reinterpret_cast<N*>(topR), ComplexValue{topW.re, topW.im}};
}
template <class N> void conjugationTop() {
  useNumbers();
  vp_replace(MAT<N> ? "dd::Package::conjugateTransposeRec\\(" : "dd::Package::conjugateRec\\(", vp_fn(conjTop<N>));
  auto& pk = package();
  topA<N> = Edge<N>{node<N>("x", vp_u16("v")), weight("w")};
  Edge<N> r{};
  if constexpr (MAT<N>) r = pk.conjugateTranspose(topA<N>);
  else r = pk.conjugate(topA<N>);
  vp_assert((id(r.p) == topR) | ((topW.re == 0) & (topW.im == 0)), "the node of the result is returned");
  eqc(cx(r.w), topW, "the weight of the result is returned");
  vp_cover("top");
}
} // namespace
VP_HARNESS H_conj_v() { conjugation<vNode>(); }
VP_HARNESS H_conj_m() { conjugation<mNode>(); }
VP_HARNESS H_conj_vt() { conjugationTerm<vNode>(); }
VP_HARNESS H_conj_mt() { conjugationTerm<mNode>(); }
VP_HARNESS H_conj_vtop() { conjugationTop<vNode>(); }
VP_HARNESS H_conj_mtop() { conjugationTop<mNode>(); }

// ------------------------------------------------------------ inner product
namespace {
vNode *ipX, *ipY;
Cx IP(U64 p, U64 q) { return {vp_ufr_2_0("IPre", p, q), vp_ufr_2_0("IPim", p, q)}; }
Cx ipSpec() {
  Cx s{0, 0};
  for (std::size_t i = 0; i < 2; i++) s = s + conj(cx(ipX->e[i].w)) * cx(ipY->e[i].w) * IP(id(ipX->e[i].p), id(ipY->e[i].p));
  return s;
}
ComplexValue ipStub(Package*, const vEdge& x, const vEdge& y, const Qubit v) {
  vp_assert(v == VAR, "the recursion goes exactly one level down");
  const Cx r = cx(x.w) * cx(y.w) * IP(id(x.p), id(y.p));
  return {r.re, r.im};
}
vCachedEdge* ipLookup(void*, vNode* const& x, vNode* const& y, bool) {
  vp_assert((x == ipX) & (y == ipY), "the table is asked for the operands");
  if (vp_choose("hit", 2) == 0) return nullptr;
  const Cx s = ipSpec();
  stored<vNode> = {nullptr, ComplexValue{s.re, s.im}};
  return &stored<vNode>;
}
void ipInsert(void*, vNode* const& x, vNode* const& y, const vCachedEdge& r) {
  vp_assert((x == ipX) & (y == ipY), "the result is stored under its operands");
  eqc(cx(r.w), ipSpec(), "the stored inner product belongs to its key");
}
} // namespace
VP_HARNESS H_inner() {
  VAR = vp_u16("var");
  vp_assume(VAR < VAR_MAX);
  useNumbers();
  vp_replace("dd::Package::innerProduct\\(dd::Edge<dd::vNode> const&, dd::Edge<dd::vNode> const&, unsigned short\\)", vp_fn(ipStub));
  vp_replace("^dd::ComputeTable<.*::lookup\\(", vp_fn(ipLookup));
  vp_replace("^dd::ComputeTable<.*::insert\\(", vp_fn(ipInsert));
  auto& pk = package();
  ipX = node<vNode>("x", VAR);
  ipY = vp_choose("same", 2) == 1 ? ipX : node<vNode>("y", VAR);
  const vEdge x{ipX, weight("xw")}, y{ipY, weight("yw")};
  const auto r = pk.innerProduct(x, y, static_cast<Qubit>(VAR + 1));
  eqc(cx(r), cx(x.w) * cx(y.w) * ipSpec(), "the inner product sums over this level");
  vp_cover("inner product");
}
VP_HARNESS H_inner_term() {
  useNumbers();
  auto& pk = package();
  const vEdge x{nullptr, weight("xw")}, y{nullptr, weight("yw")};
  const auto r = pk.innerProduct(x, y, 0);
  eqc(cx(r), cx(x.w) * cx(y.w), "terminal weights multiply");
  vp_cover("terminal");
}
namespace {
vEdge ipTX, ipTY;
Qubit ipTV;
ComplexValue ipTop(Package*, const vEdge& x, const vEdge& y, const Qubit v) {
  vp_assert((x.p == ipTX.p) & (y.p == ipTY.p), "the operands are passed on");
  eqc(cx(x.w), conj(cx(ipTX.w)), "the left weight is conjugated");
  eqc(cx(y.w), cx(ipTY.w), "the right weight is passed on");
  vp_assert(v == ipTV, "all levels are summed");
  topW = {vp_double("r"), vp_double("r")};
  return {topW.re, topW.im};
}
void ipTopSetup() {
  useNumbers();
  vp_replace("dd::Package::innerProduct\\(dd::Edge<dd::vNode> const&, dd::Edge<dd::vNode> const&, unsigned short\\)", vp_fn(ipTop));
  const Qubit v = vp_u16("v");
  vp_assume(v < VAR_MAX);
  topW = {0, 0};
  ipTV = static_cast<Qubit>(v + 1);
  ipTX = vEdge{node<vNode>("x", v), weight("xw")};
  ipTY = vEdge{node<vNode>("y", v), weight("yw")};
}
} // namespace
VP_HARNESS H_inner_top() {
  ipTopSetup();
  auto& pk = package();
  const auto r = pk.innerProduct(ipTX, ipTY);
  const Cx px = cx(ipTX.w), py = cx(ipTY.w);
  if ((px.re == 0) & (px.im == 0)) vp_assert((r.r == 0) & (r.i == 0), "zero operand");
  else if ((py.re == 0) & (py.im == 0)) vp_assert((r.r == 0) & (r.i == 0), "zero operand");
  else eqc(cx(r), topW, "the inner product is returned");
  vp_cover("top");
}
VP_HARNESS H_fidelity() {
  ipTopSetup();
  auto& pk = package();
  const auto r = pk.fidelity(ipTX, ipTY);
  const Cx px = cx(ipTX.w), py = cx(ipTY.w);
  const bool zero = ((px.re == 0) & (px.im == 0)) | ((py.re == 0) & (py.im == 0));
  if (zero) vp_assert(r == 0, "zero operand");
  else vp_assert_eq(r, topW.re * topW.re + topW.im * topW.im, "the fidelity is the squared overlap");
  vp_cover("fidelity");
}
// ------------------------------------------------------------ expectation value
namespace {
mEdge evX;
vEdge evY, evP;
vEdge evMul(Package*, const mEdge& x, const vEdge& y, bool) {
  vp_assert((x.p == evX.p) & (x.w.r == evX.w.r) & (x.w.i == evX.w.i), "the observable is applied");
  vp_assert((y.p == evY.p) & (y.w.r == evY.w.r) & (y.w.i == evY.w.i), "the state is the operand");
  evP = vEdge{reinterpret_cast<vNode*>(vp_u64("prod")), weight("prodw")};
  return evP;
}
ComplexValue evIp(Package*, const vEdge& x, const vEdge& y) {
  vp_assert((x.p == evY.p) & (x.w.r == evY.w.r) & (x.w.i == evY.w.i), "the bra is the state");
  vp_assert((y.p == evP.p) & (y.w.r == evP.w.r) & (y.w.i == evP.w.i), "the ket is the observable applied to the state");
  topW = {vp_double("r"), vp_double("r")};
  return {topW.re, topW.im};
}
} // namespace
VP_HARNESS H_expectation() {
  useNumbers();
  vp_replace("dd::Package::multiply<", vp_fn(evMul));
  vp_replace("dd::Package::innerProduct\\(dd::Edge<dd::vNode> const&, dd::Edge<dd::vNode> const&\\)", vp_fn(evIp));
  auto& pk = package();
  const Qubit vx = vp_u16("vx"), vy = vp_u16("vy");
  vp_assume((vx < VAR_MAX) & (vy < VAR_MAX));
  const bool ident = vp_choose("identity", 2) == 1;
  evX = mEdge{ident ? nullptr : node<mNode>("x", vx), weight("xw")};
  evY = vEdge{node<vNode>("y", vy), weight("yw")};
  bool threw = false;
  double r = 0;
  try {
    r = pk.expectationValue(evX, evY);
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  vp_assert(threw == (!ident & (vx > vy)), "only observables on more qubits than the state are rejected");
  if (!threw) vp_assert_eq(r, topW.re, "the expectation value is <state|observable|state>");
  vp_cover("expectation");
}

// ------------------------------------------------------------ tensor product
namespace {
template <class N> N* krY;
std::size_t krNum;
bool krInc;
Complex krWy;
Qubit krIdx;
Cx Y(U64 p) { return {vp_ufr_1_0("Yre", p), vp_ufr_1_0("Yim", p)}; }
// the node returned for the pair denotes the tensor product, its weight is exactly the product of the weights
template <class N> CachedEdge<N> krStub(Package*, const Edge<N>& x, const Edge<N>& y, const std::size_t n, const bool inc) {
  vp_assert((y.p == krY<N>) & (y.w.r == krWy.r) & (y.w.i == krWy.i), "the right operand is passed on");
  vp_assert((n == krNum) & (inc == krInc), "the offset is passed on");
  const Cx w = cx(x.w) * cx(y.w);
  if (vp_choose("zero", 2) == 1) {
    zeroC(cx(x.w));
    return CachedEdge<N>::zero();
  }
  const U64 p = vp_u64("kron");
  setc("Lre", "Lim", p, Cx{vp_ufr_1_0("XLre", id(x.p)), vp_ufr_1_0("XLim", id(x.p))} * Y(id(krY<N>)));
  return {reinterpret_cast<N*>(p), ComplexValue{w.re, w.im}};
}
// component i of the tensor product of the unit-weight operands
template <class N> Cx krSpec(std::size_t i) {
  const auto& e = theX<N>->e[i];
  return cx(e.w) * Cx{vp_ufr_1_0("XLre", id(e.p)), vp_ufr_1_0("XLim", id(e.p))} * Y(id(krY<N>));
}
// contract of makeDDNode (P04): multiples of the children of an existing node get the factor as weight
template <class N> CachedEdge<N> krMake(Package*, const Qubit v, const std::array<CachedEdge<N>, W<N>>& e, bool) {
  vp_assert(v == krIdx, "the product is created above the right operand");
  const Cx c = cx(krWy);
  for (std::size_t i = 0; i < W<N>; i++) eqc(cx(e[i].w), cx(theX<N>->e[i].w) * c, "the children are multiples of those of the left operand");
  const U64 p = vp_u64("made");
  auto& m = made[nmade++];
  m.p = p;
  for (std::size_t i = 0; i < W<N>; i++) m.d[i] = (cx(e[i].w) * L(e[i].p)) / c;
  return {reinterpret_cast<N*>(p), ComplexValue{c.re, c.im}};
}
// entries for the same pair: of the right offset, or of another one
template <class N> CachedEdge<N>* krLookup(void*, N* const& x, N* const& y, bool) {
  vp_assert((x == theX<N>) & (y == krY<N>), "the table is asked for the operands");
  const auto k = vp_choose("hit", 3);
  if (k == 0) return nullptr;
  const Qubit lv = k == 1 ? krIdx : vp_u16("otherlevel");
  if (k == 2) vp_assume(lv != krIdx);
  auto* p = node<N>("cachednode", lv);
  auto& m = made[nmade++];
  m.p = id(p);
  for (std::size_t i = 0; i < W<N>; i++) m.d[i] = k == 1 ? krSpec<N>(i) : Cx{vp_double("d"), vp_double("d")};
  stored<N> = {p, ComplexValue{vp_double("sw"), vp_double("sw")}};
  return &stored<N>;
}
template <class N> void krInsert(void*, N* const& x, N* const& y, const CachedEdge<N>& r) {
  vp_assert((x == theX<N>) & (y == krY<N>), "the result is stored under its operands");
  for (std::size_t i = 0; i < W<N>; i++) eqc(unfoldR(r.p, krIdx, i), krSpec<N>(i), "the stored node is the tensor product of its key");
}
template <class N> void krSetup() {
  nmade = 0;
  useNumbers();
  vp_replace("dd::Package::kronecker2<", vp_fn(krStub<N>));
  vp_replace("dd::Package::makeDDNode<", vp_fn(krMake<N>));
  vp_replace("^dd::ComputeTable<.*::lookup\\(", vp_fn(krLookup<N>));
  vp_replace("^dd::ComputeTable<.*::insert\\(", vp_fn(krInsert<N>));
}
template <class N> void kron(bool identY) {
  krSetup<N>();
  auto& pk = package();
  const Qubit vx = vp_u16("vx"), vy = vp_u16("vy");
  krNum = vp_u16("n");
  krInc = vp_choose("inc", 2) == 1;
  vp_assume((vx < 20000) & (vy < 20000) & (krNum < 20000));
  theX<N> = node<N>("x", vx);
  krY<N> = identY ? nullptr : node<N>("y", vy);
  const std::size_t off = MAT<N> ? krNum : vy + 1U;
  krIdx = static_cast<Qubit>(krInc ? vx + off : vx);
  krWy = weight("yw");
  const Edge<N> x{theX<N>, weight("xw")}, y{krY<N>, krWy};
  const auto r = pk.kronecker2<N>(x, y, krNum, krInc);
  const Cx w = cx(x.w) * cx(y.w);
  eqc(cx(r.w), w, "the weight is the product of the weights");
  for (std::size_t i = 0; i < W<N>; i++)
    eqc(cx(r.w) * unfoldR(r.p, krIdx, i), w * krSpec<N>(i), "the result is the tensor product");
  vp_cover("tensor");
}
template <class N> void kronTerm(bool identY) {
  krSetup<N>();
  auto& pk = package();
  krNum = vp_u64("n");
  krInc = vp_choose("inc", 2) == 1;
  krY<N> = identY ? nullptr : node<N>("y", vp_u16("vy"));
  krWy = weight("yw");
  const Edge<N> x{nullptr, weight("xw")}, y{krY<N>, krWy};
  const auto r = pk.kronecker2<N>(x, y, krNum, krInc);
  const Cx w = cx(x.w) * cx(y.w);
  eqc(cx(r.w), w, "the weight is the product of the weights");
  vp_assert((r.p == krY<N>) | ((r.w.r == 0) & (r.w.i == 0)), "a terminal left operand scales the right one");
  vp_cover("tensor with a terminal");
}
template <class N> Edge<N> krTX;
template <class N> Edge<N> krTY;
template <class N> CachedEdge<N> krTop(Package*, const Edge<N>& x, const Edge<N>& y, const std::size_t n, const bool inc) {
  vp_assert((x.p == krTX<N>.p) & (x.w.r == krTX<N>.w.r) & (x.w.i == krTX<N>.w.i), "the left operand is passed on");
  vp_assert((y.p == krTY<N>.p) & (y.w.r == krTY<N>.w.r) & (y.w.i == krTY<N>.w.i), "the right operand is passed on");
  vp_assert((n == krNum) & (inc == krInc), "the offset is passed on");
  topR = vp_u64("r");
  topW = {vp_double("rw"), vp_double("rw")};
  return {reinterpret_cast<N*>(topR), ComplexValue{topW.re, topW.im}};
}
template <class N> void kronTop() {
  useNumbers();
  vp_replace("dd::Package::kronecker2<", vp_fn(krTop<N>));
  auto& pk = package();
  krTX<N> = Edge<N>{node<N>("x", vp_u16("vx")), weight("xw")};
  krTY<N> = Edge<N>{node<N>("y", vp_u16("vy")), weight("yw")};
  krNum = vp_u64("n");
  krInc = vp_bool("inc");
  const auto r = pk.kronecker<N>(krTX<N>, krTY<N>, krNum, krInc);
  vp_assert((id(r.p) == topR) | ((topW.re == 0) & (topW.im == 0)), "the node of the result is returned");
  eqc(cx(r.w), topW, "the weight of the result is returned");
  vp_cover("top");
}
} // namespace
VP_HARNESS H_kron_v() { kron<vNode>(false); }
VP_HARNESS H_kron_m() { kron<mNode>(false); }
VP_HARNESS H_kron_mi() { kron<mNode>(true); }
VP_HARNESS H_kron_tv() { kronTerm<vNode>(false); }
VP_HARNESS H_kron_tt() { kronTerm<vNode>(true); }
VP_HARNESS H_kron_im() { kronTerm<mNode>(false); }
VP_HARNESS H_kron_ii() { kronTerm<mNode>(true); }
VP_HARNESS H_kron_vtop() { kronTop<vNode>(); }
VP_HARNESS H_kron_mtop() { kronTop<mNode>(); }

// ------------------------------------------------------------ (partial) trace, normalised
namespace {
constexpr std::size_t NQ = 3;
bool elim[NQ];
std::size_t trLevel;
Qubit trV;
bool trAll; // everything up to this level is eliminated
// normalised partial trace of the lower levels
Cx TR(const mNode* p) { return {vp_ufr_1_0("TRre", id(p)), vp_ufr_1_0("TRim", id(p))}; }
Cx trKid(std::size_t i) { return cx(theX<mNode>->e[i].w) * TR(theX<mNode>->e[i].p); }
mCachedEdge trStub(Package*, const mEdge& a, const std::vector<bool>& el, std::size_t level) {
  vp_assert(level + 1 == trLevel, "the recursion goes one level down");
  bool same = el.size() == NQ;
  for (std::size_t i = 0; i < NQ; i++) same = same & (el[i] == elim[i]);
  vp_assert(same, "the eliminated qubits are passed on");
  const Cx v = cx(a.w) * TR(a.p);
  if (vp_choose("zero", 2) == 1) {
    zeroC(cx(a.w));
    return mCachedEdge::zero();
  }
  return below<mNode>("tr", v);
}
mCachedEdge trAdd(Package*, const mCachedEdge& x, const mCachedEdge& y, const Qubit) {
  return below<mNode>("sum", cx(x.w) * L(x.p) + cx(y.w) * L(y.p));
}
mCachedEdge trMake(Package*, const Qubit v, const std::array<mCachedEdge, 4>& e, bool) {
  Qubit k = 0;
  for (std::size_t i = 0; i < NQ; i++)
    if (i < trV && !elim[i]) k++;
  vp_assert(v == k, "a kept qubit moves down by the eliminated ones below it");
  const U64 p = vp_u64("made");
  const Cx w{vp_double("madew"), vp_double("madew")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = p;
  for (std::size_t i = 0; i < 4; i++) m.d[i] = (cx(e[i].w) * L(e[i].p)) / w;
  return {reinterpret_cast<mNode*>(p), ComplexValue{w.re, w.im}};
}
mCachedEdge* trLookup(void*, mNode* const& x) {
  vp_assert(x == theX<mNode>, "the table is asked for the operand");
  vp_assert(trAll, "the table is used only if everything below is traced out");
  if (vp_choose("hit", 2) == 0) return nullptr;
  stored<mNode> = below<mNode>("cached", (trKid(0) + trKid(3)) * Cx{0.5, 0});
  return &stored<mNode>;
}
void trInsert(void*, mNode* const& x, const mCachedEdge& r) {
  vp_assert(x == theX<mNode>, "the result is stored under its operand");
  vp_assert(trAll, "the table is used only if everything below is traced out");
  eqc(cx(r.w) * L(r.p), (trKid(0) + trKid(3)) * Cx{0.5, 0}, "the stored trace belongs to its key");
}
template <int V> void traceAt() {
  nmade = 0;
  vp_bounded("partial trace: 3 qubits (every subset of eliminated qubits, every level)");
  useNumbers();
  vp_replace("^dd::CachedEdge<dd::mNode> dd::Package::trace<dd::mNode>\\(dd::Edge<dd::mNode> const&, std::vector<bool, std::allocator<bool> > const&, unsigned long\\)$", vp_fn(trStub));
  vp_replace("dd::Package::add2<", vp_fn(trAdd));
  vp_replace("dd::Package::makeDDNode<", vp_fn(trMake));
  vp_replace("^dd::UnaryComputeTable<.*::lookup\\(", vp_fn(trLookup));
  vp_replace("^dd::UnaryComputeTable<.*::insert\\(", vp_fn(trInsert));
  auto& pk = package();
  const auto mask = vp_choose("eliminate", 1U << NQ);
  std::vector<bool> el(NQ);
  for (std::size_t i = 0; i < NQ; i++) {
    elim[i] = ((mask >> i) & 1) != 0;
    el[i] = elim[i];
  }
  trV = V;
  trLevel = V + 1 + vp_choose("skipped", NQ - V);
  trAll = true;
  bool none = true;
  for (std::size_t i = 0; i <= V; i++) {
    trAll = trAll && elim[i];
    none = none && !elim[i];
  }
  theX<mNode> = node<mNode>("x", trV);
  const mEdge a{theX<mNode>, weight("w")};
  if (none) // nothing to eliminate below: the diagrams below denote their own trace
    for (std::size_t i = 0; i < 4; i++) setc("TRre", "TRim", id(a.p->e[i].p), L(a.p->e[i].p));
  const auto r = pk.trace(a, el, trLevel);
  const Cx w = cx(a.w);
  if (elim[V]) {
    eqc(cx(r.w) * L(r.p), w * (trKid(0) + trKid(3)) * Cx{0.5, 0}, "an eliminated qubit is averaged over its diagonal blocks");
  } else {
    Qubit k = 0;
    for (std::size_t i = 0; i < V; i++)
      if (!elim[i]) k++;
    for (std::size_t i = 0; i < 4; i++) eqc(cx(r.w) * unfoldR(r.p, none ? trV : k, i), w * trKid(i), "a kept qubit keeps its blocks");
  }
  vp_cover("trace");
}
} // namespace
VP_HARNESS H_trace_0() { traceAt<0>(); }
VP_HARNESS H_trace_1() { traceAt<1>(); }
VP_HARNESS H_trace_2() { traceAt<2>(); }
VP_HARNESS H_trace_id() {
  vp_bounded("partial trace: 3 qubits (every subset of eliminated qubits, every level)");
  useNumbers();
  auto& pk = package();
  const auto mask = vp_choose("eliminate", 1U << NQ);
  std::vector<bool> el(NQ);
  for (std::size_t i = 0; i < NQ; i++) el[i] = ((mask >> i) & 1) != 0;
  const mEdge a{nullptr, weight("w")};
  const auto r = pk.trace(a, el, vp_choose("level", NQ + 1));
  eqc(cx(r.w), cx(a.w), "the normalised trace of a multiple of the identity");
  vp_assert(r.p == nullptr, "the trace of the identity is the identity");
  vp_cover("identity");
}
namespace {
mEdge ttA;
std::size_t ttN;
bool ttEl[4];
mCachedEdge trTop(Package*, const mEdge& a, const std::vector<bool>& el, std::size_t level) {
  vp_assert((a.p == ttA.p) & (a.w.r == ttA.w.r) & (a.w.i == ttA.w.i), "the operand is passed on");
  vp_assert((level == ttN) & (el.size() == ttN), "all qubits are covered");
  bool same = true;
  for (std::size_t i = 0; i < el.size(); i++) same = same & (el[i] == ttEl[i]);
  vp_assert(same, "the requested qubits are eliminated");
  topR = vp_u64("r");
  topW = {vp_double("rw"), vp_double("rw")};
  return {reinterpret_cast<mNode*>(topR), ComplexValue{topW.re, topW.im}};
}
void ttSetup() {
  vp_bounded("trace entry points: up to 4 qubits");
  useNumbers();
  vp_replace("^dd::CachedEdge<dd::mNode> dd::Package::trace<dd::mNode>\\(dd::Edge<dd::mNode> const&, std::vector<bool, std::allocator<bool> > const&, unsigned long\\)$", vp_fn(trTop));
  ttN = 1 + vp_choose("n", 4);
  ttA = mEdge{node<mNode>("a", vp_u16("v")), weight("w")};
}
} // namespace
VP_HARNESS H_trace_full() {
  ttSetup();
  for (auto& b : ttEl) b = true;
  auto& pk = package();
  const auto r = pk.trace(ttA, ttN);
  eqc(cx(r), topW, "the full trace is returned");
  vp_cover("full trace");
}
VP_HARNESS H_trace_partial() {
  ttSetup();
  auto& pk = package();
  std::vector<bool> el(ttN);
  for (std::size_t i = 0; i < ttN; i++) {
    ttEl[i] = vp_choose("e", 2) == 1;
    el[i] = ttEl[i];
  }
  const auto r = pk.partialTrace(ttA, el);
  vp_assert((id(r.p) == topR) | ((topW.re == 0) & (topW.im == 0)), "the node of the partial trace is returned");
  eqc(cx(r.w), topW, "the weight of the partial trace is returned");
  vp_cover("partial trace");
}
