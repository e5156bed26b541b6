// @sources src/dd/Package.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/Node.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp
// @opts * {"timeout": 500, "steps": 30000000, "bvsplit": true}
// Contracts: multiplication of decision diagrams is matrix multiplication.
#include "dd.hpp"
using namespace vpdd;
namespace {
Qubit VAR;
std::size_t ROW, COL; // the entry of the product under test
// what the operands contribute at this level
struct Kid {
  Cx w;
  U64 p;
};
Kid kx[2][2], ky[2][2];
// product of the two unit-weight subdiagrams one level below, at the fixed lower-level position
Cx prod(U64 p, U64 q) {
  if (vp_known(p == 0)) return {vp_ufr_1_0("Lre", q), vp_ufr_1_0("Lim", q)};
  if (vp_known(q == 0)) return {vp_ufr_1_0("Lre", p), vp_ufr_1_0("Lim", p)};
  return {vp_ufr_2_0("Pre", p, q), vp_ufr_2_0("Pim", p, q)};
}
void zero(Cx v) {
  vp_assume_eq(v.re, 0);
  vp_assume_eq(v.im, 0);
}
bool allZero;
template <class R> constexpr std::size_t COLS = W<R> == 4 ? 2 : 1;
// induction hypothesis: multiply2 one level below returns the product
template <class R> CachedEdge<R> mulStub(Package*, const Edge<mNode>& x, const Edge<R>& y, const Qubit v, bool) {
  vp_assert(v == static_cast<Qubit>(VAR - 1), "the recursion goes exactly one level down");
  for (std::size_t k = 0; k < 2; k++) {
    const auto &a = kx[ROW][k], &b = ky[k][COL];
    const bool same = vp_known(id(x.p) == a.p) & vp_known(id(y.p) == b.p);
    if (!same) continue;
    const Cx wx = cx(x.w), wy = cx(y.w);
    if (!(vp_known(wx.re == a.w.re) & vp_known(wx.im == a.w.im) & vp_known(wy.re == b.w.re) & vp_known(wy.im == b.w.im))) continue;
    const Cx pr = prod(a.p, b.p);
    if (vp_known(wx.re == 0) & vp_known(wx.im == 0)) return CachedEdge<R>::zero();
    if (vp_known(wy.re == 0) & vp_known(wy.im == 0)) return CachedEdge<R>::zero();
    switch (vp_choose("product", 4)) {
    case 1: zero(wx); return CachedEdge<R>::zero();
    case 2: zero(wy); return CachedEdge<R>::zero();
    case 3: zero(pr); return CachedEdge<R>::zero();
    default: return below<R>("prod", wx * wy * pr);
    }
  }
  // a product that does not contribute to the entry under test: arbitrary
  if (allZero) return CachedEdge<R>::zero();
  return below<R>("other", Cx{vp_double("v"), vp_double("v")});
}
// contract of add2 (P05)
template <class R> CachedEdge<R> addStub(Package*, const CachedEdge<R>& x, const CachedEdge<R>& y, const Qubit v) {
  vp_assert(v == static_cast<Qubit>(VAR - 1), "products are added one level down");
  return below<R>("sum", cx(x.w) * L(x.p) + cx(y.w) * L(y.p));
}
// contract of makeDDNode (P04)
template <class R> CachedEdge<R> makeStub(Package*, const Qubit v, const std::array<CachedEdge<R>, W<R>>& e, bool) {
  vp_assert(v == VAR, "the result node is created at the current level");
  const U64 p = vp_u64("made");
  const Cx w{vp_double("madew"), vp_double("madew")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = p;
  for (std::size_t i = 0; i < W<R>; i++) m.d[i] = (cx(e[i].w) * L(e[i].p)) / w;
  return {reinterpret_cast<R*>(p), ComplexValue{w.re, w.im}};
}
Cx spec() {
  Cx s{0, 0};
  for (std::size_t k = 0; k < 2; k++) s = s + kx[ROW][k].w * ky[k][COL].w * prod(kx[ROW][k].p, ky[k][COL].p);
  return s;
}
template <class R> CachedEdge<R> stored;
template <class R> const CachedEdge<R>* ctLookup(void*, mNode* const&, R* const&, bool) {
  if (vp_choose("hit", 2) == 0) return nullptr;
  const U64 p = vp_u64("cached");
  const Cx w{vp_double("cachedw"), vp_double("cachedw")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = p;
  m.d[COLS<R> * ROW + COL] = spec() / w;
  stored<R> = {reinterpret_cast<R*>(p), ComplexValue{w.re, w.im}};
  return &stored<R>;
}
template <class R> R* theY;
mNode* theX;
template <class R> void ctInsert(void*, mNode* const& x, R* const& y, const CachedEdge<R>& r) {
  vp_assert((x == theX) & (y == theY<R>), "the result is stored under its operands");
  const auto i = COLS<R> * ROW + COL;
  eqc(cx(r.w) * unfoldR(r.p, VAR, i), spec(), "the stored result is the product of its key");
}
enum Kind { AT, LOWER, IDENT };
template <class N> N* operand(const char* n, Kind k) {
  if (k == AT) return node<N>(n, VAR);
  if (k == LOWER) {
    const auto v = vp_u16("lower");
    vp_assume(v < VAR);
    return node<N>(n, v);
  }
  return nullptr;
}
Complex weight(const char* n) { return {reinterpret_cast<RealNumber*>(vp_u64(n)), reinterpret_cast<RealNumber*>(vp_u64(n))}; }
template <class N> void kids(Kid (&k)[2][2], const N* p, bool at) {
  for (std::size_t i = 0; i < 2; i++)
    for (std::size_t j = 0; j < 2; j++) {
      if (at) {
        if (W<N> == 2 && j == 1) continue;
        const auto& e = p->e[W<N> == 2 ? i : 2 * i + j];
        k[i][j] = {cx(e.w), id(e.p)};
      } else {
        k[i][j] = {{i == j ? 1.0 : 0.0, 0}, i == j ? id(p) : 0};
      }
    }
}
template <class R> void mul(Kind kindx, Kind kindy, std::size_t row, std::size_t col) {
  nmade = 0;
  ROW = row;
  COL = col;
  VAR = vp_u16("var");
  vp_assume(VAR < VAR_MAX);
  useNumbers();
  vp_replace("dd::Package::multiply2<", vp_fn(mulStub<R>));
  vp_replace("dd::Package::add2<", vp_fn(addStub<R>));
  vp_replace("dd::Package::makeDDNode<", vp_fn(makeStub<R>));
  vp_replace("^dd::ComputeTable<.*::lookup\\(", vp_fn(ctLookup<R>));
  vp_replace("^dd::ComputeTable<.*::insert\\(", vp_fn(ctInsert<R>));
  auto& pk = package();
  allZero = vp_choose("others", 2) == 1;
  theX = operand<mNode>("x", kindx);
  theY<R> = operand<R>("y", kindy);
  kids(kx, theX, kindx == AT);
  kids(ky, theY<R>, kindy == AT);
  const mEdge x{theX, weight("xw")};
  const Edge<R> y{theY<R>, weight("yw")};
  const auto r = pk.multiply2<mNode, R>(x, y, VAR, false);
  eqc(cx(r.w) * unfoldR(r.p, VAR, COLS<R> * row + col), cx(x.w) * cx(y.w) * spec(), "the product is the matrix product");
  vp_cover("multiply");
}
} // namespace
#define MV(K, X)                                                                                                       \
  VP_HARNESS H_mv_##K##0() { mul<vNode>(X, AT, 0, 0); }                                                                \
  VP_HARNESS H_mv_##K##1() { mul<vNode>(X, AT, 1, 0); }
MV(at, AT)
MV(low, LOWER)
MV(id, IDENT)
#define MM(K, X, Y)                                                                                                    \
  VP_HARNESS H_mm_##K##00() { mul<mNode>(X, Y, 0, 0); }                                                                \
  VP_HARNESS H_mm_##K##01() { mul<mNode>(X, Y, 0, 1); }                                                                \
  VP_HARNESS H_mm_##K##10() { mul<mNode>(X, Y, 1, 0); }                                                                \
  VP_HARNESS H_mm_##K##11() { mul<mNode>(X, Y, 1, 1); }
MM(at_at, AT, AT)
MM(at_low, AT, LOWER)
MM(at_id, AT, IDENT)
MM(low_at, LOWER, AT)
MM(low_low, LOWER, LOWER)
MM(low_id, LOWER, IDENT)
MM(id_at, IDENT, AT)
MM(id_low, IDENT, LOWER)
MM(id_id, IDENT, IDENT)

// ---- entry point: the recursion starts at the higher of the two levels
namespace {
mNode* topX;
template <class R> R* topY;
Complex topWx, topWy;
U64 topR;
Cx topW;
template <class R> CachedEdge<R> mul2Top(Package*, const Edge<mNode>& x, const Edge<R>& y, const Qubit v, bool) {
  vp_assert((x.p == topX) & (y.p == topY<R>), "the operands are passed on");
  eqc(cx(x.w), cx(topWx), "the left weight is passed on");
  eqc(cx(y.w), cx(topWy), "the right weight is passed on");
  vp_assert(v == VAR, "the recursion starts at the highest level of the operands");
  topR = vp_u64("r");
  topW = {vp_double("rw"), vp_double("rw")};
  return {reinterpret_cast<R*>(topR), ComplexValue{topW.re, topW.im}};
}
template <class R> void top(bool tx, bool ty) {
  useNumbers();
  vp_replace("dd::Package::multiply2<", vp_fn(mul2Top<R>));
  auto& pk = package();
  Qubit a = 0, b = 0;
  topX = nullptr;
  topY<R> = nullptr;
  if (!tx) {
    a = vp_u16("a");
    topX = node<mNode>("x", a);
  }
  if (!ty) {
    b = vp_u16("b");
    topY<R> = node<R>("y", b);
  }
  VAR = a > b ? a : b;
  topWx = weight("xw");
  topWy = weight("yw");
  const auto r = pk.multiply(mEdge{topX, topWx}, Edge<R>{topY<R>, topWy});
  vp_assert((id(r.p) == topR) | ((topW.re == 0) & (topW.im == 0)), "the node of the product is returned");
  eqc(cx(r.w), topW, "the weight of the product is returned");
  vp_cover("top");
}
} // namespace
VP_HARNESS H_top_mv() { top<vNode>(false, false); }
VP_HARNESS H_top_iv() { top<vNode>(true, false); }
VP_HARNESS H_top_mm() { top<mNode>(false, false); }
VP_HARNESS H_top_mi() { top<mNode>(false, true); }
VP_HARNESS H_top_im() { top<mNode>(true, false); }
