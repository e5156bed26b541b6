// @sources src/dd/Package.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/Node.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp
// @opts * {"timeout": 500, "steps": 30000000, "bvsplit": true}
// Contracts: addition of decision diagrams is pointwise addition.
#include "dd.hpp"
using namespace vpdd;
namespace {
Qubit VAR;
// induction hypothesis: add2 one level below returns the sum
template <class N> CachedEdge<N> addStub(Package*, const CachedEdge<N>& x, const CachedEdge<N>& y, const Qubit v) {
  vp_assert(v == static_cast<Qubit>(VAR - 1), "the recursion goes exactly one level down");
  const U64 p = vp_u64("sum");
  const Cx w{vp_double("sumw"), vp_double("sumw")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  setc("Lre", "Lim", p, (cx(x.w) * L(x.p) + cx(y.w) * L(y.p)) / w);
  return {reinterpret_cast<N*>(p), ComplexValue{w.re, w.im}};
}
// contract of makeDDNode (P04)
template <class N> CachedEdge<N> makeStub(Package*, const Qubit v, const std::array<CachedEdge<N>, W<N>>& e, bool) {
  vp_assert(v == VAR, "the result node is created at the current level");
  const U64 p = vp_u64("made");
  const Cx w{vp_double("madew"), vp_double("madew")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = p;
  for (std::size_t i = 0; i < W<N>; i++) m.d[i] = (cx(e[i].w) * L(e[i].p)) / w;
  return {reinterpret_cast<N*>(p), ComplexValue{w.re, w.im}};
}
// contract of the compute table (P11): either no entry, or the result of an earlier identical call
template <class N> CachedEdge<N> stored;
template <class N> bool hit;
template <class N> const CachedEdge<N>* ctLookup(void*, const CachedEdge<N>& x, const CachedEdge<N>& y) {
  hit<N> = vp_choose("hit", 2) == 1;
  if (!hit<N>) return nullptr;
  const U64 p = vp_u64("cached");
  const Cx w{vp_double("cachedw"), vp_double("cachedw")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  auto& m = made[nmade++];
  m.p = p;
  for (std::size_t i = 0; i < W<N>; i++) m.d[i] = (cx(x.w) * unfold(x.p, VAR, i) + cx(y.w) * unfold(y.p, VAR, i)) / w;
  stored<N> = {reinterpret_cast<N*>(p), ComplexValue{w.re, w.im}};
  return &stored<N>;
}
template <class N> void ctInsert(void*, const CachedEdge<N>& x, const CachedEdge<N>& y, const CachedEdge<N>& r) {
  for (std::size_t i = 0; i < W<N>; i++)
    eqc(cx(r.w) * unfoldR(r.p, VAR, i), cx(x.w) * unfold(x.p, VAR, i) + cx(y.w) * unfold(y.p, VAR, i), "the stored result is the sum of its key");
}
enum Kind { AT, LOWER, IDENT };
template <class N> CachedEdge<N> operand(const char* n, Kind k) {
  N* p = nullptr;
  if (k == AT) p = node<N>(n, VAR);
  if (k == LOWER) {
    const auto v = vp_u16("lower");
    vp_assume(v < VAR);
    p = node<N>(n, v);
  }
  return {p, ComplexValue{vp_double("w"), vp_double("w")}};
}
template <class N> void add(Kind kx, Kind ky) {
  nmade = 0;
  VAR = vp_u16("var");
  vp_assume(VAR < VAR_MAX);
  useNumbers();
  vp_replace(MAT<N> ? "dd::Package::add2<dd::mNode>\\(" : "dd::Package::add2<dd::vNode>\\(", vp_fn(addStub<N>));
  vp_replace(MAT<N> ? "dd::Package::makeDDNode<dd::mNode, dd::CachedEdge>\\(" : "dd::Package::makeDDNode<dd::vNode, dd::CachedEdge>\\(", vp_fn(makeStub<N>));
  vp_replace("^dd::ComputeTable<.*::lookup\\(", vp_fn(ctLookup<N>));
  vp_replace("^dd::ComputeTable<.*::insert\\(", vp_fn(ctInsert<N>));
  auto& pk = package();
  const auto x = operand<N>("x", kx);
  const auto y = operand<N>("y", ky);
  const auto r = pk.add2(x, y, VAR);
  for (std::size_t i = 0; i < W<N>; i++)
    eqc(cx(r.w) * unfoldR(r.p, VAR, i), cx(x.w) * unfold(x.p, VAR, i) + cx(y.w) * unfold(y.p, VAR, i), "the sum is pointwise");
  vp_cover("add");
}
} // namespace
VP_HARNESS H_add_v() { add<vNode>(AT, AT); }
VP_HARNESS H_add_term_v() { // below the last level: scalars
  add<vNode>(IDENT, IDENT);
}
VP_HARNESS H_add_m00() { add<mNode>(AT, AT); }
VP_HARNESS H_add_m01() { add<mNode>(AT, LOWER); }
VP_HARNESS H_add_m02() { add<mNode>(AT, IDENT); }
VP_HARNESS H_add_m10() { add<mNode>(LOWER, AT); }
VP_HARNESS H_add_m11() { add<mNode>(LOWER, LOWER); }
VP_HARNESS H_add_m12() { add<mNode>(LOWER, IDENT); }
VP_HARNESS H_add_m20() { add<mNode>(IDENT, AT); }
VP_HARNESS H_add_m21() { add<mNode>(IDENT, LOWER); }
VP_HARNESS H_add_m22() { add<mNode>(IDENT, IDENT); }

// ---- entry point: the recursion starts at the higher of the two levels
namespace {
template <class N> struct Top {
  N *x, *y;
  Cx wx, wy;
  U64 r;
  Cx wr;
};
template <class N> Top<N> T;
template <class N> CachedEdge<N> add2Top(Package*, const CachedEdge<N>& x, const CachedEdge<N>& y, const Qubit v) {
  vp_assert((x.p == T<N>.x) & (y.p == T<N>.y), "the operands are passed on");
  eqc(cx(x.w), T<N>.wx, "the left weight is passed on");
  eqc(cx(y.w), T<N>.wy, "the right weight is passed on");
  vp_assert(v == VAR, "the recursion starts at the highest level of the operands");
  T<N>.r = vp_u64("r");
  T<N>.wr = {vp_double("rw"), vp_double("rw")};
  return {reinterpret_cast<N*>(T<N>.r), ComplexValue{T<N>.wr.re, T<N>.wr.im}};
}
Complex weight() { return {reinterpret_cast<RealNumber*>(vp_u64("wr")), reinterpret_cast<RealNumber*>(vp_u64("wi"))}; }
template <class N> void top(bool tx, bool ty) {
  useNumbers();
  vp_replace(MAT<N> ? "dd::Package::add2<dd::mNode>\\(" : "dd::Package::add2<dd::vNode>\\(", vp_fn(add2Top<N>));
  auto& pk = package();
  N* t = nullptr;
  if constexpr (!MAT<N>) t = vNode::getTerminal();
  Qubit a = 0, b = 0;
  T<N>.x = T<N>.y = t;
  if (!tx) {
    a = vp_u16("a");
    T<N>.x = node<N>("x", a);
  }
  if (!ty) {
    b = vp_u16("b");
    T<N>.y = node<N>("y", b);
  }
  VAR = a > b ? a : b;
  const Edge<N> x{T<N>.x, weight()}, y{T<N>.y, weight()};
  T<N>.wx = cx(x.w);
  T<N>.wy = cx(y.w);
  const auto r = pk.add(x, y);
  vp_assert((id(r.p) == T<N>.r) | ((T<N>.wr.re == 0) & (T<N>.wr.im == 0)), "the node of the sum is returned");
  eqc(cx(r.w), T<N>.wr, "the weight of the sum is returned");
  vp_cover("top");
}
} // namespace
VP_HARNESS H_top_v() { top<vNode>(false, false); }
VP_HARNESS H_top_m() { top<mNode>(false, false); }
VP_HARNESS H_top_mt() { top<mNode>(false, true); }
VP_HARNESS H_top_tm() { top<mNode>(true, false); }
VP_HARNESS H_top_tt() { top<mNode>(true, true); }
