// Native companion of contracts/P04.cpp: normalisation and creation of nodes
#include "dd_rand.hpp"
using namespace ddr;
namespace {
template <class N> void shape(const N* p) {
  constexpr std::size_t K = std::tuple_size_v<decltype(N::e)>;
  double s = 0, mx = 0;
  for (const auto& e : p->e) {
    const double m = std::norm(C{dd::RealNumber::val(e.w.r), dd::RealNumber::val(e.w.i)});
    s += m;
    mx = std::max(mx, m);
    if (e.w.exactlyZero()) vpn::require(e.p == nullptr, "zero successors are terminal");
  }
  if (K == 2) {
    vpn::close(s, 1., "vector successor weights have norm one", 1e-9);
    bool ok = false;
    for (const auto& e : p->e) {
      const double re = dd::RealNumber::val(e.w.r), im = dd::RealNumber::val(e.w.i);
      ok = ok || (re * re + im * im + 1e-9 >= mx && im == 0 && re > 0);
    }
    vpn::require(ok, "the largest weight is real and positive");
  } else {
    bool one = false;
    for (const auto& e : p->e) one = one || e.w.exactlyOne();
    vpn::require(one && mx <= 1 + 1e-9, "the largest successor weight is one");
  }
}
template <class N> void walk(const N* p, std::set<const N*>& seen) {
  if (p == nullptr || !seen.insert(p).second) return;
  shape(p);
  if (std::tuple_size_v<decltype(N::e)> == 4)
    vpn::require(!(p->e[0].p == p->e[3 % p->e.size()].p && p->e[0].w.exactlyOne() && p->e[3 % p->e.size()].w.exactlyOne() && p->e[1].w.exactlyZero() && p->e[2 % p->e.size()].w.exactlyZero()), "identities are skipped");
  for (const auto& e : p->e) walk<N>(e.p, seen);
}
template <class N> void check(const dd::Edge<N>& e) {
  std::set<const N*> s;
  walk<N>(e.p, s);
}
const std::array<C, 5> FAC{C{0, 1}, C{-1, 0}, C{0, -0.5}, C{2, 0}, C{0.25, 0}};
void cse(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(3);
  dd::Package p(n + 1);
  for (int k = 0; k < 4; k++) {
    vpn::nontrivial++;
    std::array<dd::mEdge, 4> me;
    std::array<Mat, 4> M;
    const bool ident = r.coin(0.2);
    for (std::size_t i = 0; i < 4; i++) {
      me[i] = r.coin(0.25) || (ident && (i == 1 || i == 2)) ? dd::mEdge::zero() : pin(p, ident && i == 3 ? me[0] : matrix(p, r, n));
      M[i] = dense(me[i], n);
    }
    const auto m = p.makeDDNode(static_cast<dd::Qubit>(n), me);
    Mat want(2ULL << n);
    for (std::size_t i = 0; i < want.d; i++)
      for (std::size_t j = 0; j < want.d; j++) want(i, j) = M[2 * (i >> n) + (j >> n)](i & ((1ULL << n) - 1), j & ((1ULL << n) - 1));
    same(dense(m, n + 1), want, "the node represents its blocks");
    check(m);
    const C f = FAC[r.below(FAC.size())];
    std::array<dd::mCachedEdge, 4> mc, ms;
    for (std::size_t i = 0; i < 4; i++) {
      const auto w = static_cast<dd::ComplexValue>(me[i].w);
      mc[i] = {me[i].p, w};
      const C s = C{w.r, w.i} * f;
      ms[i] = {me[i].p, dd::ComplexValue{s.real(), s.imag()}};
    }
    const auto c1 = p.makeDDNode(static_cast<dd::Qubit>(n), mc), c2 = p.makeDDNode(static_cast<dd::Qubit>(n), ms);
    vpn::require(c1.p == m.p && c2.p == m.p, "multiples of a matrix share their node");
    vpn::close(C{c2.w.r, c2.w.i}, C{c1.w.r, c1.w.i} * f, "the top weight carries the factor", 1e-9);

    std::array<dd::vEdge, 2> ve;
    std::array<std::vector<C>, 2> V;
    for (std::size_t i = 0; i < 2; i++) {
      ve[i] = r.coin(0.25) ? dd::vEdge::zero() : pin(p, r.coin(0.3) && i == 1 ? ve[0] : vec(p, r, n));
      V[i] = dense(ve[i], n);
    }
    const auto v = p.makeDDNode(static_cast<dd::Qubit>(n), ve);
    auto wantV = V[0];
    wantV.insert(wantV.end(), V[1].begin(), V[1].end());
    same(dense(v, n + 1), wantV, "the node represents its halves");
    check(v);
    std::array<dd::vCachedEdge, 2> vc, vs;
    for (std::size_t i = 0; i < 2; i++) {
      const auto w = static_cast<dd::ComplexValue>(ve[i].w);
      vc[i] = {ve[i].p, w};
      const C s = C{w.r, w.i} * f;
      vs[i] = {ve[i].p, dd::ComplexValue{s.real(), s.imag()}};
    }
    const auto d1 = p.makeDDNode(static_cast<dd::Qubit>(n), vc), d2 = p.makeDDNode(static_cast<dd::Qubit>(n), vs);
    vpn::require(d1.p == d2.p, "multiples of a vector share their node");
    vpn::close(C{d2.w.r, d2.w.i}, C{d1.w.r, d1.w.i} * f, "the top weight carries the factor", 1e-9);
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
