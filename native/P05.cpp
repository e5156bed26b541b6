// Native companion of contracts/P05.cpp: sums of decision diagrams are pointwise
#include "dd_rand.hpp"
using namespace ddr;
namespace {
void cse(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4);
  dd::Package p(n);
  for (int k = 0; k < 6; k++) {
    vpn::nontrivial++;
    const auto x = pin(p, matrix(p, r, n)), y = pin(p, r.coin(0.15) ? x : matrix(p, r, n));
    const auto X = dense(x, n), Y = dense(y, n);
    const auto s = pin(p, p.add(x, y));
    if (s.isTerminal() || x.isTerminal() || s.p->v < n) same(dense(s, n), X + Y, "matrix sum");
    same(dense(p.add(y, x), n), X + Y, "matrix sum (swapped)");
    const auto u = pin(p, vec(p, r, n)), v = pin(p, r.coin(0.15) ? u : vec(p, r, n));
    const auto U = dense(u, n), V = dense(v, n);
    auto W = U;
    for (std::size_t i = 0; i < W.size(); i++) W[i] += V[i];
    same(dense(p.add(u, v), n), W, "vector sum");
    same(dense(p.add(v, u), n), W, "vector sum (swapped)");
    if (r.coin(0.3)) p.garbageCollect(true);
    same(dense(p.add(u, v), n), W, "vector sum (again)");
    same(dense(x, n), X, "the left operand is unchanged");
    same(dense(v, n), V, "the right operand is unchanged");
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
