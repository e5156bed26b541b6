// Native companion of contracts/P06.cpp: products of decision diagrams are matrix products
#include "dd_rand.hpp"
using namespace ddr;
namespace {
void cse(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4);
  dd::Package p(n);
  for (int k = 0; k < 6; k++) {
    vpn::nontrivial++;
    const auto x = pin(p, matrix(p, r, n)), y = pin(p, r.coin(0.15) ? x : matrix(p, r, n));
    const auto v = pin(p, vec(p, r, n));
    const auto X = dense(x, n), Y = dense(y, n);
    const auto V = dense(v, n);
    same(dense(p.multiply(x, y), n), X * Y, "matrix-matrix product");
    same(dense(p.multiply(y, x), n), Y * X, "matrix-matrix product (swapped)");
    if (!v.isTerminal() || v.w.exactlyZero()) {
      same(dense(p.multiply(x, v), n), X * V, "matrix-vector product");
      if (r.coin(0.3)) p.garbageCollect(true);
      same(dense(p.multiply(y, p.multiply(x, v)), n), Y * (X * V), "product of a product");
      // the operand is consumed, the result is counted
      p.incRef(v);
      const auto z = p.applyOperation(x, v);
      same(dense(z, n), X * V, "applied operation");
      p.decRef(z);
    }
    p.incRef(y);
    const bool left = r.coin();
    const auto z = p.applyOperation(x, y, left);
    same(dense(z, n), left ? X * Y : Y * X, "applied operation (matrix)");
    p.decRef(z);
    same(dense(x, n), X, "the left operand is unchanged");
    same(dense(v, n), V, "the right operand is unchanged");
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
