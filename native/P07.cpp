// Native companion of contracts/P07.cpp: adjoint, conjugate, tensor product, inner product, trace
#include "dd_rand.hpp"
using namespace ddr;
namespace {
Mat ptrace(const Mat& m, std::size_t n, const std::vector<bool>& el) {
  std::vector<std::size_t> keep, gone;
  for (std::size_t q = 0; q < n; q++) (el[q] ? gone : keep).push_back(q);
  Mat r(1ULL << keep.size());
  const auto spread = [](std::size_t v, const std::vector<std::size_t>& qs) {
    std::size_t x = 0;
    for (std::size_t k = 0; k < qs.size(); k++) x |= ((v >> k) & 1) << qs[k];
    return x;
  };
  for (std::size_t i = 0; i < r.d; i++)
    for (std::size_t j = 0; j < r.d; j++)
      for (std::size_t g = 0; g < (1ULL << gone.size()); g++)
        r(i, j) += m(spread(i, keep) | spread(g, gone), spread(j, keep) | spread(g, gone)) / static_cast<double>(1ULL << gone.size());
  return r;
}
Mat kron(const Mat& a, const Mat& b) {
  Mat r(a.d * b.d);
  for (std::size_t i = 0; i < r.d; i++)
    for (std::size_t j = 0; j < r.d; j++) r(i, j) = a(i / b.d, j / b.d) * b(i % b.d, j % b.d);
  return r;
}
void cse(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4);
  dd::Package p(7);
  for (int k = 0; k < 4; k++) {
    vpn::nontrivial++;
    const auto x = pin(p, matrix(p, r, n));
    const auto X = dense(x, n);
    same(dense(p.conjugateTranspose(x), n), adj(X), "adjoint");
    const auto u = pin(p, vec(p, r, n)), v = pin(p, r.coin(0.1) ? u : vec(p, r, n));
    const auto U = dense(u, n), V = dense(v, n);
    auto W = U;
    for (auto& e : W) e = std::conj(e);
    same(dense(p.conjugate(u), n), W, "conjugate");
    C ip = 0;
    for (std::size_t i = 0; i < W.size(); i++) ip += W[i] * V[i];
    if ((u.isTerminal() && !u.w.exactlyZero()) || (v.isTerminal() && !v.w.exactlyZero())) continue;
    const auto q = p.innerProduct(u, v);
    vpn::close(C{q.r, q.i}, ip, "inner product", 1e-8);
    vpn::close(p.fidelity(u, v), std::norm(ip), "fidelity", 1e-8);
    // Hermitian observable
    const auto o = pin(p, p.add(x, p.conjugateTranspose(x)));
    const auto O = dense(o, n);
    const auto s = pin(p, state(p, r, n));
    const auto S = dense(s, n);
    const auto OS = O * S;
    C ev = 0;
    for (std::size_t i = 0; i < S.size(); i++) ev += std::conj(S[i]) * OS[i];
    if (!o.w.exactlyZero()) vpn::close(p.expectationValue(o, s), ev.real(), "expectation value", 1e-8);
    // tensor products
    const std::size_t m = 1 + r.below(3);
    const auto y = pin(p, matrix(p, r, m));
    auto Y = dense(y, m);
    std::size_t my = m;
    if (!y.isTerminal()) my = y.p->v + 1U; // a tensor product puts x right above y's top level
    Y = dense(y, my);
    same(dense(p.kronecker(x, y, my), n + my), kron(X, Y), "tensor product of matrices with " + std::to_string(n) + "+" + std::to_string(my));
    const auto w = pin(p, vec(p, r, m));
    if (!(w.isTerminal() && !w.w.exactlyZero())) {
      const auto Wd = dense(w, m);
      Vec K(U.size() * Wd.size());
      for (std::size_t i = 0; i < K.size(); i++) K[i] = U[i / Wd.size()] * Wd[i % Wd.size()];
      same(dense(p.kronecker(u, w, m), n + m), K, "tensor product of vectors");
    }
    // traces (normalised)
    const auto t = p.trace(x, n);
    C T = 0;
    for (std::size_t i = 0; i < X.d; i++) T += X(i, i) / static_cast<double>(X.d);
    vpn::close(C{t.r, t.i}, T, "normalised trace", 1e-8);
    std::vector<bool> el(n);
    std::size_t ne = 0;
    for (std::size_t i = 0; i < n; i++) { el[i] = r.coin(); ne += el[i]; }
    std::ostringstream d;
    for (std::size_t i = 0; i < n; i++) d << el[i];
    same(dense(p.partialTrace(x, el), n - ne), ptrace(X, n, el), "partial trace over " + d.str());
    if (r.coin(0.3)) p.garbageCollect(true);
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
