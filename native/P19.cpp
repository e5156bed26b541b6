// Native companion of contracts/P19.cpp: entries of diagrams, and diagrams from entries
#include "dd_rand.hpp"
using namespace ddr;
namespace {
void cse(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4);
  dd::Package p(n + 2);
  for (int k = 0; k < 3; k++) {
    vpn::nontrivial++;
    const double big = r.coin(0.3) ? 0.2 : 0; // threshold
    const auto m = pin(p, matrix(p, r, n));
    const auto M = dense(m, n);
    const auto got = m.getMatrix(n);
    const auto sp = m.getSparseMatrix(n), spT = m.getSparseMatrix(n, big);
    const auto gotT = m.getMatrix(n, big);
    vpn::require(got.size() == M.d, "size of the dense matrix");
    for (std::size_t i = 0; i < M.d; i++)
      for (std::size_t j = 0; j < M.d; j++) {
        vpn::close(got[i][j], M(i, j), "dense matrix", 1e-9);
        vpn::close(m.getValueByIndex(n, i, j), M(i, j), "entry by index", 1e-9);
        const auto it = sp.find({i, j});
        vpn::close(it == sp.end() ? C{} : it->second, M(i, j), "sparse matrix", 1e-9);
        const auto b = std::abs(gotT[i][j]);
        vpn::require(std::abs(gotT[i][j] - M(i, j)) < 1e-9 || (b == 0 && big > 0), "entries above the threshold are exact");
        if (big > 0 && std::abs(gotT[i][j]) > 0) vpn::require(std::abs(M(i, j)) > big - 1e-9, "entries below the threshold are dropped");
        const auto itT = spT.find({i, j});
        vpn::close(itT == spT.end() ? C{} : itT->second, gotT[i][j], "sparse and dense thresholds agree", 1e-9);
      }
    const auto v = pin(p, vec(p, r, n));
    const auto V = dense(v, n);
    if (!v.isTerminal()) {
      const auto gv = v.getVector();
      const auto sv = v.getSparseVector();
      dd::CVec acc(V.size(), C{1, 1});
      v.addToVector(acc);
      vpn::require(gv.size() == V.size(), "size of the dense vector");
      for (std::size_t i = 0; i < V.size(); i++) {
        vpn::close(gv[i], V[i], "dense vector", 1e-9);
        vpn::close(v.getValueByIndex(i), V[i], "amplitude by index", 1e-9);
        const auto it = sv.find(i);
        vpn::close(it == sv.end() ? C{} : it->second, V[i], "sparse vector", 1e-9);
        vpn::close(acc[i], V[i] + C{1, 1}, "added amplitude", 1e-9);
      }
    }
    // building
    dd::CVec w(1ULL << n);
    for (auto& x : w) x = entry(r);
    same(dense(p.makeStateFromVector(w), n), w, "state from vector");
    dd::CMat a(1ULL << n, dd::CVec(1ULL << n));
    for (auto& row : a) for (auto& x : row) x = entry(r);
    const auto A = dense(p.makeDDFromMatrix(a), n);
    for (std::size_t i = 0; i < a.size(); i++)
      for (std::size_t j = 0; j < a.size(); j++) vpn::close(A(i, j), a[i][j], "matrix from entries", 1e-9);
    // standard states
    std::vector<dd::BasisStates> bs;
    std::vector<C> want{C{1, 0}};
    for (std::size_t q = 0; q < n; q++) {
      const auto s = r.below(6);
      bs.push_back(static_cast<dd::BasisStates>(s));
      const double h = std::sqrt(0.5);
      const C hi[6] = {0, 1, h, -h, C{0, h}, C{0, -h}};
      const dd::BasisStates all[6] = {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::right, dd::BasisStates::left};
      bs.back() = all[s];
      const C lo = s == 0 ? 1. : s == 1 ? 0. : h;
      std::vector<C> nw;
      for (const auto& x : want) nw.push_back(x * lo);
      for (const auto& x : want) nw.push_back(x * hi[s]);
      want = nw;
    }
    same(dense(p.makeBasisState(n, bs), n), want, "product state");
    const std::size_t dim = 1ULL << n;
    std::vector<C> ghz(dim), wst(dim), z(dim);
    ghz[0] = ghz[dim - 1] = std::sqrt(0.5);
    z[0] = 1;
    for (std::size_t q = 0; q < n; q++) wst[1ULL << q] = 1 / std::sqrt(static_cast<double>(n));
    same(dense(p.makeGHZState(n), n), ghz, "GHZ state");
    same(dense(p.makeWState(n), n), wst, "W state");
    same(dense(p.makeZeroState(n), n), z, "zero state");
    const auto b = r.below(dim);
    std::vector<bool> bits(n);
    for (std::size_t q = 0; q < n; q++) bits[q] = ((b >> q) & 1) != 0;
    z[0] = 0;
    z[b] = 1;
    same(dense(p.makeBasisState(n, bits), n), z, "basis state");
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
