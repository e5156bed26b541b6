// Native companion of contracts/P21.cpp: removing ancillary and garbage qubits from diagrams
#include "dd_rand.hpp"
using namespace ddr;
namespace {
std::vector<bool> mask(vpn::Rng& r, std::size_t n) {
  std::vector<bool> m(n);
  const double d = r.coin(0.2) ? 0.0 : r.coin(0.2) ? 1.0 : 0.4;
  for (std::size_t i = 0; i < n; i++) m[i] = r.coin(d);
  return m;
}
std::size_t bits(const std::vector<bool>& m) {
  std::size_t b = 0;
  for (std::size_t i = 0; i < m.size(); i++)
    if (m[i]) b |= 1ULL << i;
  return b;
}
std::string str(const std::vector<bool>& m) {
  std::string s;
  for (const bool b : m) s += b ? '1' : '0';
  return s;
}
void cse(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4);
  dd::Package p(n + 1);
  for (int k = 0; k < 4; k++) {
    vpn::nontrivial++;
    const auto an = mask(r, n);
    const auto a = bits(an);
    const bool regular = r.coin();
    vpn::what = "n=" + std::to_string(n) + " mask=" + str(an) + (regular ? " regular" : " inverse");
    {
      const auto e = pin(p, matrix(p, r, n));
      auto want = dense(e, n);
      for (std::size_t i = 0; i < want.d; i++)
        for (std::size_t j = 0; j < want.d; j++)
          if (((regular ? j : i) & a) != 0) want(i, j) = 0;
      const auto res = p.reduceAncillae(e, an, regular);
      same(dense(res, n), want, "entries of unused ancillary inputs vanish, all others stay");
      if (!res.isTerminal()) vpn::require(res.p->ref > 0, "the result is referenced");
    }
    {
      const auto got = dense(p.createInitialMatrix(an), n);
      for (std::size_t i = 0; i < got.d; i++)
        for (std::size_t j = 0; j < got.d; j++) vpn::close(got(i, j), C{i == j && (j & a) == 0 ? 1. : 0., 0.}, "initial matrix");
    }
    const bool mags = r.coin(0.3);
    if (mags) vpn::what += " magnitudes";
    {
      auto m = matrix(p, r, n);
      if (m.isIdentity() && r.coin()) m.w = p.cn.lookup(std::polar(0.5, r.angle()));
      const auto e = pin(p, m);
      const auto M = dense(e, n);
      const auto res = p.reduceGarbage(e, an, regular, mags);
      const auto got = dense(res, n);
      for (std::size_t i = 0; i < M.d; i++)
        for (std::size_t j = 0; j < M.d; j++) {
          double s = 0;
          const auto g = regular ? i : j;
          if ((g & a) == 0)
            for (std::size_t x = 0; x < M.d; x++)
              if ((x & ~a) == g) s += std::norm(regular ? M(x, j) : M(i, x));
          vpn::close(std::abs(got(i, j)), std::sqrt(s), "magnitudes of garbage entries are combined", 1e-7);
          if (mags) vpn::close(got(i, j), C{std::sqrt(s), 0}, "only magnitudes are kept", 1e-7);
          if (a == 0 && !mags) vpn::close(got(i, j), M(i, j), "nothing to do", 1e-9);
        }
      if (!res.isTerminal()) vpn::require(res.p->ref > 0, "the result is referenced");
    }
    {
      auto e = pin(p, vec(p, r, n));
      const auto V = dense(e, n);
      const auto res = p.reduceGarbage(e, an, mags);
      const auto got = dense(res, n);
      for (std::size_t i = 0; i < V.size(); i++) {
        double s = 0;
        if ((i & a) == 0)
          for (std::size_t x = 0; x < V.size(); x++)
            if ((x & ~a) == i) s += std::norm(V[x]);
        vpn::close(std::abs(got[i]), std::sqrt(s), "probabilities of garbage amplitudes are combined", 1e-7);
        if (mags) vpn::close(got[i], C{std::sqrt(s), 0}, "only magnitudes are kept", 1e-7);
        if (a == 0 && !mags) vpn::close(got[i], V[i], "nothing to do", 1e-9);
      }
      if (!res.isTerminal()) vpn::require(res.p->ref > 0, "the result is referenced");
    }
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
