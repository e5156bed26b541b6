// Native companion of contracts/P12.cpp: garbage collection at arbitrary points of arbitrary
// histories neither changes diagrams in use nor results computed afterwards
#include "dd_rand.hpp"
using namespace ddr;
namespace {
template <class E, class D> struct Kept {
  E e;
  D d;
};
void cse(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(3);
  dd::DDPackageConfig c{};
  if (r.coin()) { // many collisions and reuse
    c.utVecNumBucket = c.utMatNumBucket = 1ULL << r.below(4);
    c.utVecInitialAllocationSize = c.utMatInitialAllocationSize = 1 + r.below(8);
  }
  c.utDmNumBucket = 8;
  c.ctDmDmMultNumBucket = c.ctDmAddNumBucket = c.ctDmTraceNumBucket = 64;
  dd::Package p(n, c);
  std::vector<Kept<dd::vEdge, Vec>> vs;
  std::vector<Kept<dd::mEdge, Mat>> ms;
  dd::dEdge rho{};
  Mat R;
  bool have = false;
  std::ostringstream log;
  const auto keepV = [&](const dd::vEdge& e, const Vec& want, const char* msg) {
    log << msg << "; ";
    vpn::what = log.str();
    same(dense(e, n), want, msg);
    p.incRef(e);
    vs.push_back({e, want});
  };
  const auto keepM = [&](const dd::mEdge& e, const Mat& want, const char* msg) {
    log << msg << "; ";
    vpn::what = log.str();
    same(dense(e, n), want, msg);
    p.incRef(e);
    ms.push_back({e, want});
  };
  const auto any = [&](auto& x) -> auto { return x[r.below(x.size())]; };
  for (int k = 0; k < 40; k++) {
    vpn::nontrivial++;
    switch (r.below(16)) {
    case 0: {
      const auto e = vec(p, r, n);
      if (!e.isTerminal()) {
        keepV(e, dense(e, n), "vector");
        p.decRef(e); // made states are in use from the beginning
      }
      break;
    }
    case 1: {
      const auto e = matrix(p, r, n);
      keepM(e, dense(e, n), "matrix");
      break;
    }
    case 2:
    case 3:
      if (!vs.empty()) {
        const auto a = any(vs), b = any(vs);
        auto w = a.d;
        for (std::size_t i = 0; i < w.size(); i++) w[i] += b.d[i];
        keepV(p.add(a.e, b.e), w, "sum of vectors");
      }
      break;
    case 4:
    case 5:
      if (!vs.empty() && !ms.empty()) {
        const auto a = any(ms);
        const auto b = any(vs);
        keepV(p.multiply(a.e, b.e), a.d * b.d, "matrix-vector product");
      }
      break;
    case 6:
      if (!ms.empty()) {
        const auto a = any(ms), b = any(ms);
        keepM(p.multiply(a.e, b.e), a.d * b.d, "matrix product");
      }
      break;
    case 7:
      if (!ms.empty()) {
        const auto a = any(ms), b = any(ms);
        keepM(p.add(a.e, b.e), a.d + b.d, "sum of matrices");
      }
      break;
    case 8:
      if (!ms.empty()) {
        const auto a = any(ms);
        keepM(p.conjugateTranspose(a.e), adj(a.d), "adjoint");
      }
      break;
    case 9:
      if (!vs.empty()) {
        const auto a = any(vs), b = any(vs);
        auto w = a.d;
        for (auto& x : w) x = std::conj(x);
        C ip = 0;
        for (std::size_t i = 0; i < w.size(); i++) ip += w[i] * b.d[i];
        keepV(p.conjugate(a.e), w, "conjugate");
        const auto q = p.innerProduct(a.e, b.e);
        vpn::close(C{q.r, q.i}, ip, "inner product", 1e-7);
      }
      break;
    case 10:
      if (!ms.empty()) {
        const auto a = any(ms);
        C t = 0;
        for (std::size_t i = 0; i < a.d.d; i++) t += a.d(i, i) / static_cast<double>(a.d.d);
        const auto q = p.trace(a.e, n);
        vpn::close(C{q.r, q.i}, t, "trace", 1e-7);
      }
      break;
    case 11: // an operation is applied to a state
      if (!vs.empty()) {
        const auto i = r.below(vs.size());
        const auto o = randomOp(r, n);
        if (o.t == qc::GPhase || o.t == qc::Barrier) break;
        log << "apply " << o.str() << "; ";
        vpn::what = log.str();
        const auto d = qc::isTwoQubitGate(o.t) ? p.makeTwoQubitGateDD(dd::opToTwoQubitGateMatrix(o.t, o.p), o.cs, o.ts.at(0), o.ts.at(1))
                                               : p.makeGateDD(dd::opToSingleQubitGateMatrix(o.t, o.p), o.cs, o.ts.at(0));
        vs[i].e = p.applyOperation(d, vs[i].e);
        vs[i].d = gate(n, o.t, o.p, o.cs, o.ts) * vs[i].d;
      }
      break;
    case 12: { // a density matrix evolves
      if (!have) {
        rho = p.makeZeroDensityOperator(static_cast<dd::Qubit>(n));
        R = Mat(1ULL << n);
        R(0, 0) = 1;
        have = true;
      }
      const auto o = randomOp(r, n);
      if (o.t == qc::GPhase || o.t == qc::Barrier) break;
      log << "evolve " << o.str() << "; ";
      vpn::what = log.str();
      const auto d = qc::isTwoQubitGate(o.t) ? p.makeTwoQubitGateDD(dd::opToTwoQubitGateMatrix(o.t, o.p), o.cs, o.ts.at(0), o.ts.at(1))
                                             : p.makeGateDD(dd::opToSingleQubitGateMatrix(o.t, o.p), o.cs, o.ts.at(0));
      rho = p.applyOperationToDensity(rho, d);
      const auto U = gate(n, o.t, o.p, o.cs, o.ts);
      R = U * R * adj(U);
      break;
    }
    case 13: // diagrams are released
      if (vs.size() > 2) {
        const auto i = r.below(vs.size());
        p.decRef(vs[i].e);
        vs.erase(vs.begin() + static_cast<std::ptrdiff_t>(i));
      }
      if (ms.size() > 2) {
        const auto i = r.below(ms.size());
        p.decRef(ms[i].e);
        ms.erase(ms.begin() + static_cast<std::ptrdiff_t>(i));
      }
      log << "release; ";
      break;
    case 14:
      log << "collect; ";
      p.garbageCollect(r.coin(0.8));
      break;
    default:
      if (r.coin(0.05)) {
        log << "reset; ";
        p.reset();
        vs.clear();
        ms.clear();
        have = false;
      }
    }
    vpn::what = log.str();
    for (const auto& x : vs) same(dense(x.e, n), x.d, "a vector in use changed", 1e-7);
    for (const auto& x : ms) same(dense(x.e, n), x.d, "a matrix in use changed", 1e-7);
    if (have) {
      const auto M = rho.getMatrix(n);
      for (std::size_t i = 0; i < R.d; i++)
        for (std::size_t j = 0; j < R.d; j++) vpn::close(C{M[i][j]}, R(i, j), "a density matrix in use changed", 1e-7);
    }
    // keep magnitudes moderate
    for (std::size_t i = 0; i < vs.size();) {
      double m = 0;
      for (const auto& x : vs[i].d) m = std::max(m, std::abs(x));
      if (m > 10 || vs.size() > 12 || (m < 1e-3)) {
        p.decRef(vs[i].e);
        vs.erase(vs.begin() + static_cast<std::ptrdiff_t>(i));
      } else i++;
    }
    for (std::size_t i = 0; i < ms.size();) {
      double m = 0;
      for (const auto& x : ms[i].d.a) m = std::max(m, std::abs(x));
      if (m > 10 || ms.size() > 12 || (m < 1e-3)) {
        p.decRef(ms[i].e);
        ms.erase(ms.begin() + static_cast<std::ptrdiff_t>(i));
      } else i++;
    }
  }
  // once everything is released, nothing but what nobody refers to is left
  for (const auto& x : vs) p.decRef(x.e);
  for (const auto& x : ms) p.decRef(x.e);
  p.garbageCollect(true);
  vpn::require(p.vUniqueTable.getNumEntries() == 0, "released vectors are collected");
  vpn::require(p.mUniqueTable.getNumEntries() == 0, "released matrices are collected");
}
} // namespace
int main(int c, char** v) { return vpn::run(c, v, cse); }
