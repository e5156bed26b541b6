// Dense reference semantics (written from the documented conventions, independent of the code):
// qubit q is bit q of the basis-state index.
#pragma once
#include "dd/DDDefinitions.hpp"
#include "dd/Edge.hpp"
#include "dd/Node.hpp"
#include "dd/Package.hpp"
#include "ir/Permutation.hpp"
#include "ir/operations/CompoundOperation.hpp"
#include "ir/operations/Operation.hpp"
#include "ir/operations/StandardOperation.hpp"
#include "spec_gates.hpp"
#include "vpn.hpp"

#include <memory>
#include <set>

namespace spec {
using Vec = std::vector<C>;
struct Mat {
  std::size_t d = 0;
  Vec a;
  Mat() = default;
  explicit Mat(std::size_t n) : d(n), a(n * n, C{}) {}
  C& operator()(std::size_t i, std::size_t j) { return a[i * d + j]; }
  const C& operator()(std::size_t i, std::size_t j) const { return a[i * d + j]; }
  static Mat id(std::size_t n) {
    Mat m(n);
    for (std::size_t i = 0; i < n; i++) m(i, i) = 1;
    return m;
  }
};
inline Mat operator*(const Mat& x, const Mat& y) {
  Mat r(x.d);
  for (std::size_t i = 0; i < x.d; i++)
    for (std::size_t k = 0; k < x.d; k++)
      if (x(i, k) != C{})
        for (std::size_t j = 0; j < x.d; j++) r(i, j) += x(i, k) * y(k, j);
  return r;
}
inline Vec operator*(const Mat& x, const Vec& v) {
  Vec r(x.d);
  for (std::size_t i = 0; i < x.d; i++)
    for (std::size_t k = 0; k < x.d; k++) r[i] += x(i, k) * v[k];
  return r;
}
inline Mat operator+(const Mat& x, const Mat& y) {
  Mat r = x;
  for (std::size_t i = 0; i < r.a.size(); i++) r.a[i] += y.a[i];
  return r;
}
inline Mat adj(const Mat& x) {
  Mat r(x.d);
  for (std::size_t i = 0; i < x.d; i++)
    for (std::size_t j = 0; j < x.d; j++) r(j, i) = std::conj(x(i, j));
  return r;
}
inline bool bit(std::size_t i, std::size_t q) { return ((i >> q) & 1) != 0; }
inline std::size_t setb(std::size_t i, std::size_t q, bool v) { return v ? i | (1ULL << q) : i & ~(1ULL << q); }
inline bool ctl(std::size_t i, const qc::Controls& cs) {
  for (const auto& c : cs)
    if (bit(i, c.qubit) != (c.type == qc::Control::Type::Pos)) return false;
  return true;
}
inline Mat embed1(std::size_t n, const M2& m, const qc::Controls& cs, std::size_t t) {
  Mat r(1ULL << n);
  for (std::size_t i = 0; i < r.d; i++) {
    if (!ctl(i, cs)) {
      r(i, i) = 1;
      continue;
    }
    for (int o = 0; o < 2; o++) r(setb(i, t, o != 0), i) += m[o * 2 + bit(i, t)];
  }
  return r;
}
// t0 is the more significant qubit of the 4x4 matrix
inline Mat embed2(std::size_t n, const M4& m, const qc::Controls& cs, std::size_t t0, std::size_t t1) {
  Mat r(1ULL << n);
  for (std::size_t i = 0; i < r.d; i++) {
    if (!ctl(i, cs)) {
      r(i, i) = 1;
      continue;
    }
    const std::size_t c = 2 * bit(i, t0) + bit(i, t1);
    for (int o = 0; o < 4; o++) r(setb(setb(i, t0, (o & 2) != 0), t1, (o & 1) != 0), i) += m[o * 4 + c];
  }
  return r;
}
inline Mat gate(std::size_t n, qc::OpType t, const std::vector<double>& p, const qc::Controls& cs, const std::vector<qc::Qubit>& ts) {
  if (t == qc::Barrier) return Mat::id(1ULL << n);
  if (t == qc::GPhase) {
    Mat r = Mat::id(1ULL << n);
    for (std::size_t i = 0; i < r.d; i++)
      if (ctl(i, cs)) r(i, i) = ei(p.at(0));
    return r;
  }
  if (qc::isTwoQubitGate(t)) return embed2(n, matrix2(t, p), cs, ts.at(0), ts.at(1));
  return embed1(n, matrix1(t, p), cs, ts.at(0));
}
// ---------------------------------------------------------------- DD -> dense (own traversal)
inline void acc(const dd::mEdge& e, std::size_t n, C w, std::size_t r, std::size_t c, Mat& out) {
  w *= C{dd::RealNumber::val(e.w.r), dd::RealNumber::val(e.w.i)};
  if (w == C{}) return;
  if (n == 0) {
    out(r, c) += w;
    return;
  }
  if (e.isTerminal() || e.p->v < n - 1) {
    dd::mEdge s = e;
    s.w = dd::Complex::one();
    acc(s, n - 1, w, r, c, out);
    acc(s, n - 1, w, r | (1ULL << (n - 1)), c | (1ULL << (n - 1)), out);
    return;
  }
  for (std::size_t k = 0; k < 4; k++)
    acc(e.p->e[k], n - 1, w, r | ((k >> 1) << (n - 1)), c | ((k & 1) << (n - 1)), out);
}
inline Mat dense(const dd::mEdge& e, std::size_t n) {
  Mat m(1ULL << n);
  acc(e, n, 1, 0, 0, m);
  return m;
}
inline void acc(const dd::vEdge& e, std::size_t n, C w, std::size_t r, Vec& out) {
  w *= C{dd::RealNumber::val(e.w.r), dd::RealNumber::val(e.w.i)};
  if (w == C{}) return;
  if (n == 0) {
    out[r] += w;
    return;
  }
  for (std::size_t k = 0; k < 2; k++) acc(e.p->e[k], n - 1, w, r | (k << (n - 1)), out);
}
inline Vec dense(const dd::vEdge& e, std::size_t n) {
  Vec v(1ULL << n);
  acc(e, n, 1, 0, v);
  return v;
}
inline void same(const Mat& a, const Mat& b, const std::string& msg, double tol = 1e-8) {
  for (std::size_t i = 0; i < a.a.size(); i++)
    vpn::close(a.a[i], b.a[i], msg + " at (" + std::to_string(i / a.d) + "," + std::to_string(i % a.d) + ")", tol);
}
inline void same(const Vec& a, const Vec& b, const std::string& msg, double tol = 1e-8) {
  for (std::size_t i = 0; i < a.size(); i++) vpn::close(a[i], b[i], msg + " at " + std::to_string(i), tol);
}
// ---------------------------------------------------------------- random circuits
struct Op {
  qc::OpType t;
  std::vector<double> p;
  qc::Controls cs;
  std::vector<qc::Qubit> ts;
  std::string str() const {
    std::ostringstream o;
    o.precision(17);
    o << qc::toString(t) << "(";
    for (auto x : p) o << x << " ";
    o << ")";
    for (auto& c : cs) o << (c.type == qc::Control::Type::Pos ? " c" : " n") << c.qubit;
    for (auto q : ts) o << " t" << q;
    return o.str();
  }
  qc::StandardOperation op() const {
    if (cs.empty()) return qc::StandardOperation(ts, t, p);
    return qc::StandardOperation(cs, ts, t, p);
  }
  Mat mat(std::size_t n) const { return gate(n, t, p, cs, ts); }
};
inline Op randomOp(vpn::Rng& r, std::size_t n, bool allowTwo = true, double pctl = 0.4, bool gphase = false) {
  Op o;
  std::vector<qc::Qubit> qs(n);
  for (std::size_t i = 0; i < n; i++) qs[i] = static_cast<qc::Qubit>(i);
  for (std::size_t i = n; i > 1; i--) std::swap(qs[i - 1], qs[r.below(i)]);
  std::size_t used = 1;
  if (gphase && r.coin(0.05)) {
    o.t = qc::GPhase;
    o.p = {r.angle()};
    used = 0;
  } else if (allowTwo && n >= 2 && r.coin(0.4)) {
    const auto& g = two()[r.below(two().size())];
    o.t = g.type;
    for (std::size_t i = 0; i < g.nparams; i++) o.p.push_back(r.angle());
    o.ts = {qs[0], qs[1]};
    used = 2;
  } else {
    const auto& g = single()[r.below(single().size())];
    o.t = g.type;
    for (std::size_t i = 0; i < g.nparams; i++) o.p.push_back(r.angle());
    o.ts = {qs[0]};
  }
  for (std::size_t i = used; i < n; i++)
    if (r.coin(pctl)) o.cs.emplace(qc::Control{qs[i], r.coin(0.35) ? qc::Control::Type::Neg : qc::Control::Type::Pos});
  return o;
}
inline std::vector<Op> randomCircuit(vpn::Rng& r, std::size_t n, std::size_t len, bool allowTwo = true, double pctl = 0.4) {
  std::vector<Op> v;
  for (std::size_t i = 0; i < len; i++) v.push_back(randomOp(r, n, allowTwo, pctl));
  return v;
}
inline std::string str(const std::vector<Op>& v) {
  std::string s;
  for (auto& o : v) s += o.str() + "; ";
  return s;
}
inline Mat dense(const std::vector<Op>& v, std::size_t n) {
  Mat m = Mat::id(1ULL << n);
  for (auto& o : v) m = o.mat(n) * m;
  return m;
}
// dense semantics of a real operation object (standard / compound), read through its public interface
inline Mat dense(const qc::Operation& op, std::size_t n) {
  if (const auto* c = dynamic_cast<const qc::CompoundOperation*>(&op)) {
    Mat m = Mat::id(1ULL << n);
    for (const auto& o : *c) m = dense(*o, n) * m;
    return m;
  }
  return gate(n, op.getType(), op.getParameter(), op.getControls(), op.getTargets());
}
} // namespace spec
