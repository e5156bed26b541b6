// Native companion of contracts/P11.cpp: random histories of the compute tables against a map
#include "dd/Package.hpp"
#include "vpn.hpp"
#include <map>
#include <tuple>
namespace {
using namespace dd;
using U = std::uint64_t;
struct Pools {
  std::vector<vNode> v{6};
  std::vector<mNode> m{6};
  std::vector<dNode> d{4};
  template <class N> N* pick(vpn::Rng& r) {
    if constexpr (std::is_same_v<N, vNode>) return r.coin(0.15) ? nullptr : &v[r.below(v.size())];
    else if constexpr (std::is_same_v<N, mNode>) return r.coin(0.15) ? nullptr : &m[r.below(m.size())];
    else return r.coin(0.15) ? nullptr : &d[r.below(d.size())];
  }
};
Pools P;
using K = std::vector<U>;
double weight(vpn::Rng& r) { return static_cast<double>(r.range(-2, 2)) / 2; }
template <class N> void make(vpn::Rng& r, N*& x) { x = P.pick<N>(r); }
template <class N> void make(vpn::Rng& r, CachedEdge<N>& x) { x = {P.pick<N>(r), ComplexValue{weight(r), weight(r)}}; }
template <class N> void key(K& k, N* const& p, bool flags) {
  k.push_back(reinterpret_cast<U>(p));
  if constexpr (std::is_same_v<N, dNode>) k.push_back(flags && p != nullptr ? p->flags & 7U : 0);
}
template <class N> void key(K& k, const CachedEdge<N>& e, bool) {
  k.push_back(reinterpret_cast<U>(e.p));
  k.push_back(static_cast<U>(static_cast<std::int64_t>(e.w.r * 2)));
  k.push_back(static_cast<U>(static_cast<std::int64_t>(e.w.i * 2)));
}
template <class N> bool eq(const CachedEdge<N>& a, const CachedEdge<N>& b) { return a.p == b.p && a.w.r == b.w.r && a.w.i == b.w.i; }
void flip(vpn::Rng& r) {
  if (r.coin(0.3))
    for (auto& d : P.d) d.flags = static_cast<std::uint16_t>(r.below(16));
}
template <class A, class B, class R> void binary(vpn::Rng& r, const char* n) {
  vpn::what = n;
  ComputeTable<A, B, R> t(1ULL << r.below(5));
  std::map<K, R> all;
  for (int i = 0; i < 150; i++) {
    flip(r);
    if (r.coin(0.02)) {
      t.clear();
      all.clear();
    }
    A a;
    B b;
    R res;
    make(r, a);
    make(r, b);
    make(r, res);
    K k;
    key(k, a, true);
    key(k, b, true);
    if (r.coin()) {
      t.insert(a, b, res);
      all[k] = res;
    }
    const bool density = r.coin();
    const R* f;
    if constexpr (std::is_same_v<R, dCachedEdge>) {
      f = t.lookup(a, b, density);
      if (f != nullptr && f->p != nullptr) vpn::require(((f->p->flags & 8U) != 0) == density, "a result of the other kind was returned");
    } else {
      f = t.lookup(a, b);
    }
    if (f != nullptr) {
      vpn::nontrivial++;
      vpn::require(all.count(k) > 0, "a result was found that was never stored for these operands (since the last clear)");
      vpn::require(eq(*f, all[k]), "not the result stored last for these operands");
    }
  }
}
template <class A, class R> void unary(vpn::Rng& r, const char* n) {
  vpn::what = n;
  UnaryComputeTable<A, R> t(1ULL << r.below(5));
  std::map<K, R> all;
  for (int i = 0; i < 150; i++) {
    if (r.coin(0.02)) {
      t.clear();
      all.clear();
    }
    A a;
    R res;
    make(r, a);
    make(r, res);
    K k;
    key(k, a, false);
    if (r.coin()) {
      t.insert(a, res);
      all[k] = res;
    }
    if (const R* f = t.lookup(a); f != nullptr) {
      vpn::nontrivial++;
      vpn::require(all.count(k) > 0, "a result was found that was never stored for this operand (since the last clear)");
      vpn::require(eq(*f, all[k]), "not the result stored last for this operand");
    }
  }
}
void noise(vpn::Rng& r) {
  vpn::what = "density noise table";
  DensityNoiseTable<dEdge, dEdge> t(1ULL << r.below(4));
  static RealNumber num[4];
  for (int i = 0; i < 4; i++) num[i].value = 0.25 * (i + 1);
  std::map<K, dEdge> all;
  auto edge = [&] { return dEdge{P.pick<dNode>(r), {&num[r.below(4)], &num[r.below(4)]}}; };
  for (int i = 0; i < 150; i++) {
    if (r.coin(0.02)) {
      t.clear();
      all.clear();
    }
    const auto e = edge(), res = edge();
    std::vector<Qubit> q;
    for (auto n = r.below(4); n > 0; n--) q.push_back(static_cast<Qubit>(r.below(4)));
    K k{reinterpret_cast<U>(e.p), reinterpret_cast<U>(e.w.r), reinterpret_cast<U>(e.w.i)};
    for (auto x : q) k.push_back(x);
    if (r.coin()) {
      t.insert(e, res, q);
      all[k] = res;
    }
    const auto f = t.lookup(e, q);
    if (f.w.r != nullptr) {
      vpn::nontrivial++;
      vpn::require(all.count(k) > 0, "a result was found that was never stored for this operand and these qubits");
      vpn::require(f.p == all[k].p && f.w.r == all[k].w.r && f.w.i == all[k].w.i, "not the result stored last");
    }
  }
}
void stochastic(vpn::Rng& r) {
  vpn::what = "stochastic noise table";
  StochasticNoiseOperationTable<mEdge> t(1 + r.below(4));
  std::size_t n = 1;
  t.resize(n);
  std::map<std::pair<int, int>, mEdge> all;
  for (int i = 0; i < 100; i++) {
    if (r.coin(0.03)) t.resize(++n);
    if (r.coin(0.03)) {
      t.clear();
      all.clear();
    }
    const auto op = static_cast<std::uint8_t>(r.below(qc::OpTypeEnd));
    const auto q = static_cast<qc::Qubit>(r.below(n));
    if (r.coin(0.4)) {
      const mEdge e{P.pick<mNode>(r), Complex::one()};
      t.insert(op, q, e);
      all[{op, q}] = e;
    }
    const auto o2 = static_cast<std::uint8_t>(r.below(qc::OpTypeEnd));
    const auto q2 = static_cast<qc::Qubit>(r.below(n));
    auto* f = t.lookup(o2, q2);
    const auto it = all.find({o2, q2});
    vpn::require((f != nullptr) == (it != all.end()), "exactly the stored operations are found");
    if (f != nullptr) vpn::require(f->p == it->second.p, "the operation stored last is found");
  }
}
template <class T> void sizes(vpn::Rng& r) {
  const auto n = 1 + r.below(70000);
  const auto m = r.coin() ? n : (1ULL << r.below(18));
  bool threw = false;
  try {
    T t(m);
    t.clear();
    vpn::require(t.getTable().size() == m, "size of the table");
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  vpn::require(threw == ((m & (m - 1)) != 0), "exactly powers of two are accepted");
}
void cse(vpn::Rng& r) {
  for (auto& d : P.d) d.flags = static_cast<std::uint16_t>(r.below(16));
  binary<vNode*, vNode*, vCachedEdge>(r, "vector-vector");
  binary<mNode*, vNode*, vCachedEdge>(r, "matrix-vector");
  binary<mNode*, mNode*, mCachedEdge>(r, "matrix-matrix");
  binary<vCachedEdge, vCachedEdge, vCachedEdge>(r, "vector addition");
  binary<mCachedEdge, mCachedEdge, mCachedEdge>(r, "matrix addition");
  binary<dNode*, dNode*, dCachedEdge>(r, "density-density");
  binary<dCachedEdge, dCachedEdge, dCachedEdge>(r, "density addition");
  unary<vNode*, vCachedEdge>(r, "vector");
  unary<mNode*, mCachedEdge>(r, "matrix");
  unary<dNode*, dCachedEdge>(r, "density");
  noise(r);
  stochastic(r);
  if (r.coin(0.05)) {
    sizes<ComputeTable<vNode*, vNode*, vCachedEdge>>(r);
    sizes<UnaryComputeTable<vNode*, vCachedEdge>>(r);
    sizes<DensityNoiseTable<dEdge, dEdge>>(r);
  }
}
} // namespace
int main(int c, char** v) { return vpn::run(c, v, cse); }
