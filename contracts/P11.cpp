// @sources src/dd/Node.cpp src/dd/Edge.cpp src/dd/CachedEdge.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/statistics/TableStatistics.cpp src/dd/statistics/Statistics.cpp
// @opts * {"timeout": 300, "steps": 30000000}
// Contracts of the compute tables.  A slot of a table depends only on the last insertion into it (or
// the last clear), so any history is covered by one insertion per slot, a clear, and a lookup.
#include "vp.h"
#include "dd/CachedEdge.hpp"
#include "dd/ComputeTable.hpp"
#include "dd/DensityNoiseTable.hpp"
#include "dd/Edge.hpp"
#include "dd/Node.hpp"
#include "dd/RealNumber.hpp"
#include "dd/StochasticNoiseOperationTable.hpp"
#include "dd/UnaryComputeTable.hpp"

#include <stdexcept>
using namespace dd;
namespace {
using U64 = std::uint64_t;
template <class T> U64 id(const T* p) { return reinterpret_cast<U64>(p); }
// ------------------------------------------------------------ operands
// vector and matrix nodes are never followed: arbitrary pointers.  Density-matrix nodes carry temporary
// flags that are part of what they represent: they come from a small pool, so that equal nodes with
// other flags are met.
inline dNode* pool[2];
template <class N> N* node() {
  if constexpr (std::is_same_v<N, dNode>) {
    const auto c = vp_choose("node", 3);
    return c == 2 ? nullptr : pool[c];
  } else {
    return reinterpret_cast<N*>(vp_u64("node"));
  }
}
inline bool flagged = true;
inline void mutate() { // temporary flags change between operations
  if (!flagged) return;
  for (auto* p : pool)
    if (p != nullptr) {
      p->flags = vp_u16("flags");
      vp_assume(p->flags < 16);
    }
}
inline void makePool() {
  for (auto& p : pool) {
    p = new dNode{};
  }
  mutate();
}
template <class N> void make(N*& x) { x = node<N>(); }
template <class N> void make(CachedEdge<N>& x) { x = {node<N>(), ComplexValue{vp_double("re"), vp_double("im")}}; }
template <class N> void make(Edge<N>& x) { x = {node<N>(), Complex{reinterpret_cast<RealNumber*>(vp_u64("re")), reinterpret_cast<RealNumber*>(vp_u64("im"))}}; }
// what an operand represents: a density-matrix node also depends on its temporary flags
template <class N> U64 flags(N* const& p) {
  if constexpr (std::is_same_v<N, dNode>) return p == nullptr ? 0 : p->flags & 7U;
  return 0;
}
template <class N> U64 flags(const CachedEdge<N>&) { return 0; }
template <class N> U64 flags(const Edge<N>&) { return 0; }
template <class N> bool same(N* const& a, N* const& b) { return a == b; }
template <class N> bool same(const CachedEdge<N>& a, const CachedEdge<N>& b) { return (a.p == b.p) & (a.w.r == b.w.r) & (a.w.i == b.w.i); }
template <class N> bool same(const Edge<N>& a, const Edge<N>& b) { return (a.p == b.p) & (a.w.r == b.w.r) & (a.w.i == b.w.i); }
inline bool same(const std::vector<Qubit>& a, const std::vector<Qubit>& b) {
  bool r = a.size() == b.size();
  for (std::size_t i = 0; r && i < a.size(); i++) r = a[i] == b[i];
  return r;
}
inline U64 flags(const std::vector<Qubit>&) { return 0; }
inline void make(std::vector<Qubit>& v) {
  v.clear();
  for (auto n = vp_choose("qubits", 3); n > 0; n--) v.push_back(vp_u16("q"));
}
inline U64 flags(const bool&) { return 0; }
inline bool same(const bool&, const bool&) { return true; }
inline void make(bool& b) { b = false; }
template <class A, class B> struct Key {
  A a{};
  B b{};
  U64 f = 0;
  void stamp() { f = flags(a) | flags(b) << 3; }
};
template <class A, class B> bool same(const Key<A, B>& x, const Key<A, B>& y) { return same(x.a, y.a) & same(x.b, y.b) & (x.f == y.f); }
// ------------------------------------------------------------ contract of hash (see H_hash_*)
template <class A, class B> Key<A, B> seen[4];
template <class A, class B> std::size_t slot[4];
template <class A, class B> std::size_t nseen;
template <class A, class B> std::size_t hash2(const void*, const A& a, const B& b) {
  Key<A, B> k{a, b};
  k.stamp();
  for (std::size_t i = 0; i < nseen<A, B>; i++)
    if (vp_decide(same(seen<A, B>[i], k))) return slot<A, B>[i];
  const std::size_t s = vp_choose("slot", 2);
  seen<A, B>[nseen<A, B>] = k;
  slot<A, B>[nseen<A, B>++] = s;
  return s;
}
template <class A> std::size_t hash1(const void* t, const A& a) { return hash2<A, bool>(t, a, false); }
// ------------------------------------------------------------ histories
template <class R> R result() {
  R r;
  make(r);
  return r;
}
template <class T, class A, class B, class R, unsigned INSERTIONS, class INS, class GET> void history(std::size_t slots, INS ins, GET get) {
  nseen<A, B> = 0;
  T t(slots);
  Key<A, B> k[3];
  R r[2]{};
  bool live[2] = {};
  const auto clearAt = 1 + vp_choose("clear", INSERTIONS + 1); // after how many insertions (or never)
  for (unsigned i = 0; i < INSERTIONS; i++) {
    make(k[i].a);
    make(k[i].b);
    k[i].stamp();
    r[i] = result<R>();
    ins(t, k[i], r[i]);
    live[i] = true;
    mutate();
    if (clearAt == i + 1) {
      t.clear();
      live[0] = live[1] = false;
    }
  }
  make(k[2].a);
  make(k[2].b);
  k[2].stamp();
  const R* f = get(t, k[2]);
  if (f != nullptr) {
    const bool second = live[1] & same(k[2], k[1]);
    const bool first = live[0] & same(k[2], k[0]);
    vp_assert(second | first, "a result is only found for the operands it was stored for, since the last clear");
    vp_assert(!second | same(*f, r[1]), "the result found is the one stored last");
    vp_assert(second | !first | same(*f, r[0]), "the result found is the one stored");
    vp_cover("found");
  }
  vp_cover("history");
}
template <class A, class B, class R> void binary() {
  vp_bounded("tables with two slots, two insertions");
  using T = ComputeTable<A, B, R>;
  vp_replace("^dd::ComputeTable<.*>::hash\\(", vp_fn(hash2<A, B>));
  history<T, A, B, R, 2>(2, [](T& t, auto& k, auto& r) { t.insert(k.a, k.b, r); }, [](T& t, auto& k) { return t.lookup(k.a, k.b); });
}
template <class A, class R> void unary() {
  vp_bounded("tables with two slots, two insertions");
  using T = UnaryComputeTable<A, R>;
  vp_replace("^dd::UnaryComputeTable<.*>::hash\\(", vp_fn(hash1<A>));
  history<T, A, bool, R, 2>(2, [](T& t, auto& k, auto& r) { t.insert(k.a, r); }, [](T& t, auto& k) { return t.lookup(k.a); });
}
} // namespace
VP_HARNESS H_vv() { binary<vNode*, vNode*, vCachedEdge>(); }
VP_HARNESS H_mv() { binary<mNode*, vNode*, vCachedEdge>(); }
VP_HARNESS H_mm() { binary<mNode*, mNode*, mCachedEdge>(); }
VP_HARNESS H_add_v() { binary<vCachedEdge, vCachedEdge, vCachedEdge>(); }
VP_HARNESS H_add_m() { binary<mCachedEdge, mCachedEdge, mCachedEdge>(); }
VP_HARNESS H_un_v() { unary<vNode*, vCachedEdge>(); }
VP_HARNESS H_un_m() { unary<mNode*, mCachedEdge>(); }
// density matrices: the kind of result asked for matters as well
namespace {
bool wantDensity;
template <class A> std::size_t hash0(const void*, const A&, const A&) { return 0; }
template <class A> void density() {
  vp_bounded("tables with one slot (all operands collide), one insertion");
  using T = ComputeTable<A, A, dCachedEdge>;
  vp_replace("^dd::ComputeTable<.*>::hash\\(", vp_fn(hash0<A>));
  makePool();
  wantDensity = vp_bool("density");
  history<T, A, A, dCachedEdge, 1>(1, [](T& t, auto& k, auto& r) { t.insert(k.a, k.b, r); },
                                   [](T& t, auto& k) {
                                     auto* f = t.lookup(k.a, k.b, wantDensity);
                                     if (f != nullptr && f->p != nullptr)
                                       vp_assert(((f->p->flags & 8U) != 0) == wantDensity, "a density matrix is only found when one is asked for, and vice versa");
                                     return f;
                                   });
}
// tolerance idealised: equal weights are equal pointers
bool sameComplex(const Complex* a, const Complex* b) { return (a->r == b->r) & (a->i == b->i); }
template <class B> std::size_t hashN(const void*, const dEdge&, const B&) { return 0; }
} // namespace
VP_HARNESS H_mul_d() { density<dNode*>(); }
VP_HARNESS H_add_d() { density<dCachedEdge>(); }
VP_HARNESS H_un_d() { // the trace: looked up for unmodified nodes only
  vp_bounded("tables with one slot (all operands collide), two insertions");
  using T = UnaryComputeTable<dNode*, dCachedEdge>;
  vp_replace("^dd::UnaryComputeTable<.*>::hash\\(", vp_fn(+[](const void*, dNode* const&) -> std::size_t { return 0; }));
  flagged = false;
  makePool();
  history<T, dNode*, bool, dCachedEdge, 2>(1, [](T& t, auto& k, auto& r) { t.insert(k.a, r); }, [](T& t, auto& k) { return t.lookup(k.a); });
}
VP_HARNESS H_noise() {
  vp_bounded("tables with one slot (all operands collide), one insertion, up to two qubits");
  using T = DensityNoiseTable<dEdge, dEdge>;
  using B = std::vector<Qubit>;
  vp_replace("^dd::DensityNoiseTable<.*>::hash\\(", vp_fn(hashN<B>));
  vp_replace_opt("^dd::Complex::approximatelyEquals\\(", vp_fn(sameComplex));
  static dEdge found;
  history<T, dEdge, B, dEdge, 1>(1, [](T& t, auto& k, auto& r) {
    vp_assume(id(r.w.r) != 0); // results are stored edges
    t.insert(k.a, r, k.b); },
    [](T& t, auto& k) -> const dEdge* {
      found = t.lookup(k.a, k.b);
      return found.w.r == nullptr ? nullptr : &found;
    });
}
// ------------------------------------------------------------ the real hash functions
namespace {
template <class T, class... K> void hashes(T& t, const K&... k) {
  t.stats.numBuckets = 1ULL << (5 * vp_choose("log2 buckets", 4));
  const auto h = t.hash(k...);
  vp_assert(h < t.stats.numBuckets, "slots are in range");
  vp_assert(h == t.hash(k...), "equal operands have the same slot");
  vp_cover("hash");
}
template <class A> A any() {
  A a;
  make(a);
  return a;
}
} // namespace
VP_HARNESS H_hash_pointers() {
  makePool();
  ComputeTable<vNode*, vNode*, vCachedEdge> a(1);
  hashes(a, any<vNode*>(), any<vNode*>());
  ComputeTable<dNode*, dNode*, dCachedEdge> d(1);
  hashes(d, any<dNode*>(), any<dNode*>());
  UnaryComputeTable<dNode*, dCachedEdge> u(1);
  hashes(u, any<dNode*>());
}
VP_HARNESS H_hash_edges() {
  vp_trust("std::hash<ComplexValue> is a function of the two parts"); // rounds to a grid, reads nothing else
  vp_replace("^std::hash<dd::ComplexValue>::operator", vp_fn(+[](const void*, const ComplexValue& c) -> std::size_t {
    return vp_ufu_0_2("hash", c.r, c.i); }));
  ComputeTable<vCachedEdge, vCachedEdge, vCachedEdge> a(1);
  hashes(a, any<vCachedEdge>(), any<vCachedEdge>());
}
VP_HARNESS H_hash_noise() {
  makePool();
  DensityNoiseTable<dEdge, dEdge> a(1);
  hashes(a, any<dEdge>(), any<std::vector<Qubit>>());
}
// ------------------------------------------------------------ sizes
namespace {
template <class T> void sized() {
  const std::size_t n = vp_choose("buckets", 10);
  if (n == 0) return; // a table needs at least one slot
  bool threw = false;
  try {
    T t(n);
    vp_assert((t.stats.numBuckets == n) && (t.getTable().size() == n), "the table has the requested size");
    for (std::size_t k = 0; k < n; k++) t.valid[k] = true;
    t.clear();
    vp_assert(t.valid.size() == n, "clearing keeps the size");
    for (std::size_t k = 0; k < n; k++) vp_assert(!t.valid[k], "clearing empties every slot");
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  vp_assert(threw == ((n & (n - 1)) != 0), "exactly the sizes that are no powers of two are rejected");
  vp_cover("sized");
}
} // namespace
VP_HARNESS H_size_binary() { vp_bounded("up to nine slots"); sized<ComputeTable<vNode*, vNode*, vCachedEdge>>(); }
VP_HARNESS H_size_unary() { vp_bounded("up to nine slots"); sized<UnaryComputeTable<vNode*, vCachedEdge>>(); }
VP_HARNESS H_size_noise() { vp_bounded("up to nine slots"); sized<DensityNoiseTable<dEdge, dEdge>>(); }
// ------------------------------------------------------------ stochastic noise operations
VP_HARNESS H_stochastic() {
  vp_bounded("two qubits, three operations");
  StochasticNoiseOperationTable<mEdge> t(1, 3);
  t.resize(2);
  bool live[2][3] = {};
  mEdge val[2][3];
  for (int i = 0; i < 2; i++) {
    const auto op = vp_choose("op", 3), q = vp_choose("qubit", 2);
    val[q][op] = any<mEdge>();
    vp_assume(val[q][op].w.r != nullptr);
    t.insert(static_cast<std::uint8_t>(op), q, val[q][op]);
    live[q][op] = true;
    if (vp_choose("clear", 2) == 1) {
      t.clear();
      for (auto& l : live) for (auto& x : l) x = false;
    }
  }
  for (std::uint32_t q = 0; q < 2; q++)
    for (std::uint8_t op = 0; op < 3; op++) {
      auto* r = t.lookup(op, q);
      vp_assert((r != nullptr) == live[q][op], "exactly the stored operations are found");
      if (r != nullptr) vp_assert(same(*r, val[q][op]), "the stored operation is found");
    }
  vp_cover("stochastic");
}
