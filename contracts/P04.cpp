// @sources src/dd/Package.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/Node.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp
// @opts * {"timeout": 500, "steps": 30000000}
// Contracts: normalisation and creation of decision diagram nodes.
#include "dd.hpp"
using namespace vpdd;
namespace {
void* returned;
int nreturned;
void returnStub(MemoryManager*, LLBase& e) {
  returned = &e;
  nreturned++;
}
Complex weight(const char* n) { return {reinterpret_cast<RealNumber*>(vp_u64(n)), reinterpret_cast<RealNumber*>(vp_u64(n))}; }
// contract of the lookup (P09): an entry with that value; zero and one are the constants
RealNumber* anEntry(double v) {
  if (vp_known(v == 0)) return &constants::zero;
  if (vp_known(v == 1)) return &constants::one;
  const U64 k = vp_u64("entry");
  vp_assume_nc((k == id(&constants::zero)) == (v == 0));
  vp_assume_nc((k == id(&constants::one)) == (v == 1));
  vp_assume_eq(vp_ufr_1_0("val", k), v);
  return reinterpret_cast<RealNumber*>(k);
}
Complex l2(ComplexNumbers*, double r, double i) { return {anEntry(r), anEntry(i)}; }
Complex l1(ComplexNumbers*, double r) { return {anEntry(r), anEntry(0)}; }
Complex lV(ComplexNumbers*, const ComplexValue& v) { return {anEntry(v.r), anEntry(v.i)}; }
// the lookup with its tolerance: small values may be represented by the zero entry
Complex tol(double r, double i) {
  if (vp_choose("negligible", 2) == 1) return {&constants::zero, &constants::zero};
  return {anEntry(r), anEntry(i)};
}
Complex t2(ComplexNumbers*, double r, double i) { return tol(r, i); }
Complex tV(ComplexNumbers*, const ComplexValue& v) { return tol(v.r, v.i); }
// contract of division (P14)
ComplexValue divStub(const ComplexValue& a, const ComplexValue& b) {
  vp_assert(b.r * b.r + b.i * b.i > 0, "no division by zero");
  const Cx q = cx(a) / cx(b);
  return {q.re, q.im};
}
void useNumbersNF() {
  useNumbers();
  vp_unreplace("^dd::ComplexNumbers::lookup\\(");
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(double, double\\)", vp_fn(l2));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(double\\)", vp_fn(l1));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(dd::ComplexValue const&\\)", vp_fn(lV));
  vp_replace_opt("^dd::operator/\\(dd::ComplexValue const&, dd::ComplexValue const&\\)", vp_fn(divStub));
}
template <class E> E anyEdge(const char* n) {
  E e{};
  e.p = reinterpret_cast<decltype(e.p)>(vp_u64(n));
  if constexpr (std::is_same_v<decltype(e.w), Complex>) {
    e.w = weight("w");
    // edges of weight zero point to the terminal
    vp_assume(!isZero(&e.w) | (id(e.p) == 0));
    const Cx v = cx(e.w);
    vp_assume(isZero(&e.w) | (v.re * v.re + v.im * v.im > 0)); // a weight denotes zero only if it is the zero entry
  } else {
    e.w = ComplexValue{vp_double("w"), vp_double("w")};
  }
  return e;
}
double n2(Cx c) { return c.re * c.re + c.im * c.im; }
template <class N, template <class> class E> void normalisation() {
  constexpr std::size_t K = W<N>;
  RealNumber::eps = 0; // comparison tolerance idealised
  returned = nullptr;
  nreturned = 0;
  useNumbersNF();
  vp_replace("^dd::MemoryManager::returnEntry\\(", vp_fn(returnStub));
  auto& mm = *static_cast<MemoryManager*>(vp_alloc_sym(sizeof(MemoryManager), "mm"));
  auto& cn = *static_cast<ComplexNumbers*>(vp_alloc_sym(sizeof(ComplexNumbers), "cn"));
  auto* p = node<N>("p", vp_u16("v"));
  const auto v0 = p->v;
  const auto f0 = p->flags;
  std::array<E<N>, K> e;
  for (auto& x : e) x = anyEdge<E<N>>("e");
  bool allZero = true;
  for (const auto& x : e) allZero = allZero & ((cx(x.w).re == 0) & (cx(x.w).im == 0));
  const auto r = E<N>::normalize(p, e, mm, cn);
  if (r.p == nullptr) {
    vp_assert(allZero, "only the zero diagram is reduced to the zero terminal");
    vp_assert((cx(r.w).re == 0) & (cx(r.w).im == 0), "the zero terminal has weight zero");
    vp_assert((nreturned == 1) & (returned == p), "the unused node is given back");
    vp_cover("zero");
    return;
  }
  vp_assert(!allZero, "a node is only built for a non-zero diagram");
  vp_assert((r.p == p) & (nreturned == 0), "the given node is used");
  vp_assert((p->v == v0) & (p->flags == f0), "level and flags of the node are kept");
  for (std::size_t i = 0; i < K; i++) {
    eqc(cx(r.w) * cx(p->e[i].w), cx(e[i].w), "top weight times successor weight is the given weight");
    const Cx w = cx(e[i].w);
    if ((w.re == 0) & (w.im == 0))
      vp_assert((id(p->e[i].p) == 0) & (id(p->e[i].w.r) == id(&constants::zero)) & (id(p->e[i].w.i) == id(&constants::zero)), "zero successors are the zero terminal");
    else
      vp_assert(p->e[i].p == e[i].p, "successors are kept");
  }
  // canonical form
  double mag[4];
  for (std::size_t i = 0; i < K; i++) mag[i] = n2(cx(p->e[i].w));
  if constexpr (K == 2) {
    vp_assert_eq(mag[0] + mag[1], 1, "the successor weights of a vector node have norm one");
    // the order of the magnitudes is that of the given weights (common factor |top|^2 > 0)
    const std::size_t m = n2(cx(e[0].w)) >= n2(cx(e[1].w)) ? 0 : 1;
    for (std::size_t i = 0; i < K; i++) vp_assert_eq(mag[i] * n2(cx(r.w)), n2(cx(e[i].w)), "magnitudes are scaled by a common factor");
    vp_assert((cx(p->e[m].w).re > 0) & (cx(p->e[m].w).im == 0), "the first largest successor weight is real and positive");
  } else {
    std::size_t m = K;
    for (std::size_t i = 0; i < K && m == K; i++)
      if (vp_known(id(p->e[i].w.r) == id(&constants::one)) && vp_known(id(p->e[i].w.i) == id(&constants::zero))) m = i;
    vp_assert(m < K, "one successor weight of a matrix node is one");
    bool first = true, largest = true;
    for (std::size_t i = 0; i < K; i++) {
      const double o = n2(cx(e[i].w)), t = n2(cx(e[m].w));
      if (i < m) first = first & (o < t);
      if (i > m) largest = largest & (o <= t);
    }
    vp_assert(first & largest, "the first largest successor weight is the one that is one");
  }
  vp_cover("normalised");
}
} // namespace
VP_HARNESS H_norm_vc() { normalisation<vNode, CachedEdge>(); }
VP_HARNESS H_norm_ve() { normalisation<vNode, Edge>(); }
VP_HARNESS H_norm_mc() { normalisation<mNode, CachedEdge>(); }
VP_HARNESS H_norm_me() { normalisation<mNode, Edge>(); }
VP_HARNESS H_norm_dc() { normalisation<dNode, CachedEdge>(); }

// With the tolerance of the lookup: a successor whose weight becomes zero is the zero terminal.
namespace {
template <class N, template <class> class E> void tolerant() {
  constexpr std::size_t K = W<N>;
  RealNumber::eps = 0;
  returned = nullptr;
  nreturned = 0;
  useNumbersNF();
  vp_unreplace("^dd::ComplexNumbers::lookup\\(");
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(double, double\\)", vp_fn(t2));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(double\\)", vp_fn(l1));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(dd::ComplexValue const&\\)", vp_fn(tV));
  vp_replace("^dd::MemoryManager::returnEntry\\(", vp_fn(returnStub));
  auto& mm = *static_cast<MemoryManager*>(vp_alloc_sym(sizeof(MemoryManager), "mm"));
  auto& cn = *static_cast<ComplexNumbers*>(vp_alloc_sym(sizeof(ComplexNumbers), "cn"));
  auto* p = node<N>("p", vp_u16("v"));
  std::array<E<N>, K> e;
  for (auto& x : e) x = anyEdge<E<N>>("e");
  if constexpr (K == 2) {
    if (!vp_known(n2(cx(e[0].w)) >= n2(cx(e[1].w)))) vp_cover("second larger");
  }
  const auto r = E<N>::normalize(p, e, mm, cn);
  if (r.p == nullptr) return;
  for (std::size_t i = 0; i < K; i++) {
    vp_assert(!isZero(&p->e[i].w) | ((id(p->e[i].p) == 0) & (id(p->e[i].w.r) == id(&constants::zero)) & (id(p->e[i].w.i) == id(&constants::zero))),
              "successors whose weight becomes zero are the zero terminal");
    vp_assert((p->e[i].p == e[i].p) | isZero(&p->e[i].w), "the other successors are kept");
  }
  vp_cover("normalised");
}
} // namespace
VP_HARNESS H_tol_vc() { tolerant<vNode, CachedEdge>(); }
VP_HARNESS H_tol_mc() { tolerant<mNode, CachedEdge>(); }
VP_HARNESS H_tol_me() { tolerant<mNode, Edge>(); }
VP_HARNESS H_tol_dc() { tolerant<dNode, CachedEdge>(); }

// Canonicity: with these postconditions, successor lists that are multiples of one another are
// normalised to the same weights (so the top weight carries the factor).
VP_HARNESS H_unique_v() {
  const Cx u[2] = {{vp_double("u"), vp_double("u")}, {vp_double("u"), vp_double("u")}};
  const Cx c{vp_double("c"), vp_double("c")};
  const Cx v[2] = {c * u[0], c * u[1]};
  vp_assume(n2(u[0]) + n2(u[1]) == 1);
  vp_assume(n2(v[0]) + n2(v[1]) == 1);
  const int a = vp_choose("a", 2), b = vp_choose("b", 2);
  vp_assume(a == 0 ? n2(u[0]) >= n2(u[1]) : n2(u[1]) > n2(u[0]));
  vp_assume(b == 0 ? n2(v[0]) >= n2(v[1]) : n2(v[1]) > n2(v[0]));
  vp_assume((u[a].re > 0) & (u[a].im == 0));
  vp_assume((v[b].re > 0) & (v[b].im == 0));
  vp_assert_eq((n2(u[0]) + n2(u[1])) * n2(c), n2(v[0]) + n2(v[1]), "norms are multiplicative");
  vp_assert(n2(c) == 1, "the factor has modulus one");
  vp_assume(n2(c) == 1);
  vp_assert(a == b, "the largest weight is at the same place");
  vp_assert((c.re == 1) & (c.im == 0), "the factor is one");
  vp_cover("unique");
}
VP_HARNESS H_unique_m() {
  Cx u[4], v[4];
  const Cx c{vp_double("c"), vp_double("c")};
  for (int i = 0; i < 4; i++) {
    u[i] = {vp_double("u"), vp_double("u")};
    v[i] = c * u[i];
  }
  const int a = vp_choose("a", 4), b = vp_choose("b", 4);
  vp_assume((u[a].re == 1) & (u[a].im == 0));
  vp_assume((v[b].re == 1) & (v[b].im == 0));
  for (int i = 0; i < 4; i++) {
    vp_assume(i < a ? n2(u[i]) < 1 : n2(u[i]) <= 1);
    vp_assume(i < b ? n2(v[i]) < 1 : n2(v[i]) <= 1);
  }
  for (int i = 0; i < 4; i++) vp_assert_eq(n2(v[i]), n2(c) * n2(u[i]), "norms are multiplicative");
  vp_assume(n2(v[a]) == n2(c) * n2(u[a]));
  vp_assume(n2(v[b]) == n2(c) * n2(u[b]));
  vp_assert(n2(c) == 1, "the factor has modulus one");
  vp_assume(n2(c) == 1);
  vp_assert(a == b, "the largest weight is at the same place");
  vp_assert((c.re == 1) & (c.im == 0), "the factor is one");
  vp_cover("unique");
}

// ------------------------------------------------------------ node creation
namespace {
void* fresh_;
U64 found;
int nlookups;
Qubit wantV;
template <class N> N* getStub(MemoryManager*) { return static_cast<N*>(fresh_); }
bool wantDM;
U64 kids[4];
Complex kidW[4];
template <class N, template <class> class E> E<N> normStub(N* p, const std::array<E<N>, W<N>>& e, MemoryManager&, ComplexNumbers&) {
  vp_assert(p == fresh_, "the fresh node is normalised");
  vp_assert(p->v == wantV, "the node gets the requested level");
  if (vp_choose("zero", 2) == 1) {
    for (const auto& x : e) zeroC(cx(x.w));
    return E<N>::zero();
  }
  E<N> r{};
  r.p = p;
  const Cx t{vp_double("top"), vp_double("top")};
  vp_assume(n2(t) > 0);
  if constexpr (std::is_same_v<decltype(r.w), Complex>) r.w = {entry(t.re), entry(t.im)};
  else r.w = ComplexValue{t.re, t.im};
  for (std::size_t i = 0; i < W<N>; i++) {
    p->e[i].w = weight("nw");
    p->e[i].p = reinterpret_cast<N*>(vp_u64("np"));
    const Cx nw = cx(p->e[i].w), w = cx(e[i].w);
    // normalisation contract
    vp_assume_nc((nw * t).re == w.re);
    vp_assume_nc((nw * t).im == w.im);
    vp_assume_nc((p->e[i].p == e[i].p) | ((id(p->e[i].p) == 0) & isZero(&p->e[i].w)));
    vp_assume_nc(isZero(&p->e[i].w) == ((w.re == 0) & (w.im == 0)));
    kids[i] = id(p->e[i].p);
    kidW[i] = p->e[i].w;
  }
  return r;
}
template <class N> N* tableStub(UniqueTable*, N* p) {
  nlookups++;
  if (id(p) == 0) return p;
  vp_assert(p == fresh_, "the normalised node is looked up");
  bool same = p->v == wantV;
  for (std::size_t i = 0; i < W<N>; i++) same = same & (id(p->e[i].p) == kids[i]) & (p->e[i].w.r == kidW[i].r) & (p->e[i].w.i == kidW[i].i);
  vp_assert(same, "the node is unchanged when it is looked up");
  if constexpr (std::is_same_v<N, dNode>) vp_assert(((p->flags & 8U) != 0) == wantDM, "density matrix nodes are marked");
  if constexpr (MAT<N>) vp_assert((p->flags & 7U) == 0, "no temporary flags are stored");
  return reinterpret_cast<N*>(found);
}
template <class N, template <class> class E> void creation() {
  RealNumber::eps = 0;
  nreturned = nlookups = 0;
  useNumbers();
  vp_replace("^dd::MemoryManager::returnEntry\\(", vp_fn(returnStub));
  vp_replace("Edge.*9normalizeI", vp_fn(normStub<N, E>));
  vp_replace("dd::MemoryManager::get<", vp_fn(getStub<N>));
  vp_replace("dd::UniqueTable::lookup<", vp_fn(tableStub<N>));
  auto& pk = package();
  wantV = vp_u16("v");
  wantDM = vp_bool("dm");
  auto* p = static_cast<N*>(vp_lazy("node", "fresh", sizeof(N)));
  vp_assume(p->ref == 0);
  fresh_ = p;
  found = vp_u64("found");
  vp_assume(found > 4096);
  std::array<E<N>, W<N>> e;
  for (auto& x : e) x = anyEdge<E<N>>("e");
  const auto r = pk.makeDDNode(wantV, e, wantDM);
  const Cx t = cx(r.w);
  if (nlookups == 1 && id(r.p) == 0) {
    for (const auto& x : e) {
      vp_assert_eq(cx(x.w).re, 0, "zero diagrams only");
      vp_assert_eq(cx(x.w).im, 0, "zero diagrams only");
    }
    vp_cover("zero");
    return;
  }
  if (nlookups == 1) {
    vp_assert(id(r.p) == found, "the node of the table is returned");
    if constexpr (MAT<N>) vp_assert(!((kids[0] == kids[3]) & isOne(&kidW[0]) & isOne(&kidW[3]) & isZero(&kidW[1]) & isZero(&kidW[2])), "identities are skipped");
    for (std::size_t i = 0; i < W<N>; i++) {
      eqc(t * cx(kidW[i]), cx(e[i].w), "the weights are preserved");
      vp_assert((kids[i] == id(e[i].p)) | isZero(&kidW[i]), "the successors are preserved");
    }
    vp_cover("node");
  } else {
    vp_assert(nlookups == 0, "at most one lookup");
    vp_assert(MAT<N>, "only matrix nodes are skipped");
    vp_assert((nreturned == 1) & (returned == p), "a skipped node is given back");
    vp_assert((id(r.p) == id(e[0].p)) & (id(r.p) == id(e[3 % W<N>].p)), "a skipped node is replaced by its diagonal successor");
    const Cx one{1, 0}, zero{0, 0};
    for (std::size_t i = 0; i < W<N>; i++) eqc(i == 0 || i == 3 ? t : zero, cx(e[i].w), "only identities are skipped");
    vp_cover("skipped");
  }
}
} // namespace
VP_HARNESS H_make_vc() { creation<vNode, CachedEdge>(); }
VP_HARNESS H_make_ve() { creation<vNode, Edge>(); }
VP_HARNESS H_make_mc() { creation<mNode, CachedEdge>(); }
VP_HARNESS H_make_me() { creation<mNode, Edge>(); }
VP_HARNESS H_make_dc() { creation<dNode, CachedEdge>(); }
