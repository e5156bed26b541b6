// @sources src/dd/Package.cpp src/dd/CachedEdge.cpp src/dd/Edge.cpp src/dd/Node.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/ComplexNumbers.cpp
// @opts * {"timeout": 500, "steps": 30000000}
// Contracts: reading entries of diagrams, and building diagrams from entries.
#include "dd.hpp"
#include <vector>
using namespace vpdd;
namespace {
Complex weight(const char* n) { return {reinterpret_cast<RealNumber*>(vp_u64(n)), reinterpret_cast<RealNumber*>(vp_u64(n))}; }
Cx cx(const std::complex<double>& c) { return {c.real(), c.imag()}; }
using vpdd::cx;
constexpr std::size_t NMAX = 4;
// ------------------------------------------------------------ one entry along a path
// builds the diagram along the path chosen by the decisions: at every level a node or (matrices) none
template <class N> void path() {
  vp_bounded("paths of up to four (vectors) or three (matrices) levels");
  useNumbers();
  const std::size_t n = 1 + vp_choose("n", MAT<N> ? NMAX - 1 : NMAX);
  std::string dec(n, '0');
  Edge<N> root{};
  Edge<N>* at = &root;
  Cx want{1, 0};
  bool dead = false, zeroTerm = false;
  for (std::size_t l = n; l-- > 0;) {
    const auto t = vp_choose("decision", static_cast<std::uint32_t>(W<N>));
    dec[l] = static_cast<char>('0' + t);
    if (zeroTerm) continue;
    const auto kind = vp_choose("kind", MAT<N> ? 3 : (l == n - 1 ? 1 : 2));
    if (kind == 1) { // the zero terminal
      *at = Edge<N>::zero();
      zeroTerm = dead = true;
    } else if (kind == 2) { // identity at this level
      dead = dead || t == 1 || t == 2;
    } else {
      at->p = static_cast<N*>(vp_alloc_sym(sizeof(N), "node"));
      at->p->v = static_cast<Qubit>(l);
      at->w = weight("w");
      want = want * cx(at->w);
      at = &at->p->e[t];
      at->p = nullptr;
    }
  }
  if (!zeroTerm) {
    *at = Edge<N>{nullptr, weight("w")};
    want = want * cx(at->w);
  }
  const auto r = root.getValueByPath(n, dec);
  eqc(cx(r), dead ? Cx{0, 0} : want, "the entry is the product of the weights along its path");
  vp_cover("path");
}
} // namespace
VP_HARNESS H_path_v() { path<vNode>(); }
VP_HARNESS H_path_m() { path<mNode>(); }
VP_HARNESS H_path_terminal() {
  useNumbers();
  const vEdge e{nullptr, weight("w")};
  eqc(cx(e.getValueByPath(0, "")), cx(e.w), "a terminal vector is its weight");
  const mEdge m{nullptr, weight("w")};
  eqc(cx(m.getValueByPath(0, "")), cx(m.w), "a matrix on no qubits is its weight");
  vp_cover("terminal");
}
// ------------------------------------------------------------ one entry by index
namespace {
std::size_t gotN;
char gotDec[8];
const void* gotEdge;
template <class N> std::complex<double> pathStub(const Edge<N>* e, std::size_t n, const std::string& d) {
  gotEdge = e;
  gotN = n;
  vp_assert(d.size() == n, "one decision per qubit");
  for (std::size_t i = 0; i < d.size(); i++) gotDec[i] = d[i];
  return {vp_ufr_1_0("re", 0), vp_ufr_1_0("im", 0)};
}
} // namespace
VP_HARNESS H_index_v() {
  vp_bounded("vectors on up to four qubits");
  vp_replace("^dd::Edge<dd::vNode>::getValueByPath\\(", vp_fn(pathStub<vNode>));
  const std::size_t n = vp_choose("n", 5);
  vEdge e{};
  if (n > 0) {
    e.p = node<vNode>("x", static_cast<Qubit>(n - 1));
  }
  const std::size_t i = vp_choose("i", 1U << n);
  const auto r = e.getValueByIndex(i);
  vp_assert(gotEdge == &e, "this diagram is read");
  vp_assert(gotN == n, "all qubits are decided");
  bool ok = true;
  for (std::size_t k = 0; k < n; k++) ok = ok & (gotDec[k] == static_cast<char>('0' + ((i >> k) & 1)));
  vp_assert(ok, "qubit k follows bit k of the index");
  vp_assert_eq(r.real(), vp_ufr_1_0("re", 0), "the entry is returned");
  vp_assert_eq(r.imag(), vp_ufr_1_0("im", 0), "the entry is returned");
  vp_cover("index");
}
VP_HARNESS H_index_m() {
  vp_bounded("matrices on up to three qubits");
  vp_replace("^dd::Edge<dd::mNode>::getValueByPath\\(", vp_fn(pathStub<mNode>));
  const std::size_t n = vp_choose("n", 4);
  mEdge e{nullptr, weight("w")};
  const std::size_t i = vp_choose("i", 1U << n), j = vp_choose("j", 1U << n);
  const auto r = e.getValueByIndex(n, i, j);
  vp_assert(gotEdge == &e, "this diagram is read");
  vp_assert(gotN == n, "all qubits are decided");
  bool ok = true;
  for (std::size_t k = 0; k < n; k++) ok = ok & (gotDec[k] == static_cast<char>('0' + 2 * ((i >> k) & 1) + ((j >> k) & 1)));
  vp_assert(ok, "qubit k follows bit k of the row and of the column");
  vp_assert_eq(r.real(), vp_ufr_1_0("re", 0), "the entry is returned");
  vp_assert_eq(r.imag(), vp_ufr_1_0("im", 0), "the entry is returned");
  vp_cover("index");
}
// ------------------------------------------------------------ traversal: one level
namespace {
struct Call {
  U64 p;
  Complex w;
  Cx amp;
  U64 i, j;
  U64 level;
};
Call calls[8];
std::size_t ncalls;
struct Emit {
  U64 i, j;
  Cx c;
};
Emit emits[4];
std::size_t nemits;
double thr;
void travV(const vEdge* e, const std::complex<double>& amp, std::size_t i, AmplitudeFunc, double t) {
  vp_assert(t == thr, "the threshold is passed on");
  calls[ncalls++] = {id(e->p), e->w, cx(amp), i, 0, 0};
}
void travM(const mEdge* e, const std::complex<double>& amp, std::size_t i, std::size_t j, MatrixEntryFunc, std::size_t level, double t) {
  vp_assert(t == thr, "the threshold is passed on");
  calls[ncalls++] = {id(e->p), e->w, cx(amp), i, j, level};
}
template <class N> void expectCall(std::size_t k, const Edge<N>& e, Cx amp, U64 i, U64 j, U64 level) {
  vp_assert((calls[k].p == id(e.p)) & (calls[k].w.r == e.w.r) & (calls[k].w.i == e.w.i), "the successor is traversed");
  eqc(calls[k].amp, amp, "the accumulated weight is passed on");
  vp_assert((calls[k].i == i) & (calls[k].j == j) & (calls[k].level == level), "the index of the block is passed on");
}
} // namespace
VP_HARNESS H_trav_v() {
  useNumbers();
  ncalls = nemits = 0;
  vp_replace("vNode.*14traverseVectorI", vp_fn(travV));
  const Qubit v = vp_u16("v");
  vp_assume(v < 62);
  thr = vp_double("threshold");
  vp_assume(thr >= 0);
  vEdge e{vp_choose("terminal", 2) == 1 ? nullptr : node<vNode>("x", v), weight("w")};
  const std::complex<double> amp{vp_double("re"), vp_double("im")};
  const U64 i = vp_u64("i");
  e.traverseVector(amp, i, [](std::size_t a, const std::complex<double>& c) { emits[nemits++] = {a, 0, cx(c)}; }, thr);
  const Cx c = cx(amp) * cx(e.w);
  const bool small = std::abs(amp * static_cast<std::complex<double>>(e.w)) < thr;
  if (small) {
    vp_assert((ncalls == 0) & (nemits == 0), "entries below the threshold are dropped");
  } else if (e.p == nullptr) {
    vp_assert((ncalls == 0) & (nemits == 1), "an entry is reported once");
    vp_assert(emits[0].i == i, "the entry is reported at its index");
    eqc(emits[0].c, c, "the entry is the accumulated weight");
    vp_cover("entry");
  } else {
    vp_assert(nemits == 0, "entries are reported at the lowest level");
    std::size_t k = 0;
    for (std::size_t b = 0; b < 2; b++)
      if (!isZero(&e.p->e[b].w)) {
        vp_assert(k < ncalls, "non-zero halves are traversed");
        expectCall(k++, e.p->e[b], c, b == 0 ? i : i | (1ULL << v), 0, 0);
      }
    vp_assert(ncalls == k, "each half is traversed once");
    vp_cover("node");
  }
}
VP_HARNESS H_trav_m() {
  useNumbers();
  ncalls = nemits = 0;
  vp_replace("mNode.*14traverseMatrixI", vp_fn(travM));
  const Qubit v = vp_u16("v");
  const auto kind = vp_choose("kind", 3); // 0: node at this level, 1: node below, 2: terminal
  const Qubit level = vp_u16("level");
  vp_assume(v < 62);
  vp_assume(kind == 0 ? level == v + 1 : kind == 1 ? (level > v + 1) & (level < 63) : level < 63);
  thr = vp_double("threshold");
  vp_assume(thr >= 0);
  mEdge e{kind == 2 ? nullptr : node<mNode>("x", v), weight("w")};
  const std::complex<double> amp{vp_double("re"), vp_double("im")};
  const U64 i = vp_u64("i"), j = vp_u64("j");
  e.traverseMatrix(amp, i, j, [](std::size_t a, std::size_t b, const std::complex<double>& c) { emits[nemits++] = {a, b, cx(c)}; }, level, thr);
  const Cx c = cx(amp) * cx(e.w);
  const bool small = std::abs(amp * static_cast<std::complex<double>>(e.w)) < thr;
  const U64 bit = 1ULL << (level - 1);
  if (small) {
    vp_assert((ncalls == 0) & (nemits == 0), "entries below the threshold are dropped");
  } else if (level == 0) {
    vp_assert((ncalls == 0) & (nemits == 1), "an entry is reported once");
    vp_assert((emits[0].i == i) & (emits[0].j == j), "the entry is reported at its index");
    eqc(emits[0].c, c, "the entry is the accumulated weight");
    vp_cover("entry");
  } else if (kind != 0) {
    vp_assert((ncalls == 2) & (nemits == 0), "a skipped level has two diagonal blocks");
    expectCall(0, e, cx(amp), i, j, level - 1);
    expectCall(1, e, cx(amp), i | bit, j | bit, level - 1);
    vp_cover("skipped");
  } else {
    vp_assert(nemits == 0, "entries are reported at the lowest level");
    std::size_t k = 0;
    for (std::size_t b = 0; b < 4; b++)
      if (!isZero(&e.p->e[b].w)) {
        vp_assert(k < ncalls, "non-zero blocks are traversed");
        expectCall(k++, e.p->e[b], c, (b & 2) != 0 ? i | bit : i, (b & 1) != 0 ? j | bit : j, level - 1);
      }
    vp_assert(ncalls == k, "each block is traversed once");
    vp_cover("node");
  }
}
// ------------------------------------------------------------ dense vectors and matrices
namespace {
std::size_t em[2], en[2];
std::complex<double> ec[2];
std::size_t gLevel;
void gTravV(const vEdge*, const std::complex<double>& amp, std::size_t i, AmplitudeFunc f, double t) {
  vp_assert(t == thr, "the threshold is passed on");
  vp_assert((amp.real() == 1) & (amp.imag() == 0) & (i == 0), "the traversal starts at the origin with weight one");
  for (int k = 0; k < 2; k++) f(em[k], ec[k]);
}
void gTravM(const mEdge*, const std::complex<double>& amp, std::size_t i, std::size_t j, MatrixEntryFunc f, std::size_t level, double t) {
  vp_assert((t == thr) & (level == gLevel), "level and threshold are passed on");
  vp_assert((amp.real() == 1) & (amp.imag() == 0) & (i == 0) & (j == 0), "the traversal starts at the origin with weight one");
  for (int k = 0; k < 2; k++) f(em[k], en[k], ec[k]);
}
} // namespace
VP_HARNESS H_dense_v() {
  vp_bounded("vectors on up to two qubits, two reported entries");
  useNumbers();
  vp_replace("vNode.*14traverseVectorI", vp_fn(gTravV));
  thr = vp_double("threshold");
  const std::size_t n = 1 + vp_choose("n", 2);
  const vEdge e{node<vNode>("x", static_cast<Qubit>(n - 1)), weight("w")};
  em[0] = vp_choose("i", 1U << n);
  em[1] = vp_choose("i", 1U << n);
  if (em[0] == em[1]) vp_stop();
  for (auto& c : ec) c = {vp_double("re"), vp_double("im")};
  const auto d = e.getVector(thr);
  vp_assert(d.size() == (1U << n), "the vector has full length");
  for (std::size_t i = 0; i < d.size(); i++) eqc(cx(d[i]), i == em[0] ? cx(ec[0]) : i == em[1] ? cx(ec[1]) : Cx{0, 0}, "the vector holds the reported entries");
  CVec acc(1U << n);
  for (auto& a : acc) a = {vp_double("old"), vp_double("old")};
  const auto old = acc;
  thr = 0;
  e.addToVector(acc);
  for (std::size_t i = 0; i < d.size(); i++) eqc(cx(acc[i]), cx(old[i]) + cx(d[i]), "entries are added to the vector");
  vp_cover("dense");
}
VP_HARNESS H_dense_vt() {
  useNumbers();
  const vEdge e{nullptr, weight("w")};
  const auto d = e.getVector(0);
  vp_assert(d.size() == 1, "a terminal has one entry");
  eqc(cx(d[0]), cx(e.w), "a terminal is its weight");
  vp_cover("terminal");
}
VP_HARNESS H_dense_m() {
  vp_bounded("matrices on up to two qubits, two reported entries");
  useNumbers();
  vp_replace("mNode.*14traverseMatrixI", vp_fn(gTravM));
  thr = vp_double("threshold");
  const std::size_t n = vp_choose("n", 3);
  gLevel = n;
  const mEdge e{n == 0 ? nullptr : node<mNode>("x", static_cast<Qubit>(n - 1)), weight("w")};
  for (int k = 0; k < 2; k++) {
    em[k] = vp_choose("i", 1U << n);
    en[k] = vp_choose("j", 1U << n);
    ec[k] = {vp_double("re"), vp_double("im")};
  }
  if (n > 0 && em[0] == em[1] && en[0] == en[1]) vp_stop();
  const auto d = e.getMatrix(n, thr);
  vp_assert(d.size() == (1U << n), "the matrix has full size");
  for (std::size_t i = 0; i < d.size(); i++) {
    vp_assert(d[i].size() == d.size(), "the matrix is square");
    for (std::size_t j = 0; j < d.size(); j++)
      eqc(cx(d[i][j]), n == 0 ? cx(e.w) : i == em[0] && j == en[0] ? cx(ec[0]) : i == em[1] && j == en[1] ? cx(ec[1]) : Cx{0, 0}, "the matrix holds the reported entries");
  }
  vp_cover("dense");
}
// ------------------------------------------------------------ building
namespace {
// makeDDNode by its contract (P04): a node whose successors are the given edges divided by some non-zero weight;
// if only one successor is non-zero, its weight is the weight of the result
template <class N, template <class> class E> E<N> buildStub(Package*, const Qubit v, const std::array<E<N>, W<N>>& e, bool) {
  auto* p = static_cast<N*>(vp_alloc_sym(sizeof(N), "built"));
  p->v = v;
  const Cx t{vp_double("top"), vp_double("top")};
  vp_assume(t.re * t.re + t.im * t.im > 0);
  for (std::size_t i = 0; i < W<N>; i++) {
    vp_assert(e[i].p == nullptr || e[i].p->v < v, "successors are on lower levels");
    const Cx w = cx(e[i].w) / t;
    p->e[i] = {e[i].p, Complex{reinterpret_cast<RealNumber*>(vp_u64("bw")), reinterpret_cast<RealNumber*>(vp_u64("bw"))}};
    vp_assume_eq(vp_ufr_1_0("bval", id(p->e[i].w.r)), w.re);
    vp_assume_eq(vp_ufr_1_0("bval", id(p->e[i].w.i)), w.im);
  }
  return {p, ComplexValue{t.re, t.im}};
}
template <class N> Cx walk(const N* p, std::size_t i, std::size_t j) {
  if (p == nullptr) return {1, 0};
  const auto& e = p->e[MAT<N> ? 2 * ((i >> p->v) & 1) + ((j >> p->v) & 1) : (i >> p->v) & 1];
  return Cx{vp_ufr_1_0("bval", id(e.w.r)), vp_ufr_1_0("bval", id(e.w.i))} * walk<N>(e.p, i, j);
}
int nref;
} // namespace
VP_HARNESS H_build_v() {
  vp_bounded("vectors on up to three qubits");
  useNumbers();
  vp_replace("dd::Package::makeDDNode<dd::vNode, dd::CachedEdge>\\(", vp_fn(buildStub<vNode, CachedEdge>));
  const std::size_t n = vp_choose("n", 4);
  nref = 0;
  vp_replace("^void dd::Package::incRef<dd::vNode>\\(", vp_fn(+[](Package*, const vEdge&) { nref++; }));
  auto& pk = package();
  CVec v(1U << n);
  for (auto& x : v) x = {vp_double("re"), vp_double("im")};
  if (n == 0) {
    const auto e = pk.makeStateFromVector(v);
    vp_assert(e.p == nullptr, "a single entry is a terminal");
    eqc(cx(e.w), cx(v[0]), "a single entry is its weight");
    return;
  }
  const auto e = pk.makeStateFromVector(v.begin(), v.end(), static_cast<Qubit>(n - 1));
  vp_assert(e.p != nullptr && e.p->v == n - 1, "the state has all qubits");
  for (std::size_t i = 0; i < v.size(); i++) eqc(cx(e.w) * walk<vNode>(e.p, i, 0), cx(v[i]), "entry i of the state is entry i of the vector");
  vp_cover("built");
}
VP_HARNESS H_build_m() {
  vp_bounded("matrices on up to two qubits");
  useNumbers();
  vp_replace("dd::Package::makeDDNode<dd::mNode, dd::CachedEdge>\\(", vp_fn(buildStub<mNode, CachedEdge>));
  const std::size_t n = vp_choose("n", 3);
  auto& pk = package();
  CMat m(1U << n, CVec(1U << n));
  for (auto& r : m)
    for (auto& x : r) x = {vp_double("re"), vp_double("im")};
  if (n == 0) {
    const auto e = pk.makeDDFromMatrix(m);
    vp_assert(e.p == nullptr, "a single entry is a terminal");
    eqc(cx(e.w), cx(m[0][0]), "a single entry is its weight");
    return;
  }
  const auto e = pk.makeDDFromMatrix(m, static_cast<Qubit>(n - 1), 0, m.size(), 0, m.size());
  vp_assert(e.p != nullptr && e.p->v == n - 1, "the matrix has all qubits");
  for (std::size_t i = 0; i < m.size(); i++)
    for (std::size_t j = 0; j < m.size(); j++) eqc(cx(e.w) * walk<mNode>(e.p, i, j), cx(m[i][j]), "entry (i,j) of the diagram is entry (i,j) of the matrix");
  vp_cover("built");
}

namespace {
const CVec* bV;
const CMat* bM;
U64 bP;
Cx bW;
vCachedEdge bvStub(Package*, const CVec::const_iterator& b, const CVec::const_iterator& e, const Qubit l) {
  vp_assert((b == bV->begin()) & (e == bV->end()) & ((2ULL << l) == bV->size()), "the whole vector is converted");
  return {reinterpret_cast<vNode*>(bP), ComplexValue{bW.re, bW.im}};
}
mCachedEdge bmStub(Package*, const CMat& m, const Qubit l, std::size_t r0, std::size_t r1, std::size_t c0, std::size_t c1) {
  vp_assert((&m == bM) & (r0 == 0) & (c0 == 0) & (r1 == m.size()) & (c1 == m.size()) & ((2ULL << l) == m.size()), "the whole matrix is converted");
  return {reinterpret_cast<mNode*>(bP), ComplexValue{bW.re, bW.im}};
}
template <class F> bool rejects(F f) {
  try { f(); } catch (const std::invalid_argument&) { return true; }
  return false;
}
} // namespace
VP_HARNESS H_build_vtop() {
  vp_bounded("vectors of up to nine entries");
  useNumbers();
  nref = 0;
  vp_replace("^dd::Package::makeStateFromVector\\(__gnu_cxx", vp_fn(bvStub));
  vp_replace("^void dd::Package::incRef<dd::vNode>\\(", vp_fn(+[](Package*, const vEdge& e) { nref += (id(e.p) == bP) | ((bW.re == 0) & (bW.im == 0)); }));
  auto& pk = package();
  const std::size_t n = vp_choose("size", 10);
  const CVec v(n);
  bV = &v;
  bP = vp_u64("p");
  vp_assume(bP > 4096);
  bW = {vp_double("w"), vp_double("w")};
  vEdge e{};
  const bool bad = rejects([&] { e = pk.makeStateFromVector(v); });
  vp_assert(bad == (n != 0 && (n & (n - 1)) != 0), "only vectors whose length is no power of two are rejected");
  if (bad || n == 1) return;
  if (n == 0) {
    vp_assert(e.p == nullptr, "the empty vector is the scalar one");
    eqc(cx(e.w), Cx{1, 0}, "the empty vector is the scalar one");
    return;
  }
  vp_assert((id(e.p) == bP) | ((bW.re == 0) & (bW.im == 0)), "the converted node is returned");
  eqc(cx(e.w), bW, "the converted weight is returned");
  vp_assert(nref == 1, "the state is referenced once");
  vp_cover("top");
}
VP_HARNESS H_build_mtop() {
  vp_bounded("matrices of size up to five");
  useNumbers();
  vp_replace("^dd::Package::makeDDFromMatrix\\(.*unsigned short", vp_fn(bmStub));
  auto& pk = package();
  const std::size_t n = vp_choose("rows", 6), k = vp_choose("columns", 6);
  const CMat m(n, CVec(k));
  bM = &m;
  bP = vp_u64("p");
  vp_assume(bP > 4096);
  bW = {vp_double("w"), vp_double("w")};
  mEdge e{};
  const bool bad = rejects([&] { e = pk.makeDDFromMatrix(m); });
  vp_assert(bad == (n != 0 && ((n & (n - 1)) != 0 || n != k)), "only matrices that are not square or no power of two in size are rejected");
  if (bad || n == 1) return;
  if (n == 0) {
    vp_assert(e.p == nullptr, "the empty matrix is the scalar one");
    eqc(cx(e.w), Cx{1, 0}, "the empty matrix is the scalar one");
    return;
  }
  vp_assert((id(e.p) == bP) | ((bW.re == 0) & (bW.im == 0)), "the converted node is returned");
  eqc(cx(e.w), bW, "the converted weight is returned");
  vp_cover("top");
}
// ------------------------------------------------------------ standard states
namespace {
template <class N> N* newNode(MemoryManager*) {
  auto* p = static_cast<N*>(vp_alloc_sym(sizeof(N), "node"));
  p->ref = 0;
  return p;
}
vNode* sameNode(UniqueTable*, vNode* p) { return p; }
Cx stateAt(const vEdge& e, std::size_t i) {
  Cx w = cx(e.w);
  for (const auto* at = &e; at->p != nullptr; w = w * cx(at->w)) at = &at->p->e[(i >> at->p->v) & 1];
  return w;
}
bool complete(const vEdge& e, std::size_t from, std::size_t n) {
  if (n == from) return e.p == nullptr;
  if (e.p == nullptr || e.p->v != n - 1) return false;
  for (const auto& s : e.p->e)
    if (!(s.p == nullptr && isZero(&s.w)) && !complete(s, from, n - 1)) return false;
  return true;
}
Package& states(std::size_t nq) {
  vp_bounded("states on up to four qubits");
  RealNumber::eps = 0;
  nref = 0;
  useNumbers();
  vp_replace("^void dd::Package::incRef<dd::vNode>\\(", vp_fn(+[](Package*, const vEdge&) { nref++; }));
  vp_replace("dd::MemoryManager::get<dd::vNode>", vp_fn(newNode<vNode>));
  vp_replace("dd::UniqueTable::lookup<dd::vNode>", vp_fn(sameNode));
  auto& pk = package();
  pk.nqubits = nq;
  return pk;
}
void tooMany(Package& pk, std::size_t n, std::size_t start, bool threw) {
  vp_assert(threw == (n + start > pk.nqubits), "only states that do not fit are rejected");
}
} // namespace
VP_HARNESS H_zero() {
  auto& pk = states(5);
  const std::size_t n = vp_choose("n", 6), start = vp_choose("start", 3);
  bool threw = false;
  vEdge e{};
  try { e = pk.makeZeroState(n, start); } catch (const std::runtime_error&) { threw = true; }
  tooMany(pk, n, start, threw);
  if (threw) return;
  vp_assert(complete(e, start, n + start), "the state has the requested qubits");
  vp_assert(nref == 1, "the state is referenced once");
  for (std::size_t i = 0; i < (1ULL << n); i++) eqc(stateAt(e, i << start), Cx{i == 0 ? 1. : 0., 0}, "the zero state");
  vp_cover("state");
}
VP_HARNESS H_basis() {
  auto& pk = states(4);
  const std::size_t n = vp_choose("n", 4), start = vp_choose("start", 2), b = vp_choose("b", 1U << (n + start));
  std::vector<bool> st(n + start);
  for (std::size_t i = 0; i < n + start; i++) st[i] = ((b >> i) & 1) != 0;
  const auto e = pk.makeBasisState(n, st, start);
  vp_assert(complete(e, start, n + start), "the state has the requested qubits");
  vp_assert(nref == 1, "the state is referenced once");
  for (std::size_t i = 0; i < (1ULL << n); i++) eqc(stateAt(e, i << start), Cx{i == b >> start ? 1. : 0., 0}, "the basis state");
  vp_cover("state");
}
VP_HARNESS H_product() {
  auto& pk = states(4);
  const std::size_t n = vp_choose("n", 4);
  std::vector<BasisStates> st(n);
  Cx amp[3][2];
  for (std::size_t i = 0; i < n; i++) {
    const auto k = vp_choose("s", 6);
    const double h = SQRT2_2;
    const BasisStates all[6] = {BasisStates::zero, BasisStates::one, BasisStates::plus, BasisStates::minus, BasisStates::right, BasisStates::left};
    const Cx one[6] = {{0, 0}, {1, 0}, {h, 0}, {-h, 0}, {0, h}, {0, -h}};
    st[i] = all[k];
    amp[i][0] = {k == 0 ? 1 : k == 1 ? 0 : h, 0};
    amp[i][1] = one[k];
  }
  const auto e = pk.makeBasisState(n, st);
  vp_assert(complete(e, 0, n), "the state has the requested qubits");
  vp_assert(nref == 1, "the state is referenced once");
  for (std::size_t i = 0; i < (1ULL << n); i++) {
    Cx want{1, 0};
    for (std::size_t k = 0; k < n; k++) want = want * amp[k][(i >> k) & 1];
    eqc(stateAt(e, i), want, "the product state");
  }
  vp_cover("state");
}
VP_HARNESS H_ghz() {
  auto& pk = states(4);
  const std::size_t n = vp_choose("n", 6);
  bool threw = false;
  vEdge e{};
  try { e = pk.makeGHZState(n); } catch (const std::runtime_error&) { threw = true; }
  tooMany(pk, n, 0, threw);
  if (threw) return;
  vp_assert(complete(e, 0, n), "the state has the requested qubits");
  for (std::size_t i = 0; i < (1ULL << n); i++)
    eqc(stateAt(e, i), Cx{n == 0 ? 1. : i == 0 || i + 1 == (1ULL << n) ? SQRT2_2 : 0., 0}, "the GHZ state");
  vp_cover("state");
}
VP_HARNESS H_w() {
  auto& pk = states(4);
  const std::size_t n = vp_choose("n", 6);
  bool threw = false;
  vEdge e{};
  try { e = pk.makeWState(n); } catch (const std::runtime_error&) { threw = true; }
  tooMany(pk, n, 0, threw);
  if (threw) return;
  vp_assert(complete(e, 0, n), "the state has the requested qubits");
  for (std::size_t i = 0; i < (1ULL << n); i++) {
    std::size_t ones = 0;
    for (std::size_t k = 0; k < n; k++) ones += (i >> k) & 1;
    const Cx a = stateAt(e, i);
    vp_assert_eq(a.im, 0, "the W state is real");
    vp_assert(a.re >= 0, "the W state has no negative amplitudes");
    vp_assert_eq(a.re * a.re * (n == 0 ? 1 : static_cast<double>(n)), n == 0 || ones == 1 ? 1. : 0., "the W state");
  }
  vp_cover("state");
}
