// @sources src/dd/Package.cpp src/dd/Node.cpp src/dd/Edge.cpp src/dd/CachedEdge.cpp src/dd/UniqueTable.cpp
// @opts * {"timeout": 300, "steps": 30000000}
// Contracts of garbage collection, clearing and reference counting on the level of the package.
#include "dd.hpp"

#include <limits>
using namespace vpdd;
namespace {
Package* P;
// ------------------------------------------------------------ recording stubs
const void* cleared[64];
std::size_t ncleared;
void clearStub(const void* t) { cleared[ncleared++] = t; }
bool wasCleared(const void* t) {
  for (std::size_t i = 0; i < ncleared; i++)
    if (vp_known(id(cleared[i]) == id(t))) return true;
  return false;
}
bool emptied[4];
int which(const void* t) {
  if (vp_known(id(t) == id(&P->vUniqueTable))) return 0;
  if (vp_known(id(t) == id(&P->mUniqueTable))) return 1;
  if (vp_known(id(t) == id(&P->dUniqueTable))) return 2;
  return 3;
}
void emptyStub(const void* t) { emptied[which(t)] = true; }
bool resetDone[4];
bool resetArg[4];
void resetStub(const void* t, bool total) {
  const int k = vp_known(id(t) == id(&P->vMemoryManager)) ? 0 : vp_known(id(t) == id(&P->mMemoryManager)) ? 1 : vp_known(id(t) == id(&P->dMemoryManager)) ? 2 : 3;
  resetDone[k] = true;
  resetArg[k] = total;
}
bool due[4], ran[4], forced[4];
U64 gone[4];
bool dueStub(const void* t) { return due[which(t)]; }
// contract of the unique tables (P10, P09): collects only if forced or due
U64 collectStub(const void* t, bool force) {
  const int k = which(t);
  ran[k] = true;
  forced[k] = force;
  gone[k] = vp_u64("collected");
  vp_assume(force | due[k] | (gone[k] == 0));
  return gone[k];
}
void stubs() {
  P = &package();
  vp_replace_opt("^dd::ComputeTable<.*>::clear\\(\\)$", vp_fn(clearStub));
  vp_replace_opt("^dd::UnaryComputeTable<.*>::clear\\(\\)$", vp_fn(clearStub));
  vp_replace_opt("^dd::DensityNoiseTable<.*>::clear\\(\\)$", vp_fn(clearStub));
  vp_replace_opt("^dd::StochasticNoiseOperationTable<.*>::clear\\(\\)$", vp_fn(clearStub));
  vp_replace_opt("^dd::UniqueTable::clear\\(\\)$", vp_fn(emptyStub));
  vp_replace_opt("^dd::RealNumberUniqueTable::clear\\(\\)$", vp_fn(emptyStub));
  vp_replace_opt("^dd::MemoryManager::reset\\(bool\\)$", vp_fn(resetStub));
  vp_replace_opt("^dd::UniqueTable::possiblyNeedsCollection\\(\\) const$", vp_fn(dueStub));
  vp_replace_opt("^dd::RealNumberUniqueTable::possiblyNeedsCollection\\(\\) const$", vp_fn(dueStub));
  vp_replace_opt("^dd::UniqueTable::garbageCollect\\(bool\\)$", vp_fn(collectStub));
  vp_replace_opt("^dd::RealNumberUniqueTable::garbageCollect\\(bool\\)$", vp_fn(collectStub));
  ncleared = 0;
  for (int k = 0; k < 4; k++) {
    ran[k] = forced[k] = emptied[k] = resetDone[k] = resetArg[k] = false;
    gone[k] = 0;
    due[k] = vp_bool("due");
  }
}
struct Tab {
  const void* t;
  bool v, m, d, c; // may refer to nodes of these kinds / to stored numbers
  const char* stale;
};
// every table of the package and what its entries refer to (operands and results)
template <class F> void tables(F f) {
  const bool T = true, N = false;
  // clang-format off
  f(Tab{&P->vectorAdd, T, N, N, N, "vector sums do not outlive their nodes"});
  f(Tab{&P->matrixAdd, N, T, N, N, "matrix sums do not outlive their nodes"});
  f(Tab{&P->densityAdd, N, T, T, N, "density matrix sums do not outlive their nodes"});
  f(Tab{&P->vectorAddMagnitudes, T, N, N, N, "sums of magnitudes do not outlive their nodes"});
  f(Tab{&P->matrixAddMagnitudes, N, T, N, N, "sums of magnitudes (matrices) do not outlive their nodes"});
  f(Tab{&P->conjugateVector, T, N, N, N, "conjugates do not outlive their nodes"});
  f(Tab{&P->conjugateMatrixTranspose, N, T, N, N, "adjoints do not outlive their nodes"});
  f(Tab{&P->matrixVectorMultiplication, T, T, N, N, "matrix-vector products do not outlive their nodes"});
  f(Tab{&P->matrixMatrixMultiplication, N, T, N, N, "matrix products do not outlive their nodes"});
  f(Tab{&P->densityDensityMultiplication, N, T, T, N, "density matrix products do not outlive their nodes"}); // operators are matrix nodes
  f(Tab{&P->vectorInnerProduct, T, N, N, N, "inner products do not outlive their nodes"});
  f(Tab{&P->vectorKronecker, T, N, N, N, "tensor products do not outlive their nodes"});
  f(Tab{&P->matrixKronecker, N, T, N, N, "tensor products (matrices) do not outlive their nodes"});
  f(Tab{&P->densityTrace, N, N, T, N, "density matrix traces do not outlive their nodes"});
  f(Tab{&P->matrixTrace, N, T, N, N, "traces do not outlive their nodes"});
  f(Tab{&P->densityNoise, N, N, T, T, "noise results do not outlive their nodes and numbers"});
  f(Tab{&P->stochasticNoiseOperationCache, N, T, N, T, "noise operations do not outlive their nodes and numbers"});
  // clang-format on
}
} // namespace
VP_HARNESS H_collect() {
  stubs();
  const bool force = vp_bool("force");
  const bool r = P->garbageCollect(force);
  const bool any = (gone[0] > 0) | (gone[1] > 0) | (gone[2] > 0) | (gone[3] > 0);
  vp_assert(r == any, "whether anything was collected");
  vp_assert(!any | (ran[0] & ran[1] & ran[2] & ran[3]) | !(gone[3] > 0), "numbers are not collected on their own");
  if (vp_decide(gone[3] > 0))
    for (int k = 0; k < 3; k++) vp_assert(ran[k] & forced[k], "once numbers are collected, every node without references is collected as well");
  if (vp_decide(force))
    for (int k = 0; k < 4; k++) vp_assert(ran[k] & forced[k], "a forced collection covers every table");
  for (int k = 0; k < 4; k++) vp_assert(!due[k] | ran[k], "a table that is due is collected");
  tables([&](const Tab& t) {
    if (wasCleared(t.t)) return;
    const bool stale = (t.v & (gone[0] > 0)) | (t.m & (gone[1] > 0)) | (t.d & (gone[2] > 0)) | (t.c & (gone[3] > 0));
    vp_assert(!stale, t.stale);
  });
  vp_cover("collect");
}
VP_HARNESS H_clear() {
  stubs();
  P->clearComputeTables();
  tables([&](const Tab& t) { vp_assert(wasCleared(t.t), "clearing covers every compute table"); });
  vp_cover("clear");
}
VP_HARNESS H_reset() {
  stubs();
  P->reset();
  tables([&](const Tab& t) { vp_assert(wasCleared(t.t), "a reset clears every compute table"); });
  for (int k = 0; k < 4; k++) {
    vp_assert(emptied[k], "a reset empties every unique table");
    vp_assert(resetDone[k], "a reset makes all memory available again");
  }
  vp_cover("reset");
}
// ------------------------------------------------------------ reference counts
namespace {
const void* wRe[8];
const void* wIm[8];
std::size_t nw;
const void* counted;
std::size_t ncounted;
bool counterResult;
template <class N> struct Rec {
  static inline const N* p[8];
  static inline const void* re[8];
  static inline const void* im[8];
  static inline std::size_t n;
  static void call(Package*, const Edge<N>* e) {
    p[n] = e->p;
    re[n] = e->w.r;
    im[n++] = e->w.i;
  }
};
void weightStub(const void*, const Complex* c) {
  wRe[nw] = c->r;
  wIm[nw++] = c->i;
}
// contracts of UniqueTable::incRef and decRef (P10)
constexpr auto MAX = std::numeric_limits<RefCount>::max();
bool incStub(const void* t, NodeBase* p) {
  counted = t;
  ncounted++;
  if (p == nullptr || p->ref == MAX) return false;
  ++p->ref;
  return true;
}
bool decStub(const void* t, NodeBase* p) {
  counted = t;
  ncounted++;
  if (p == nullptr || p->ref == MAX) return false;
  vp_assert(p->ref != 0, "only references that were taken are given back");
  --p->ref;
  return true;
}
template <class N> const void* table() {
  if constexpr (std::is_same_v<N, vNode>) return &P->vUniqueTable;
  else if constexpr (std::is_same_v<N, mNode>) return &P->mUniqueTable;
  else return &P->dUniqueTable;
}
template <class N> void count(bool inc) {
  stubs();
  vp_replace_opt("^dd::ComplexNumbers::incRef\\(", vp_fn(weightStub));
  vp_replace_opt("^dd::ComplexNumbers::decRef\\(", vp_fn(weightStub));
  vp_replace_opt("^dd::UniqueTable::incRef\\(", vp_fn(incStub));
  vp_replace_opt("^dd::UniqueTable::decRef\\(", vp_fn(decStub));
  vp_replace(inc ? "^void dd::Package::incRef<" : "^void dd::Package::decRef<", vp_fn(Rec<N>::call));
  nw = ncounted = Rec<N>::n = 0;
  const bool terminal = vp_choose("terminal", 2) == 1;
  N* p = nullptr;
  if (!terminal) {
    p = new N{};
    p->ref = vp_u32("ref");
    for (auto& e : p->e) e = {reinterpret_cast<N*>(vp_u64("child")), Complex{reinterpret_cast<RealNumber*>(vp_u64("re")), reinterpret_cast<RealNumber*>(vp_u64("im"))}};
  }
  const RefCount before = terminal ? 0 : p->ref;
  if (!terminal && !inc) vp_assume(before != 0);
  const Edge<N> e{p, Complex{reinterpret_cast<RealNumber*>(vp_u64("re")), reinterpret_cast<RealNumber*>(vp_u64("im"))}};
  if (inc) P->incRef(e);
  else P->decRef(e);
  vp_assert(nw == 1, "the weight is counted once");
  vp_assert((id(wRe[0]) == id(e.w.r)) & (id(wIm[0]) == id(e.w.i)), "the weight is counted");
  vp_assert(ncounted <= 1, "the node is counted at most once");
  if (terminal) {
    vp_assert(Rec<N>::n == 0, "terminals have no successors");
    vp_cover("terminal");
    return;
  }
  vp_assert((ncounted == 1) && vp_known(id(counted) == id(table<N>())), "the node is counted in its table");
  vp_assert(p->ref == (before == MAX ? MAX : inc ? before + 1 : before - 1), "the count of the node");
  const bool flips = inc ? before == 0 : (before == 1);
  if (!vp_decide(flips)) {
    vp_assert(Rec<N>::n == 0, "successors are counted once per node in use");
    vp_cover("again");
    return;
  }
  vp_assert(Rec<N>::n == W<N>, "every successor is counted once");
  for (std::size_t i = 0; i < W<N>; i++)
    vp_assert((id(Rec<N>::p[i]) == id(p->e[i].p)) & (id(Rec<N>::re[i]) == id(p->e[i].w.r)) & (id(Rec<N>::im[i]) == id(p->e[i].w.i)), "the successors are counted");
  vp_cover("successors");
}
} // namespace
VP_HARNESS H_inc_v() { count<vNode>(true); }
VP_HARNESS H_inc_m() { count<mNode>(true); }
VP_HARNESS H_inc_d() { count<dNode>(true); }
VP_HARNESS H_dec_v() { count<vNode>(false); }
VP_HARNESS H_dec_m() { count<mNode>(false); }
VP_HARNESS H_dec_d() { count<dNode>(false); }
// ------------------------------------------------------------ applying an operation keeps the result
namespace {
template <class N> struct App {
  static inline int step, pinned, released;
  static inline Edge<N> result, operand;
  static inline mEdge left;
  static inline bool fromLeft;
  static bool is(const Edge<N>& a, const Edge<N>& b) { return (id(a.p) == id(b.p)) & (id(a.w.r) == id(b.w.r)) & (id(a.w.i) == id(b.w.i)); }
  static Edge<N> mul(Package*, const mEdge* x, const Edge<N>* y, bool) {
    if constexpr (std::is_same_v<N, vNode>) {
      vp_assert((id(x->p) == id(left.p)) & is(*y, operand), "the operation is applied to the state");
    } else {
      vp_assert(fromLeft ? is(*x, left) & is(*y, operand) : is(*x, operand) & is(*y, left), "the operation is applied from the requested side");
    }
    return result;
  }
  static void inc(Package*, const Edge<N>* e) {
    vp_assert(is(*e, result), "the result is kept");
    pinned = ++step;
  }
  static void dec(Package*, const Edge<N>* e) {
    vp_assert(is(*e, operand), "the operand is released");
    released = ++step;
  }
  static bool gc(Package*, bool) {
    vp_assert(pinned > 0, "nothing is collected before the result is kept");
    ++step;
    return vp_bool("collected");
  }
  static Edge<N> any() { return {reinterpret_cast<N*>(vp_u64("node")), Complex{reinterpret_cast<RealNumber*>(vp_u64("re")), reinterpret_cast<RealNumber*>(vp_u64("im"))}}; }
  static void run() {
    stubs();
    vp_replace("^dd::Edge<.*> dd::Package::multiply<", vp_fn(mul));
    vp_replace("^void dd::Package::incRef<", vp_fn(inc));
    vp_replace("^void dd::Package::decRef<", vp_fn(dec));
    vp_replace_opt("^dd::Package::garbageCollect\\(", vp_fn(gc));
    step = pinned = released = 0;
    result = any();
    operand = any();
    left = {reinterpret_cast<mNode*>(vp_u64("node")), Complex{reinterpret_cast<RealNumber*>(vp_u64("re")), reinterpret_cast<RealNumber*>(vp_u64("im"))}};
    fromLeft = vp_bool("left");
    Edge<N> r;
    if constexpr (std::is_same_v<N, vNode>) r = P->applyOperation(left, operand);
    else r = P->applyOperation(left, operand, vp_decide(fromLeft));
    vp_assert(is(r, result), "the result is returned");
    vp_assert(pinned > 0 && released > 0, "the result is kept and the operand released");
    vp_assert(pinned < released, "the result is kept before the operand is released");
    vp_cover("apply");
  }
};
} // namespace
VP_HARNESS H_apply_v() { App<vNode>::run(); }
VP_HARNESS H_apply_m() { App<mNode>::run(); }
