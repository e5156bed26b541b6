// @sources src/dd/UniqueTable.cpp src/dd/Node.cpp src/dd/Edge.cpp src/dd/CachedEdge.cpp src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/RealNumber.cpp src/dd/statistics/TableStatistics.cpp src/dd/statistics/UniqueTableStatistics.cpp src/dd/statistics/Statistics.cpp
// @opts * {"timeout": 300, "steps": 30000000}
// Contracts of the unique table: one operation from an arbitrary table.
#include "vp.h"
#include "dd/Edge.hpp"
#include "dd/MemoryManager.hpp"
#include "dd/Node.hpp"
#include "dd/RealNumber.hpp"
#include "dd/UniqueTable.hpp"

#include <array>
#include <limits>
using namespace dd;
namespace {
using U64 = std::uint64_t;
template <class T> U64 id(const T* p) { return reinterpret_cast<U64>(p); }
// ------------------------------------------------------------ contract of the memory manager (P13)
NodeBase* returned[12];
std::size_t nreturned;
NodeBase* poison() { return reinterpret_cast<NodeBase*>(vp_u64("next of a returned entry")); }
void returnStub(MemoryManager*, LLBase* e) {
  returned[nreturned++] = static_cast<NodeBase*>(e);
  e->next_ = poison();
}
// ------------------------------------------------------------ numbers: stored numbers are canonical (P09)
bool sameNumber(const Complex* a, const Complex* b) { return (id(a->r) == id(b->r)) & (id(a->i) == id(b->i)); }
// ------------------------------------------------------------ an arbitrary table
constexpr std::size_t LEVELS = 2, BUCKETS = 2;
template <class N> constexpr std::size_t W = std::tuple_size_v<decltype(N::e)>;
template <class N> void arbitraryNode(N* p, Qubit v) {
  p->v = v;
  p->ref = vp_u32("ref");
  if constexpr (!std::is_same_v<N, vNode>) p->flags = vp_u16("flags");
  for (auto& e : p->e) e = {reinterpret_cast<N*>(vp_u64("child")), Complex{reinterpret_cast<RealNumber*>(vp_u64("re")), reinterpret_cast<RealNumber*>(vp_u64("im"))}};
}
template <class N> bool same(const N& a, const N& b) {
  bool r = true;
  for (std::size_t i = 0; i < W<N>; i++)
    r = r & (id(a.e[i].p) == id(b.e[i].p)) & (id(a.e[i].w.r) == id(b.e[i].w.r)) & (id(a.e[i].w.i) == id(b.e[i].w.i));
  if constexpr (std::is_same_v<N, dNode>) r = r & ((a.flags & 8U) == (b.flags & 8U)); // the other flags are temporary
  return r;
}
template <class N> struct State {
  UniqueTable* t;
  N* n[LEVELS][BUCKETS][2];
  N copy[LEVELS][BUCKETS][2];
  std::size_t len[LEVELS][BUCKETS];
  U64 entries[LEVELS], active[LEVELS], peak[LEVELS], limit;
};
template <class N> State<N> arbitrary(bool full) {
  vp_bounded("two levels, two buckets, at most two nodes per bucket");
  vp_replace_opt("^dd::MemoryManager::returnEntry\\(", vp_fn(returnStub));
  vp_replace_opt("^dd::Complex::approximatelyEquals\\(", vp_fn(sameNumber));
  nreturned = 0;
  State<N> s{};
  auto& mm = *static_cast<MemoryManager*>(vp_alloc_sym(sizeof(MemoryManager), "manager"));
  s.limit = vp_u64("initial limit");
  s.t = new UniqueTable(mm, {0, BUCKETS, s.limit});
  s.t->resize(LEVELS);
  for (std::size_t v = 0; v < LEVELS; v++) {
    for (std::size_t b = 0; b < BUCKETS; b++) {
      auto& L = s.len[v][b];
      L = v == 1 && b == 0 ? vp_choose("nodes in the bucket", 3) : full && v == 0 && b == 1 ? vp_choose("nodes in the bucket", 3) : b;
      for (std::size_t k = 0; k < L; k++) {
        s.n[v][b][k] = new N{};
        arbitraryNode(s.n[v][b][k], static_cast<Qubit>(v));
      }
      for (std::size_t k = 0; k < L; k++) {
        s.n[v][b][k]->next_ = k + 1 < L ? s.n[v][b][k + 1] : nullptr;
        s.copy[v][b][k] = *s.n[v][b][k];
      }
      s.t->tables[v][b] = L > 0 ? s.n[v][b][0] : nullptr;
    }
    auto& st = s.t->stats[v];
    st.numEntries = s.entries[v] = s.len[v][0] + s.len[v][1];
    st.numActiveEntries = s.active[v] = vp_u64("active");
    st.peakNumActiveEntries = s.peak[v] = vp_u64("peak");
  }
  return s;
}
// a bucket holds exactly its former nodes, unchanged, and possibly one more (in any order)
template <class N> void bucketUnchanged(const State<N>& s, std::size_t v, std::size_t b, NodeBase* head, N* extra = nullptr) {
  std::size_t seen[2] = {}, more = 0;
  auto* p = head;
  for (std::size_t i = 0; i < s.len[v][b] + (extra != nullptr ? 1 : 0); i++) {
    vp_assert(p != nullptr, "no stored node is lost");
    for (std::size_t k = 0; k < s.len[v][b]; k++)
      if (p == s.n[v][b][k]) seen[k]++;
    if (p == extra) more++;
    p = p->next();
  }
  vp_assert(p == nullptr, "a bucket has no further nodes");
  for (std::size_t k = 0; k < s.len[v][b]; k++) {
    vp_assert(seen[k] == 1, "stored nodes stay stored");
    vp_assert(same(*s.n[v][b][k], s.copy[v][b][k]) & (s.n[v][b][k]->v == v) & (s.n[v][b][k]->ref == s.copy[v][b][k].ref), "stored nodes are not changed");
  }
  vp_assert(more == (extra != nullptr ? 1U : 0U), "a new node is stored once");
}
// ------------------------------------------------------------ lookup
template <class N> std::size_t key;
template <class N> std::size_t hashStub(const UniqueTable*, const N&) { return key<N>; }
template <class N> void lookup() {
  vp_replace("^unsigned long dd::UniqueTable::hash<", vp_fn(hashStub<N>));
  auto s = arbitrary<N>(false);
  // the nodes of a bucket are pairwise different (kept by this operation, see below)
  if (s.len[1][0] == 2) vp_assume(!same(s.copy[1][0][0], s.copy[1][0][1]));
  key<N> = 0;
  N* p;
  if (vp_choose("look up a stored node", 2) == 1) {
    if (s.len[1][0] == 0) return;
    p = s.n[1][0][s.len[1][0] - 1];
    auto* r = s.t->lookup(p);
    vp_assert(r == p, "a stored node is its own representative");
    vp_assert(nreturned == 0, "a stored node is not given back");
    bucketUnchanged(s, 1, 0, s.t->tables[1][0]);
    vp_cover("stored");
    return;
  }
  p = new N{};
  arbitraryNode(p, 1);
  const N c = *p;
  auto* r = s.t->lookup(p);
  N* found = nullptr;
  for (std::size_t k = 0; k < s.len[1][0]; k++)
    if (vp_decide(same(c, s.copy[1][0][k]))) found = s.n[1][0][k];
  for (std::size_t v = 0; v < LEVELS; v++)
    for (std::size_t b = 0; b < BUCKETS; b++)
      if (v != 1 || b != 0) bucketUnchanged(s, v, b, s.t->tables[v][b]);
  if (found != nullptr) {
    vp_assert(r == found, "an equal node that is already stored is returned");
    vp_assert((nreturned == 1) && (returned[0] == p), "the superfluous node is given back, once");
    bucketUnchanged(s, 1, 0, s.t->tables[1][0]);
    vp_assert(s.t->stats[1].numEntries == s.entries[1], "the number of stored nodes");
    vp_cover("found");
  } else {
    vp_assert(r == p, "a new node represents itself");
    vp_assert(nreturned == 0, "a new node is kept");
    vp_assert(same(*p, c) & (p->ref == c.ref) & (p->v == 1), "a new node is not changed");
    bucketUnchanged(s, 1, 0, s.t->tables[1][0], p);
    vp_assert(s.t->stats[1].numEntries == s.entries[1] + 1, "the number of stored nodes");
    vp_cover("new");
  }
}
} // namespace
VP_HARNESS H_lookup_v() { lookup<vNode>(); }
VP_HARNESS H_lookup_m() { lookup<mNode>(); }
VP_HARNESS H_lookup_d() { lookup<dNode>(); }
VP_HARNESS H_lookup_terminal() {
  auto s = arbitrary<vNode>(false);
  vp_assert(s.t->lookup(vNode::getTerminal()) == vNode::getTerminal(), "the terminal represents itself");
  vp_assert(nreturned == 0, "the terminal is not given back");
  vp_cover("terminal");
}
// ------------------------------------------------------------ the real hash
namespace {
template <class N> void hashes() {
  auto s = arbitrary<N>(false);
  N a{}, b{};
  arbitraryNode(&a, 0);
  arbitraryNode(&b, 0);
  if constexpr (std::is_same_v<N, dNode>) b.flags = static_cast<std::uint16_t>((a.flags & 8U) | (b.flags & 7U)); // other temporary flags
  for (std::size_t i = 0; i < W<N>; i++) b.e[i] = a.e[i];
  s.t->cfg.nBuckets = 1ULL << 5 * vp_choose("log2 of the number of buckets / 5", 4);
  const auto h = s.t->hash(a);
  vp_assert(h < s.t->cfg.nBuckets, "bucket numbers are in range");
  vp_assert(h == s.t->hash(b), "nodes with equal successors are in the same bucket");
  vp_cover("hash");
}
} // namespace
VP_HARNESS H_hash_v() { hashes<vNode>(); }
VP_HARNESS H_hash_m() { hashes<mNode>(); }
VP_HARNESS H_hash_d() { hashes<dNode>(); }
// ------------------------------------------------------------ reference counts
VP_HARNESS H_ref() {
  auto s = arbitrary<vNode>(false);
  auto* p = s.n[0][1][0];
  const auto before = s.copy[0][1][0].ref;
  const auto max = std::numeric_limits<RefCount>::max();
  vp_assert(!s.t->incRef(nullptr), "the terminal is not counted");
  vp_assert(!s.t->decRef(nullptr), "the terminal is not counted");
  if (vp_choose("operation", 2) == 0) {
    const bool r = s.t->incRef(p);
    vp_assert(r == (before != max), "a saturated count stays");
    vp_assert(p->ref == (before == max ? max : before + 1), "the count is increased by one");
    vp_assert(s.t->stats[0].numActiveEntries == s.active[0] + (before == 0 ? 1 : 0), "the number of active nodes");
  } else {
    vp_assume(before != 0);
    const bool r = s.t->decRef(p);
    vp_assert(r == (before != max), "a saturated count stays");
    vp_assert(p->ref == (before == max ? max : before - 1), "the count is decreased by one");
    vp_assert(s.t->stats[0].numActiveEntries == s.active[0] - (before == 1 ? 1 : 0), "the number of active nodes");
  }
  vp_assert(s.t->stats[1].numActiveEntries == s.active[1], "other levels are not affected");
  vp_assert(same(*p, s.copy[0][1][0]), "the node itself is not changed");
  bucketUnchanged(s, 1, 0, s.t->tables[1][0]);
  vp_cover("ref");
}
// ------------------------------------------------------------ garbage collection
namespace {
template <class N> void collect() {
  auto s = arbitrary<N>(true);
  const bool force = vp_bool("force");
  s.t->gcLimit = vp_u64("current limit");
  const auto limit = s.t->gcLimit;
  vp_assume(s.limit < (1ULL << 40));
  const auto total = s.entries[0] + s.entries[1];
  const auto r = s.t->garbageCollect(force);
  const bool due = force | (total >= limit);
  U64 gone = 0, back = 0;
  for (std::size_t v = 0; v < LEVELS; v++) {
    U64 left = 0;
    for (std::size_t b = 0; b < BUCKETS; b++) {
      bool kept[2] = {};
      std::size_t keeps = 0, holds = 0;
      for (std::size_t k = 0; k < s.len[v][b]; k++) {
        kept[k] = !vp_decide(due & (s.copy[v][b][k].ref == 0));
        keeps += kept[k] ? 1 : 0;
      }
      auto* p = s.t->tables[v][b];
      std::size_t seen[2] = {};
      for (std::size_t i = 0; i < keeps; i++) {
        vp_assert(p != nullptr, "no node in use is lost");
        for (std::size_t k = 0; k < s.len[v][b]; k++)
          if (p == s.n[v][b][k]) seen[k]++;
        p = p->next();
      }
      vp_assert(p == nullptr, "nothing else is stored");
      for (std::size_t k = 0; k < s.len[v][b]; k++) {
        const auto& c = s.copy[v][b][k];
        vp_assert(seen[k] == (kept[k] ? 1U : 0U), "exactly the nodes in use stay stored");
        if (kept[k]) {
          vp_assert(same(*s.n[v][b][k], c) & (s.n[v][b][k]->ref == c.ref) & (s.n[v][b][k]->v == v), "a node in use is not changed");
          left++;
        } else {
          for (std::size_t i = 0; i < nreturned; i++) holds += returned[i] == s.n[v][b][k] ? 1 : 0;
          gone++;
        }
      }
      vp_assert(holds == s.len[v][b] - keeps, "a node nothing refers to is given back, once");
    }
    vp_assert(s.t->stats[v].numEntries == left, "the number of stored nodes");
    back += left;
  }
  vp_assert(nreturned == gone, "only nodes nothing refers to are given back");
  vp_assert(r == gone, "the number of collected nodes is reported");
  vp_assert(back + gone == total, "every node is kept or given back");
  vp_cover("collect");
  if (gone > 0) vp_cover("collected");
}
} // namespace
VP_HARNESS H_collect_v() { collect<vNode>(); }
// ------------------------------------------------------------ size and clearing
VP_HARNESS H_size() {
  vp_bounded("up to three levels, four buckets");
  auto& mm = *static_cast<MemoryManager*>(vp_alloc_sym(sizeof(MemoryManager), "manager"));
  const std::size_t n = vp_choose("levels", 4), m = vp_choose("levels", 4);
  const std::size_t b = 1ULL << vp_choose("log2 buckets", 3);
  UniqueTable t(mm, {n, b, vp_u64("limit")});
  auto ok = [&](std::size_t k) {
    vp_assert(t.tables.size() == k && t.stats.size() == k, "one table per level");
    for (std::size_t v = 0; v < k; v++) {
      vp_assert(t.tables[v].size() == b, "every level has its buckets");
      for (auto* p : t.tables[v]) vp_assert(p == nullptr, "a fresh table is empty");
    }
  };
  ok(n);
  t.resize(m);
  ok(m);
  vp_cover("size");
}
VP_HARNESS H_grow_and_clear() {
  auto s = arbitrary<vNode>(false);
  s.t->resize(LEVELS + 1);
  for (std::size_t v = 0; v < LEVELS; v++) {
    for (std::size_t b = 0; b < BUCKETS; b++) bucketUnchanged(s, v, b, s.t->tables[v][b]);
    vp_assert(s.t->stats[v].numEntries == s.entries[v], "the number of stored nodes");
  }
  for (auto* p : s.t->tables[LEVELS]) vp_assert(p == nullptr, "a new level is empty");
  vp_assert(s.t->getNumEntries() == s.entries[0] + s.entries[1], "the number of stored nodes");
  s.t->clear();
  for (const auto& t : s.t->tables)
    for (auto* p : t) vp_assert(p == nullptr, "a cleared table is empty");
  vp_assert(s.t->getNumEntries() == 0, "a cleared table has no nodes");
  vp_assert(s.t->getNumActiveEntries() == 0, "a cleared table has no active nodes");
  vp_cover("clear");
}
