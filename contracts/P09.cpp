// @sources src/dd/RealNumberUniqueTable.cpp src/dd/RealNumber.cpp src/dd/statistics/UniqueTableStatistics.cpp src/dd/statistics/TableStatistics.cpp src/dd/statistics/Statistics.cpp src/dd/MemoryManager.cpp
// @opts * {"ideal": false, "timeout": 600, "steps": 30000000}
// Contract of the real-number table.
#include "vp.h"
#include "dd/MemoryManager.hpp"
#include "dd/RealNumber.hpp"
#include "dd/RealNumberUniqueTable.hpp"
#include "ir/Definitions.hpp"

#include <cmath>
#include <cstring>
#include <limits>
using namespace dd;
namespace {
constexpr std::int64_t LAST = RealNumberUniqueTable::NBUCKET - 1;
using Tab = RealNumberUniqueTable;
double eps;

// ---- contract of hash (verified against the real code in H_hash): monotone, in range,
// and two values at distance <= 2 eps are in the same or in adjacent buckets
int nv;
double vs[32];
std::int64_t ks[32];
std::int64_t key(double v) {
  for (int i = 0; i < nv; i++) {
    if (vp_known(vs[i] == v)) return ks[i];
  }
  const std::int64_t k = vp_i64("key");
  bool c = (k >= 0) & (k <= LAST);
  for (int i = 0; i < nv; i++) {
    c &= !(v <= vs[i]) | (k <= ks[i]);
    c &= !(vs[i] <= v) | (ks[i] <= k);
    c &= !(v - vs[i] <= 2 * eps) | (k <= ks[i] + 1);
    c &= !(vs[i] - v <= 2 * eps) | (ks[i] <= k + 1);
  }
  vp_assume_nc(c);
  vs[nv] = v;
  ks[nv++] = k;
  return k;
}
std::int64_t hashStub(double v) { return key(v); }

// ---- contract of the allocator: a fresh entry with reference count zero (value arbitrary)
int allocs;
RealNumber* lastAlloc;
RealNumber* getStub(MemoryManager*) {
  allocs++;
  auto* p = static_cast<RealNumber*>(vp_alloc_sym(sizeof(RealNumber), "fresh"));
  p->ref = 0;
  lastAlloc = p;
  return p;
}
int returned;
RealNumber* ret[8];
void returnStub(MemoryManager*, LLBase& e) {
  ret[returned++] = static_cast<RealNumber*>(&e);
}
Tab* mk(const char* n) {
  auto* t = static_cast<Tab*>(vp_alloc_sym(sizeof(Tab), n));
  // dynamic type (for virtual calls on the statistics) through its real constructor
  new (&t->stats) UniqueTableStatistics();
  t->stats.numEntries = vp_u64("numEntries");
  t->stats.peakNumEntries = vp_u64("peak");
  t->stats.lookups = vp_u64("lookups");
  t->stats.hits = vp_u64("hits");
  t->stats.collisions = vp_u64("collisions");
  t->stats.inserts = vp_u64("inserts");
  t->memoryManager = static_cast<MemoryManager*>(vp_alloc_sym(64, "mm"));
  return t;
}
void setup() {
  eps = vp_double("eps");
  vp_assume(eps > 0 && eps < 1e-6);
  RealNumber::eps = eps;
  nv = 0;
  allocs = 0;
  returned = 0;
  vp_replace("^dd::RealNumberUniqueTable::hash\\(", vp_fn(hashStub));
  vp_replace("^dd::RealNumber\\* dd::MemoryManager::get<dd::RealNumber>\\(\\)$", vp_fn(getStub));
  vp_replace("^dd::MemoryManager::returnEntry\\(", vp_fn(returnStub));
}
struct List {
  int n = 0;
  RealNumber* e[4] = {};
  double v[4] = {};
};
// a bucket of the invariant: strictly ascending with gaps > eps, every value hashes to this bucket,
// the tail pointer is the last entry
List bucket(Tab* t, std::int64_t k, int n, const char* nm) {
  List l;
  l.n = n;
  for (int i = 0; i < n; i++) {
    l.v[i] = vp_double(nm);
    vp_assume(l.v[i] > eps);
    vp_assume(key(l.v[i]) == k);
    if (i > 0) vp_assume(l.v[i] > l.v[i - 1] + eps);
    auto* p = new RealNumber();
    p->value = l.v[i];
    p->ref = vp_u32("ref");
    p->setNext(nullptr);
    l.e[i] = p;
    if (i > 0) l.e[i - 1]->setNext(p);
  }
  t->table[k] = n > 0 ? l.e[0] : nullptr;
  t->tailTable[k] = n > 0 ? l.e[n - 1] : nullptr;
  return l;
}
// invariant of a bucket after the call; returns the number of entries
int check(Tab* t, std::int64_t k, const List& before, RealNumber* r) {
  int n = 0;
  RealNumber* prev = nullptr;
  int old = 0;
  for (auto* p = t->table[k]; p != nullptr; p = p->next()) {
    vp_assert(key(p->value) == k, "every entry is in the bucket its value hashes to");
    if (prev != nullptr) vp_assert(p->value > prev->value + eps, "buckets stay sorted with entries further apart than the tolerance");
    if (old < before.n && p == before.e[old]) {
      vp_assert_eq(p->value, before.v[old], "stored values never change");
      old++;
    } else {
      vp_assert(allocs == 1 && p == lastAlloc, "only a newly allocated entry may appear");
    }
    prev = p;
    n++;
    if (n > 5) vp_assert(false, "buckets stay acyclic");
  }
  vp_assert(old == before.n, "no entry is dropped by a lookup");
  vp_assert(t->tailTable[k] == prev, "the tail pointer is the last entry");
  return n;
}
bool near(double a, double b) { return (a - b <= eps) & (b - a <= eps); }
} // namespace

// the real hash function satisfies the contract used above
VP_HARNESS H_hash() {
  eps = vp_double("eps");
  vp_assume(eps > 0 && eps < 1e-6);
  const double a = vp_double("a"), b = vp_double("b");
  vp_assume(a >= 0 && b >= 0 && a < 1e12 && b < 1e12);
  const auto ka = Tab::hash(a), kb = Tab::hash(b);
  vp_assert(ka >= 0 && ka <= LAST, "the bucket index is in range");
  vp_assume(a <= b);
  vp_assert(ka <= kb, "the bucket index is monotone in the value");
  vp_cover("hash");
}

namespace {
void lookupCase(int nl, int nu, bool sameBucket) {
  setup();
  auto* t = mk("table");
  const double v = vp_double("val");
  vp_assume(v > eps);
  const auto lo = key(v - eps), hi = key(v + eps), kv = key(v);
  (void)kv;
  if (sameBucket) {
    vp_assume(lo == hi);
  } else {
    vp_assume(lo != hi);
  }
  const auto L = bucket(t, lo, nl, "l");
  List U;
  if (!sameBucket) {
    U = bucket(t, hi, nu, "u");
    if (nl > 0 && nu > 0) vp_assume(U.v[0] > L.v[nl - 1] + eps);
  }
  const auto n0 = t->stats.numEntries;
  auto* r = t->lookupNonNegative(v);
  vp_assert(near(RealNumber::val(r), v), "the returned number is within the tolerance of the value looked up");
  if (r == &constants::one || r == &constants::sqrt2over2) {
    vp_assert(allocs == 0, "constants are not stored");
    return;
  }
  bool had = false;
  for (int i = 0; i < L.n; i++) had = had | near(L.v[i], v);
  for (int i = 0; i < U.n; i++) had = had | near(U.v[i], v);
  if (vp_decide(had)) vp_assert(allocs == 0, "no new entry is made when a stored one is within the tolerance");
  int n = check(t, lo, L, r);
  if (!sameBucket) {
    n += check(t, hi, U, r);
    if (t->tailTable[lo] != nullptr && t->table[hi] != nullptr)
      vp_assert(t->table[hi]->value > t->tailTable[lo]->value + eps, "adjacent buckets stay ordered and apart");
  }
  bool mine = allocs == 1 && r == lastAlloc;
  for (int i = 0; i < L.n; i++) mine = mine | (r == L.e[i]);
  for (int i = 0; i < U.n; i++) mine = mine | (r == U.e[i]);
  vp_assert(mine, "the returned number is a stored entry");
  vp_assert(n == L.n + U.n + allocs, "a new entry is stored exactly once");
  vp_assert(t->stats.numEntries == n0 + static_cast<std::size_t>(allocs), "the entry count follows insertions");
  if (allocs == 1) vp_assert_eq(r->value, v, "a new entry has the value looked up");
  const int a0 = allocs;
  auto* again = t->lookupNonNegative(v);
  vp_assert(again == r && allocs == a0, "looking the same value up again returns the same entry");
}
} // namespace
VP_HARNESS H_same_0() { vp_bounded("buckets of length 0..3 (lookup walks one or two buckets)"); lookupCase(0, 0, true); }
VP_HARNESS H_same_1() { lookupCase(1, 0, true); }
VP_HARNESS H_same_2() { lookupCase(2, 0, true); }
VP_HARNESS H_same_3() { lookupCase(3, 0, true); }
VP_HARNESS H_border_00() { lookupCase(0, 0, false); }
VP_HARNESS H_border_10() { lookupCase(1, 0, false); }
VP_HARNESS H_border_01() { lookupCase(0, 1, false); }
VP_HARNESS H_border_11() { lookupCase(1, 1, false); vp_cover("border"); }
VP_HARNESS H_border_21() { lookupCase(2, 1, false); }
VP_HARNESS H_border_12() { lookupCase(1, 2, false); }

namespace {
double askedFor;
RealNumber* answer;
int asked;
RealNumber* nnStub(Tab*, double v) {
  askedFor = v;
  asked++;
  switch (vp_choose("answer", 3)) {
  case 0:
    answer = &constants::one;
    vp_assume(near(1, v));
    break;
  case 1:
    answer = &constants::sqrt2over2;
    vp_assume(near(answer->value, v));
    break;
  default:
    answer = new RealNumber();
    answer->value = vp_double("stored");
    vp_assume(near(answer->value, v));
  }
  return answer;
}
} // namespace
VP_HARNESS H_signs() {
  setup();
  asked = 0;
  vp_replace("^dd::RealNumberUniqueTable::lookupNonNegative\\(", vp_fn(nnStub));
  auto* t = mk("table");
  const double v = vp_double("val");
  auto* r = t->lookup(v);
  vp_assert(near(RealNumber::val(r), v), "the number returned for a signed value is within the tolerance");
  if (asked == 0) {
    vp_assert(r == &constants::zero, "values within the tolerance of zero are the constant zero");
    vp_assert(near(v, 0), "only values within the tolerance of zero are the constant zero");
  } else {
    vp_assert(asked == 1, "one table lookup per value");
    vp_assert(askedFor > eps, "negative values are looked up by magnitude");
    vp_assert(RealNumber::getAlignedPointer(r) == answer, "a number and its negation share one entry");
    vp_assert(RealNumber::isNegativePointer(r) == (v < 0), "the sign is kept");
  }
  vp_cover("signs");
}

namespace {
void gcCase(std::size_t k, int n) {
  setup();
  auto* t = mk("table");
  std::memset(t->table.data(), 0, sizeof(t->table));
  std::memset(t->tailTable.data(), 0, sizeof(t->tailTable));
  t->gcLimit = vp_u64("limit");
  t->initialGCLimit = vp_u64("ilimit");
  vp_assume(t->gcLimit < 1ULL << 40 && t->initialGCLimit < 1ULL << 40);
  t->stats.numEntries = static_cast<std::size_t>(n);
  RealNumber* e[4];
  double v[4];
  bool live[4];
  RefCount refs[4];
  int keep = 0;
  for (int i = 0; i < n; i++) {
    e[i] = new RealNumber();
    v[i] = e[i]->value = vp_double("v");
    refs[i] = e[i]->ref = vp_u32("ref");
    e[i]->setNext(nullptr);
    if (i > 0) e[i - 1]->setNext(e[i]);
  }
  if (n > 0) {
    t->table[k] = e[0];
    t->tailTable[k] = e[n - 1];
  }
  const bool force = vp_bool("force");
  const bool need = force || t->stats.numEntries >= t->gcLimit;
  const auto got = t->garbageCollect(force);
  for (int i = 0; i < n; i++) {
    live[i] = vp_decide(refs[i] != 0);
    keep += live[i] ? 1 : 0;
  }
  if (vp_decide(!need) || n <= 1) {
    vp_assert(got == 0 && returned == 0, "nothing is collected below the limit unless forced");
    keep = n;
    for (int i = 0; i < n; i++) live[i] = true;
  }
  vp_assert(got == static_cast<std::size_t>(n - keep), "collection reports the number of collected entries");
  vp_assert(t->stats.numEntries == static_cast<std::size_t>(keep), "the entry count follows collection");
  auto* p = t->table[k];
  RealNumber* last = nullptr;
  int r = 0;
  for (int i = 0; i < n; i++) {
    if (live[i]) {
      vp_assert(p == e[i], "every referenced number survives collection, in order");
      vp_assert_eq(p->value, v[i], "collection leaves values alone");
      last = p;
      p = p->next();
    } else {
      vp_assert(r < returned && ret[r] == e[i], "exactly the unreferenced numbers are returned for reuse");
      r++;
    }
  }
  vp_assert(p == nullptr, "no collected number stays in the table");
  vp_assert(r == returned, "nothing is returned twice");
  vp_assert(t->tailTable[k] == last, "the tail pointer is the last entry after collection");
}
} // namespace
VP_HARNESS H_gc_first() { gcCase(0, 2); }
VP_HARNESS H_gc_mid() { gcCase(63711, 3); vp_cover("gc"); }
VP_HARNESS H_gc_last() { gcCase(65536, 3); }

VP_HARNESS H_counts() {
  setup();
  auto* t = mk("table");
  auto* p = new RealNumber{{nullptr}, vp_double("v"), vp_u32("ref")};
  auto* q = vp_choose("neg", 2) ? RealNumber::getNegativePointer(p) : p;
  const auto before = p->ref;
  const auto act = t->stats.numActiveEntries = vp_u64("active");
  if (vp_choose("dir", 2) == 0) {
    t->incRef(q);
    vp_assert(p->ref == (before == std::numeric_limits<RefCount>::max() ? before : before + 1), "incRef of a stored number");
    vp_assert(t->stats.numActiveEntries == (before == 0 ? act + 1 : act), "active numbers are counted when first referenced");
  } else {
    vp_assume(before != 0);
    t->decRef(q);
    vp_assert(p->ref == (before == std::numeric_limits<RefCount>::max() ? before : before - 1), "decRef of a stored number");
    vp_assert(t->stats.numActiveEntries == (before == 1 ? act - 1 : act), "active numbers are counted until last dereferenced");
  }
}
VP_HARNESS H_clear() {
  setup();
  auto* t = mk("table");
  t->initialGCLimit = vp_u64("ilimit");
  const auto k = vp_u64("k");
  vp_assume(k < Tab::NBUCKET);
  t->clear();
  vp_assert(t->table[k] == nullptr && t->tailTable[k] == nullptr, "clear empties every bucket");
  vp_assert(t->stats.numEntries == 0, "clear resets the entry count");
}
