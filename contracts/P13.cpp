// @sources src/dd/MemoryManager.cpp src/dd/statistics/MemoryManagerStatistics.cpp src/dd/statistics/Statistics.cpp
// @opts * {"timeout": 300, "steps": 30000000}
// Contract of the memory manager: one step from an arbitrary state.
#include "vp.h"
#include "dd/LinkedListBase.hpp"
#include "dd/MemoryManager.hpp"
#include "dd/Node.hpp"
#include "dd/RealNumber.hpp"

#include <cstddef>
using namespace dd;
namespace {
template <class T> struct State {
  MemoryManager* mm;
  std::size_t chunks, size, used, avail;
  T* a[2];
  T* base[2];
  std::size_t numUsed, numAvail, numAllocated, numAllocations, peak, peakAvail;
};
// an arbitrary state: up to two chunks, any fill level of the last one, up to two entries to be reused
template <class T> State<T> arbitrary() {
  vp_bounded("two chunks of up to three entries, two returned entries");
  State<T> s{};
  s.size = 1 + vp_choose("size", 3);
  s.chunks = 1 + vp_choose("chunks", 2);
  s.mm = new MemoryManager(sizeof(T), s.size);
  if (s.chunks == 2) s.mm->chunks.emplace_back(s.size * sizeof(T));
  for (std::size_t c = 0; c < s.chunks; c++) s.base[c] = reinterpret_cast<T*>(s.mm->chunks[c].data());
  s.used = vp_choose("used", static_cast<std::uint32_t>(s.size + 1));
  s.mm->chunkIt = s.mm->chunks.back().begin() + static_cast<std::ptrdiff_t>(s.used * sizeof(T));
  s.mm->chunkEndIt = s.mm->chunks.back().end();
  s.avail = vp_choose("avail", 3);
  for (std::size_t k = 0; k < s.avail; k++) s.a[k] = static_cast<T*>(vp_alloc_sym(sizeof(T), "returned"));
  for (std::size_t k = 0; k < s.avail; k++) s.a[k]->setNext(k + 1 < s.avail ? s.a[k + 1] : nullptr);
  s.mm->available = s.avail > 0 ? s.a[0] : nullptr;
  auto& st = s.mm->stats;
  st.numUsed = s.numUsed = vp_u64("used");
  st.numAvailableForReuse = s.numAvail = vp_u64("available");
  st.numAllocated = s.numAllocated = s.chunks * s.size;
  st.numAllocations = s.numAllocations = vp_u64("allocations");
  st.peakNumUsed = s.peak = vp_u64("peak");
  st.peakNumAvailableForReuse = s.peakAvail = vp_u64("peak");
  // data of the entries in use
  for (std::size_t c = 0; c < s.chunks; c++)
    for (std::size_t k = 0; k < (c + 1 == s.chunks ? s.used : s.size); k++) s.base[c][k].ref = static_cast<RefCount>(7 + 10 * c + k);
  return s;
}
template <class T> void untouched(const State<T>& s) {
  for (std::size_t c = 0; c < s.chunks; c++)
    for (std::size_t k = 0; k < (c + 1 == s.chunks ? s.used : s.size); k++)
      vp_assert(s.base[c][k].ref == 7 + 10 * c + k, "entries in use keep their place and their data");
}
template <class T> void get() {
  auto s = arbitrary<T>();
  auto* r = s.mm->template get<T>();
  untouched(s);
  if (s.avail > 0) {
    vp_assert(r == s.a[0], "returned entries are reused first");
    vp_assert(s.mm->available == (s.avail > 1 ? s.a[1] : nullptr), "a reused entry is no longer available");
    vp_assert(s.mm->stats.numAvailableForReuse == s.numAvail - 1, "the number of available entries");
    vp_cover("reuse");
  } else {
    vp_assert(s.mm->available == nullptr, "nothing else becomes available");
    if (s.used < s.size) {
      vp_assert(r == s.base[s.chunks - 1] + s.used, "the next unused entry is handed out");
      vp_assert(s.mm->chunks.size() == s.chunks, "no memory is allocated while there is some left");
    } else {
      vp_assert(s.mm->chunks.size() == s.chunks + 1, "a new chunk is allocated");
      vp_assert(s.mm->chunks.back().size() == 2 * s.size * sizeof(T), "chunks grow by the growth factor");
      vp_assert(reinterpret_cast<std::byte*>(r) == s.mm->chunks.back().data(), "the first entry of the new chunk is handed out");
      vp_assert(s.mm->stats.numAllocated == s.numAllocated + 2 * s.size, "the number of allocated entries");
      vp_assert(s.mm->stats.numAllocations == s.numAllocations + 1, "the number of allocations");
      vp_cover("grow");
    }
    vp_assert((r->ref == 0) & (r->next() == nullptr), "fresh entries are clean");
    vp_assert(&*s.mm->chunkIt == reinterpret_cast<std::byte*>(r + 1) || (s.mm->chunkIt == s.mm->chunkEndIt && s.mm->chunks.back().data() + s.mm->chunks.back().size() == reinterpret_cast<std::byte*>(r + 1)),
              "the entry is not handed out again");
    vp_assert(s.mm->chunkEndIt == s.mm->chunks.back().end(), "the end of the chunk is known");
  }
  vp_assert(s.mm->stats.numUsed == s.numUsed + 1, "the number of entries in use");
  vp_assert(s.mm->stats.peakNumUsed >= s.mm->stats.numUsed && s.mm->stats.peakNumUsed >= s.peak, "the peak number of entries in use");
  // the whole entry is usable
  r->ref = 3;
  *reinterpret_cast<std::uint64_t*>(reinterpret_cast<std::byte*>(r + 1) - 8) = 1;
  untouched(s);
  vp_cover("get");
}
template <class T> void ret() {
  auto s = arbitrary<T>();
  if (s.used == 0) return;
  const auto k = vp_choose("entry", static_cast<std::uint32_t>(s.used));
  auto* e = s.base[s.chunks - 1] + k;
  s.mm->returnEntry(*e);
  untouched(s);
  auto* it = s.mm->available;
  vp_assert(it == e, "a returned entry becomes available");
  it = it->next();
  for (std::size_t j = 0; j < s.avail; j++, it = it->next()) vp_assert(it == s.a[j], "other entries stay available");
  vp_assert(it == nullptr, "nothing else becomes available");
  vp_assert((s.mm->stats.numUsed == s.numUsed - 1) & (s.mm->stats.numAvailableForReuse == s.numAvail + 1), "the counts follow");
  vp_assert(s.mm->stats.peakNumAvailableForReuse >= s.numAvail + 1, "the peak number of available entries");
  vp_cover("return");
}
template <class T> void reset() {
  auto s = arbitrary<T>();
  const bool total = vp_choose("total", 2) == 1;
  s.mm->reset(total);
  const std::size_t n = total ? s.chunks * s.size : s.size;
  vp_assert(s.mm->available == nullptr, "nothing is available for reuse after a reset");
  vp_assert((s.mm->chunks.size() == 1) && (s.mm->chunks[0].size() == n * sizeof(T)), "one chunk is kept, of the requested size");
  vp_assert((s.mm->stats.numUsed == 0) & (s.mm->stats.numAvailableForReuse == 0) & (s.mm->stats.numAllocated == n), "the counts follow");
  T* prev = nullptr;
  for (std::size_t k = 0; k < n; k++) {
    auto* r = s.mm->template get<T>();
    vp_assert(reinterpret_cast<std::byte*>(r) == s.mm->chunks[0].data() + k * sizeof(T), "all entries can be used again");
    vp_assert((r->ref == 0) & (r->next() == nullptr), "entries are clean after a reset");
    vp_assert(prev == nullptr || prev + 1 == r, "entries are handed out once");
    prev = r;
  }
  vp_assert(s.mm->chunks.size() == 1, "no new memory is needed for them");
  vp_cover("reset");
}
template <class T> void create() {
  const auto n = 1 + vp_choose("n", 4);
  auto mm = MemoryManager::create<T>(n);
  vp_assert((mm.chunks.size() == 1) && (mm.chunks[0].size() == n * sizeof(T)), "the requested number of entries is allocated");
  vp_assert((mm.available == nullptr) && (mm.chunkIt == mm.chunks[0].begin()) && (mm.chunkEndIt == mm.chunks[0].end()), "all of them are unused");
  vp_assert((mm.entrySize_ == sizeof(T)) & (mm.stats.numAllocated == n) & (mm.stats.numAllocations == 1) & (mm.stats.numUsed == 0), "the counts are initialised");
  vp_cover("create");
}
} // namespace
VP_HARNESS H_get_v() { get<vNode>(); }
VP_HARNESS H_get_m() { get<mNode>(); }
VP_HARNESS H_get_r() { get<RealNumber>(); }
VP_HARNESS H_return_v() { ret<vNode>(); }
VP_HARNESS H_return_r() { ret<RealNumber>(); }
VP_HARNESS H_reset_m() { reset<mNode>(); }
VP_HARNESS H_reset_r() { reset<RealNumber>(); }
VP_HARNESS H_create() {
  create<vNode>();
  create<RealNumber>();
}
