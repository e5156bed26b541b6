// Native companion of contracts/P13.cpp: histories of get / return / reset
#include "dd/MemoryManager.hpp"
#include "dd/Node.hpp"
#include "dd/Package.hpp"
#include "dd/RealNumber.hpp"
#include "vpn.hpp"
#include <cstring>
#include <map>
namespace {
template <class T> void history(vpn::Rng& r) {
  const std::size_t init = 1 + r.below(5);
  auto mm = dd::MemoryManager::create<T>(init);
  std::map<T*, std::uint32_t> used;
  std::vector<T*> free;
  std::uint32_t tag = 1;
  for (int k = 0; k < 200; k++) {
    const auto c = r.below(20);
    if (c == 0 && r.coin(0.3)) {
      mm.reset(r.coin());
      used.clear();
      free.clear();
      continue;
    }
    if (c < 12 || used.empty()) {
      auto* e = mm.template get<T>();
      vpn::require(used.count(e) == 0, "an entry in use was handed out");
      auto it = used.upper_bound(e);
      vpn::require(it == used.end() || e + 1 <= it->first, "entries overlap");
      vpn::require(it == used.begin() || std::prev(it)->first + 1 <= e, "entries overlap");
      const auto f = std::find(free.begin(), free.end(), e);
      vpn::require(e->ref == 0, "an entry is handed out with a reference count");
      if (f != free.end()) free.erase(f);
      else vpn::require(free.empty(), "returned entries are reused first");
      std::memset(static_cast<void*>(e), static_cast<int>(tag & 0x7f), sizeof(T));
      e->ref = tag;
      used[e] = tag++;
      vpn::nontrivial++;
    } else {
      auto it = std::next(used.begin(), static_cast<std::ptrdiff_t>(r.below(used.size())));
      it->first->ref = 0;
      mm.returnEntry(*it->first);
      free.push_back(it->first);
      used.erase(it);
    }
    vpn::require(mm.getStats().numUsed == used.size(), "number of entries in use");
    vpn::require(mm.getStats().numAvailableForReuse == free.size(), "number of entries for reuse");
    for (const auto& [e, t] : used) vpn::require(e->ref == t, "data of an entry in use changed");
  }
}
// a package stays usable after a reset
void package(vpn::Rng& r) {
  dd::Package p(3);
  for (int round = 0; round < 3; round++) {
    std::vector<dd::vEdge> keep;
    std::vector<std::size_t> val;
    for (int k = 0; k < 6; k++) {
      const auto n = 1 + r.below(3);
      const auto b = r.below(1ULL << n);
      std::vector<bool> s(n);
      for (std::size_t q = 0; q < n; q++) s[q] = ((b >> q) & 1) != 0;
      auto e = p.makeBasisState(n, s);
      if (r.coin(0.4)) p.decRef(e);
      else { keep.push_back(e); val.push_back(b); }
      if (r.coin(0.3)) p.garbageCollect(true);
    }
    for (std::size_t k = 0; k < keep.size(); k++) {
      const auto v = keep[k].getVector();
      for (std::size_t i = 0; i < v.size(); i++) vpn::close(v[i], {i == val[k] ? 1. : 0., 0}, "a state in use changed", 1e-9);
    }
    p.reset();
  }
}
void cse(vpn::Rng& r) {
  history<dd::vNode>(r);
  history<dd::RealNumber>(r);
  package(r);
}
} // namespace
int main(int c, char** v) { return vpn::run(c, v, cse); }
