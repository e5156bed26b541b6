// Native companion of contracts/P10.cpp: random histories of a unique table against a map
#include "dd/Package.hpp"
#include "vpn.hpp"
#include <map>
namespace {
using namespace dd;
using K = std::vector<std::uint64_t>;
RealNumber numbers[4];
template <class N> K key(const N& n) {
  K k{n.v};
  for (const auto& e : n.e) {
    k.push_back(reinterpret_cast<std::uint64_t>(e.p));
    k.push_back(reinterpret_cast<std::uint64_t>(e.w.r));
    k.push_back(reinterpret_cast<std::uint64_t>(e.w.i));
  }
  if constexpr (std::is_same_v<N, dNode>) k.push_back(n.flags & 8U);
  return k;
}
template <class N> void history(vpn::Rng& r, const char* what) {
  vpn::what = what;
  auto mm = MemoryManager::create<N>(1 + r.below(20));
  std::size_t levels = 1 + r.below(3);
  UniqueTable t(mm, {r.coin() ? levels : 0, 1ULL << r.below(4), 1 + r.below(60)});
  t.resize(levels);
  std::map<K, N*> stored;
  std::map<N*, std::uint32_t> refs;
  std::vector<N> children(3);
  auto active = [&](std::size_t v) {
    std::size_t n = 0;
    for (auto& [k, p] : stored) n += p->v == v && refs[p] > 0 ? 1 : 0;
    return n;
  };
  for (int i = 0; i < 300; i++) {
    const auto c = r.below(40);
    if (c < 24) {
      auto* p = mm.template get<N>();
      p->v = static_cast<Qubit>(r.below(levels));
      p->ref = 0;
      if constexpr (!std::is_same_v<N, vNode>) p->flags = r.coin() ? 8 : 0;
      for (auto& e : p->e) e = {r.coin(0.3) ? nullptr : &children[r.below(children.size())], Complex{&numbers[r.below(2)], &numbers[r.below(2)]}};
      if constexpr (std::is_same_v<N, dNode>) // temporary flags of stored nodes and of successors change
        if (r.coin(0.3)) {
          for (auto& ch : children) ch.flags = static_cast<std::uint16_t>(r.below(16));
          for (auto& [k, q] : stored) q->flags = static_cast<std::uint16_t>((q->flags & 8U) | r.below(8));
        }
      const auto k = key(*p);
      auto* l = t.lookup(p);
      const auto it = stored.find(k);
      if (it != stored.end()) {
        vpn::nontrivial++;
        vpn::require(l == it->second, "an equal node is stored, but another one was returned");
      } else {
        vpn::require(l == p, "a new node represents itself");
        stored[k] = l;
        refs[l] = 0;
      }
      vpn::require(key(*l) == k, "the node returned equals the one looked up");
    } else if (c < 30 && !stored.empty()) {
      auto it = std::next(stored.begin(), static_cast<std::ptrdiff_t>(r.below(stored.size())));
      vpn::require(t.incRef(it->second), "counted");
      refs[it->second]++;
    } else if (c < 36 && !stored.empty()) {
      auto it = std::next(stored.begin(), static_cast<std::ptrdiff_t>(r.below(stored.size())));
      if (refs[it->second] > 0) {
        vpn::require(t.decRef(it->second), "counted");
        refs[it->second]--;
      }
    } else if (c < 38) {
      const auto before = stored.size();
      const auto n = t.garbageCollect(r.coin());
      if (n > 0) {
        for (auto it = stored.begin(); it != stored.end();) {
          if (refs[it->second] == 0) it = stored.erase(it);
          else ++it;
        }
      }
      vpn::require(n == before - stored.size(), "the number of collected nodes");
    } else if (c == 38 && r.coin(0.3)) {
      levels++;
      t.resize(levels);
    } else if (c == 39 && r.coin(0.1)) {
      t.clear();
      stored.clear();
      refs.clear();
    }
    vpn::require(t.getNumEntries() == stored.size(), "the number of stored nodes");
    vpn::require(mm.getStats().numUsed >= stored.size(), "superfluous nodes are given back");
    if (i % 20 == 0) {
      std::size_t n = 0;
      for (const auto& tab : t.getTables()) {
        for (auto* p : tab) {
          for (; p != nullptr; p = p->next()) {
            n++;
            auto* q = static_cast<N*>(p);
            const auto it = stored.find(key(*q));
            vpn::require(it != stored.end() && it->second == q, "a stored node was changed");
            vpn::require(q->ref == refs[q], "a reference count was changed");
          }
        }
      }
      vpn::require(n == stored.size(), "a stored node is lost");
      for (std::size_t v = 0; v < levels; v++) {
        std::size_t tot = 0;
        for (auto& [k, p] : stored) tot += p->v == v ? 1 : 0;
        vpn::require(t.getStats(v).numEntries == tot, "the number of stored nodes of a level");
        (void)active;
      }
    }
  }
}
void cse(vpn::Rng& r) {
  for (int i = 0; i < 4; i++) numbers[i].value = 0.25 * i;
  history<vNode>(r, "vector");
  history<mNode>(r, "matrix");
  history<dNode>(r, "density matrix");
}
} // namespace
int main(int c, char** v) { return vpn::run(c, v, cse); }
