// Native companion of contracts/P09.cpp: histories of lookups / reference counts / collections.
#include "dd/MemoryManager.hpp"
#include "dd/RealNumber.hpp"
#include "dd/RealNumberUniqueTable.hpp"
#include "vpn.hpp"
#include <map>
#include <memory>
using namespace dd;
namespace {
const double EPS0 = RealNumber::eps;
void structure(const RealNumberUniqueTable& t, const std::map<std::int64_t, int>& touched) {
  std::size_t n = 0;
  double last = -1;
  for (const auto& [k0, cnt] : touched) {
    (void)cnt;
    const auto k = static_cast<std::size_t>(k0);
    RealNumber* prev = nullptr;
    std::size_t len = 0;
    for (auto* p = t.table[k]; p != nullptr; p = p->next()) {
      vpn::require(RealNumberUniqueTable::hash(p->value) == k0, "entry is in the bucket of its value");
      vpn::require(p->value > last, "entries ascend");
      vpn::require(p->value - last > RealNumber::eps * 0.999, "entries are further apart than the tolerance");
      last = p->value;
      prev = p;
      vpn::require(++len < 100000, "bucket is acyclic");
    }
    n += len;
    vpn::require(t.tailTable[k] == prev, "tail pointer is the last entry");
  }
  vpn::require(n == t.getStats().numEntries, "entry count");
}
void cse(vpn::Rng& r) {
  RealNumber::eps = r.coin(0.5) ? EPS0 : std::pow(10.0, -r.real(4, 9)) / 100;
  const double eps = RealNumber::eps;
  auto mm = MemoryManager::create<RealNumber>(1 + r.below(40));
  auto tp = std::make_unique<RealNumberUniqueTable>(mm, 1 + r.below(60));
  auto& t = *tp;
  std::map<std::int64_t, int> touched{{RealNumberUniqueTable::hash(0.5), 1}};
  struct Held {
    double asked;
    RealNumber* p;
    double val;
    std::uint64_t refs;
  };
  std::vector<Held> held;
  std::vector<double> centres;
  for (int i = 0; i < 4; i++) {
    double c;
    switch (r.below(5)) {
    case 0:
      c = (static_cast<double>(r.below(65536)) + 0.5) / 65536; // bucket border
      break;
    case 1:
      c = static_cast<double>(r.below(65537)) / 65536;
      break;
    case 2:
      c = r.coin() ? 1.0 : std::sqrt(0.5);
      break;
    case 3:
      c = r.real(0, 3);
      break;
    default:
      c = r.real();
    }
    centres.push_back(c);
  }
  const auto steps = 5 + r.below(60);
  vpn::nontrivial++;
  for (std::uint64_t s = 0; s < steps; s++) {
    std::ostringstream o;
    o.precision(17);
    o << "eps=" << eps << " step " << s;
    switch (r.below(10)) {
    case 0: { // collection
      const bool force = r.coin();
      vpn::what = o.str() + " collect";
      const auto n0 = t.getStats().numEntries;
      const auto g = t.garbageCollect(force);
      vpn::require(t.getStats().numEntries + g == n0, "collection count");
      std::vector<Held> keep;
      for (auto& h : held) {
        auto* al = RealNumber::getAlignedPointer(h.p);
        std::uint64_t sum = constants::isStaticNumber(al) || h.val == 0.5 || h.val == -0.5 ? 1 : 0;
        for (auto& q : held)
          if (RealNumber::getAlignedPointer(q.p) == al) sum += q.refs;
        if (sum > 0) keep.push_back(h);
      }
      held = keep;
      for (auto& h : held) {
        vpn::require(RealNumber::val(h.p) == h.val, "a referenced number keeps its value through collection");
      }
      structure(t, touched);
      break;
    }
    case 1:
    case 2:
      if (!held.empty()) { // references
        auto& h = held[r.below(held.size())];
        vpn::what = o.str() + " ref";
        if (h.refs > 0 && r.coin()) {
          t.decRef(h.p);
          h.refs--;
        } else {
          t.incRef(h.p);
          h.refs++;
        }
      }
      break;
    default: {
      double v = centres[r.below(centres.size())];
      switch (r.below(4)) {
      case 0:
        break;
      case 1:
        v += eps * static_cast<double>(r.range(-12, 12)) / 4;
        break;
      default:
        v += eps * r.real(-4, 4);
      }
      if (r.coin(0.3)) v = -v;
      o << " lookup " << v;
      vpn::what = o.str();
      const auto n0 = t.getStats().numEntries;
      auto* p = t.lookup(v);
      const auto n1 = t.getStats().numEntries;
      const auto slack = eps * (1 + 1e-3) + 1e-18;
      vpn::require(std::abs(RealNumber::val(p) - v) <= slack, "returned value within the tolerance");
      if (std::abs(v) <= eps) vpn::require(p == &constants::zero, "zero is the constant");
      vpn::require(t.lookup(v) == p, "second lookup of the same value returns the same entry");
      vpn::require(t.lookup(RealNumber::val(p)) == p || p == &constants::zero, "lookup of a stored value returns its entry");
      vpn::require(t.getStats().numEntries == n1, "second lookup stores nothing");
      if (!RealNumber::exactlyZero(p)) vpn::require(t.lookup(-v) == RealNumber::flipPointerSign(p), "negated value shares the entry");
      auto* a = RealNumber::getAlignedPointer(p);
      if (!constants::isStaticNumber(a)) touched[RealNumberUniqueTable::hash(a->value)]++;
      for (auto& h : held) {
        vpn::require(RealNumber::val(h.p) == h.val, "stored numbers keep their value");
        if (n1 != n0 && !constants::isStaticNumber(a))
          vpn::require(std::abs(std::abs(h.val) - a->value) > eps * 0.999 || RealNumber::getAlignedPointer(h.p) == a || constants::isStaticNumber(RealNumber::getAlignedPointer(h.p)),
                       "no second entry within the tolerance of a stored one");
      }
      held.push_back({v, p, RealNumber::val(p), 0});
      // share the reference counts of equal entries in this model
      if (r.coin(0.5)) {
        t.incRef(p);
        held.back().refs = 1;
      }
      structure(t, touched);
    }
    }
    // same entry: references are shared, so merge the model's counts
    for (auto& h : held) {
      auto* a = RealNumber::getAlignedPointer(h.p);
      if (constants::isStaticNumber(a)) continue;
      std::uint64_t sum = a->value == 0.5 ? 1 : 0;
      for (auto& g : held)
        if (RealNumber::getAlignedPointer(g.p) == a) sum += g.refs;
      vpn::require(a->ref == sum, "reference count equals the number of references");
    }
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
