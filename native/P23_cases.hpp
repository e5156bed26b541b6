namespace {
Opts full() {
  Opts o;
  o.measure = o.reset = o.classic = o.registers = true;
  return o;
}
Opts pure() { return {}; }
// final measurements are removed, everything else stays
void finals(vpn::Rng& r) {
  Opts o = full();
  o.measure = r.coin();
  const std::size_t n = 1 + r.below(3), nb = 3;
  auto c = circuit(r, n, nb, r.below(7), o);
  for (std::size_t q = 0; q < n; q++)
    if (r.coin(0.6)) c.emplace_back<qc::NonUnitaryOperation>(static_cast<qc::Qubit>(q), static_cast<qc::Bit>(q));
  vpn::what = "removeFinalMeasurements n=" + std::to_string(n) + ": " + str(c);
  const auto in = randomState(r, n);
  const auto measured = [&](const State& s) {
    std::map<Bits, double> p;
    State x = s;
    for (std::size_t q = 0; q < n; q++) split(x, q, [&](Branch& b, bool one) { b.bits = (b.bits & ~(1ULL << (10 + q))) | (one ? 1ULL << (10 + q) : 0); });
    for (auto& b : x) b.bits >>= 10; // the qubits only
    return x;
  };
  const auto before = measured(behave(c, n, in));
  const bool plain = count(c, [](const qc::Operation& x) { return x.isClassicControlledOperation() || x.getType() == qc::I; }) == 0;
  O::removeFinalMeasurements(c);
  vpn::what += " -> " + str(c);
  sameOutcomes(before, measured(behave(c, n, in)), "removeFinalMeasurements");
  // no measurement is the last operation on all its qubits
  if (!plain) return;
  std::vector<bool> used(n);
  for (auto it = c.crbegin(); it != c.crend(); ++it) {
    if ((*it)->getType() == qc::Measure) {
      bool fin = true;
      for (const auto q : (*it)->getTargets()) fin = fin && !used[q];
      vpn::require(!fin, "final measurements are removed");
    }
    for (const auto q : (*it)->getUsedQubits()) used[q] = true;
  }
}
qc::Permutation randomPerm(vpn::Rng& r, std::size_t n) {
  std::vector<qc::Qubit> v(n);
  for (std::size_t i = 0; i < n; i++) v[i] = static_cast<qc::Qubit>(i);
  for (std::size_t i = n; i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  qc::Permutation p;
  for (std::size_t i = 0; i < n; i++) p[static_cast<qc::Qubit>(i)] = v[i];
  return p;
}
std::string str(const qc::Permutation& p) {
  std::string s;
  for (const auto& [k, v] : p) s += std::to_string(k) + ">" + std::to_string(v) + " ";
  return s;
}
// input of logical qubit l is at initialLayout^-1(l), its output at outputPermutation^-1(l)
std::size_t place(std::size_t logical, const qc::Permutation& p) {
  std::size_t y = 0;
  for (const auto& [phys, log] : p)
    if (bit(logical, log)) y |= 1ULL << phys;
  return y;
}
void elide(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(4);
  Opts o = pure();
  auto c = circuit(r, n, 1, r.below(9), o);
  c.initialLayout = randomPerm(r, n);
  c.outputPermutation = randomPerm(r, n);
  vpn::what = "elidePermutations in " + str(c.initialLayout) + " out " + str(c.outputPermutation) + ": " + ::str(c);
  auto logical = [&](const qc::QuantumComputation& q) {
    Mat U = Mat::id(1ULL << n);
    for (const auto& op : q) U = dense(*op, n) * U;
    Mat L(1ULL << n);
    for (std::size_t i = 0; i < L.d; i++)
      for (std::size_t j = 0; j < L.d; j++) L(i, j) = U(place(i, q.outputPermutation), place(j, q.initialLayout));
    return L;
  };
  const auto before = logical(c);
  O::elidePermutations(c);
  vpn::what += " -> in " + str(c.initialLayout) + " out " + str(c.outputPermutation) + ": " + ::str(c);
  same(before, logical(c), "elidePermutations", 1e-7);
  vpn::require(count(c, [](const qc::Operation& x) { return typed(x, qc::SWAP) && x.getNcontrols() == 0; }) == 0, "no SWAP is left");
}
void backprop(vpn::Rng& r) {
  const std::size_t n = 1 + r.below(5);
  Opts o = pure();
  o.few = 0.9;
  auto c = circuit(r, n, 1, r.below(9), o);
  const auto full = randomPerm(r, n);
  qc::Permutation part;
  for (const auto& [k, v] : full)
    if (r.coin(0.7)) part[k] = v;
  c.outputPermutation = part;
  vpn::what = "backpropagate out " + str(part) + ": " + ::str(c);
  O::backpropagateOutputPermutation(c);
  vpn::what += " -> in " + str(c.initialLayout);
  vpn::require(c.initialLayout.size() == n, "the layout is complete");
  std::vector<bool> seen(n);
  for (const auto& [k, v] : c.initialLayout) {
    vpn::require(k < n && v < n && !seen[v], "the layout is a permutation");
    seen[v] = true;
  }
  auto at = c.initialLayout;
  const std::function<void(const qc::Operation&)> go = [&](const qc::Operation& x) {
    if (const auto* y = dynamic_cast<const qc::CompoundOperation*>(&x)) {
      for (const auto& z : *y) go(*z);
      return;
    }
    if (x.getType() == qc::SWAP && x.getNcontrols() == 0) std::swap(at.at(x.getTargets()[0]), at.at(x.getTargets()[1]));
  };
  for (const auto& op : c) go(*op);
  for (const auto& [k, v] : part) vpn::require(at.at(k) == v, "every output is reached through the SWAPs");
}
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  const auto k = std::getenv("VPK") ? std::atoi(std::getenv("VPK")) : [&r] {
    const auto x = static_cast<int>(r.below(13));
    return x < 11 ? x : x + 1; // not 11: deferMeasurements (DESIGN.md, section 3)
  }();
  const auto has = [](qc::OpType t) {
    return [t](const qc::QuantumComputation& c) { vpn::require(count(c, [t](const qc::Operation& x) { return typed(x, t); }) == 0, "the gate is gone"); };
  };
  const bool mix = r.coin();
  const auto o = mix ? full() : pure();
  switch (k) {
  case 0: keeps(r, "removeIdentities", [](auto& c) { O::removeIdentities(c); }, o, has(qc::I)); break;
  case 1: keeps(r, "singleQubitGateFusion", [](auto& c) { O::singleQubitGateFusion(c); }, o); break;
  case 2: keeps(r, "swapReconstruction", [](auto& c) { O::swapReconstruction(c); }, o); break;
  case 3: keeps(r, "cancelCNOTs", [](auto& c) { O::cancelCNOTs(c); }, o); break;
  case 4: {
    const bool d = r.coin();
    keeps(r, d ? "decomposeSWAP directed" : "decomposeSWAP", [d](auto& c) { O::decomposeSWAP(c, d); }, o);
    break;
  }
  case 5: keeps(r, "replaceMCXWithMCZ", [](auto& c) { O::replaceMCXWithMCZ(c); }, o); break;
  case 6: {
    const bool custom = r.coin();
    keeps(r, "flattenOperations", [custom](auto& c) { O::flattenOperations(c, custom); }, o, [custom](const auto& c) {
      vpn::require(count(c, [custom](const qc::Operation& x) { return x.isCompoundOperation() && (!custom || dynamic_cast<const qc::CompoundOperation&>(x).isCustomGate()); }) == 0, "no compound operation is left");
    });
    break;
  }
  case 7: {
    const auto s = 1 + r.below(4);
    if (mix && std::getenv("VPMIX")) outcomes(r, "collectBlocks", [s](auto& c) { O::collectBlocks(c, s); }, o, true);
    else keeps(r, "collectBlocks", [s](auto& c) { O::collectBlocks(c, s); }, pure());
    break;
  }
  case 8: outcomes(r, "removeDiagonalGatesBeforeMeasure", [](auto& c) { O::removeDiagonalGatesBeforeMeasure(c); }, o, true); break;
  case 9: finals(r); break;
  case 10: outcomes(r, "eliminateResets", [](auto& c) { O::eliminateResets(c); }, full(), r.coin(), has(qc::Reset)); break;
  case 11: {
    auto x = full();
    x.reset = false;
    x.multi = false;
    x.registers = false;
    outcomes(r, "deferMeasurements", [](auto& c) { O::deferMeasurements(c); }, x, r.coin());
    break;
  }
  case 12: elide(r); break;
  default: backprop(r);
  }
}
} // namespace
