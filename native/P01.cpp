// Native companion of contracts/P01.cpp
// @libs dd_gates
#include "vpn.hpp"

#include "dd/GateMatrixDefinitions.hpp"
#include "spec_gates.hpp"

using namespace dd;
namespace {
void one(vpn::Rng& r) {
  const auto& g = spec::single()[r.below(spec::single().size())];
  std::vector<double> p;
  for (std::size_t i = 0; i < g.nparams; i++) p.push_back(r.angle());
  vpn::what = qc::toString(g.type);
  for (auto x : p) vpn::what += " " + std::to_string(x);
  const auto m = opToSingleQubitGateMatrix(g.type, p);
  const auto w = spec::matrix1(g.type, p);
  for (std::size_t k = 0; k < 4; k++) vpn::close(m[k], w[k], "single-qubit gate matrix entry");
}
void two(vpn::Rng& r) {
  const auto& g = spec::two()[r.below(spec::two().size())];
  std::vector<double> p;
  for (std::size_t i = 0; i < g.nparams; i++) p.push_back(r.angle());
  vpn::what = qc::toString(g.type);
  for (auto x : p) vpn::what += " " + std::to_string(x);
  const auto m = opToTwoQubitGateMatrix(g.type, p);
  const auto w = spec::matrix2(g.type, p);
  for (std::size_t k = 0; k < 4; k++)
    for (std::size_t j = 0; j < 4; j++) vpn::close(m[k][j], w[k * 4 + j], "two-qubit gate matrix entry");
}
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  r.coin() ? one(r) : two(r);
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
