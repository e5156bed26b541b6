// Native companion of contracts/P02.cpp: inverse operations / circuits are adjoints.
#include "dd/FunctionalityConstruction.hpp"
#include "dd/Operations.hpp"
#include "ir/QuantumComputation.hpp"
#include "spec_dense.hpp"
using namespace spec;
namespace {
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  const std::size_t n = 1 + r.below(3);
  switch (r.below(4)) {
  case 0: { // object-level inversion of one operation
    const Op o = randomOp(r, n, true, 0.3, true);
    vpn::what = "invert " + o.str();
    auto op = o.op();
    const auto inv = op.getInverted();
    same(dense(*inv, n), adj(o.mat(n)), "inverted operation vs adjoint");
    op.invert();
    same(dense(op, n), adj(o.mat(n)), "invert() vs adjoint");
    op.invert();
    same(dense(op, n), o.mat(n), "double inversion");
    break;
  }
  case 1: { // inverse decision diagram of one operation
    const Op o = randomOp(r, n, true, 0.3, false);
    vpn::what = "inverse DD " + o.str();
    dd::Package dd(n);
    const auto op = o.op();
    same(dense(dd::getDD(op, dd), n), o.mat(n), "gate DD");
    same(dense(dd::getInverseDD(op, dd), n), adj(o.mat(n)), "inverse gate DD vs adjoint");
    same(dense(dd::getDD(op, dd, {}, true), n), adj(o.mat(n)), "getDD(inverse) vs adjoint");
    break;
  }
  case 2: { // compound operations
    qc::CompoundOperation c;
    const auto ops = randomCircuit(r, n, 1 + r.below(4));
    Mat want = Mat::id(1ULL << n);
    for (std::size_t i = 0; i < ops.size(); i++) {
      if (i + 1 < ops.size() && r.coin(0.25)) {
        auto in = std::make_unique<qc::CompoundOperation>();
        in->emplace_back<qc::StandardOperation>(ops[i].op());
        in->emplace_back<qc::StandardOperation>(ops[i + 1].op());
        want = ops[i + 1].mat(n) * (ops[i].mat(n) * want);
        i++;
        std::unique_ptr<qc::Operation> p = std::move(in);
        c.emplace_back(std::move(p));
      } else {
        c.emplace_back<qc::StandardOperation>(ops[i].op());
        want = ops[i].mat(n) * want;
      }
    }
    vpn::what = "compound " + str(ops);
    same(dense(c, n), want, "compound semantics");
    dd::Package dd(n);
    same(dense(dd::getDD(c, dd), n), want, "compound DD");
    same(dense(dd::getInverseDD(c, dd), n), adj(want), "inverse compound DD vs adjoint");
    auto c2 = c;
    c2.invert();
    same(dense(c2, n), adj(want), "compound invert() vs adjoint");
    same(dense(dd::getDD(c2, dd), n), adj(want), "DD of inverted compound vs adjoint");
    break;
  }
  default: { // whole circuits
    const auto ops = randomCircuit(r, n, 1 + r.below(5));
    vpn::what = "circuit " + str(ops);
    qc::QuantumComputation q(n);
    double gp = 0;
    if (r.coin(0.3)) {
      gp = r.angle();
      q.gphase(gp);
    }
    for (auto& o : ops) q.emplace_back<qc::StandardOperation>(o.op());
    q.invert();
    Mat m = Mat::id(1ULL << n);
    for (const auto& o : q) m = dense(*o, n) * m;
    same(m, adj(dense(ops, n)), "inverted circuit vs adjoint");
    dd::Package dd(n);
    auto want = adj(dense(ops, n));
    vpn::close(ei(q.getGlobalPhase()), ei(-gp), "inverted circuit has the opposite global phase");
    for (auto& x : want.a) x *= ei(-gp); // the functionality includes the global phase
    same(dense(dd::buildFunctionality(q, dd), n), want, "functionality of the inverted circuit vs adjoint");
  }
  }
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
