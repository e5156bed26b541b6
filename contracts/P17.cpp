// @sources src/ir/operations/Expression.cpp
// @opts * {"timeout": 400, "steps": 30000000}
// Contracts: arithmetic of symbolic expressions against their evaluation.
#include "vp.h"
#include "ir/operations/Expression.hpp"

#include <cmath>
using namespace sym;
using E = Expression<double, double>;
using TT = Term<double>;
namespace {
Variable var(std::uint64_t id) {
  Variable v = *reinterpret_cast<Variable*>(&id);
  return v;
}
double value(const Variable& v) { return vp_ufr_1_0("value", v.id); } // an arbitrary assignment
double den(const TT& t) { return t.getCoeff() * value(t.getVar()); }
double den(const E& e) {
  double s = e.getConst();
  for (const auto& t : e.getTerms()) s += den(t);
  return s;
}
TT term(const char* n) { return TT(var(vp_u64("var")), vp_double(n)); }
TT nzterm(const char* n) {
  const double c = vp_double(n);
  vp_assume(c != 0);
  return TT(var(vp_u64("var")), c);
}
// an arbitrary expression in canonical form with up to `max` terms
E expr(const char* n, std::uint32_t max) {
  std::vector<TT> ts;
  const auto k = vp_choose(n, max + 1);
  for (std::uint32_t i = 0; i < k; i++) {
    ts.push_back(nzterm(n));
    if (i > 0) vp_assume(ts[i - 1].getVar().id < ts[i].getVar().id);
  }
  return E(ts, vp_double(n));
}
void canonical(const E& e, const char* w) {
  const auto& ts = e.getTerms();
  for (std::size_t i = 0; i < ts.size(); i++) {
    vp_assert(ts[i].getCoeff() != 0, w);
    if (i > 0) vp_assert(ts[i - 1].getVar().id < ts[i].getVar().id, w);
  }
}
constexpr const char* CAN = "terms stay sorted by variable, one per variable, none with coefficient zero";
void is(const E& e, double d, const char* l) {
  vp_assert_eq(den(e), d, l);
  canonical(e, CAN);
}
void bound() { vp_bounded("expressions with at most two terms (arbitrary variables, coefficients and constants)"); }
} // namespace

VP_HARNESS H_add() {
  bound();
  const E a = expr("a", 2), b = expr("b", 2);
  is(a + b, den(a) + den(b), "sum of expressions");
  vp_cover("add");
}
VP_HARNESS H_sub() {
  bound();
  const E a = expr("a", 2), b = expr("b", 2);
  is(a - b, den(a) - den(b), "difference of expressions");
}
VP_HARNESS H_self() {
  bound();
  E a = expr("a", 2);
  const double d = den(a);
  a += a;
  is(a, 2 * d, "an expression added to itself");
  a -= a;
  is(a, 0, "an expression subtracted from itself");
  vp_assert(a.isZero(), "an expression minus itself is zero");
}
VP_HARNESS H_neg() {
  bound();
  const E a = expr("a", 2);
  is(-a, -den(a), "negation of an expression");
  vp_assert(a.isZero() == (a.getTerms().empty() && a.getConst() == 0), "isZero");
  vp_assert(a.isConstant() == a.getTerms().empty(), "isConstant");
}
VP_HARNESS H_term() {
  bound();
  const E a = expr("a", 2);
  const TT t = nzterm("t");
  const double d = den(a), v = den(t);
  switch (vp_choose("op", 5)) {
  case 0: is(a + t, d + v, "expression plus term"); break;
  case 1: is(t + a, d + v, "term plus expression"); break;
  case 2: is(a - t, d - v, "expression minus term"); break;
  case 3: is(t - a, v - d, "term minus expression"); break;
  default: {
    const TT s = term("s");
    const double k = vp_double("k");
    vp_assert_eq(den(t * k), v * k, "term times scalar");
    vp_assert_eq(den(k * t), v * k, "scalar times term");
    vp_assert_eq(den(-t), -v, "negated term");
    vp_assume(k != 0);
    vp_assert_eq(den(t / k) * k, v, "term divided by scalar");
    if (s == t) vp_assert_eq(den(s), den(t), "equal terms have equal values");
    vp_assert((s == t) == (s.getVar().id == t.getVar().id && s.getCoeff() == t.getCoeff()), "equality of terms");
    vp_assert((s != t) == !(s == t), "inequality of terms");
  }
  }
}
VP_HARNESS H_scalar() {
  bound();
  const E a = expr("a", 2);
  const double d = den(a), k = vp_double("k");
  switch (vp_choose("op", 3)) {
  case 0: {
    E b = a;
    b += k;
    is(b, d + k, "expression plus constant");
    b = a;
    b -= k;
    is(b, d - k, "expression minus constant");
    is(k - a, k - d, "constant minus expression");
    is(a - k, d - k, "expression minus constant (operator)");
    break;
  }
  case 1:
    is(a * k, d * k, "expression times scalar");
    is(k * a, d * k, "scalar times expression");
    break;
  default: {
    bool thrown = false;
    try {
      const E q = a / k;
      vp_assert(k != 0, "division by zero is rejected");
      vp_assert_eq(den(q) * k, d, "expression divided by scalar");
      canonical(q, CAN);
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    vp_assert(thrown == (k == 0), "only division by zero is rejected");
  }
  }
}
VP_HARNESS H_divint() {
  bound();
  const E a = expr("a", 2);
  const std::int64_t k = vp_i64("k");
  vp_assume(k != 0);
  const E q = a / k;
  vp_assert_eq(den(q) * static_cast<double>(k), den(a), "expression divided by an integer");
}
VP_HARNESS H_eq() {
  bound();
  const E a = expr("a", 2), b = expr("b", 2);
  bool same = a.getTerms().size() == b.getTerms().size() && a.getConst() == b.getConst();
  for (std::size_t i = 0; same && i < a.getTerms().size(); i++)
    same = a[i].getVar().id == b[i].getVar().id && a[i].getCoeff() == b[i].getCoeff();
  const bool r = a == b;
  vp_assert(r == same, "expressions are equal exactly if their terms and constants agree");
  vp_assert((a != b) == !r, "inequality of expressions");
  if (r) vp_assert_eq(den(a), den(b), "equal expressions have equal values");
}
// construction from unsorted terms with repetitions
VP_HARNESS H_make() {
  vp_bounded("construction from up to three terms");
  const TT s = term("s"), t = term("t"), u = term("u");
  switch (vp_choose("n", 3)) {
  case 0: is(E(s), den(s), "expression made of one term"); break;
  case 1: is(E(s, t), den(s) + den(t), "expression made of two terms"); break;
  default: is(E(s, t, u), den(s) + den(t) + den(u), "expression made of three terms");
  }
}
VP_HARNESS H_vars() {
  const Variable x = var(vp_u64("x")), y = var(vp_u64("y"));
  is(E(x), value(x), "expression made of a variable");
  is(E(x, y), value(x) + value(y), "expression made of two variables");
  vp_assert((x == y) == (x.id == y.id) && (x != y) == (x.id != y.id) && (x < y) == (x.id < y.id) && (x > y) == (x.id > y.id),
            "variables are compared by identity");
}
namespace {
double evalStub(const TT* t, const VariableAssignment&) { return den(*t); }
} // namespace
// Expression::evaluate sums the evaluated terms and the constant
VP_HARNESS H_eval() {
  vp_bounded("expressions with at most three terms");
  vp_replace("^sym::Term<double, void>::evaluate\\(", vp_fn(evalStub));
  const E a = expr("a", 3);
  const auto& m = *static_cast<VariableAssignment*>(vp_alloc_sym(sizeof(VariableAssignment), "assignment"));
  vp_assert_eq(a.evaluate(m), den(a), "an expression evaluates to the sum of its terms and constant");
}
