// @sources src/dd/ComplexValue.cpp src/dd/Complex.cpp src/dd/ComplexNumbers.cpp src/dd/RealNumber.cpp
// Contracts: complex arithmetic on plain values and on table-backed (signed-pointer) numbers.
#include "vp.h"
#include "dd/Complex.hpp"
#include "dd/ComplexNumbers.hpp"
#include "dd/ComplexValue.hpp"
#include "dd/RealNumber.hpp"

#include <cmath>
#include <complex>
#include <limits>
using namespace dd;
namespace {
ComplexValue cv(const char* a, const char* b) { return {vp_double(a), vp_double(b)}; }
// an arbitrary stored number: one of the constants or a table entry, with an arbitrary sign tag
RealNumber* num(const char* n, const char* v) {
  RealNumber* p = nullptr;
  switch (vp_choose(n, 4)) {
  case 0:
    return &constants::zero;
  case 1:
    p = &constants::one;
    break;
  case 2:
    p = &constants::sqrt2over2;
    break;
  default:
    p = new RealNumber{{nullptr}, vp_double(v), vp_u32("ref")};
  }
  return vp_choose("neg", 2) == 1 ? RealNumber::getNegativePointer(p) : p;
}
// the denotation of a stored number
double den(const RealNumber* p) {
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  if ((a & 1U) != 0) return -reinterpret_cast<const RealNumber*>(a - 1)->value;
  return p->value;
}
void is(const ComplexValue& c, double r, double i, const char* l) {
  vp_assert_eq(c.r, r, l);
  vp_assert_eq(c.i, i, l);
}
} // namespace

VP_HARNESS H_values() {
  const auto a = cv("ar", "ai"), b = cv("br", "bi");
  const double s = vp_double("s");
  is(a + b, a.r + b.r, a.i + b.i, "sum of complex values");
  is(a * b, a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r, "product of complex values");
  is(a * s, a.r * s, a.i * s, "product with a real");
  is(s * a, a.r * s, a.i * s, "product of a real with a complex value");
  auto c = a;
  c += b;
  is(c, a.r + b.r, a.i + b.i, "in-place sum");
  c = a;
  c *= s;
  is(c, a.r * s, a.i * s, "in-place product with a real");
  c = a;
  c += c;
  is(c, 2 * a.r, 2 * a.i, "in-place sum with itself");
  vp_assert_eq(a.mag2(), a.r * a.r + a.i * a.i, "squared magnitude");
  vp_assert((a == b) == (a.r == b.r && a.i == b.i), "equality of complex values");
  vp_assert((a != b) == !(a == b), "inequality is the negation of equality");
  vp_assert(a.exactlyZero() == (a.r == 0 && a.i == 0), "exactlyZero");
  vp_assert(a.exactlyOne() == (a.r == 1 && a.i == 0), "exactlyOne");
  const std::complex<fp> z{a.r, a.i};
  is(ComplexValue(z), a.r, a.i, "conversion from std::complex");
  const auto back = static_cast<std::complex<fp>>(a);
  vp_assert_eq(back.real(), a.r, "conversion to std::complex (re)");
  vp_assert_eq(back.imag(), a.i, "conversion to std::complex (im)");
  is(ComplexValue(s), s, 0, "conversion from a real");
  vp_cover("values");
}
VP_HARNESS H_div() {
  const auto a = cv("ar", "ai"), b = cv("br", "bi");
  const double s = vp_double("s");
  const double d = b.r * b.r + b.i * b.i;
  vp_assume(!(b.r == 0 && b.i == 0));
  vp_assume(d > 0); // implied by the line above over the reals
  vp_assume(s != 0);
  const auto q = a / b;
  is(q * b, a.r, a.i, "(a/b)*b == a");
  const auto t = a / s;
  is(t * s, a.r, a.i, "(a/s)*s == a");
  vp_cover("div");
}
VP_HARNESS H_mag() {
  const auto a = cv("ar", "ai");
  const double m = a.mag();
  vp_assert(m >= 0, "magnitude is not negative");
  vp_assert_eq(m * m, a.r * a.r + a.i * a.i, "magnitude squared");
}
VP_HARNESS H_real() {
  auto* p = num("p", "pv");
  const double v = den(p);
  vp_assert_eq(RealNumber::val(p), v, "value of a signed number");
  auto* f = RealNumber::flipPointerSign(p);
  vp_assert_eq(den(f), -v, "negated number denotes the negated value");
  vp_assert_eq(den(p), v, "negation leaves the number itself alone");
  if (!RealNumber::exactlyZero(p)) {
    vp_assert(RealNumber::flipPointerSign(f) == p, "double negation is the identity");
    vp_assert(RealNumber::getAlignedPointer(f) == RealNumber::getAlignedPointer(p), "negation shares the table entry");
    vp_assert(RealNumber::isNegativePointer(f) != RealNumber::isNegativePointer(p), "negation flips the sign tag");
  } else {
    vp_assert(f == p, "zero is its own negation");
  }
  vp_assert(RealNumber::refCount(p) == RealNumber::refCount(f), "a number and its negation share one reference count");
  vp_assert(RealNumber::exactlyZero(p) == (p == &constants::zero), "exactlyZero");
  vp_assert(RealNumber::exactlyOne(p) == (p == &constants::one), "exactlyOne");
  vp_cover("real");
}
VP_HARNESS H_refs() {
  auto* p = num("p", "pv");
  auto* al = RealNumber::getAlignedPointer(p);
  const auto before = al->ref;
  const bool fixed = al == &constants::zero || al == &constants::one || al == &constants::sqrt2over2 ||
                     before == std::numeric_limits<RefCount>::max();
  const double v = al->value;
  if (vp_choose("inc", 2) == 0) {
    const bool r = RealNumber::incRef(p);
    vp_assert(r == !fixed, "incRef reports whether it counted");
    vp_assert(al->ref == (fixed ? before : before + 1), "incRef counts up once (constants and saturated counts excepted)");
  } else {
    vp_assume(before != 0);
    const bool r = RealNumber::decRef(p);
    vp_assert(r == !fixed, "decRef reports whether it counted");
    vp_assert(al->ref == (fixed ? before : before - 1), "decRef counts down once (constants and saturated counts excepted)");
  }
  vp_assert_eq(al->value, v, "reference counting leaves the value alone");
}
VP_HARNESS H_complex() {
  const Complex a{num("ar", "arv"), num("ai", "aiv")};
  const double r = den(a.r), i = den(a.i);
  const auto v = static_cast<ComplexValue>(a);
  is(v, r, i, "value of a stored complex number");
  const auto z = static_cast<std::complex<fp>>(a);
  vp_assert_eq(z.real(), r, "std::complex of a stored number (re)");
  vp_assert_eq(z.imag(), i, "std::complex of a stored number (im)");
  const auto c = ComplexNumbers::conj(a);
  vp_assert_eq(den(c.r), r, "conjugate keeps the real part");
  vp_assert_eq(den(c.i), -i, "conjugate negates the imaginary part");
  const auto n = ComplexNumbers::neg(a);
  vp_assert_eq(den(n.r), -r, "negation (re)");
  vp_assert_eq(den(n.i), -i, "negation (im)");
  vp_assert_eq(ComplexNumbers::mag2(a), r * r + i * i, "squared magnitude of a stored number");
  vp_assert(a.exactlyZero() == (a.r == &constants::zero && a.i == &constants::zero), "exactlyZero of a stored number");
  vp_assert(a.exactlyOne() == (a.r == &constants::one && a.i == &constants::zero), "exactlyOne of a stored number");
}
VP_HARNESS H_mixed() {
  // one arbitrary table entry with arbitrary signs suffices for the operator bodies
  auto* x = new RealNumber{{nullptr}, vp_double("x"), 1};
  auto* y = new RealNumber{{nullptr}, vp_double("y"), 1};
  auto* u = new RealNumber{{nullptr}, vp_double("u"), 1};
  const Complex a{vp_choose("s0", 2) ? RealNumber::getNegativePointer(x) : x, vp_choose("s1", 2) ? RealNumber::getNegativePointer(y) : y};
  const Complex b{vp_choose("s2", 2) ? RealNumber::getNegativePointer(u) : u, &constants::sqrt2over2};
  const double ar = den(a.r), ai = den(a.i), br = den(b.r), bi = den(b.i);
  const auto w = cv("wr", "wi");
  const double s = vp_double("s");
  is(a * b, ar * br - ai * bi, ar * bi + ai * br, "product of stored numbers");
  is(a * w, ar * w.r - ai * w.i, ar * w.i + ai * w.r, "product of a stored number with a value");
  is(w * a, ar * w.r - ai * w.i, ar * w.i + ai * w.r, "product of a value with a stored number");
  is(a * s, ar * s, ai * s, "product of a stored number with a real");
  is(s * a, ar * s, ai * s, "product of a real with a stored number");
  vp_assume(s != 0);
  is((a / s) * s, ar, ai, "quotient of a stored number by a real");
  vp_assume(br * br + bi * bi > 0);
  is((a / b) * b, ar, ai, "quotient of stored numbers");
  is((w / b) * b, w.r, w.i, "quotient of a value by a stored number");
  vp_assume(w.r * w.r + w.i * w.i > 0);
  is((b / w) * w, br, bi, "quotient of a stored number by a value");
}
VP_HARNESS H_approx() {
  const double eps = vp_double("eps");
  vp_assume(eps > 0);
  ComplexNumbers::setTolerance(eps);
  vp_assert_eq(RealNumber::eps, eps, "the tolerance is the one that was set");
  const auto a = cv("ar", "ai"), b = cv("br", "bi");
  const bool eqr = a.r - b.r <= eps && b.r - a.r <= eps, eqi = a.i - b.i <= eps && b.i - a.i <= eps;
  vp_assert(RealNumber::approximatelyEquals(a.r, b.r) == eqr, "approximate equality of reals");
  vp_assert(a.approximatelyEquals(b) == (eqr && eqi), "approximate equality of complex values");
  const bool zr = a.r <= eps && -a.r <= eps, zi = a.i <= eps && -a.i <= eps;
  vp_assert(RealNumber::approximatelyZero(a.r) == zr, "approximately zero real");
  vp_assert(a.approximatelyZero() == (zr && zi), "approximately zero complex value");
}
