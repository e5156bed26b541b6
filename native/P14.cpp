// Native companion of contracts/P14.cpp
#include "dd/Complex.hpp"
#include "dd/ComplexNumbers.hpp"
#include "dd/ComplexValue.hpp"
#include "dd/RealNumber.hpp"
#include "vpn.hpp"
#include <deque>
using namespace dd;
namespace {
using C = std::complex<double>;
C of(const ComplexValue& v) { return {v.r, v.i}; }
double rnd(vpn::Rng& r) {
  switch (r.below(6)) {
  case 0: return static_cast<double>(r.range(-3, 3));
  case 1: return r.real(-1e3, 1e3);
  default: return r.real(-1, 1);
  }
}
std::deque<RealNumber> pool;
double den(const RealNumber* p) {
  const auto a = reinterpret_cast<std::uintptr_t>(p);
  return (a & 1) != 0 ? -reinterpret_cast<const RealNumber*>(a - 1)->value : p->value;
}
RealNumber* num(vpn::Rng& r) {
  RealNumber* p = nullptr;
  switch (r.below(5)) {
  case 0: return &constants::zero;
  case 1: p = &constants::one; break;
  case 2: p = &constants::sqrt2over2; break;
  default:
    pool.push_back(RealNumber{{nullptr}, rnd(r), 1});
    p = &pool.back();
  }
  return r.coin() ? RealNumber::getNegativePointer(p) : p;
}
C of(const Complex& c) { return {den(c.r), den(c.i)}; }
void cse(vpn::Rng& r) {
  vpn::nontrivial++;
  pool.clear();
  const ComplexValue a{rnd(r), rnd(r)}, b{rnd(r), rnd(r)};
  const Complex s{num(r), num(r)}, t{num(r), num(r)};
  const double x = rnd(r);
  std::ostringstream o;
  o.precision(17);
  o << a.r << "," << a.i << " " << b.r << "," << b.i << " " << of(s) << " " << of(t) << " " << x;
  vpn::what = o.str();
  const auto A = of(a), B = of(b), S = of(s), T = of(t);
  vpn::close(of(a + b), A + B, "value+value");
  vpn::close(of(a * b), A * B, "value*value");
  vpn::close(of(a * x), A * x, "value*real");
  vpn::close(of(x * a), A * x, "real*value");
  auto c = a;
  c += b;
  vpn::close(of(c), A + B, "value+=");
  c = a;
  c *= x;
  vpn::close(of(c), A * x, "value*=");
  vpn::close(a.mag2(), std::norm(A), "mag2");
  vpn::close(a.mag(), std::abs(A), "mag");
  vpn::close(of(s * t), S * T, "stored*stored");
  vpn::close(of(s * a), S * A, "stored*value");
  vpn::close(of(a * s), S * A, "value*stored");
  vpn::close(of(s * x), S * x, "stored*real");
  vpn::close(of(x * s), S * x, "real*stored");
  if (std::abs(B) > 1e-3) {
    vpn::close(of(a / b), A / B, "value/value");
    vpn::close(of(s / b), S / B, "stored/value");
  }
  if (std::abs(T) > 1e-3) {
    vpn::close(of(s / t), S / T, "stored/stored");
    vpn::close(of(a / t), A / T, "value/stored");
  }
  if (std::abs(x) > 1e-3) {
    vpn::close(of(a / x), A / x, "value/real");
    vpn::close(of(s / x), S / x, "stored/real");
  }
  vpn::close(of(ComplexNumbers::conj(s)), std::conj(S), "conjugate");
  vpn::close(of(ComplexNumbers::neg(s)), -S, "negation");
  vpn::close(ComplexNumbers::mag2(s), std::norm(S), "stored mag2");
  vpn::close(ComplexNumbers::mag(s), std::abs(S), "stored mag");
  if (std::abs(S) > 0) vpn::close(std::polar(1.0, ComplexNumbers::arg(s)), S / std::abs(S), "argument");
  vpn::close(of(static_cast<ComplexValue>(s)), S, "value of stored");
  vpn::close(static_cast<C>(s), S, "std::complex of stored");
  vpn::require(s.exactlyZero() == (s.r == &constants::zero && s.i == &constants::zero), "exactlyZero");
  vpn::require(s.exactlyOne() == (s.r == &constants::one && s.i == &constants::zero), "exactlyOne");
  vpn::require((a == b) == (A == B) && (a != b) == (A != B) && a == a, "equality");
  const auto cc = ComplexNumbers::conj(ComplexNumbers::conj(s));
  vpn::require(cc.r == s.r && cc.i == s.i, "double conjugation");
  const auto nn = ComplexNumbers::neg(ComplexNumbers::neg(s));
  vpn::require(nn.r == s.r && nn.i == s.i, "double negation");
  const double eps = RealNumber::eps;
  const double d = eps * r.real(-2, 2), e = eps * r.real(-2, 2);
  const ComplexValue n{a.r + d, a.i + e};
  if (std::abs(std::abs(n.r - a.r) / eps - 1) > 1e-3 && std::abs(std::abs(n.i - a.i) / eps - 1) > 1e-3)
    vpn::require(a.approximatelyEquals(n) == (std::abs(n.r - a.r) <= eps && std::abs(n.i - a.i) <= eps), "approximate equality");
  const ComplexValue z{d, e};
  vpn::require(z.approximatelyZero() == (std::abs(d) <= eps && std::abs(e) <= eps), "approximately zero");
  // binary round trip
  std::stringstream ss;
  s.writeBinary(ss);
  ComplexValue back;
  back.readBinary(ss);
  vpn::require(of(back) == S, "binary round trip of a stored number");
}
} // namespace
int main(int argc, char** argv) { return vpn::run(argc, argv, cse); }
