// Shared vocabulary of the decision-diagram contracts.
//
// One level of a diagram is opened; everything below it is opaque: L(p) is the value of the
// (unit-weight) subdiagram p at an arbitrary but fixed assignment of all lower levels, a complex
// number given by uninterpreted functions of the pointer.  Nodes are arbitrary valid objects
// (any children, any weights, possibly shared).
#pragma once
#include "vp.h"
#include "dd/Package.hpp"

#include <array>
#include <cmath>
namespace vpdd {
using namespace dd;
using U64 = std::uint64_t;
struct Cx {
  double re, im;
};
inline Cx operator+(Cx a, Cx b) { return {a.re + b.re, a.im + b.im}; }
inline Cx operator-(Cx a, Cx b) { return {a.re - b.re, a.im - b.im}; }
inline Cx operator*(Cx a, Cx b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
inline Cx conj(Cx a) { return {a.re, -a.im}; }
inline Cx operator/(Cx a, Cx b) {
  const double n = b.re * b.re + b.im * b.im;
  return {(a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n};
}
inline Cx cx(const ComplexValue& v) { return {v.r, v.i}; }
template <class T> U64 id(T* p) { return reinterpret_cast<U64>(p); }
inline void eqc(Cx a, Cx b, const char* l) {
  vp_assert_eq(a.re, b.re, l);
  vp_assert_eq(a.im, b.im, l);
}
inline void setc(const char* fr, const char* fi, U64 a, Cx v) {
  vp_assume_eq(vp_ufr_1_0(fr, a), v.re);
  vp_assume_eq(vp_ufr_1_0(fi, a), v.im);
}
// contract of RealNumber::val: the value denoted by a (sign-tagged) entry; P14 proves it
inline double valStub(const RealNumber* e) {
  const auto z = id(&constants::zero), o = id(&constants::one), k = id(e);
  if (vp_known(k == z)) return 0;
  if (vp_known(k == o)) return 1;
  if (vp_known(k == id(&constants::sqrt2over2))) return SQRT2_2;
  const double v = vp_ufr_1_0("val", k);
  vp_assume_nc((k == z) == (v == 0));
  vp_assume_nc((k == o) == (v == 1));
  return v;
}
inline Cx cx(const Complex& c) { return {valStub(c.r), valStub(c.i)}; }
// contract of RealNumberUniqueTable::lookup via ComplexNumbers (P09): the entry with that value
inline RealNumber* entry(double v) {
  if (vp_known(v == 0)) return &constants::zero;
  if (vp_known(v == 1)) return &constants::one;
  if (v == 0) return &constants::zero;
  if (v == 1) return &constants::one;
  const U64 k = vp_u64("entry");
  vp_assume_nc((k != id(&constants::zero)) & (k != id(&constants::one)));
  vp_assume_eq(vp_ufr_1_0("val", k), v);
  return reinterpret_cast<RealNumber*>(k);
}
// contract of RealNumber::flipPointerSign (P14): the entry of the negated value
inline RealNumber* flipStub(const RealNumber* e) {
  if (vp_known(id(e) == id(&constants::zero))) return &constants::zero;
  const U64 k = vp_u64("flipped");
  const double v = -valStub(e);
  vp_assume_nc((k == id(&constants::zero)) == (v == 0));
  vp_assume_nc((k == id(&constants::one)) == (v == 1));
  vp_assume_eq(vp_ufr_1_0("val", k), v);
  return reinterpret_cast<RealNumber*>(k);
}
inline Complex lookup2Stub(ComplexNumbers*, double r, double i) { return {entry(r), entry(i)}; }
inline Complex lookup1Stub(ComplexNumbers*, double r) { return {entry(r), entry(0)}; }
inline Complex lookupVStub(ComplexNumbers*, const ComplexValue& v) { return {entry(v.r), entry(v.i)}; }
inline Complex lookupCStub(ComplexNumbers*, const std::complex<double>& v) { return {entry(v.real()), entry(v.imag())}; }
// contracts of Complex::exactlyZero / exactlyOne (one condition instead of two branches)
inline bool isZero(const Complex* c) { return (id(c->r) == id(&constants::zero)) & (id(c->i) == id(&constants::zero)); }
inline bool isOne(const Complex* c) { return (id(c->r) == id(&constants::one)) & (id(c->i) == id(&constants::zero)); }
inline bool isZeroV(const ComplexValue* v) { return (v->r == 0) & (v->i == 0); }
inline bool isOneV(const ComplexValue* v) { return (v->r == 1) & (v->i == 0); }
inline void useNumbers() {
  vp_replace_opt("^dd::ComplexValue::exactlyZero\\(\\) const", vp_fn(isZeroV));
  vp_replace_opt("^dd::ComplexValue::exactlyOne\\(\\) const", vp_fn(isOneV));
  vp_replace_opt("^dd::ComplexValue::approximatelyZero\\(\\) const", vp_fn(isZeroV)); // tolerance idealised
  vp_replace_opt("^dd::Complex::approximatelyZero\\(\\) const", vp_fn(isZero));
  vp_replace_opt("^dd::Complex::exactlyZero\\(\\) const", vp_fn(isZero));
  vp_replace_opt("^dd::Complex::exactlyOne\\(\\) const", vp_fn(isOne));
  vp_replace("^dd::RealNumber::val\\(", vp_fn(valStub));
  vp_replace_opt("^dd::RealNumber::flipPointerSign\\(", vp_fn(flipStub));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(double, double\\)", vp_fn(lookup2Stub));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(double\\)", vp_fn(lookup1Stub));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(dd::ComplexValue const&\\)", vp_fn(lookupVStub));
  vp_replace_opt("^dd::ComplexNumbers::lookup\\(std::complex<double> const&\\)", vp_fn(lookupCStub));
}
// value of the lower levels below pointer p
template <class N> Cx L(const N* p) { return {vp_ufr_1_0("Lre", id(p)), vp_ufr_1_0("Lim", id(p))}; }
inline U64 level(U64 p) { return vp_ufu_1_0("level", p); }

constexpr Qubit VAR_MAX = 60000;
inline Package& package() { return *static_cast<Package*>(vp_alloc_sym(sizeof(Package), "package")); }

// an arbitrary node at level v; inner children sit strictly below it (matrices) / one below (vectors)
template <class N> N* node(const char* name, Qubit v) {
  auto* p = static_cast<N*>(vp_lazy("node", name, sizeof(N)));
  vp_assume(p->v == v);
  return p;
}
template <class N> constexpr std::size_t W = std::tuple_size_v<decltype(N::e)>;
template <class N> constexpr bool MAT = W<N> == 4;

// value of a unit-weight subdiagram p at level v, component i
template <class N> Cx unfold(const N* p, Qubit v, std::size_t i) {
  if (p != nullptr && p->v == v) return cx(p->e[i].w) * L(p->e[i].p);
  if (MAT<N> && (i == 1 || i == 2)) return {0, 0};
  return L(p);
}
// an edge with an arbitrary non-zero weight denoting v below the current level
template <class N> CachedEdge<N> below(const char* n, Cx v) {
  const U64 p = vp_u64(n);
  const Cx w{vp_double("re"), vp_double("im")};
  vp_assume(w.re * w.re + w.im * w.im > 0);
  setc("Lre", "Lim", p, v / w);
  return {reinterpret_cast<N*>(p), ComplexValue{w.re, w.im}};
}
inline void zeroC(Cx v) {
  vp_assume_eq(v.re, 0);
  vp_assume_eq(v.im, 0);
}
// results handed out by the makeDDNode contract
struct Made {
  U64 p;
  Cx d[4];
};
inline Made made[8];
inline std::size_t nmade = 0;
template <class N> Cx unfoldR(const N* p, Qubit v, std::size_t i) {
  for (std::size_t k = 0; k < nmade; k++)
    if (vp_known(made[k].p == id(p))) return made[k].d[i];
  return unfold(p, v, i);
}
} // namespace vpdd
