// @sources src/dd/GateMatrixDefinitions.cpp
// Contract of opToSingleQubitGateMatrix / opToTwoQubitGateMatrix: for every gate
// type and every real parameter value the result is exactly the documented matrix.
#include "vp.h"

#include "dd/GateMatrixDefinitions.hpp"

#include <array>
#include <cmath>
#include <complex>
#include <vector>

using namespace dd;
namespace {
struct C {
  double r, i;
};
using M2 = std::array<C, 4>;
using M4 = std::array<std::array<C, 4>, 4>;
const double RT = 0.70710678118654752440; // 1/sqrt(2)

C mul(C a, C b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
C expi(double t) { return {std::cos(t), std::sin(t)}; }

void same(const GateMatrix& g, const M2& s, const char* l) {
  for (int k = 0; k < 4; k++) {
    vp_assert_eq(g[k].real(), s[k].r, l);
    vp_assert_eq(g[k].imag(), s[k].i, l);
  }
}
void same(const TwoQubitGateMatrix& g, const M4& s, const char* l) {
  for (int k = 0; k < 4; k++) {
    for (int j = 0; j < 4; j++) {
      vp_assert_eq(g[k][j].real(), s[k][j].r, l);
      vp_assert_eq(g[k][j].imag(), s[k][j].i, l);
    }
  }
}
void unitary(const GateMatrix& g, const char* l) {
  for (int a = 0; a < 2; a++) {
    for (int b = 0; b < 2; b++) {
      double re = 0, im = 0;
      for (int k = 0; k < 2; k++) {
        const C x{g[a * 2 + k].real(), g[a * 2 + k].imag()};
        const C y{g[b * 2 + k].real(), -g[b * 2 + k].imag()};
        const C p = mul(x, y);
        re += p.r;
        im += p.i;
      }
      vp_assert_eq(re, a == b ? 1. : 0., l);
      vp_assert_eq(im, 0., l);
    }
  }
}
void unitary(const TwoQubitGateMatrix& g, const char* l) {
  for (int a = 0; a < 4; a++) {
    for (int b = 0; b < 4; b++) {
      double re = 0, im = 0;
      for (int k = 0; k < 4; k++) {
        const C x{g[a][k].real(), g[a][k].imag()};
        const C y{g[b][k].real(), -g[b][k].imag()};
        const C p = mul(x, y);
        re += p.r;
        im += p.i;
      }
      vp_assert_eq(re, a == b ? 1. : 0., l);
      vp_assert_eq(im, 0., l);
    }
  }
}
// A (x) B, first factor acts on the most significant qubit
M4 kron(const M2& a, const M2& b) {
  M4 r{};
  for (int i = 0; i < 4; i++) {
    for (int j = 0; j < 4; j++) {
      r[i][j] = mul(a[(i / 2) * 2 + j / 2], b[(i % 2) * 2 + j % 2]);
    }
  }
  return r;
}
// cos(t/2) I - i sin(t/2) P
template <class M> M rot(double t, const M& p);
template <> M2 rot<M2>(double t, const M2& p) {
  M2 r{};
  const C ms{0, -std::sin(t / 2)};
  for (int k = 0; k < 4; k++) {
    r[k] = mul(ms, p[k]);
  }
  r[0].r += std::cos(t / 2);
  r[3].r += std::cos(t / 2);
  return r;
}
template <> M4 rot<M4>(double t, const M4& p) {
  M4 r{};
  const C ms{0, -std::sin(t / 2)};
  for (int k = 0; k < 4; k++) {
    for (int j = 0; j < 4; j++) {
      r[k][j] = mul(ms, p[k][j]);
    }
    r[k][k].r += std::cos(t / 2);
  }
  return r;
}
const M2 PX{C{0, 0}, {1, 0}, {1, 0}, {0, 0}};
const M2 PY{C{0, 0}, {0, -1}, {0, 1}, {0, 0}};
const M2 PZ{C{1, 0}, {0, 0}, {0, 0}, {-1, 0}};
const M2 PI2{C{1, 0}, {0, 0}, {0, 0}, {1, 0}};
} // namespace

VP_HARNESS H_fixed1() {
  same(opToSingleQubitGateMatrix(qc::I), PI2, "I = identity");
  same(opToSingleQubitGateMatrix(qc::X), PX, "X matrix");
  same(opToSingleQubitGateMatrix(qc::Y), PY, "Y matrix");
  same(opToSingleQubitGateMatrix(qc::Z), PZ, "Z matrix");
  same(opToSingleQubitGateMatrix(qc::H), M2{C{RT, 0}, {RT, 0}, {RT, 0}, {-RT, 0}}, "H matrix");
  same(opToSingleQubitGateMatrix(qc::S), M2{C{1, 0}, {0, 0}, {0, 0}, {0, 1}}, "S matrix");
  same(opToSingleQubitGateMatrix(qc::Sdg), M2{C{1, 0}, {0, 0}, {0, 0}, {0, -1}}, "Sdg matrix");
  same(opToSingleQubitGateMatrix(qc::T), M2{C{1, 0}, {0, 0}, {0, 0}, {RT, RT}}, "T matrix");
  same(opToSingleQubitGateMatrix(qc::Tdg), M2{C{1, 0}, {0, 0}, {0, 0}, {RT, -RT}}, "Tdg matrix");
  same(opToSingleQubitGateMatrix(qc::SX), M2{C{.5, .5}, {.5, -.5}, {.5, -.5}, {.5, .5}}, "SX matrix");
  same(opToSingleQubitGateMatrix(qc::SXdg), M2{C{.5, -.5}, {.5, .5}, {.5, .5}, {.5, -.5}}, "SXdg matrix");
  same(opToSingleQubitGateMatrix(qc::V), M2{C{RT, 0}, {0, -RT}, {0, -RT}, {RT, 0}}, "V = RX(pi/2)");
  same(opToSingleQubitGateMatrix(qc::Vdg), M2{C{RT, 0}, {0, RT}, {0, RT}, {RT, 0}}, "Vdg = RX(-pi/2)");
}

VP_HARNESS H_param1() {
  const double t = vp_double("theta");
  const double p = vp_double("phi");
  const double l = vp_double("lambda");
  const auto u = opToSingleQubitGateMatrix(qc::U, {t, p, l});
  const double c = std::cos(t / 2), s = std::sin(t / 2);
  const C el = expi(l), ep = expi(p), epl = expi(p + l);
  same(u, M2{C{c, 0}, {-el.r * s, -el.i * s}, {ep.r * s, ep.i * s}, {epl.r * c, epl.i * c}}, "U(theta,phi,lambda) matrix");
  unitary(u, "U is unitary");
  const auto u2 = opToSingleQubitGateMatrix(qc::U2, {p, l});
  same(u2, M2{C{RT, 0}, {-el.r * RT, -el.i * RT}, {ep.r * RT, ep.i * RT}, {epl.r * RT, epl.i * RT}}, "U2(phi,lambda) matrix");
  unitary(u2, "U2 is unitary");
  same(opToSingleQubitGateMatrix(qc::P, {t}), M2{C{1, 0}, {0, 0}, {0, 0}, expi(t)}, "P(theta) matrix");
  same(opToSingleQubitGateMatrix(qc::RX, {t}), rot(t, PX), "RX = exp(-i t/2 X)");
  same(opToSingleQubitGateMatrix(qc::RY, {t}), rot(t, PY), "RY = exp(-i t/2 Y)");
  same(opToSingleQubitGateMatrix(qc::RZ, {t}), rot(t, PZ), "RZ = exp(-i t/2 Z)");
  vp_cover("param1");
}

VP_HARNESS H_fixed2() {
  const C o{1, 0}, z{0, 0}, i{0, 1}, mi{0, -1};
  same(opToTwoQubitGateMatrix(qc::SWAP), M4{{{o, z, z, z}, {z, z, o, z}, {z, o, z, z}, {z, z, z, o}}}, "SWAP matrix");
  same(opToTwoQubitGateMatrix(qc::iSWAP), M4{{{o, z, z, z}, {z, z, i, z}, {z, i, z, z}, {z, z, z, o}}}, "iSWAP matrix");
  same(opToTwoQubitGateMatrix(qc::iSWAPdg), M4{{{o, z, z, z}, {z, z, mi, z}, {z, mi, z, z}, {z, z, z, o}}}, "iSWAPdg matrix");
  const C r{RT, 0}, ri{0, RT}, mri{0, -RT};
  same(opToTwoQubitGateMatrix(qc::ECR), M4{{{z, z, r, ri}, {z, z, ri, r}, {r, mri, z, z}, {mri, r, z, z}}}, "ECR matrix");
  same(opToTwoQubitGateMatrix(qc::DCX), M4{{{o, z, z, z}, {z, z, o, z}, {z, z, z, o}, {z, o, z, z}}}, "DCX matrix");
  same(opToTwoQubitGateMatrix(qc::Peres), M4{{{z, z, z, o}, {z, z, o, z}, {o, z, z, z}, {z, o, z, z}}}, "Peres matrix");
  same(opToTwoQubitGateMatrix(qc::Peresdg), M4{{{z, z, o, z}, {z, z, z, o}, {z, o, z, z}, {o, z, z, z}}}, "Peresdg matrix");
  for (const auto g : {qc::SWAP, qc::iSWAP, qc::iSWAPdg, qc::ECR, qc::DCX, qc::Peres, qc::Peresdg}) {
    unitary(opToTwoQubitGateMatrix(g), "fixed two-qubit gate is unitary");
  }
}

VP_HARNESS H_param2() {
  const double t = vp_double("theta");
  const double b = vp_double("beta");
  same(opToTwoQubitGateMatrix(qc::RXX, {t}), rot(t, kron(PX, PX)), "RXX = exp(-i t/2 XX)");
  same(opToTwoQubitGateMatrix(qc::RYY, {t}), rot(t, kron(PY, PY)), "RYY = exp(-i t/2 YY)");
  same(opToTwoQubitGateMatrix(qc::RZZ, {t}), rot(t, kron(PZ, PZ)), "RZZ = exp(-i t/2 ZZ)");
  same(opToTwoQubitGateMatrix(qc::RZX, {t}), rot(t, kron(PZ, PX)), "RZX = exp(-i t/2 ZX)");
  const double c = std::cos(t / 2), s = std::sin(t / 2);
  const double cb = std::cos(b), sb = std::sin(b);
  const C o{1, 0}, z{0, 0}, cc{c, 0};
  // XX-YY: acts on |00>,|11>; XX+YY: acts on |01>,|10>; phase exp(-+i beta)
  same(opToTwoQubitGateMatrix(qc::XXminusYY, {t, b}),
       M4{{{cc, z, z, C{-sb * s, -cb * s}}, {z, o, z, z}, {z, z, o, z}, {C{sb * s, -cb * s}, z, z, cc}}}, "XXminusYY matrix");
  same(opToTwoQubitGateMatrix(qc::XXplusYY, {t, b}),
       M4{{{o, z, z, z}, {z, cc, C{sb * s, -cb * s}, z}, {z, C{-sb * s, -cb * s}, cc, z}, {z, z, z, o}}}, "XXplusYY matrix");
  for (const auto g : {qc::RXX, qc::RYY, qc::RZZ, qc::RZX}) {
    unitary(opToTwoQubitGateMatrix(g, {t}), "rotation is unitary");
  }
  unitary(opToTwoQubitGateMatrix(qc::XXminusYY, {t, b}), "XXminusYY is unitary");
  unitary(opToTwoQubitGateMatrix(qc::XXplusYY, {t, b}), "XXplusYY is unitary");
  vp_cover("param2");
}
