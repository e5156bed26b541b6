// Reference matrices, written from the documented gate definitions (independent of the code).
#pragma once
#include "ir/operations/OpType.hpp"

#include <array>
#include <cmath>
#include <complex>
#include <stdexcept>
#include <vector>
namespace spec {
using C = std::complex<double>;
using M2 = std::array<C, 4>;
using M4 = std::array<C, 16>;
struct G {
  qc::OpType type;
  std::size_t nparams;
};
inline const std::vector<G>& single() {
  static const std::vector<G> v{{qc::I, 0}, {qc::H, 0}, {qc::X, 0}, {qc::Y, 0}, {qc::Z, 0}, {qc::S, 0}, {qc::Sdg, 0},
                                {qc::T, 0}, {qc::Tdg, 0}, {qc::V, 0}, {qc::Vdg, 0}, {qc::SX, 0}, {qc::SXdg, 0},
                                {qc::P, 1}, {qc::RX, 1}, {qc::RY, 1}, {qc::RZ, 1}, {qc::U2, 2}, {qc::U, 3}};
  return v;
}
inline const std::vector<G>& two() {
  static const std::vector<G> v{{qc::SWAP, 0}, {qc::iSWAP, 0}, {qc::iSWAPdg, 0}, {qc::Peres, 0}, {qc::Peresdg, 0},
                                {qc::DCX, 0}, {qc::ECR, 0}, {qc::RXX, 1}, {qc::RYY, 1}, {qc::RZZ, 1}, {qc::RZX, 1},
                                {qc::XXminusYY, 2}, {qc::XXplusYY, 2}};
  return v;
}
inline C ei(double x) { return {std::cos(x), std::sin(x)}; }
inline const double RT = std::sqrt(0.5);
inline const C im{0, 1};
inline const M2 ID{1, 0, 0, 1}, PX{0, 1, 1, 0}, PY{0, -im, im, 0}, PZ{1, 0, 0, -1};
inline M2 rot(double t, const M2& p) {
  M2 r{};
  for (int i = 0; i < 4; i++) r[i] = std::cos(t / 2) * ID[i] - im * std::sin(t / 2) * p[i];
  return r;
}
inline M2 matrix1(qc::OpType t, const std::vector<double>& p) {
  switch (t) {
  case qc::I: return ID;
  case qc::H: return {RT, RT, RT, -RT};
  case qc::X: return PX;
  case qc::Y: return PY;
  case qc::Z: return PZ;
  case qc::S: return {1, 0, 0, im};
  case qc::Sdg: return {1, 0, 0, -im};
  case qc::T: return {1, 0, 0, ei(M_PI / 4)};
  case qc::Tdg: return {1, 0, 0, ei(-M_PI / 4)};
  case qc::V: return rot(M_PI / 2, PX);
  case qc::Vdg: return rot(-M_PI / 2, PX);
  case qc::SX: { auto m = rot(M_PI / 2, PX); for (auto& x : m) x *= ei(M_PI / 4); return m; }
  case qc::SXdg: { auto m = rot(-M_PI / 2, PX); for (auto& x : m) x *= ei(-M_PI / 4); return m; }
  case qc::P: return {1, 0, 0, ei(p.at(0))};
  case qc::RX: return rot(p.at(0), PX);
  case qc::RY: return rot(p.at(0), PY);
  case qc::RZ: return rot(p.at(0), PZ);
  case qc::U2: return {RT, -ei(p.at(1)) * RT, ei(p.at(0)) * RT, ei(p.at(0) + p.at(1)) * RT};
  case qc::U: {
    const double c = std::cos(p.at(0) / 2), s = std::sin(p.at(0) / 2);
    return {c, -ei(p.at(2)) * s, ei(p.at(1)) * s, ei(p.at(1) + p.at(2)) * c};
  }
  default: throw std::runtime_error("spec: no such gate");
  }
}
// first factor: most significant qubit (first target)
inline M4 kron(const M2& a, const M2& b) {
  M4 r{};
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) r[i * 4 + j] = a[(i / 2) * 2 + j / 2] * b[(i % 2) * 2 + j % 2];
  return r;
}
inline M4 mul(const M4& a, const M4& b) {
  M4 r{};
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++)
      for (int k = 0; k < 4; k++) r[i * 4 + j] += a[i * 4 + k] * b[k * 4 + j];
  return r;
}
inline M4 rot2(double t, const M4& p) {
  M4 r{};
  for (int i = 0; i < 16; i++) r[i] = -im * std::sin(t / 2) * p[i];
  for (int i = 0; i < 4; i++) r[i * 5] += std::cos(t / 2);
  return r;
}
inline M4 adj(const M4& a) {
  M4 r{};
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) r[i * 4 + j] = std::conj(a[j * 4 + i]);
  return r;
}
inline const M4 CX01{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0}; // control = first target
inline const M4 CX10{1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0}; // control = second target
inline M4 matrix2(qc::OpType t, const std::vector<double>& p) {
  switch (t) {
  case qc::SWAP: return {1, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1};
  case qc::iSWAP: return {1, 0, 0, 0, 0, 0, im, 0, 0, im, 0, 0, 0, 0, 0, 1};
  case qc::iSWAPdg: return {1, 0, 0, 0, 0, 0, -im, 0, 0, -im, 0, 0, 0, 0, 0, 1};
  case qc::DCX: return mul(CX10, CX01);
  case qc::Peres: return mul(kron(PX, ID), CX01);
  case qc::Peresdg: return adj(mul(kron(PX, ID), CX01));
  case qc::ECR: {
    // (IX - XY)/sqrt2 with the tensor order first (x) second = X (x) I ... see kron
    M4 a = kron(PX, ID), b = kron(PY, PX), r{};
    for (int i = 0; i < 16; i++) r[i] = (a[i] - b[i]) * RT;
    return r;
  }
  case qc::RXX: return rot2(p.at(0), kron(PX, PX));
  case qc::RYY: return rot2(p.at(0), kron(PY, PY));
  case qc::RZZ: return rot2(p.at(0), kron(PZ, PZ));
  case qc::RZX: return rot2(p.at(0), kron(PZ, PX));
  case qc::XXminusYY: {
    const double c = std::cos(p.at(0) / 2), s = std::sin(p.at(0) / 2);
    return {c, 0, 0, -im * ei(-p.at(1)) * s, 0, 1, 0, 0, 0, 0, 1, 0, -im * ei(p.at(1)) * s, 0, 0, c};
  }
  case qc::XXplusYY: {
    const double c = std::cos(p.at(0) / 2), s = std::sin(p.at(0) / 2);
    return {1, 0, 0, 0, 0, c, -im * ei(p.at(1)) * s, 0, 0, -im * ei(-p.at(1)) * s, c, 0, 0, 0, 0, 1};
  }
  default: throw std::runtime_error("spec: no such gate");
  }
}
} // namespace spec
