// Shared by the drivers for block structures.
#pragma once
#include "vh.hpp"
#include "proxsuite-nlp/linalg/block-triangular.hpp"
using namespace vh;
using namespace proxsuite::nlp::linalg;
using MatrixXd = Eigen::MatrixXd; using VectorXd = Eigen::VectorXd;
using Sym = SymbolicBlockMatrix;
inline std::vector<std::vector<long>> kindsIn(Reader &r) { long n = r.i(); std::vector<std::vector<long>> k; for (long i = 0; i < n; i++) k.push_back(r.li()); return k; }
inline Sym make(const std::vector<long> &lens, const std::vector<std::vector<long>> &k) {
  long n = lens.size(), os = n + n % 2; Sym s(n, os);
  for (long i = 0; i < os * n; i++) s.m_data[i] = Dense;
  for (long i = 0; i < n; i++) { s.segment_lens[i] = lens[i]; for (long j = 0; j < n; j++) s(i, j) = (BlockKind)k[i][j]; }
  return s;
}
/// integers, when the values are integers up to rounding
inline long rnd(double v) { if (!std::isfinite(v) || std::abs(v) > 9e7) return NANV; double q = std::nearbyint(v); return std::abs(v - q) < 1e-6 ? (long)q : INEXACT; }
inline J rm(const MatrixXd &M) { std::vector<J> r; for (long i = 0; i < M.rows(); i++) { std::vector<J> q; for (long j = 0; j < M.cols(); j++) q.push_back(jn(rnd(M(i, j)))); r.push_back(J::arr(q)); } return J::arr(r); }
