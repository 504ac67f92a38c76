// Conformance driver for the helpers of math.hpp (C23).
#include "vh.hpp"
#include "proxsuite-nlp/math.hpp"
using namespace vh; using namespace proxsuite::nlp; using V = Eigen::VectorXd; using M = Eigen::MatrixXd;
static double big = 1.7e308;
static double de(long k) { if (std::labs(k) == 99000000) return k > 0 ? big : -big; return k == NANV ? NAN : k >= INF ? INFINITY : k <= -INF ? -INFINITY : k / 8.; }
static M mat(Reader &r, bool rowv) { long n = r.i(); std::vector<std::vector<long>> q; size_t c = rowv ? 0 : 1; for (long i = 0; i < n; i++) { q.push_back(r.li()); c = q.back().size(); } M m(n, c); for (long i = 0; i < n; i++) for (size_t j = 0; j < c; j++) m(i, j) = de(q[i][j]); return m; }
static J num(double v) { return jn(exact(v, 8)); }
// apply f to the value in the requested representation
template <class F> static auto shaped(long sh, const M &m, double fill, F f) {
  switch (sh) {
  case 0: { V v = m.size() ? V(m.col(0)) : V(0); return f(v); }
  case 1: { Eigen::RowVectorXd v = m.row(0); return f(v); }
  case 3: { Eigen::Matrix<double, -1, -1, Eigen::RowMajor> v = m; return f(v); }
  case 4: { M b = M::Constant(m.rows() + 2, m.cols() + 3, fill); b.block(1, 2, m.rows(), m.cols()) = m; return f(b.block(1, 2, m.rows(), m.cols())); }
  case 5: { Eigen::MatrixXf v = m.cast<float>(); return f(v); }
  case 6: { Eigen::Vector3d v = m.col(0); return f(v); }
  case 7: { V b = V::Constant(2 * m.rows() + 1, fill); Eigen::Map<V, 0, Eigen::InnerStride<2>> v(b.data(), m.rows()); if (m.size()) v = m.col(0); return f(v); }
  case 8: { M h = m; return f(h * 1.0); }
  default: return f(m);
  }
}
static J run(Reader &r) {
  std::string op = r.w(); if (op == "reset") return J::arr({});
  if (op == "inf") { long sh = r.i(); M m = mat(r, sh == 1); return shaped(sh, m, 7e6, [](const auto &x) { return num(math::infty_norm(x)); }); }
  if (op == "infl") { long n = r.i(); std::vector<V> v; for (long i = 0; i < n; i++) { auto q = r.li(); V x(q.size()); for (size_t j = 0; j < q.size(); j++) x(j) = de(q[j]); v.push_back(x); } return num(math::infty_norm(v)); }
  if (op == "sign") { long t = r.i(); double v = de(r.i()); return t == 0 ? jn((long)math::sign(v)) : t == 1 ? jn((long)math::sign((float)v)) : jn(math::sign((int)v)); }
  if (op == "chk") { long sh = r.i(); big = sh == 5 ? 3e38 : 1.7e308; M m = mat(r, sh == 1); return shaped(sh, m, NAN, [](const auto &x) { return jb(math::check_value(x)); }); }
  if (op == "chks") { long t = r.i(); big = t ? 3e38 : 1.7e308; double v = de(r.i()); bool a = t ? math::check_scalar((float)v) : math::check_scalar(v), b = t ? math::check_value((float)v) : math::check_value(v); return a == b ? jb(a) : js("differ"); }
  double a = r.i() / 8., b = r.i() / 8.; long p = r.i(), k = r.i(); return jb(p == 0 ? math::scalar_close(a, b) : math::scalar_close(a, b, std::ldexp((double)p, -k)));
}
int main(int c, char **v) { return loop(c, v, run); }
