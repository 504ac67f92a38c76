// Helpers shared by the conformance drivers: token reader, JSON result writer,
// exact fixed-point encodings of doubles for TLC's 32-bit integers.
#pragma once
#include <Eigen/Core>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vh {
constexpr long INF = 100000000;      // +-infinity (also decoded as such)
constexpr long INEXACT = 1000000001; // not a multiple of the unit
constexpr long NANV = 1000000002;
constexpr long BIG = 1000000003; // out of the representable range

inline long exact(double v, double scale) {
  if (std::isnan(v)) return NANV;
  if (std::isinf(v)) return v > 0 ? INF : -INF;
  double s = v * scale;
  if (std::abs(s) >= 9e7) return BIG;
  double r = std::nearbyint(s);
  if (r != s) return INEXACT;
  return (long)r;
}
/// rounded to the unit 1/scale
inline long fx(double v, double scale) {
  if (std::isnan(v)) return NANV;
  if (std::isinf(v)) return v > 0 ? INF : -INF;
  double s = v * scale;
  if (std::abs(s) >= 9e7) return s > 0 ? BIG : -BIG;
  return (long)std::nearbyint(s);
}
inline double dec(long k, double scale) {
  if (k >= INF) return std::numeric_limits<double>::infinity();
  if (k <= -INF) return -std::numeric_limits<double>::infinity();
  return double(k) / scale;
}

struct Reader {
  std::istringstream s;
  explicit Reader(const std::string &l) : s(l) {}
  std::string w() { std::string x; if (!(s >> x)) { fprintf(stderr, "driver: missing token\n"); exit(3);} return x; }
  long i() { return std::stol(w()); }
  std::vector<long> li() { long n = i(); std::vector<long> r(n); for (auto &x : r) x = i(); return r; }
  std::vector<std::string> lw() { long n = i(); std::vector<std::string> r(n); for (auto &x : r) x = w(); return r; }
  Eigen::VectorXd v(double scale) { long n = i(); Eigen::VectorXd r(n); for (long k = 0; k < n; k++) r(k) = dec(i(), scale); return r; }
  /// list of rows; cols needed when there is no row
  Eigen::MatrixXd m(double scale, long cols = 0) {
    long n = i(); std::vector<std::vector<long>> rows;
    for (long k = 0; k < n; k++) { rows.push_back(li()); cols = (long)rows.back().size(); }
    Eigen::MatrixXd r(n, cols);
    for (long a = 0; a < n; a++) for (long b = 0; b < cols; b++) r(a, b) = dec(rows[a][b], scale);
    return r;
  }
};

/// JSON fragments
struct J {
  std::string s;
  static J str(const std::string &x) { J j; j.s = "\"" + x + "\""; return j; }
  static J num(long x) { J j; j.s = std::to_string(x); return j; }
  static J boolean(bool b) { J j; j.s = b ? "true" : "false"; return j; }
  static J arr(const std::vector<J> &v) { J j; j.s = "["; for (size_t k = 0; k < v.size(); k++) { if (k) j.s += ","; j.s += v[k].s; } j.s += "]"; return j; }
};
inline J jn(long x) { return J::num(x); }
inline J js(const std::string &x) { return J::str(x); }
inline J jb(bool b) { return J::boolean(b); }
inline J ex(double v, double sc) { return jn(exact(v, sc)); }
template <class V> J exv(const V &v, double sc) { std::vector<J> r; for (long k = 0; k < v.size(); k++) r.push_back(ex(v(k), sc)); return J::arr(r); }
template <class M> J exm(const M &m, double sc) { std::vector<J> r; for (long k = 0; k < m.rows(); k++) { std::vector<J> q; for (long l = 0; l < m.cols(); l++) q.push_back(ex(m(k, l), sc)); r.push_back(J::arr(q)); } return J::arr(r); }
template <class V> J fxv(const V &v, double sc) { std::vector<J> r; for (long k = 0; k < v.size(); k++) r.push_back(jn(fx(v(k), sc))); return J::arr(r); }
template <class M> J fxm(const M &m, double sc) { std::vector<J> r; for (long k = 0; k < m.rows(); k++) { std::vector<J> q; for (long l = 0; l < m.cols(); l++) q.push_back(jn(fx(m(k, l), sc))); r.push_back(J::arr(q)); } return J::arr(r); }
template <class V> J jbv(const V &v) { std::vector<J> r; for (long k = 0; k < v.size(); k++) r.push_back(jb(v(k))); return J::arr(r); }
template <class T> J jil(const std::vector<T> &v) { std::vector<J> r; for (auto x : v) r.push_back(jn((long)x)); return J::arr(r); }

/// main loop: one result per step
template <class F> int loop(int argc, char **argv, F step) {
  if (argc < 3) { fprintf(stderr, "usage: driver ops.txt res.ndjson\n"); return 2; }
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  std::string line;
  while (std::getline(in, line)) {
    Reader r(line);
    J j = step(r);
    fputs(j.s.c_str(), out); fputc('\n', out); fflush(out);
  }
  fclose(out);
  return 0;
}
} // namespace vh
