// Conformance driver for the symmetric factorisations (C16).
#include <complex>
#include "vh.hpp"
#include "proxsuite-nlp/ldlt-allocator.hpp"
using namespace vh;
using namespace proxsuite::nlp;
using MatrixXd = Eigen::MatrixXd;
using Var = LDLTVariant<double>;
static std::map<std::string, std::shared_ptr<Var>> O;
struct Desc { std::vector<std::vector<long>> D, ops; };
static std::vector<std::vector<long>> ll(Reader &r) { long n = r.i(); std::vector<std::vector<long>> q; for (long i = 0; i < n; i++) q.push_back(r.li()); return q; }
template <class S> static Eigen::Matrix<S, -1, -1> build(const Desc &d, bool cplx, const S &unit) {
  using M = Eigen::Matrix<S, -1, -1>; long n = 0; for (auto &x : d.D) n += x.size() == 1 ? 1 : 2; M A = M::Zero(n, n); long k = 0;
  for (auto &x : d.D) { if (x.size() == 1) { A(k, k) = S(double(x[0])); k++; } else { A(k, k) = S(double(x[0])); A(k + 1, k) = A(k, k + 1) = S(double(x[1])); A(k + 1, k + 1) = S(double(x[2])); k += 2; } }
  for (auto &o : d.ops) { long i = o[1] - 1, j = o[2] - 1;
    if (o[0] == 0) { S c = S(double(o[3])) * unit; A.row(i) += c * A.row(j); A.col(i) += Eigen::numext::conj(c) * A.col(j); } else { A.row(i).swap(A.row(j)); A.col(i).swap(A.col(j)); } }
  (void)cplx; return A;
}
static MatrixXd X0(long n, long c, long seed) { MatrixXd X(n, c); for (long i = 1; i <= n; i++) for (long j = 1; j <= c; j++) X(i - 1, j - 1) = double((i * 7 + j * 3 + seed) % 5 - 2); return X; }
static long rnd(double v) { if (!std::isfinite(v) || std::abs(v) > 9e7) return NANV; double q = std::nearbyint(v); return std::abs(v - q) < 1e-4 ? (long)q : INEXACT; }
static J rm(const MatrixXd &M) { std::vector<J> r; for (long i = 0; i < M.rows(); i++) { std::vector<J> q; for (long j = 0; j < M.cols(); j++) q.push_back(jn(rnd(M(i, j)))); r.push_back(J::arr(q)); } return J::arr(r); }
static bool close(const MatrixXd &A, const MatrixXd &B, double tol) { return A.rows() == B.rows() && A.cols() == B.cols() && (A - B).cwiseAbs().maxCoeff() <= tol * std::max(B.cwiseAbs().maxCoeff(), 1e-300); }
static int sg(Eigen::internal::SignMatrix s) { return s == Eigen::internal::PositiveSemiDef ? 1 : s == Eigen::internal::NegativeSemiDef ? -1 : s == Eigen::internal::Indefinite ? 2 : 7; }
struct Rec { const MatrixXd &A; bool ok = true; int sign = 0;
  template <class F> void operator()(const F &f) { ok = close(f.reconstructedMatrix(), A, 1e-8); sign = sg(f.sign()); }
  void operator()(const Eigen::LDLT<MatrixXd> &f) { ok = close(f.reconstructedMatrix(), A, 1e-8); }
  void operator()(const BunchKaufman<MatrixXd> &f) { if (f.info() != Eigen::Success) return; MatrixXd B = A * MatrixXd::Identity(A.rows(), A.rows()); ok = close(f.solve(B), MatrixXd::Identity(A.rows(), A.rows()), 1e-5); }
};
static MatrixXd last_A(0, 0); static std::map<std::string, MatrixXd> Am;
static J factor(const std::string &s, const MatrixXd &A) {
  Var &v = *O.at(s); const MatrixXd A0 = A; Am[s] = A;
  boost::apply_visitor([&](auto &&f) { f.compute(A); }, v); bool ok = boost::apply_visitor([&](auto &&f) -> bool { return f.info() == Eigen::Success; }, v);
  Eigen::VectorXi sig(1); boost::apply_visitor(ComputeSignatureVisitor{sig}, v); auto t = computeInertiaTuple(sig); Rec q{A}; boost::apply_visitor(q, v);
  return J::arr({jb(ok), J::arr({jn(t[0]), jn(t[1]), jn(t[2])}), jb(q.ok && A == A0), jn(q.sign)});
}
template <class S> static J direct(Reader &r, S unit, double tol) {
  using M = Eigen::Matrix<S, -1, -1>; Desc d{ll(r), ll(r)}; long how = r.i(), seed = r.i(); M A = build<S>(d, true, unit), X = X0(A.rows(), 2, seed).template cast<S>();
  for (long i = 0; i < X.rows(); i++) X(i, 1) *= unit;
  BunchKaufman<M> f(A.rows()); f.compute(A); std::array<int, 3> t{0, 0, 0}; M Y; if constexpr (!Eigen::NumTraits<S>::IsComplex) { Eigen::VectorXi sig(3); ::proxsuite::nlp::internal::bunch_kaufman_compute_signature(f, sig); t = computeInertiaTuple(sig); }
  if constexpr (Eigen::NumTraits<S>::IsComplex) { if (how == 1) Y = f.adjoint().solve((A.adjoint() * X).eval()); else Y = f.solve((A * X).eval()); } else Y = f.solve((A * X).eval());
  return J::arr({jb(f.info() == Eigen::Success), J::arr({jn(t[0]), jn(t[1]), jn(t[2])}), jb(double((Y - X).cwiseAbs().maxCoeff()) <= tol)});
}
int main(int argc, char **argv) {
  return loop(argc, argv, [](Reader &r) -> J {
    std::string op = r.w(); J ok = J::arr({js("ok")});
    if (op == "reset") { O.clear(); return ok; }
    if (op == "mat") { Desc d{ll(r), ll(r)}; return J::arr({rm(build<double>(d, false, 1.))}); }
    if (op == "cplx") return direct<std::complex<double>>(r, std::complex<double>(0, 1), 1e-4);
    if (op == "float") return direct<long double>(r, 1.L, 1e-4);
    if (op == "tuple") { auto v = r.li(); Eigen::VectorXi s(v.size()); for (size_t i = 0; i < v.size(); i++) s(i) = (int)v[i];
      try { auto t = computeInertiaTuple(s); return J::arr({J::arr({jn(t[0]), jn(t[1]), jn(t[2])})}); } catch (const std::runtime_error &) { return J::arr({js("refused")}); } }
    if (op == "newbad") { try { auto v = allocate_ldlt_from_sizes<double>({2}, {1}, LDLTChoice::PROXSUITE); return J::arr({js("allocated")}); } catch (const std::runtime_error &) { return J::arr({js("refused")}); } }
    std::string s = r.w();
    if (op == "new") { long b = r.i(); auto p = r.li(), q = r.li(); std::vector<isize> P(p.begin(), p.end()), Q(q.begin(), q.end());
      LDLTChoice c = b == 1 ? LDLTChoice::DENSE : b == 2 ? LDLTChoice::BLOCKSPARSE : b == 3 ? LDLTChoice::EIGEN : LDLTChoice::BUNCHKAUFMAN;
      O[s] = std::make_shared<Var>(allocate_ldlt_from_sizes<double>(P, Q, c)); Var &v = *O[s];
      return J::arr({js(boost::get<linalg::DenseLDLT<double>>(&v) ? "dense" : boost::get<linalg::BlockLDLT<double>>(&v) ? "block" : boost::get<Eigen::LDLT<MatrixXd>>(&v) ? "eigen" : "bk")}); }
    if (op == "copy") { auto t = r.w(); O[s] = std::make_shared<Var>(*O.at(t)); Am[s] = MatrixXd(Am[t]); return ok; }
    if (op == "asg") { auto t = r.w(); *O.at(s) = *O.at(t); Am[s] = MatrixXd(Am[t]); return ok; }
    if (op == "fac") { Desc d{ll(r), ll(r)}; long sc = r.i(); MatrixXd A = build<double>(d, false, 1.) * std::ldexp(1., (int)sc); return factor(s, A); }
    if (op == "kkt") { Desc d{ll(r), ll(r)}; auto E = r.li(); auto C = ll(r); double g = r.i(); long sc = r.i(); MatrixXd H = build<double>(d, false, 1.); long n = H.rows(), m = E.size(); MatrixXd K = MatrixXd::Zero(n + m, n + m);
      K.topLeftCorner(n, n) = H; for (long i = 0; i < m; i++) { K(n + i, n + i) = -double(E[i]); for (long j = 0; j < n; j++) K(n + i, j) = K(j, n + i) = double(C[i][j]); } K *= g * std::ldexp(1., (int)sc); return factor(s, K); }
    if (op == "solve") { long how = r.i(), c = r.i(), seed = r.i(); Var &v = *O.at(s); const MatrixXd &A = Am.at(s); MatrixXd X = X0(A.rows(), c, seed), B = A * X, Y; bool fl = true;
      if (how == 0) boost::apply_visitor([&](auto &&f) { Y = f.solve(B); }, v);
      else if (how == 1) { Y = B; boost::apply_visitor([&](auto &&f) { fl = f.solveInPlace(Y); }, v); }
      else { MatrixXd G = MatrixXd::Constant(B.rows() + 2, B.cols() + 1, 5); auto b = G.block(1, 0, B.rows(), B.cols()); b = B; boost::apply_visitor([&](auto &&f) { fl = f.solveInPlace(b); }, v); Y = b; b.setConstant(5); if ((G.array() != 5).any()) fl = false; }
      return J::arr({jb(fl), rm(Y)}); }
    fprintf(stderr, "op %s\n", op.c_str()); exit(3);
  });
}
