// Conformance driver for complete solves (C01, C02, C04, C19, C20, C21, C22): emits the
// events of the run, observed through the user's cost function, callbacks and stdout.
#include "vh.hpp"
#include "spaces.hpp"
#include "proxsuite-nlp/prox-solver.hpp"
#include "proxsuite-nlp/helpers/history-callback.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
#include <Eigen/Eigenvalues>
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
using namespace vh;
using VS = VectorSpaceTpl<double>; using Cart = CartesianProductTpl<double>; using Poly = polymorphic<MBase>;
using VectorXd = Eigen::VectorXd; using MatrixXd = Eigen::MatrixXd;
using Prob = ProblemTpl<double>; using Ws = WorkspaceTpl<double>; using Rs = ResultsTpl<double>; using CO = ConstraintObjectTpl<double>; using CSet = ConstraintSetTpl<double>;
using Solver = ProxNLPSolverTpl<double>; using PSet = polymorphic<CSet>;
static FILE *out;
static const long NEGINF = -9999999, NANL = 9999999;
static long lg(double v) { if (std::isnan(v)) return NANL; if (v < 0) return NANL - 1; if (v == 0) return NEGINF; if (std::isinf(v)) return NANL - 2; return std::lround(1024 * std::log2(v)); }
struct Obj { std::string s = "{"; void f(const char *k, const J &v) { if (s.size() > 1) s += ","; s += std::string("\"") + k + "\":" + v.s; } void n(const char *k, long v) { f(k, jn(v)); } void t(const char *k, const std::string &v) { f(k, js(v)); } };
static void emit(Obj &o) { fputs((o.s + "}").c_str(), out); fputc('\n', out); fflush(out); }
// ---- digests (exact bits) ----
static std::string hx(const void *p, size_t n) { unsigned long h = 1469598103934665603ul; auto *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ul; } char b[20]; snprintf(b, sizeof b, "%016lx", h); return b; }
template <class V> static std::string dg(const V &v) { VectorXd w = v; return hx(w.data(), w.size() * sizeof(double)); }
static std::string dd(double v) { return hx(&v, sizeof v); }
static std::string chain;
static void mix(const std::string &s) { std::string t = chain + s; chain = hx(t.data(), t.size()); }
// ---- problems ----
struct Fn : C2FunctionTpl<double> { // A z + b + w z_j^2 in tangent coordinates z at the front of x
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); MatrixXd A; VectorXd b, w; long j, n;
  Fn(int nx, const MatrixXd &A, const VectorXd &b, const VectorXd &w, long j) : C2FunctionTpl<double>(nx, A.cols(), A.rows()), A(A), b(b), w(w), j(j), n(A.cols()) {}
  VectorXs operator()(const ConstVectorRef &x) const override { return A * x.head(n) + b + w * x(j) * x(j); }
  void computeJacobian(const ConstVectorRef &x, MatrixRef Jo) const override { Jo = A; Jo.col(j) += 2 * w * x(j); }
  void vectorHessianProduct(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef H) const override { H.setZero(); H(j, j) = 2 * w.dot(v); }
};
struct Cost : CostFunctionBaseTpl<double> { // quadratic + k3 z0^3 + k4 z_0^4
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); MatrixXd Q; VectorXd q; double k3, k4; long n;
  Cost(int nx, const MatrixXd &Q, const VectorXd &q, double k3, double k4) : CostFunctionBaseTpl<double>(nx, q.size()), Q(Q), q(q), k3(k3), k4(k4), n(q.size()) {}
  double call(const ConstVectorRef &x) const override { VectorXd z = x.head(n); return 0.5 * z.dot(Q * z) + q.dot(z) + k3 * z(0) * z(0) * z(0) + k4 * z(0) * z(0) * z(0) * z(0); }
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override { VectorXd z = x.head(n); g = Q * z + q; g(0) += 3 * k3 * z(0) * z(0) + 4 * k4 * z(0) * z(0) * z(0); }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override { H = Q; H(0, 0) += 6 * k3 * x(0) + 12 * k4 * x(0) * x(0); }
};
struct Rosen : CostFunctionBaseTpl<double> {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  Rosen() : CostFunctionBaseTpl<double>(2, 2) {}
  double call(const ConstVectorRef &x) const override { double a = 1 - x(0), b = x(1) - x(0) * x(0); return a * a + 5 * b * b; }
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override { double a = 1 - x(0), b = x(1) - x(0) * x(0); g(0) = -2 * a - 20 * x(0) * b; g(1) = 10 * b; }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override { double b = x(1) - x(0) * x(0); H(0, 0) = 2 - 20 * b + 40 * x(0) * x(0); H(0, 1) = H(1, 0) = -20 * x(0); H(1, 1) = 10; }
};
static void onGradient(const VectorXd &x);
static int faultNow = 0; // set by onGradient for the current iteration
static bool probing = false; // the driver itself evaluates the problem
static const double QN = std::numeric_limits<double>::quiet_NaN(), IN = std::numeric_limits<double>::infinity();
struct RecCost : CostFunctionBaseTpl<double> {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); shared_ptr<CostFunctionBaseTpl<double>> c;
  RecCost(shared_ptr<CostFunctionBaseTpl<double>> c) : CostFunctionBaseTpl<double>(c->nx(), c->ndx()), c(c) {}
  double call(const ConstVectorRef &x) const override; // (fault 8: no value at any other point than the iterate)
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override {
    onGradient(x); c->computeGradient(x, g); if (probing) return;
    if (faultNow == 1) g(0) = QN; if (faultNow == 2) g(g.size() - 1) = -IN; if (faultNow == 6) throw std::runtime_error("user"); if (faultNow == 7) throw std::logic_error("user");
  }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override { onGradient(x); c->computeHessian(x, H); if (probing) return; if (faultNow == 3) H(0, 0) = QN; if (faultNow == 5) H(0, 0) = IN; }
};
struct RecFn : C2FunctionTpl<double> {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); shared_ptr<Fn> c;
  RecFn(shared_ptr<Fn> c) : C2FunctionTpl<double>(c->nx(), c->ndx(), c->nr()), c(c) {}
  VectorXs operator()(const ConstVectorRef &x) const override { return (*c)(x); }
  void computeJacobian(const ConstVectorRef &x, MatrixRef Jo) const override { onGradient(x); c->computeJacobian(x, Jo); if (probing) return; if (faultNow == 4 && Jo.size()) Jo(0, 0) = QN; }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override { c->vectorHessianProduct(x, v, H); }
};
struct HeiCost : CostFunctionBaseTpl<double> { // 1/2 |log(t^-1 x)|^2-like smooth cost on Heisenberg, via QuadraticDistance
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); QuadraticDistanceCostTpl<double> d;
  HeiCost(const VectorXd &t) : CostFunctionBaseTpl<double>(3, 3), d(Poly(Heisenberg()), t) {}
  double call(const ConstVectorRef &x) const override { return d.call(x); }
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override { d.computeGradient(x, g); }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override { d.computeHessian(x, H); }
};
struct Instance { std::unique_ptr<Prob> p; shared_ptr<CostFunctionBaseTpl<double>> cost; std::vector<shared_ptr<C2FunctionTpl<double>>> fns; std::vector<PSet> sets; int pid; };
static VectorXd vec(std::initializer_list<double> l) { VectorXd v(l.size()); long i = 0; for (double d : l) v(i++) = d; return v; }
static MatrixXd mat(long r, long c, std::initializer_list<double> l) { MatrixXd m(r, c); auto it = l.begin(); for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) m(i, j) = *it++; return m; }
static PSet EQS() { return PSet(EqualityConstraintTpl<double>()); }
static PSet NEGS() { return PSet(NegativeOrthantTpl<double>()); }
static PSet L1S() { return PSet(NonsmoothPenaltyL1Tpl<double>()); }
static PSet BOXS(double a, double b, long n) { return PSet(BoxConstraintTpl<double>(VectorXd::Constant(n, a), VectorXd::Constant(n, b))); }
static void build(Instance &I, int pid) {
  I.pid = pid; I.fns.clear(); I.sets.clear(); MBase *man = nullptr; Poly m((VS(1))); int nx = 2, n = 2;
  auto add = [&](const MatrixXd &A, const VectorXd &b, const VectorXd &w, long j, const PSet &s) { I.fns.push_back(std::make_shared<RecFn>(std::make_shared<Fn>(nx, A, b, w, j))); I.sets.push_back(s); };
  auto quad = [&](const MatrixXd &Q, const VectorXd &q, double k3 = 0, double k4 = 0) { return std::make_shared<Cost>(nx, Q, q, k3, k4); };
  MatrixXd I2 = MatrixXd::Identity(2, 2); VectorXd z1 = vec({0}), z2 = vec({0, 0}); (void)man; m = Poly(VS(2));
  switch (pid) {
  case 0: I.cost = quad(mat(2, 2, {3, 1, 1, 2}), vec({-1, 2})); break;
  case 1: I.cost = quad(mat(2, 2, {2, 0, 0, 1}), vec({1, -1})); add(mat(1, 2, {1, 1}), vec({-1}), z1, 0, EQS()); break;
  case 2: I.cost = quad(I2, vec({-3, -2})); add(mat(2, 2, {1, 0, 1, 1}), vec({-1, -2}), z2, 0, NEGS()); break;
  case 3: I.cost = quad(mat(2, 2, {2, 1, 1, 2}), vec({4, -5})); add(I2, z2, z2, 0, BOXS(-1, 1, 2)); add(mat(1, 2, {1, -1}), vec({0.5}), z1, 0, EQS()); break;
  case 4: I.cost = std::make_shared<Rosen>(); add(mat(1, 2, {0, 1}), vec({-1}), vec({1}), 0, EQS()); break;
  case 5: I.cost = quad(mat(2, 2, {-2.1, 0.55, 0.55, -1.3}), vec({0.3, 0.1})); add(I2, z2, z2, 0, BOXS(-1, 2, 2)); break;
  case 6: I.cost = quad(I2, vec({1, 0})); add(mat(2, 2, {1, 0, 1, 0}), vec({0, -1}), z2, 0, EQS()); break; // infeasible
  case 7: { I.cost = quad(mat(2, 2, {2, 0, 0, 2}), vec({-3, 1})); add(I2, vec({-0.5, 0.25}), z2, 0, L1S());
    std::vector<PSet> cs{NEGS(), EQS()}; add(mat(2, 2, {1, 2, 0, 1}), vec({-4, 0.25}), z2, 0, PSet(ConstraintSetProductTpl<double>(cs, {1, 1}))); break; }
  case 8: { nx = 3; n = 2; Cart c; c.addComponent(VS(1)); c.addComponent(Parabola()); m = Poly(c); I.cost = quad(mat(2, 2, {2, 1, 1, 3}), vec({-1, -4}), 0.1, 0.05); add(mat(1, 2, {1, 2}), vec({-1}), vec({0.5}), 1, NEGS()); break; }
  case 9: { nx = 3; n = 3; m = Poly(Heisenberg()); I.cost = std::make_shared<HeiCost>(vec({1, -2, 0.5})); break; }
  case 10: nx = n = 1; m = Poly(VS(1)); I.cost = quad(mat(1, 1, {0}), vec({1})); add(mat(1, 1, {1}), vec({0.5}), vec({0}), 0, BOXS(-1e-3, 5, 1)); break;
  case 11: I.cost = quad(mat(2, 2, {-1.1, 0, 0, -2.3}), vec({0.1, 0.2}), 0, 0.1); add(mat(2, 2, {0, 1, 0, -1}), vec({-1.5, -1}), z2, 0, NEGS()); break;
  case 12: I.cost = quad(mat(2, 2, {1, 0, 0, 4}), vec({-1, 8})); add(MatrixXd(0, 2), VectorXd(0), VectorXd(0), 0, EQS()); add(mat(1, 2, {1, -1}), vec({1}), vec({1}), 1, NEGS()); break;
  case 13: { nx = n = 4; m = Poly(VS(4)); MatrixXd Q = MatrixXd::Identity(4, 4); Q(0, 3) = Q(3, 0) = 0.5; I.cost = quad(Q, vec({1, -2, 3, -4})); MatrixXd A(3, 4); A << 1, 1, 0, 0, 0, 1, 1, 0, 0, 0, 1, 1; add(A, vec({-1, 0, 2}), vec({0, 0, 0.25}), 2, EQS()); add(MatrixXd::Identity(4, 4), VectorXd::Zero(4), VectorXd::Zero(4), 0, BOXS(-1, 1.5, 4)); break; }
  // sustained negative curvature: the shift is chosen again and again
  case 15: I.cost = quad(mat(2, 2, {-16.3, 0.55, 0.55, 3.1}), vec({0.0625, 1}), 0, 0.25); break;
  case 16: I.cost = quad(mat(2, 2, {-1.1, 0, 0, -5.3}), vec({0.1, 0.3})); add(I2, z2, z2, 0, BOXS(-200, 300, 2)); break;
  case 17: { nx = n = 3; m = Poly(VS(3)); I.cost = quad(mat(3, 3, {-2.1, 0.55, 0, 0.55, -30.3, 1.1, 0, 1.1, 2.3}), vec({0.2, -0.1, 1}), 0, 0.01); MatrixXd A(1, 3); A << 0, 0.25, 1; add(A, vec({-0.5}), vec({0.0625}), 0, EQS()); MatrixXd B(2, 3); B << 0, 1, 0, 0, -1, 0; add(B, vec({-500, -900}), z2, 0, NEGS()); break; }
  // large instances: many constraints of all kinds, sizes above those of any small-matrix path
  case 18: case 19: { bool big = pid == 19; nx = n = big ? 20 : 12;
    if (big) { Cart c; c.addComponent(VS(5)); c.addComponent(VS(9)); c.addComponent(TangentBundleTpl<VS>(VS(3))); m = Poly(c); } else m = Poly(VS(12));
    MatrixXd Q = MatrixXd::Zero(n, n); VectorXd q(n); for (long i = 0; i < n; i++) { Q(i, i) = 2 + (i % 3); if (i) Q(i, i - 1) = Q(i - 1, i) = (i % 2) ? 0.75 : -0.5; q(i) = double((i * 7) % 5) - 2; }
    I.cost = quad(Q, q, 0.03125, 0.0625);
    auto A = [&](long r, long sh) { MatrixXd M = MatrixXd::Zero(r, n); for (long i = 0; i < r; i++) { M(i, (3 * i + sh) % n) = 1; M(i, (3 * i + sh + 1) % n) = (i % 2) ? -0.5 : 0.25; M(i, (5 * i + 2 * sh + 7) % n) += 0.5; } return M; };
    auto B = [&](long r, double c) { VectorXd v(r); for (long i = 0; i < r; i++) v(i) = c + 0.125 * (i % 4); return v; };
    auto zr = [&](long r) { return VectorXd(VectorXd::Zero(r)); };
    add(A(3, 0), B(3, -0.5), zr(3), 0, EQS()); add(A(4, 1), B(4, 0.25), zr(4), 0, NEGS()); add(A(3, 5), B(3, 0), zr(3), 0, BOXS(-0.5, 0.25, 3)); add(A(2, 2), B(2, 1), zr(2), 0, L1S());
    { std::vector<PSet> cs{NEGS(), BOXS(-1, 0.5, 2), L1S()}; add(A(5, 7), B(5, -0.25), zr(5), 0, PSet(ConstraintSetProductTpl<double>(cs, {2, 2, 1}))); }
    { VectorXd w = zr(1); w(0) = 0.25; add(A(1, 11), B(1, 0.5), w, 3, EQS()); }
    if (big) { add(A(2, 13), B(2, 0.5), zr(2), 0, NEGS()); add(A(1, 17), B(1, -1), zr(1), 0, BOXS(-1, 1, 1)); } break; }
  default: { nx = 2; n = 2; TangentBundleTpl<VS> tb(VS(1)); m = Poly(tb); I.cost = quad(mat(2, 2, {1, 0.5, 0.5, 2}), vec({2, -3}), 0, 0.02); add(mat(1, 2, {1, 1}), vec({0.25}), vec({1}), 0, EQS()); }
  }
  std::vector<CO> cs; for (size_t i = 0; i < I.fns.size(); i++) cs.emplace_back(I.fns[i], I.sets[i]);
  I.p = std::make_unique<Prob>(m, std::make_shared<RecCost>(I.cost), cs); (void)n;
}
// ---- run state ----
struct CfgEcho { std::vector<std::pair<std::string, long>> v; };
struct SSlot { std::unique_ptr<Solver> s; Instance *I = nullptr; CfgEcho e; bool verbose = false; };
static std::map<std::string, Instance> insts; static std::map<std::string, SSlot> sols; static SSlot *cur = nullptr;
static long seenIt = -1, seenAl = -1, nIt = 0, faultAt = 0, faultKind = 0; static double phi0 = 0; static VectorXd itX, itLam; static double icNow;
double RecCost::call(const ConstVectorRef &x) const { return !probing && faultNow == 8 && VectorXd(x) != itX ? QN : c->call(x); }
struct Ev { VectorXd c, g, dual; MatrixXd Jm; double pe, de, merit, nz; std::vector<double> viol; };
static VectorXd lastLam, lastLp, lastPl, lastPd; static bool haveLast = false;
static J iv(double v, double nz) { return J::arr({jn(lg(std::max(0., v - nz))), jn(lg(v + nz))}); }
static bool nearv(const VectorXd &a, const VectorXd &b, double nz) { return a.size() == b.size() && (a.size() == 0 || (a - b).lpNorm<Eigen::Infinity>() <= nz + 1e-10 * b.lpNorm<Eigen::Infinity>()); }
static VectorXd proxAll(const Instance &I, const VectorXd &z, double mu, bool normal) {
  VectorXd o(z.size()); for (size_t i = 0; i < I.sets.size(); i++) { I.sets[i]->setProxParameter(mu); long a = I.p->getIndex(i), k = I.p->getConstraintDim(i); VectorXd zi = z.segment(a, k), oi(k); if (normal) I.sets[i]->normalConeProjection(zi, oi); else I.sets[i]->projection(zi, oi); o.segment(a, k) = oi; } return o;
}
static Ev evalAll(const Instance &I, const VectorXd &x, const VectorXd &lam, const VectorXd &lp, double mu, double rho, const VectorXd &tgt) {
  probing = true; struct Off { ~Off() { probing = false; } } off;
  Ev e; long m = I.p->getTotalConstraintDim(), n = I.p->ndx(); e.c.resize(m); e.Jm.resize(m, n);
  for (size_t i = 0; i < I.fns.size(); i++) { long a = I.p->getIndex(i), k = I.p->getConstraintDim(i); VectorXd ci = (*I.fns[i])(x); e.c.segment(a, k) = ci; MatrixXd Ji(k, n); I.fns[i]->computeJacobian(x, Ji); e.Jm.middleRows(a, k) = Ji; }
  e.g.resize(n); I.cost->computeGradient(x, e.g); e.dual = e.g + e.Jm.transpose() * lam;
  VectorXd r = e.c - proxAll(I, e.c + mu * lam, mu, false); e.pe = m ? r.lpNorm<Eigen::Infinity>() : 0; e.de = e.dual.lpNorm<Eigen::Infinity>();
  e.nz = 1e-13 * (1 + (m ? e.c.lpNorm<Eigen::Infinity>() + e.Jm.cwiseAbs().maxCoeff() * lam.lpNorm<1>() + mu * (lam.lpNorm<Eigen::Infinity>() + lp.lpNorm<Eigen::Infinity>()) : 0.) + e.g.lpNorm<Eigen::Infinity>() + (x.size() ? x.lpNorm<Eigen::Infinity>() : 0.));
  for (size_t i = 0; i < I.fns.size(); i++) { long k = I.p->getConstraintDim(i); e.viol.push_back(k ? r.segment(I.p->getIndex(i), k).lpNorm<Eigen::Infinity>() : 0.); }
  e.merit = I.cost->call(x); VectorXd z = e.c + mu * lp - 0.5 * mu * lam;
  for (size_t i = 0; i < I.sets.size(); i++) { long a = I.p->getIndex(i), k = I.p->getConstraintDim(i); VectorXd zi = z.segment(a, k), oi(k); I.sets[i]->setProxParameter(mu); I.sets[i]->normalConeProjection(zi, oi); VectorXd pz = zi - oi; e.merit += 2 * (I.sets[i]->evaluate(pz) + 0.5 / mu * oi.squaredNorm()); }
  e.merit += 0.25 * mu * lam.squaredNorm();
  VectorXd d(n); I.p->manifold_->difference(tgt, x, d); e.merit += 0.5 * rho * d.squaredNorm();
  return e;
}
static void onGradient(const VectorXd &x) {
  if (probing || !cur || !cur->s->results_) return;
  Solver &s = *cur->s; Rs &R = *s.results_; Ws &w = *s.workspace_;
  if ((long)R.num_iters == seenIt && (long)R.al_iters == seenAl) return;
  seenIt = R.num_iters; seenAl = R.al_iters; nIt++;
  Instance &I = *cur->I; VectorXd lam = R.data_lams_opt, lp = w.data_lams_prev, tgt = s.prox_penalty.getTarget();
  Ev e = evalAll(I, x, lam, lp, R.mu, R.rho, tgt);
  phi0 = e.merit; itX = x; itLam = lam;
  long n = I.p->ndx(); VectorXd top = e.dual; if (R.rho > 0) { VectorXd d(n); MatrixXd Jd(n, n); I.p->manifold_->difference(tgt, x, d); I.p->manifold_->Jdifference(tgt, x, Jd, 1); top += R.rho * Jd.transpose() * d; }
  VectorXd low; if (s.kkt_system_ == KKT_CLASSIC) low = proxAll(I, e.c + R.mu * lp, R.mu, true) - R.mu * lam; else low = proxAll(I, e.c + R.mu * lp - 0.5 * R.mu * lam, R.mu, true) - 0.5 * R.mu * lam;
  icNow = std::max(top.size() ? top.lpNorm<Eigen::Infinity>() : 0., low.size() ? low.lpNorm<Eigen::Infinity>() : 0.);
  Obj o; o.t("ev", "it"); o.n("it", R.num_iters); o.n("al", R.al_iters); o.t("x", dg(x)); o.t("xr", dg(R.x_opt)); o.t("lam", dg(lam)); o.t("lp", dg(lp)); o.t("tgt", dg(tgt));
  o.n("mu", lg(R.mu)); o.n("rho", lg(R.rho)); bool same = true; double smu = R.mu, sinv = 1 / R.mu; for (size_t i = 0; i < I.fns.size(); i++) { auto &S = *I.p->getConstraint(i).set_; same = same && S.mu() == smu && std::abs(S.mu_inv() * smu - 1) < 1e-14; } (void)sinv;
  o.f("smu", jb(same)); MatrixXd W = s.prox_penalty.weights_; o.f("w", jb(W == MatrixXd(R.rho * MatrixXd::Identity(n, n))));
  o.n("ptol", lg(s.prim_tol_)); o.n("itol", lg(s.inner_tol_)); o.f("pe", iv(e.pe, e.nz)); o.f("de", iv(e.de, e.nz)); o.f("ic", iv(icNow, 4 * e.nz + 1e-13 * (1 + R.rho)));
  { VectorXd pl = proxAll(I, e.c + R.mu * lp, R.mu, true) / R.mu, pd = 2 * proxAll(I, e.c + R.mu * lp - 0.5 * R.mu * lam, R.mu, true) / R.mu; double nz = e.nz / R.mu;
    o.f("kp", J::arr({jb(haveLast && lp == lastLam), jb(haveLast && nearv(lp, lastPl, nz)), jb(haveLast && nearv(lp, lastPd, nz)), jb(haveLast && lp == lastLp), jb(lam == lp)}));
    lastLam = lam; lastLp = lp; lastPl = pl; lastPd = pd; haveLast = true; } o.n("conv", (long)R.converged);
  bool fault = faultKind && nIt == faultAt; o.f("fault", jb(fault)); auto huge = [](const VectorXd &v) { return v.size() && v.allFinite() && v.cwiseAbs().maxCoeff() > 1e30; };
  o.f("wild", jb((s.hess_approx == HessianApprox::BFGS && !(w.kkt_matrix.cwiseAbs().maxCoeff() < 1e60)) || (!fault && (huge(x) || huge(lam)))));
  mix(dg(x) + dg(lam) + dg(lp) + dd(R.mu) + dd(R.rho) + dd(s.inner_tol_) + dd(s.prim_tol_));
  emit(o); faultNow = fault ? faultKind : 0;
}
static void onCallback(long id, const Ws &w, const Rs &R) {
  Solver &s = *cur->s; Instance &I = *cur->I; long n = I.p->ndx(), m = w.numdual;
  Obj o; o.t("ev", "cb"); o.n("id", id); o.n("it", R.num_iters); o.n("al", R.al_iters); o.t("x", dg(R.x_opt)); o.t("lam", dg(R.data_lams_opt)); o.n("conv", (long)R.converged);
  bool views = true; for (size_t i = 0; i < I.fns.size(); i++) views = views && VectorXd(R.lams_opt[i]) == R.data_lams_opt.segment(I.p->getIndex(i), I.p->getConstraintDim(i)); o.f("views", jb(views));
  o.t("val", dd(R.value)); o.t("pe", dd(R.prim_infeas)); o.t("de", dd(R.dual_infeas)); o.t("aa", dd(w.alpha_opt)); o.t("dm", dd(w.dmerit_dir));
  // consistency of the accepted step
  const MatrixXd &K = w.kkt_matrix; const VectorXd &r = w.kkt_rhs, &p = w.pd_step; VectorXd g = -(K * p + r), px = p.head(n); double pn2 = px.squaredNorm(), sc = K.cwiseAbs().maxCoeff() * p.lpNorm<1>() + r.lpNorm<Eigen::Infinity>();
  double del = pn2 > 0 ? g.head(n).dot(px) / pn2 : 0; VectorXd res = g; res.head(n) -= del * px; double rel = std::max(0., res.lpNorm<Eigen::Infinity>() - 2 * s.kkt_tolerance_) / (sc + std::abs(del) * px.lpNorm<1>() + 1e-300);
  double noise = pn2 > 0 ? (1e-12 * sc + 2 * s.kkt_tolerance_) / std::sqrt(pn2) : 1e300;
  o.n("res", lg(rel)); o.n("del", lg(std::abs(del))); o.n("noise", lg(noise));
  MatrixXd Sc = K.topLeftCorner(n, n), Jp = K.bottomLeftCorner(m, n); VectorXd D = -K.diagonal().tail(m); for (long k = 0; k < m; k++) Sc += Jp.row(k).transpose() * Jp.row(k) / D(k);
  if (Sc.allFinite()) { Eigen::SelfAdjointEigenSolver<MatrixXd> es(Sc); double thr = -es.eigenvalues()(0), mg = 1e-13 * (Sc.cwiseAbs().maxCoeff() + 1e-3);
    o.n("tlo", lg(std::max(0., thr - mg))); o.n("thi", lg(std::max(0., thr + mg))); } else { o.n("tlo", NEGINF); o.n("thi", NANL); }
  o.f("sig", J::arr({jn((w.signature.array() == 1).count()), jn((w.signature.array() == -1).count()), jn((w.signature.array() == 0).count())})); o.n("n", n); o.n("m", m);
  o.n("alpha", lg(w.alpha_opt)); o.f("sgn", jn(w.dmerit_dir > 0 ? 1 : w.dmerit_dir < 0 ? -1 : 0)); o.n("dmlg", lg(std::abs(w.dmerit_dir)));
  // point reached by the step from the start of this iteration, and its merit
  if (itX.size()) { VectorXd xe = itX, dx = w.alpha_opt * p.head(n); I.p->manifold_->integrate(itX, dx, xe); double d1 = (R.x_opt - xe).lpNorm<Eigen::Infinity>() / (1 + xe.lpNorm<Eigen::Infinity>()); VectorXd le = itLam + w.alpha_opt * p.tail(m); double d2 = m ? (R.data_lams_opt - le).lpNorm<Eigen::Infinity>() / (1 + le.lpNorm<Eigen::Infinity>()) : 0; o.n("step", lg(std::max(d1, d2)));
    Ev e = evalAll(I, R.x_opt, R.data_lams_opt, w.data_lams_prev, R.mu, R.rho, s.prox_penalty.getTarget()); double msc = 1 + std::abs(e.merit) + 1e-6 / R.mu; o.n("merr", lg(std::abs(e.merit - R.merit) / msc)); double dM = R.merit - phi0; o.n("mlg", lg(std::abs(R.merit))); o.n("msgn", R.merit > 0 ? 1 : R.merit < 0 ? -1 : 0); o.n("dM", lg(std::abs(dM))); o.n("dMsgn", dM > 0 ? 1 : dM < 0 ? -1 : 0); o.n("dMn", lg(1e-10 * (msc + std::abs(phi0))));
    o.n("arm", lg(std::max(0., dM - s.ls_options.armijo_c1 * w.alpha_opt * w.dmerit_dir))); o.n("amin", lg(s.ls_options.alpha_min)); }
  else { o.n("step", NEGINF); o.n("merr", NEGINF); o.n("mlg", NEGINF); o.n("msgn", 0); o.n("dM", NEGINF); o.n("dMsgn", 0); o.n("dMn", NEGINF); o.n("arm", NEGINF); o.n("amin", NEGINF); }
  emit(o);
}
struct Rec : helpers::base_callback<double> { long id; Rec(long i) : id(i) {} void call(const Ws &w, const Rs &R) override { onCallback(id, w, R); } };
struct Hist : helpers::history_callback<double> { long id; Hist(long i, bool a, bool b, bool c) : helpers::history_callback<double>(a, b, c), id(i) {} void call(const Ws &w, const Rs &R) override { onCallback(id, w, R); helpers::history_callback<double>::call(w, R); } };
static std::map<long, shared_ptr<helpers::base_callback<double>>> cbs; static std::map<long, shared_ptr<Hist>> hists;
// ---- deterministic data ----
static VectorXd data(long n, long id, long salt) { VectorXd v(n); unsigned long s = 88172645463325252ul + id * 7919 + salt * 104729; for (long i = 0; i < n; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; v(i) = double(long(s % 17) - 8) / 4; } return v; }
// ---- stdout capture ----
struct Capture { int save, fd; char name[32]; Capture() { fflush(stdout); strcpy(name, "outXXXXXX"); fd = mkstemp(name); save = dup(1); dup2(fd, 1); } std::string done() { fflush(stdout); dup2(save, 1); close(save); std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k); close(fd); unlink(name); return r; } };
static std::string strip(std::string s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27) { while (i < s.size() && s[i] != 'm') i++; continue; } o += s[i]; } return o; }
static std::vector<std::string> split(const std::string &s, const std::string &d) { std::vector<std::string> r; size_t a = 0, b; while ((b = s.find(d, a)) != std::string::npos) { r.push_back(s.substr(a, b - a)); a = b + d.size(); } r.push_back(s.substr(a)); return r; }
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static J parseLog(const std::string &txt) {
  std::vector<J> rows;
  for (auto &ln0 : split(txt, "\n")) {
    std::string ln = strip(ln0); auto c = split(ln, "｜");
    if (c.size() < 2) { if (trim(ln) == "") continue; rows.push_back(J::arr({js("t"), js(trim(ln))})); continue; }
    std::vector<J> wd; for (auto &x : c) wd.push_back(jn(x.size()));
    if (trim(c[0]) == "iter") { std::vector<J> nm; for (auto &x : c) nm.push_back(js(trim(x))); rows.push_back(J::arr({js("h"), J::arr(nm), J::arr(wd)})); continue; }
    std::vector<J> vals; bool num = true; for (auto &x : c) { char *e; std::string t = trim(x); double v = strtod(t.c_str(), &e); if (*e || t.empty()) num = false; vals.push_back(J::arr({jn(v > 0 ? 1 : v < 0 ? -1 : 0), jn(lg(std::abs(v)))})); }
    if (!num) { rows.push_back(J::arr({js("t"), js("garbled")})); continue; }
    rows.push_back(J::arr({js("r"), jn(atol(trim(c[0]).c_str())), jn(atol(trim(c.back()).c_str())), J::arr(vals), J::arr(wd)}));
  }
  return J::arr(rows);
}
static double p2(long e) { return e == 99 ? 0. : std::ldexp(1., e); }
static void run(Reader &r) {
  std::string op = r.w(); Obj o;
  if (op == "prob") { std::string P = r.w(); long pid = r.i(); for (auto &k : sols) if (k.second.I == &insts[P]) k.second.s.reset(); build(insts[P], pid); o.t("ev", "prob"); o.t("p", P); o.n("pid", pid); o.f("flat", jb(insts[P].p->nx() == insts[P].p->ndx())); o.n("nb", insts[P].fns.size()); o.n("n", insts[P].p->ndx()); o.n("m", insts[P].p->getTotalConstraintDim()); emit(o); return; }
  if (op == "reset") { sols.clear(); insts.clear(); cbs.clear(); hists.clear(); o.t("ev", "reset"); emit(o); return; }
  if (op == "newcb") { long id = r.i(), k = r.i(); if (k == 0) cbs[id] = std::make_shared<Rec>(id); else { auto h = std::make_shared<Hist>(id, (k - 1) & 1, (k - 1) & 2, (k - 1) & 4); cbs[id] = h; hists[id] = h; } o.t("ev", "newcb"); o.n("id", id); o.n("k", k); emit(o); return; }
  if (op == "hist") {
    long id = r.i(); auto &h = hists[id]->storage; o.t("ev", "hist"); o.n("id", id); auto col = [&](const std::vector<double> &v) { std::vector<J> q; for (double d : v) q.push_back(js(dd(d))); return J::arr(q); }; auto vcol = [&](const std::vector<VectorXd> &v) { std::vector<J> q; for (auto &d : v) q.push_back(js(dg(d))); return J::arr(q); };
    o.f("xs", vcol(h.xs)); o.f("lams", vcol(h.lams)); o.f("vals", col(h.values)); o.f("pe", col(h.prim_infeas)); o.f("de", col(h.dual_infeas)); o.f("aa", col(h.alphas)); o.f("dm", col(h.dmerit_dir)); o.n("nls", h.ls_alphas.size()); o.n("nlv", h.ls_values.size()); o.n("nview", h.lams_view.size()); emit(o); return;
  }
  std::string s = r.w(); SSlot &T = sols[s];
  if (op == "mk") {
    std::string P = r.w(); auto c = r.li(); T.I = &insts[P]; size_t k = 0; auto nx = [&] { return c[k++]; };
    double mu0 = p2(nx()), rho0 = p2(nx()), tt = p2(nx()), mulow = p2(nx()); long pa = nx(), pb = nx(), da = nx(), db = nx(); long verb = nx(), ld = nx();
    T.s = std::make_unique<Solver>(*T.I->p, tt, mu0, rho0, verb == 0 ? QUIET : verb == 1 ? VERBOSE : VERYVERBOSE, mulow, pa / 10., pb / 10., da / 10., db / 10., (LDLTChoice)ld);
    Solver &S = *T.s; double fac = p2(nx()), rfac = p2(nx()); S.bcl_params.mu_update_factor = fac; S.bcl_params.rho_update_factor = rfac; S.prim_tol0 = p2(nx()); S.inner_tol0 = p2(nx()); S.inner_tol_min = p2(nx()); S.mu_upper_ = p2(nx());
    long mul = nx(), kkt = nx(), hess = nx(); S.mul_update_mode = (MultiplierUpdateMode)mul; S.kkt_system_ = (KktSystem)kkt; S.hess_approx = (HessianApprox)hess;
    S.DELTA_INIT = p2(nx()); S.DELTA_NONZERO_INIT = p2(nx()); S.DELTA_MIN = p2(nx()); S.DELTA_MAX = p2(nx()); S.del_inc_k = p2(nx()); S.del_inc_big = p2(nx()); S.del_dec_k = p2(nx()); S.max_iters = nx(); S.max_al_iters = nx();
    long ls = nx(); S.ls_options.interp_type = (LSInterpolation)ls; T.verbose = verb > 0; S.logger.active = verb != 3; o.t("ev", "mk"); o.t("s", s); o.t("p", P); o.f("cfg", jil(c)); emit(o); return;
  }
  if (op == "set") { // change a public field of an existing solver; k is the index of the field in the configuration
    long k = r.i(), v = r.i(); Solver &S = *T.s; o.t("ev", "set"); o.t("s", s); o.n("k", k); o.n("v", v); emit(o);
    switch (k) { case 9: S.verbose = v == 0 ? QUIET : v == 1 ? VERBOSE : VERYVERBOSE; T.verbose = v > 0; S.logger.active = v != 3; break; case 11: S.bcl_params.mu_update_factor = p2(v); break; case 17: S.mul_update_mode = (MultiplierUpdateMode)v; break;
    case 18: S.kkt_system_ = (KktSystem)v; break; case 27: S.max_iters = v; break; case 28: S.max_al_iters = v; break; case 29: S.ls_options.interp_type = (LSInterpolation)v; break; default: throw std::logic_error("set"); }
    return;
  }
  if (op == "setup") { o.t("ev", "setup"); o.t("s", s); bool ok = true; try { T.s->setup(); } catch (const std::runtime_error &) { ok = false; } o.f("ok", jb(ok)); o.t("lam", dg(T.s->results_->data_lams_opt)); emit(o); return; }
  if (op == "reg") { long id = r.i(); T.s->registerCallback(cbs[id]); o.t("ev", "reg"); o.t("s", s); o.n("id", id); emit(o); return; }
  if (op == "clr") { T.s->clearCallbacks(); o.t("ev", "clr"); o.t("s", s); emit(o); return; }
  // solve
  long xid = r.i(), mode = r.i(), lid = r.i(); faultKind = r.i(); faultAt = r.i(); Solver &S = *T.s; Instance &I = *T.I; const Prob &P = *I.p;
  VectorXd x0 = P.manifold_->neutral(); { VectorXd v = data(P.ndx(), xid, 1); VectorXd a = x0; P.manifold_->integrate(x0, v, a); x0 = a; }
  VectorXd l0 = data(P.getTotalConstraintDim(), lid, 2); if (lid == 3) l0.setZero(); const VectorXd x0c = x0, l0c = l0;
  o.t("ev", "solve"); o.t("s", s); o.n("xid", xid); o.n("mode", mode); o.n("lid", lid); o.t("x0", dg(x0)); o.t("l0", dg(l0)); o.n("fk", faultKind); o.n("fa", faultAt); emit(o);
  seenIt = seenAl = -1; nIt = 0; chain = ""; itX.resize(0); faultNow = 0; haveLast = false; cur = &T; int ret = -9; std::string thrown = "none"; std::string text;
  { Capture cap;
    try {
      if (mode == 0) ret = S.solve(x0); else if (mode == 1) ret = S.solve(x0, l0);
      else { std::vector<Eigen::Ref<VectorXd>> v; for (size_t i = 0; i < I.fns.size(); i++) v.emplace_back(l0.segment(P.getIndex(i), P.getConstraintDim(i))); if (mode == 3 || (mode == 4 && v.empty())) v.emplace_back(l0.head(0)); else if (mode == 4) v.pop_back(); ret = S.solve(x0, v); }
    } catch (const std::logic_error &) { thrown = "logic_error"; } catch (const std::runtime_error &) { thrown = "runtime_error"; } catch (...) { thrown = "other"; }
    text = cap.done(); }
  faultNow = 0; cur = nullptr; Obj e; e.t("ev", "end"); e.t("thrown", thrown); e.n("ret", ret); e.n("nit", nIt);
  e.f("in", jb(x0 == x0c && l0 == l0c)); e.f("log", parseLog(text));
  if (S.results_) {
    Rs &R = *S.results_; e.n("flag", R.converged); e.n("it", R.num_iters); e.n("al", R.al_iters); e.t("x", dg(R.x_opt)); e.t("lam", dg(R.data_lams_opt));
    if (thrown == "none" && nIt) {
      Ev v = evalAll(I, R.x_opt, R.data_lams_opt, S.workspace_->data_lams_prev, R.mu, R.rho, S.prox_penalty.getTarget());
      e.f("below", jb(R.prim_infeas < S.target_tol && R.dual_infeas < S.target_tol)); e.f("rp", jb(std::abs(v.pe - R.prim_infeas) <= 10 * v.nz)); e.f("rd", jb(std::abs(v.de - R.dual_infeas) <= 10 * v.nz));
      bool vv = (long)v.viol.size() == R.constraint_violations.size(); for (size_t k = 0; vv && k < v.viol.size(); k++) vv = std::abs(v.viol[k] - R.constraint_violations(k)) <= 10 * v.nz; e.f("rv", jb(vv));
      e.f("rval", jb(std::abs(I.cost->call(R.x_opt) - R.value) <= 1e-11 * (1 + std::abs(R.value)))); e.f("vp", iv(v.pe, v.nz)); e.f("vd", iv(v.de, v.nz));
    }
  } else { e.n("flag", -9); e.n("it", -1); e.n("al", -1); e.t("x", ""); e.t("lam", ""); }
  e.t("chain", chain); emit(e);
}
int main(int argc, char **argv) {
  (void)argc; out = fopen(argv[2], "w"); std::ifstream in(argv[1]); std::string l;
  char dir[] = "/tmp/verif_capXXXXXX"; (void)dir;
  while (std::getline(in, l)) { if (l.empty()) continue; Reader r(l); run(r); }
  fclose(out); return 0;
}
