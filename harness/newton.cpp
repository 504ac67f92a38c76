// Conformance driver for one Newton iteration: multipliers, merit, KKT system (C04, C07).
#include "vh.hpp"
#include "spaces.hpp"
#include "proxsuite-nlp/prox-solver.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
using namespace vh;
using VS = VectorSpaceTpl<double>; using Cart = CartesianProductTpl<double>; using Poly = polymorphic<MBase>;
using VectorXd = Eigen::VectorXd; using MatrixXd = Eigen::MatrixXd;
using Prob = ProblemTpl<double>; using Ws = WorkspaceTpl<double>; using Rs = ResultsTpl<double>; using CO = ConstraintObjectTpl<double>; using CSet = ConstraintSetTpl<double>;
using Solver = ProxNLPSolverTpl<double>;
constexpr double S = 64, S2 = 64 * 64;
struct Fn : C2FunctionTpl<double> {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); MatrixXd A; VectorXd b, w; long j, n;
  Fn(int nx, const MatrixXd &A, const VectorXd &b, const VectorXd &w, long j) : C2FunctionTpl<double>(nx, A.cols(), A.rows()), A(A), b(b), w(w), j(j), n(A.cols()) {}
  VectorXs operator()(const ConstVectorRef &x) const override { return A * x.head(n) + b + w * x(j) * x(j); }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override { J = A; J.col(j) += 2 * w * x(j); }
  void vectorHessianProduct(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef H) const override { H.setZero(); H(j, j) = 2 * w.dot(v); }
};
struct Cost : CostFunctionBaseTpl<double> {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); MatrixXd Q; VectorXd q; double k; long n;
  Cost(int nx, const MatrixXd &Q, const VectorXd &q, double k) : CostFunctionBaseTpl<double>(nx, q.size()), Q(Q), q(q), k(k), n(q.size()) {}
  double call(const ConstVectorRef &x) const override { VectorXd z = x.head(n); return 0.5 * z.dot(Q * z) + q.dot(z) + k * z(0) * z(0) * z(0); }
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override { VectorXd z = x.head(n); g = Q * z + q; g(0) += 3 * k * z(0) * z(0); }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override { H = Q; H(0, 0) += 6 * k * x(0); }
};
struct GN : NegativeOrthantTpl<double> { bool disableGaussNewton() const override { return false; } };
template <class B> struct NoGN : B { using B::B; bool disableGaussNewton() const override { return false; } };
static polymorphic<CSet> leaf(long k, const VectorXd &lo, const VectorXd &hi, bool gn) {
  switch (k) {
  case 0: if (gn) return polymorphic<CSet>(NoGN<EqualityConstraintTpl<double>>()); return polymorphic<CSet>(EqualityConstraintTpl<double>());
  case 1: if (gn) return polymorphic<CSet>(NoGN<NegativeOrthantTpl<double>>()); return polymorphic<CSet>(NegativeOrthantTpl<double>());
  case 2: if (gn) return polymorphic<CSet>(NoGN<BoxConstraintTpl<double>>(lo, hi)); return polymorphic<CSet>(BoxConstraintTpl<double>(lo, hi));
  default: if (gn) return polymorphic<CSet>(NoGN<NonsmoothPenaltyL1Tpl<double>>()); return polymorphic<CSet>(NonsmoothPenaltyL1Tpl<double>());
  }
}
struct Cap : helpers::base_callback<double> {
  long n = 0; MatrixXd K; VectorXd rhs, p, mg, md, x, lam; double dm, alpha; Eigen::VectorXi sig;
  void call(const Ws &w, const Rs &r) override { n++; K = w.kkt_matrix; rhs = w.kkt_rhs; p = w.pd_step; mg = w.merit_gradient; md = w.merit_dual_gradient; dm = w.dmerit_dir; alpha = w.alpha_opt; sig = w.signature; x = r.x_opt; lam = r.data_lams_opt; }
};
static std::unique_ptr<Prob> prob; static std::unique_ptr<Solver> sol; static long n, par; static MatrixXd Acheck;
static VectorXd emb(const VectorXd &z) { if (!par) return z; VectorXd x(n + 1); x.head(n) = z; x(n) = z(n - 1) * z(n - 1); return x; }
static VectorXd rv(Reader &r, double sc = 1) { return r.v(sc); }
struct Obj { std::string s = "{"; void f(const char *k, const J &v) { if (s.size() > 1) s += ","; s += std::string("\"") + k + "\":" + v.s; } J done() { J j; j.s = s + "}"; return j; } };
static J step(Reader &r) {
  std::string op = r.w(); Obj o;
  if (op == "new") {
    n = r.i(); par = r.i(); MatrixXd Q = r.m(1); VectorXd q = rv(r); double k3 = r.i(); long nb = r.i();
    std::vector<CO> cs; int nx = n + par;
    for (long i = 0; i < nb; i++) {
      r.i(); auto ks = r.li(); VectorXd lo = rv(r), hi = rv(r); bool gn = r.i(); long pd = r.i(); MatrixXd A = r.m(1, n); VectorXd b = rv(r), w = rv(r); long j = r.i() - 1;
      auto f = std::make_shared<Fn>(nx, A, b, w, j); long nr = ks.size();
      bool same = true; for (auto k : ks) same = same && k == ks[0];
      if (same && !pd) cs.emplace_back(f, leaf(ks[0], lo, hi, gn));
      else {
        std::vector<polymorphic<CSet>> comps; std::vector<Eigen::Index> sz;
        for (long t = 0; t < nr; t++) { comps.push_back(leaf(ks[t], lo.segment(t, 1), hi.segment(t, 1), false)); sz.push_back(1); }
        cs.emplace_back(f, polymorphic<CSet>(ConstraintSetProductTpl<double>(comps, sz)));
      }
    }
    auto cost = std::make_shared<Cost>(nx, Q, q, k3);
    sol.reset();
    if (!par) prob = std::make_unique<Prob>(Poly(VS(n)), cost, cs);
    else if (n == 1) prob = std::make_unique<Prob>(Poly(Parabola()), cost, cs);
    else { Cart m; m.addComponent(VS(n - 1)); m.addComponent(Parabola()); prob = std::make_unique<Prob>(Poly(m), cost, cs); }
    long kkt = r.i(), hess = r.i(), ld = r.i();
    sol = std::make_unique<Solver>(*prob, 1e-6, 1.0, 0., QUIET);
    sol->kkt_system_ = (KktSystem)kkt; sol->hess_approx = (HessianApprox)hess; sol->ldlt_choice_ = (LDLTChoice)ld;
    sol->setup(); sol->setPenalty(1.0); sol->setProxParameter(0.); sol->workspace_->x_prev = emb(VectorXd::Zero(n)); sol->prox_penalty.updateTarget(sol->workspace_->x_prev);
    o.f("ok", jb(true)); return o.done();
  }
  if (op == "ci") {
    long a = r.i(), b = r.i(); auto s = r.li(); Eigen::VectorXi v(s.size()); for (size_t i = 0; i < s.size(); i++) v(i) = s[i];
    try { auto t = computeInertiaTuple(v); auto f = checkInertia(a, b, v); o.f("thrown", jb(false)); o.f("t", J::arr({jn(t[0]), jn(t[1]), jn(t[2])})); o.f("fl", jn((long)f)); }
    catch (const std::runtime_error &) { o.f("thrown", jb(true)); }
    return o.done();
  }
  Solver &s = *sol; Ws &w = *s.workspace_; Rs &R = *s.results_;
  if (op == "pen") s.setPenalty(r.i() / 4.);
  else if (op == "rho") s.setProxParameter(r.i() / 4.);
  else if (op == "cen") { w.x_prev = emb(rv(r)); s.prox_penalty.updateTarget(w.x_prev); }
  else if (op == "lp") w.data_lams_prev = rv(r);
  else if (op == "mode") { s.kkt_system_ = (KktSystem)r.i(); s.hess_approx = (HessianApprox)r.i(); }
  else {
    VectorXd x = emb(rv(r)), lam = rv(r);
    R.x_opt = x; R.data_lams_opt = lam;
    if (op == "q") {
      prob->evaluate(x, w); s.computeMultipliers(lam, w); s.computeProblemDerivatives(x, w, boost::mpl::true_());
      o.f("f2", ex(w.objective_value, S2)); o.f("g", exv(w.objective_gradient, S)); o.f("c", exv(w.data_cstr_values, S)); o.f("J", exm(w.data_jacobians, S));
      o.f("sh", exv(w.data_shift_cstr_values, S)); o.f("sp", exv(w.data_shift_cstr_pdal, S)); o.f("pl", exv(w.data_lams_plus, S)); o.f("pd", exv(w.data_lams_pdal, S));
      o.f("plr", exv(w.data_lams_plus_reproj, S)); o.f("pdr", exv(w.data_lams_pdal_reproj, S)); o.f("Jp", exm(w.data_jacobians_proj, S));
      o.f("m2", ex(s.merit_fun.evaluate(x, R.lams_opt, w), S2)); s.merit_fun.computeGradient(R.lams_opt, w);
      o.f("mg", exv(w.merit_gradient, S)); o.f("md", exv(w.merit_dual_gradient, S)); o.f("H", exm(w.objective_hessian, S));
      s.prox_penalty.computeHessian(x, w.prox_hess); s.assembleKktMatrix(w); o.f("K", exm(w.kkt_matrix, S));
      s.computePrimalResiduals(w, R); o.f("viol", exv(R.constraint_violations, S));
      std::vector<J> ms; for (size_t i = 0; i < prob->getNumConstraints(); i++) { auto &c = *prob->getConstraint(i).set_; ms.push_back(J::arr({ex(c.mu(), S), ex(c.mu_inv(), S)})); }
      o.f("mus", J::arr(ms)); o.f("w", ex(s.prox_penalty.weights_(0, 0), S));
      bool diag = s.prox_penalty.weights_ == MatrixXd(MatrixXd::Identity(n, n) * s.prox_penalty.weights_(0, 0)); if (!diag) o.f("w", jn(-1));
      return o.done();
    }
    double it = r.i(), tt = r.i(), d0 = r.i(), dn = r.i(), bg = r.i(), dm = r.i();
    s.inner_tol_ = it < 0 ? -1 : it / 4; s.target_tol = tt < 0 ? -1 : tt / 4; s.DELTA_INIT = d0 / 4; s.DELTA_NONZERO_INIT = dn / 4; s.del_inc_big = bg; s.DELTA_MAX = dm / 4; s.DELTA_MIN = 1. / 64; s.del_inc_k = 3; s.max_iters = 1;
    auto cap = std::make_shared<Cap>(); s.clearCallbacks(); s.registerCallback(cap); R.num_iters = 0; R.converged = UNINIT;
    s.innerLoop(w, R);
    bool stop = cap->n == 0;
    o.f("stop", jb(stop)); o.f("pe", ex(R.prim_infeas, S)); o.f("de", ex(R.dual_infeas, S)); o.f("viol", exv(R.constraint_violations, S));
    std::vector<J> act; for (auto &a : R.active_set) for (long i = 0; i < a.size(); i++) act.push_back(jb(a(i))); o.f("act", J::arr(act));
    o.f("val2", ex(R.value, S2)); o.f("it", jn(R.num_iters)); o.f("cbs", jn(cap->n)); o.f("flag", jn((long)R.converged));
    o.f("same", jb(!stop || (R.x_opt == x && R.data_lams_opt == lam)));
    if (stop) { o.f("rhs", exv(w.kkt_rhs, S)); o.f("m2", ex(R.merit, S2)); return o.done(); }
    const Cap &c = *cap;
    o.f("rhs", exv(c.rhs, S)); o.f("K", exm(c.K, S)); o.f("mg", exv(c.mg, S)); o.f("md", exv(c.md, S));
    o.f("sig", J::arr({jn((c.sig.array() == 1).count()), jn((c.sig.array() == -1).count()), jn((c.sig.array() == 0).count())}));
    o.f("p", fxv(c.p, 1024)); o.f("s0", fxv(VectorXd(c.K * c.p + c.rhs), 1024));
    double ip = c.mg.dot(c.p.head(n)) + c.md.dot(c.p.tail(c.p.size() - n)); o.f("dd", jn(fx(std::abs(c.dm - ip) / (1 + std::abs(ip)), 1 << 20)));
    VectorXd xe = x, dx = c.alpha * c.p.head(n); prob->manifold_->integrate(x, dx, xe);
    o.f("xd", jn(fx((c.x - xe).lpNorm<Eigen::Infinity>() + (lam.size() ? (c.lam - lam - c.alpha * c.p.tail(lam.size())).lpNorm<Eigen::Infinity>() : 0.), 1 << 20)));
    return o.done();
  }
  o.f("ok", jb(true)); return o.done();
}
int main(int argc, char **argv) { return loop(argc, argv, step); }
