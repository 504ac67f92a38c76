// Conformance driver for problems, workspaces and results (C13).
#include "vh.hpp"
#include "spaces.hpp"
#include "proxsuite-nlp/problem-base.hpp"
#include "proxsuite-nlp/workspace.hpp"
#include "proxsuite-nlp/results.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
using namespace vh;
using VS = VectorSpaceTpl<double>; using Cart = CartesianProductTpl<double>; using Poly = polymorphic<MBase>;
using VectorXd = Eigen::VectorXd; using MatrixXd = Eigen::MatrixXd;
using Prob = ProblemTpl<double>; using Ws = WorkspaceTpl<double>; using Rs = ResultsTpl<double>; using CO = ConstraintObjectTpl<double>; using CSet = ConstraintSetTpl<double>;
struct Fn : C2FunctionTpl<double> {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); long k;
  Fn(int nx, int nr, long k) : C2FunctionTpl<double>(nx, 2, nr), k(k) {}
  VectorXs operator()(const ConstVectorRef &x) const override { VectorXs o(nr()); double a = x(0), b = x(x.size() - 1); for (int i = 1; i <= nr(); i++) o(i - 1) = i * k + i * a * a - k * b + k * a * b; return o; }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override { double a = x(0), b = x(x.size() - 1); for (int i = 1; i <= nr(); i++) { J(i - 1, 0) = 2 * i * a + k * b; J(i - 1, 1) = k * a - k; } }
  void vectorHessianProduct(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef H) const override { H.setZero(); for (int i = 1; i <= nr(); i++) { H(0, 0) += 2 * i * v(i - 1); H(0, 1) += k * v(i - 1); H(1, 0) += k * v(i - 1); } }
};
struct Cost : CostFunctionBaseTpl<double> {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); long k;
  Cost(int nx, long k) : CostFunctionBaseTpl<double>(nx, 2), k(k) {}
  double call(const ConstVectorRef &x) const override { double a = x(0), b = x(x.size() - 1); return k + k * a * a * b - b; }
  void computeGradient(const ConstVectorRef &x, VectorRef g) const override { double a = x(0), b = x(x.size() - 1); g << 2 * k * a * b, k * a * a - 1; }
  void computeHessian(const ConstVectorRef &x, MatrixRef H) const override { double a = x(0), b = x(x.size() - 1); H << 2 * k * b, 2 * k * a, 2 * k * a, 0; }
};
struct Exact : NegativeOrthantTpl<double> { bool disableGaussNewton() const override { return false; } };
static std::map<std::tuple<int, int, long>, std::shared_ptr<Fn>> fns; static bool shareFns = false;
static CO mk(int nx, int nr, long k, const std::string &set) {
  auto &known = fns[{nx, nr, k}]; auto f = shareFns && known ? known : (known = std::make_shared<Fn>(nx, nr, k)); // several constraints may share a function object
  if (set == "eq") return CO(f, EqualityConstraintTpl<double>());
  if (set == "neg") return CO(f, NegativeOrthantTpl<double>());
  if (set == "exact") return CO(f, Exact());
  return CO(f, BoxConstraintTpl<double>(VectorXd::Constant(nr, -1.), VectorXd::Constant(nr, 1.)));
}
struct Slot { std::unique_ptr<Prob> p; std::unique_ptr<Ws> w; std::unique_ptr<Rs> r; int nx; };
static std::map<std::string, Slot> S;
static J layout(const Prob &p) {
  std::vector<long> d, ix, ids; long n = p.getNumConstraints(); auto all = p.getIndices();
  for (long i = 0; i < n; i++) { d.push_back(p.getConstraintDim(i)); ix.push_back(p.getIndex(i) == all[i] ? p.getIndex(i) : -1);
    const auto &c = p.getConstraint(i); ids.push_back(dynamic_cast<const Fn &>(c.func()).k); if (c.nr() != d.back()) d.back() = -1; }
  return J::arr({jn((long)all.size() == n ? n : -1), jn(p.getTotalConstraintDim()), jil(d), jil(ix), jil(ids)});
}
template <class R> static J vviews(const VectorXd &data, const std::vector<R> &v) {
  std::vector<J> o; for (auto &x : v) { long off = x.size() ? x.data() - data.data() : -2; o.push_back(J::arr({jn(off), jn(x.size())})); } return J::arr(o);
}
template <class R> static J mviews(const MatrixXd &data, const std::vector<R> &v) {
  std::vector<J> o; for (auto &x : v) { long off = x.size() ? x.data() - data.data() : -2; long rows = x.rows(); if (x.size() && (x.cols() != data.cols() || x.outerStride() != data.rows())) rows = -1; o.push_back(J::arr({jn(off), jn(rows)})); } return J::arr(o);
}
// an empty block has no address: report its declared offset
static J patch(J j, const std::vector<long> &ix) { // replace "-2" offsets
  std::string s = j.s, o; size_t pos = 0; size_t k = 0; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '[' && i > 0 && (s[i - 1] == '[' || s[i - 1] == ',')) { k++; if (s.compare(i + 1, 3, "-2,") == 0) { o += "[" + std::to_string(ix[k - 1]) + ","; i += 3; continue; } } o += s[i]; } (void)pos; j.s = o; return j;
}
static J sight(const Ws &w) { return J::arr({exv(w.data_cstr_values, 1), exm(w.data_jacobians, 1), exm(w.data_hessians, 1), exv(w.objective_gradient, 1), exm(w.objective_hessian, 1)}); }
static bool viewsMatch(const Ws &w, const Prob &p) { // contents through the views
  for (size_t i = 0; i < p.getNumConstraints(); i++) {
    int a = p.getIndex(i), n = p.getConstraintDim(i);
    if (VectorXd(w.cstr_values[i]) != w.data_cstr_values.segment(a, n)) return false;
    if (MatrixXd(w.cstr_jacobians[i]) != w.data_jacobians.middleRows(a, n)) return false;
    if (MatrixXd(w.cstr_vector_hessian_prod[i]) != w.data_hessians.middleRows(2 * i, 2)) return false;
  }
  return true;
}
int main(int argc, char **argv) {
  return loop(argc, argv, [](Reader &r) -> J {
    std::string op = r.w(); J ok = J::arr({js("ok")});
    if (op == "reset") { S.clear(); fns.clear(); shareFns = !shareFns; return ok; }
    std::string s = r.w(); Slot &q = S[s];
    auto cstr = [&](int nx) { r.i(); long nr = r.i(), id = r.i(); std::string k = r.w(); return mk(nx, nr, id, k); };
    if (op == "newp") {
      std::string sp = r.w(); long cost = r.i(); int nx = sp == "v2" ? 2 : 3; std::vector<CO> cs; long n = r.i();
      for (long i = 0; i < n; i++) cs.push_back(cstr(nx));
      Poly m = sp == "v2" ? Poly(VS(2)) : Poly(Cart(Poly(Parabola()), Poly(VS(1))));
      q.w.reset(); q.r.reset(); q.nx = nx;
      if (n == 0) q.p = std::make_unique<Prob>(m, std::make_shared<Cost>(nx, cost)); else q.p = std::make_unique<Prob>(m, std::make_shared<Cost>(nx, cost), cs);
      return layout(*q.p);
    }
    if (op == "add") { CO c = cstr(q.nx); q.p->addConstraint(c); return layout(*q.p); }
    if (op == "copyp") { std::string b = r.w(); Slot &t = S[b]; t.w.reset(); t.r.reset(); t.nx = S[s].nx; t.p = std::make_unique<Prob>(*S[s].p); return layout(*t.p); }
    if (op == "layout") return layout(*q.p);
    if (op == "seg") {
      VectorXd v = r.v(1); std::vector<J> o;
      for (size_t i = 0; i < q.p->getNumConstraints(); i++) { VectorXd a = q.p->getConstSegment(v, i), b = q.p->getSegment(v, i); if (a != b) return J::arr({js("segments differ")}); o.push_back(exv(a, 1)); }
      for (size_t i = 0; i < q.p->getNumConstraints(); i++) { auto g = q.p->getSegment(v, i); for (long j = 0; j < g.size(); j++) g(j) = 100 * (i + 1) + j + 1; }
      return J::arr({J::arr(o), exv(v, 1)});
    }
    if (op == "ws") {
      q.w = std::make_unique<Ws>(*q.p); q.r = std::make_unique<Rs>(*q.p); const Ws &w = *q.w; const long n = w.numdual;
      bool z = w.kkt_matrix.isZero(0) && w.kkt_rhs.isZero(0) && w.kkt_rhs_corr.isZero(0) && w.pd_step.isZero(0) && (w.signature.array() == 0).all() && w.x_prev.isZero(0) && w.x_trial.isZero(0) &&
        w.prox_grad.isZero(0) && w.prox_hess.isZero(0) && w.dual_residual.isZero(0) && w.data_cstr_values.isZero(0) && w.objective_gradient.isZero(0) && w.objective_hessian.isZero(0) && w.merit_gradient.isZero(0) &&
        w.merit_dual_gradient.isZero(0) && w.data_jacobians.isZero(0) && w.data_hessians.isZero(0) && w.data_jacobians_proj.isZero(0) && w.data_lams_plus.isZero(0) && w.data_lams_pdal.isZero(0) && w.data_lams_prev.isZero(0) &&
        w.data_lams_trial.isZero(0) && w.data_shift_cstr_values.isZero(0) && w.data_shift_cstr_pdal.isZero(0) && w.data_lams_plus_reproj.isZero(0) && w.data_lams_pdal_reproj.isZero(0);
      bool sh = w.nx == q.nx && w.ndx == 2 && (long)w.numblocks == (long)q.p->getNumConstraints() && w.kkt_matrix.rows() == 2 + n && w.kkt_matrix.cols() == 2 + n && w.kkt_rhs.size() == 2 + n && w.kkt_err.size() == 2 + n && w.signature.size() == 2 + n &&
        w.pd_step.size() == 2 + n && w.prim_step.data() == w.pd_step.data() && w.prim_step.size() == 2 && (n == 0 || w.dual_step.data() == w.pd_step.data() + 2) && w.dual_step.size() == n &&
        w.x_prev.size() == q.nx && w.x_trial.size() == q.nx && w.dual_residual.size() == 2 && w.data_jacobians.rows() == n && w.data_jacobians_proj.rows() == n && w.data_jacobians_proj.cols() == 2 && w.merit_dual_gradient.size() == n && w.merit_gradient.size() == 2 && w.prox_hess.rows() == 2 &&
        w.data_hessians.rows() == 2 * (long)w.numblocks && w.data_lams_plus.size() == n && w.data_lams_pdal.size() == n && w.data_shift_cstr_pdal.size() == n;
      return J::arr({jn(n), jn(w.kkt_rhs.size()), jb(z), jb(sh)});
    }
    std::vector<long> ix, hx; for (size_t i = 0; i < q.p->getNumConstraints(); i++) { ix.push_back(q.p->getIndex(i)); hx.push_back(2 * i); }
    Ws &w = *q.w;
    if (op == "views") {
      auto V = [&](const VectorXd &d, auto &v) { return patch(vviews(d, v), ix); };
      return J::arr({J::arr({V(w.data_lams_prev, w.lams_prev), V(w.data_lams_trial, w.lams_trial), V(w.data_cstr_values, w.cstr_values), V(w.data_lams_plus, w.lams_plus), V(w.data_lams_plus_reproj, w.lams_plus_reproj),
                             V(w.data_shift_cstr_values, w.shift_cstr_values), V(w.data_lams_pdal, w.lams_pdal), V(w.data_lams_pdal_reproj, w.lams_pdal_reproj), V(w.data_shift_cstr_pdal, w.shift_cstr_pdal), V(q.r->data_lams_opt, q.r->lams_opt)}),
                     J::arr({patch(mviews(w.data_jacobians, w.cstr_jacobians), ix), patch(mviews(w.data_jacobians_proj, w.cstr_jacobians_proj), ix)}), patch(mviews(w.data_hessians, w.cstr_vector_hessian_prod), hx)});
    }
    if (op == "res") {
      const Rs &R = *q.r; std::vector<long> as; bool z = R.data_lams_opt.isZero(0) && R.constraint_violations.isZero(0) && R.constraint_violations.size() == (long)ix.size() && R.x_opt == q.p->manifold_->neutral() && R.num_iters == 0;
      for (auto &a : R.active_set) { as.push_back(a.size()); z &= !a.any(); }
      return J::arr({patch(vviews(R.data_lams_opt, R.lams_opt), ix), jil(as), jb(z)});
    }
    if (op == "fill") { w.objective_value = 777; w.data_cstr_values.setConstant(777); w.data_jacobians.setConstant(777); w.data_hessians.setConstant(777); w.objective_gradient.setConstant(777); w.objective_hessian.setConstant(777); return ok; }
    if (op == "lams") { const VectorXd v = r.v(1); w.data_lams_pdal.head(v.size()) = v; return ok; } // in place: the views alias this buffer
    VectorXd x = r.v(1); const VectorXd x0 = x; VectorXd pd = w.data_lams_pdal; double ov = w.objective_value;
    if (op == "eval") q.p->evaluate(x, w);
    else if (op == "deriv") q.p->computeDerivatives(x, w);
    else if (op == "hess") { if (r.i()) q.p->computeHessians(x, w, true); else q.p->computeHessians(x, w); }
    else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    bool other = x == x0 && w.data_lams_pdal == pd && w.data_lams_prev.isZero(0) && w.data_lams_trial.isZero(0) && w.data_lams_plus.isZero(0) && w.data_jacobians_proj.isZero(0) && w.kkt_matrix.isZero(0) && w.kkt_rhs.isZero(0) && w.data_shift_cstr_values.isZero(0) && w.data_shift_cstr_pdal.isZero(0) && q.r->data_lams_opt.isZero(0) && viewsMatch(w, *q.p);
    if (op != "eval") other &= w.objective_value == ov || (std::isnan(ov) && std::isnan(w.objective_value));
    if (!other) return J::arr({js("wrote another field")});
    J g = sight(w);
    if (op == "eval") g.s = "[" + ex(w.objective_value, 1).s + "," + g.s.substr(1);
    return g;
  });
}
