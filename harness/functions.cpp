// Conformance driver for functions and costs (C11, C12).
#include "vh.hpp"
#include "spaces.hpp"
#include "proxsuite-nlp/function-ops.hpp"
#include "proxsuite-nlp/cost-function.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/residuals/state-residual.hpp"
#include "proxsuite-nlp/modelling/costs/quadratic-residual.hpp"
#include "proxsuite-nlp/modelling/costs/squared-distance.hpp"
#include "proxsuite-nlp/modelling/autodiff/finite-difference.hpp"
using namespace vh;
using VS = VectorSpaceTpl<double>; using Cart = CartesianProductTpl<double>; using Poly = polymorphic<MBase>;
using VectorXd = Eigen::VectorXd; using MatrixXd = Eigen::MatrixXd;
using F0 = BaseFunctionTpl<double>; using F1 = C1FunctionTpl<double>; using F2 = C2FunctionTpl<double>; using CF = CostFunctionBaseTpl<double>;
struct P2 : F2 {   // (x1^2 + k x2, x1 x2 - x2)
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); double k; P2(long k) : F2(2, 2, 2), k(k) {}
  VectorXs operator()(const ConstVectorRef &x) const override { VectorXs o(2); o << x(0) * x(0) + k * x(1), x(0) * x(1) - x(1); return o; }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override { J << 2 * x(0), k, x(1), x(0) - 1; }
  void vectorHessianProduct(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef H) const override { H << 2 * v(0), v(1), v(1), 0; }
};
struct P1 : F2 {   // x1^2 x2 + k x1
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); double k; P1(long k) : F2(2, 2, 1), k(k) {}
  VectorXs operator()(const ConstVectorRef &x) const override { VectorXs o(1); o << x(0) * x(0) * x(1) + k * x(0); return o; }
  void computeJacobian(const ConstVectorRef &x, MatrixRef J) const override { J << 2 * x(0) * x(1) + k, x(0) * x(0); }
  void vectorHessianProduct(const ConstVectorRef &x, const ConstVectorRef &v, MatrixRef H) const override { H << 2 * v(0) * x(1), 2 * v(0) * x(0), 2 * v(0) * x(0), 0; }
};
static std::vector<shared_ptr<void>> keep;
static std::map<std::string, shared_ptr<F0>> P;
static Poly space(const std::string &c) {
  if (c == "v1") return Poly(VS(1)); if (c == "v2") return Poly(VS(2)); if (c == "v3") return Poly(VS(3));
  if (c == "v9") return Poly(VS(9)); if (c == "v17") return Poly(VS(17));
  if (c == "mix") { Cart m; m.addComponent(Poly(VS(5))); m.addComponent(Poly(Parabola())); m.addComponent(Poly(Scaled())); m.addComponent(Poly(TangentBundleTpl<VS>(2))); return Poly(m); }
  if (c == "hei") return Poly(Heisenberg()); if (c == "par") return Poly(Parabola()); if (c == "scl") return Poly(Scaled());
  if (c == "tb1") return Poly(TangentBundleTpl<VS>(1));
  if (c == "v1hei") return Poly(Cart(Poly(VS(1)), Poly(Heisenberg())));
  if (c == "parv1") return Poly(Cart(Poly(Parabola()), Poly(VS(1))));
  fprintf(stderr, "space %s\n", c.c_str()); exit(3);
}
template <class T> static shared_ptr<T> get(const std::string &s) { auto p = std::dynamic_pointer_cast<T>(P.at(s)); if (!p) { fprintf(stderr, "bad cast %s\n", s.c_str()); exit(3); } return p; }
static void put(const std::string &s, shared_ptr<F0> p) { keep.push_back(p); P[s] = p; }
const double U = 256;
using QR = QuadraticResidualCostTpl<double>; using QD = QuadraticDistanceCostTpl<double>;
int main(int argc, char **argv) {
  return loop(argc, argv, [](Reader &r) -> J {
    std::string op = r.w(); J ok = J::arr({js("ok")});
    if (op == "reset") { P.clear(); keep.clear(); return ok; }
    std::string s = r.w();
    if (op == "lin") { MatrixXd A = r.m(1); VectorXd b = r.v(1); if (b.isZero()) put(s, std::make_shared<LinearFunctionTpl<double>>(A)); else put(s, std::make_shared<LinearFunctionTpl<double>>(A, b)); return ok; }
    if (op == "diff") { Poly m = space(r.w()); VectorXd t = r.v(1); put(s, std::make_shared<ManifoldDifferenceToPoint<double>>(m, t)); return ok; }
    if (op == "ldiff") { Poly m = space(r.w()); VectorXd t = r.v(1); MatrixXd A = r.m(1); VectorXd b = r.v(1); put(s, std::make_shared<LinearFunctionDifferenceToPoint<double>>(m, t, A, b)); return ok; }
    if (op == "poly") { put(s, std::make_shared<P2>(r.i())); return ok; }
    if (op == "pol1") { put(s, std::make_shared<P1>(r.i())); return ok; }
    if (op == "comp") { auto l = get<F2>(r.w()); auto q = get<F2>(r.w()); put(s, compose(l, q)); return ok; }
    if (op == "qres") { auto f = get<F2>(r.w()); MatrixXd Q = r.m(1); VectorXd b = r.v(1); double c = r.i();
      if (b.isZero()) put(s, std::make_shared<QR>(f, Q, c)); else put(s, std::make_shared<QR>(f, Q, b, c)); return ok; }
    if (op == "dist") { Poly m = space(r.w()); VectorXd t = r.v(1); MatrixXd Q = r.m(1); long mode = r.i();
      if (mode == 0) put(s, std::make_shared<QD>(m)); else if (mode == 1) put(s, std::make_shared<QD>(m, t)); else put(s, std::make_shared<QD>(m, t, Q)); return ok; }
    if (op == "f2c") { put(s, downcast_function_to_cost<double>(get<F2>(r.w()))); return ok; }
    if (op == "fd1" || op == "fd2") {
      auto m = std::make_shared<Poly>(space(r.w())); keep.push_back(m); std::string f = r.w(); double e = r.i() / 4.;
      if (op == "fd1") put(s, std::make_shared<autodiff::finite_difference_wrapper<double, autodiff::TOC1>>(**m, *get<F0>(f), e));
      else put(s, std::make_shared<autodiff::finite_difference_wrapper<double, autodiff::TOC2>>(**m, *get<F1>(f), e));
      return ok;
    }
    if (op == "settgt") { get<QD>(s)->updateTarget(r.v(1)); return ok; }
    if (op == "gn") { get<QR>(s)->gauss_newton_ = r.i() == 1; return ok; }
    if (op == "cp") { auto a = get<QR>(r.w()); put(s, std::make_shared<QR>(*a)); return ok; }
    if (op == "alias") { P[s] = P.at(r.w()); return ok; }
    auto f = P.at(s);
    if (op == "t") { VectorXd t = get<QD>(s)->getTarget(); return J::arr({exv(t, U)}); }
    if (op == "dims") return J::arr({jn(f->nx()), jn(f->ndx()), jn(f->nr())});
    VectorXd x = r.v(1); const VectorXd x0 = x; const long n = f->ndx();
    auto chk = [&](J j) { return x == x0 ? j : J::arr({js("modified its argument")}); };
    if (op == "v") return chk(J::arr({exv((*f)(x), U)}));
    if (op == "J") {
      auto f1 = get<F1>(s); MatrixXd J2 = MatrixXd::Constant(f->nr(), n, 777.); f1->computeJacobian(x, J2);
      MatrixXd J3 = static_cast<const F1 &>(*f1).F1::computeJacobian(x); if (J2 != J3) return J::arr({js("overloads differ")});
      return chk(J::arr({exm(J2, U)}));
    }
    if (op == "H") { auto f2 = get<F2>(s); VectorXd v = r.v(1); MatrixXd H = MatrixXd::Constant(n, n, 777.); f2->vectorHessianProduct(x, v, H); return chk(J::arr({exm(H, U)})); }
    auto c = get<CF>(s);
    if (op == "c") return chk(J::arr({ex(c->call(x), U)}));
    if (op == "g") { VectorXd g = VectorXd::Constant(n, 777.); c->computeGradient(x, g); if (static_cast<const CF &>(*c).CF::computeGradient(x) != g) return J::arr({js("overloads differ")}); return chk(J::arr({exv(g, U)})); }
    if (op == "h") { MatrixXd H = MatrixXd::Constant(n, n, 777.); c->computeHessian(x, H); if (static_cast<const CF &>(*c).CF::computeHessian(x) != H) return J::arr({js("overloads differ")}); return chk(J::arr({exm(H, U)})); }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  });
}
