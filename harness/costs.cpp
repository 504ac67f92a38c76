// Conformance driver for the cost algebra (C10).
#include "vh.hpp"
#include "proxsuite-nlp/cost-sum.hpp"
using namespace proxsuite::nlp;
using namespace vh;
using CB = CostFunctionBaseTpl<double>; using Sum = CostSumTpl<double>;
using BP = shared_ptr<CB>; using SP = shared_ptr<Sum>;
struct Leaf : CB {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  using CB::computeGradient; using CB::computeHessian;
  double k; explicit Leaf(long k) : CB(2, 2), k(k) {}
  double call(const ConstVectorRef &x) const override { return k + k * x(0) - x(1) + k * x(0) * x(0) * x(1); }
  void computeGradient(const ConstVectorRef &x, VectorRef o) const override { o(0) = k + 2 * k * x(0) * x(1); o(1) = k * x(0) * x(0) - 1; }
  void computeHessian(const ConstVectorRef &x, MatrixRef o) const override { o << 2 * k * x(1), 2 * k * x(0), 2 * k * x(0), 0; }
};
static std::map<std::string, BP> P;
static SP sum(const std::string &s) { auto p = std::dynamic_pointer_cast<Sum>(P.at(s)); if (!p) { fprintf(stderr, "not a sum\n"); exit(3); } return p; }
int main(int argc, char **argv) {
  return loop(argc, argv, [](Reader &r) -> J {
    std::string op = r.w();
    J ok = J::arr({js("ok")});
    if (op == "reset") { P.clear(); return ok; }
    std::string d = r.w();
    if (op == "leaf") { P[d] = std::make_shared<Leaf>(r.i()); return ok; }
    if (op == "plus") { BP a = P.at(r.w()), b = P.at(r.w()); P[d] = a + b; return ok; }
    if (op == "rplus") { SP a = sum(r.w()); BP b = P.at(r.w()); SP q = std::move(a) + b; P[d] = q; return ok; }
    if (op == "cplus") { SP a = sum(r.w()); BP b = P.at(r.w()); P[d] = a->clone() + b; return ok; }
    if (op == "smul") { double w = dec(r.i(), 2); BP a = P.at(r.w()); P[d] = w * a; return ok; }
    if (op == "cmul") { SP a = sum(r.w()); double w = dec(r.i(), 2); if (r.i()) P[d] = w * *a; else P[d] = *a * w; return ok; }
    if (op == "neg") { SP a = sum(r.w()); P[d] = -*a; return ok; }
    if (op == "iadd") { BP b = P.at(r.w()); Sum &q = *sum(d); Sum &o = (q += b); return &o == &q ? ok : J::arr({js("not *this")}); }
    if (op == "iaddsum") { SP b = sum(r.w()); Sum &q = *sum(d); Sum &o = (q += *b); return &o == &q ? ok : J::arr({js("not *this")}); }
    if (op == "imul") { Sum &q = *sum(d); Sum &o = (q *= dec(r.i(), 2)); return &o == &q ? ok : J::arr({js("not *this")}); }
    if (op == "addc") { BP b = P.at(r.w()); long w = r.i(); if (w == 2) sum(d)->addComponent(b); else sum(d)->addComponent(b, dec(w, 2)); return ok; }
    if (op == "list") {
      auto l = r.lw(); auto w = r.li(); std::vector<BP> c; std::vector<double> ws; for (auto &x : l) c.push_back(P.at(x)); for (long x : w) ws.push_back(dec(x, 2));
      P[d] = std::make_shared<Sum>(2, 2, c, ws); return ok;
    }
    if (op == "clone") { P[d] = sum(r.w())->clone(); return ok; }
    if (op == "alias") { P[d] = P.at(r.w()); return ok; }
    if (op == "q") {
      const CB &f = *P.at(d); Eigen::VectorXd x = r.v(1); const Eigen::VectorXd x0 = x;
      double v = f.call(x); Eigen::VectorXd g = Eigen::VectorXd::Constant(2, 777.); Eigen::MatrixXd H = Eigen::MatrixXd::Constant(2, 2, 777.);
      f.computeGradient(x, g); f.computeHessian(x, H);
      bool c = f.nx() == 2 && f.ndx() == 2 && f.nr() == 1;
      const C2FunctionTpl<double> &c2 = f;
      Eigen::VectorXd fv = c2(x); Eigen::MatrixXd Jm = Eigen::MatrixXd::Constant(1, 2, 777.), VH = Eigen::MatrixXd::Constant(2, 2, 777.);
      c2.computeJacobian(x, Jm); Eigen::VectorXd three = Eigen::VectorXd::Constant(1, 3.); c2.vectorHessianProduct(x, three, VH);
      c &= fv.size() == 1 && fv(0) == v && Jm.transpose() == g && VH == 3 * H && x == x0;
      c &= f.computeGradient(x) == g && f.computeHessian(x) == H;
      std::vector<J> ws; auto sp = dynamic_cast<const Sum *>(&f);
      if (sp) { c &= sp->numComponents() == sp->weights_.size(); for (double w : sp->weights_) ws.push_back(ex(w, 64)); }
      return J::arr({ex(v, 64), exv(g, 64), exm(H, 64), J::arr(ws), jb(c)});
    }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  });
}
