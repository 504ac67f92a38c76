// Conformance driver for constraint sets (C05, C06).
#include "vh.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
using namespace proxsuite::nlp;
using namespace vh;
using Set = ConstraintSetTpl<double>;
using Poly = xyz::polymorphic<Set>;
using VectorXd = Eigen::VectorXd; using MatrixXd = Eigen::MatrixXd;
static std::map<std::string, std::unique_ptr<Poly>> S;
static Poly &at(const std::string &n) { return *S.at(n); }
static void put(const std::string &n, const Poly &p) {
  auto it = S.find(n);
  if (it != S.end() && it->second) *it->second = p; else S[n] = std::make_unique<Poly>(p);
}
static double U = 4; // all operations are homogeneous: the unit of all reals may be any power of two
int main(int argc, char **argv) {
  return loop(argc, argv, [](Reader &r) -> J {
    std::string op = r.w();
    if (op == "reset") { S.clear(); U = std::ldexp(1., (int)r.i()); return J::arr({js("ok")}); }
    if (op == "new") {
      std::string s = r.w(), k = r.w();
      VectorXd lo = r.v(U), hi = r.v(U);
      if (k == "eq") put(s, Poly(EqualityConstraintTpl<double>()));
      else if (k == "neg") put(s, Poly(NegativeOrthantTpl<double>()));
      else if (k == "l1") put(s, Poly(NonsmoothPenaltyL1Tpl<double>()));
      else put(s, Poly(BoxConstraintTpl<double>(lo, hi)));
      return J::arr({js("ok")});
    }
    if (op == "prod") {
      std::string s = r.w(); auto parts = r.lw(); auto sz = r.li();
      std::vector<Poly> cs; for (auto &p : parts) cs.push_back(at(p));
      std::vector<Eigen::Index> bs(sz.begin(), sz.end());
      put(s, Poly(ConstraintSetProductTpl<double>(cs, bs)));
      return J::arr({js("ok")});
    }
    if (op == "copy") { std::string a = r.w(), b = r.w(); Poly tmp(at(a)); put(b, tmp); return J::arr({js("ok")}); }
    if (op == "mu") { std::string a = r.w(); at(a)->setProxParameter(dec(r.i(), U)); return J::arr({js("ok")}); }
    if (op == "q") {
      const Set &s = *at(r.w());
      VectorXd z = r.v(U); MatrixXd Jm = r.m(1);
      const long n = z.size();
      // embed in guarded buffers
      auto guard = [&](auto f, VectorXd &out) { VectorXd b = VectorXd::Constant(n + 4, 777.); f(b.segment(2, n)); out = b.segment(2, n); return b(0) == 777. && b(1) == 777. && b(n + 2) == 777. && b(n + 3) == 777.; };
      bool g = true;
      VectorXd p, nc, pp, z0 = z;
      g &= guard([&](auto o) { s.projection(z, o); }, p);
      g &= guard([&](auto o) { s.normalConeProjection(z, o); }, nc);
      g &= guard([&](auto o) { s.projection(p, o); }, pp);
      // aliased calls
      VectorXd al = z; s.projection(al, al); g &= al == p;
      al = z; s.normalConeProjection(al, al); g &= al == nc;
      Eigen::Matrix<bool, -1, 1> act(n), act2(n);
      act.setConstant(true); s.computeActiveSet(z, act);
      act2.setConstant(false); s.computeActiveSet(z, act2); g &= act == act2;
      auto jac = [&](bool proj) {
        MatrixXd B = MatrixXd::Constant(n + 2, Jm.cols() + 1, 777.);
        B.block(1, 0, n, Jm.cols()) = Jm;
        auto blk = B.block(1, 0, n, Jm.cols());
        if (proj) s.applyProjectionJacobian(z, blk); else s.applyNormalConeProjectionJacobian(z, blk);
        MatrixXd out = blk; blk.setConstant(777.); g &= (B.array() == 777.).all(); return out;
      };
      MatrixXd PJ = jac(true), NJ = jac(false);
      double ev = s.evaluate(p);
      long env = -1;
      if (s.mu() > 0) {
        VectorXd zp(n); double e2 = s.computeMoreauEnvelope(z, zp);
        double e1 = s.evaluateMoreauEnvelope(z, nc);
        g &= zp == nc;
        env = (exact(e1, 16 * U) == exact(e2, 16 * U)) ? exact(e1, 16 * U) : INEXACT;
      }
      g &= z == z0;
      if (s.mu() > 0) g &= s.mu_inv() == 1. / s.mu();
      return J::arr({exv(p, U), exv(nc, U), jbv(act), exm(PJ, 1), exm(NJ, 1), ex(ev, U), exv(pp, U), jn(env), ex(s.mu(), U), jb(g)});
    }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  });
}
