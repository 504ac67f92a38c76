// User-defined manifolds used by the drivers: exact polynomial group laws.
#pragma once
#include "proxsuite-nlp/manifold-base.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/spaces/tangent-bundle.hpp"
#include "proxsuite-nlp/modelling/spaces/cartesian-product.hpp"
namespace vh {
using namespace proxsuite::nlp;
using MBase = ManifoldAbstractTpl<double>;
/// parabola {(t, t^2)}: nx = 2, ndx = 1
struct Parabola : MBase {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  int nx() const override { return 2; }
  int ndx() const override { return 1; }
  VectorXs neutral() const override { VectorXs x(2); x << 1, 1; return x; }
  VectorXs rand() const override { VectorXs x = VectorXs::Random(2); x(1) = x(0) * x(0); return x; }
  bool isNormalized(const ConstVectorRef &x) const override { return x(1) == x(0) * x(0); }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const override { double t = x(0) + v(0); o(0) = t; o(1) = t * t; }
  void difference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1, VectorRef o) const override { o(0) = x1(0) - x0(0); }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override { J(0, 0) = 1; }
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int a) const override { J(0, 0) = a == 0 ? -1 : 1; }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef, int) const override {}
};
/// Heisenberg group (a,b,c)(a',b',c') = (a+a', b+b', c+c'+ab')
struct Heisenberg : MBase {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  int nx() const override { return 3; }
  int ndx() const override { return 3; }
  using V3 = Eigen::Vector3d; using M3 = Eigen::Matrix3d;
  static V3 mul(const V3 &x, const V3 &y) { return V3(x(0) + y(0), x(1) + y(1), x(2) + y(2) + x(0) * y(1)); }
  static V3 inv(const V3 &x) { return V3(-x(0), -x(1), -x(2) + x(0) * x(1)); }
  static V3 exp(const V3 &v) { return V3(v(0), v(1), v(2) + v(0) * v(1) / 2); }
  static V3 log(const V3 &x) { return V3(x(0), x(1), x(2) - x(0) * x(1) / 2); }
  static M3 lower(double a, double b) { M3 m = M3::Identity(); m(2, 0) = a; m(2, 1) = b; return m; }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const override { V3 r = mul(x, exp(v)); o = r; }
  void difference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1, VectorRef o) const override { V3 r = log(mul(inv(x0), x1)); o = r; }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef J, int a) const override {
    J = a == 0 ? lower(v(1), -v(0)) : lower(v(1) / 2, -v(0) / 2);
  }
  void Jdifference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1, MatrixRef J, int a) const override {
    V3 d = log(mul(inv(x0), x1));
    if (a == 1) J = lower(-d(1) / 2, d(0) / 2); else J = -lower(d(1) / 2, -d(0) / 2);
  }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &v, MatrixRef J, int a) const override {
    M3 m = a == 0 ? lower(v(1), -v(0)) : lower(v(1) / 2, -v(0) / 2);
    MatrixXs t = m * J; J = t;
  }
};
/// plane with x + 2 v: coordinates and tangent vectors have the same size but not the same length
struct Scaled : MBase {
  using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double);
  int nx() const override { return 2; }
  int ndx() const override { return 2; }
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const override { o = x + 2 * v; }
  void difference_impl(const ConstVectorRef &x0, const ConstVectorRef &x1, VectorRef o) const override { o = (x1 - x0) / 2; }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override { J.setIdentity(); }
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int a) const override { J.setZero(); J.diagonal().setConstant(a == 0 ? -1 : 1); }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef, int) const override {}
};
} // namespace vh
