// Conformance driver for refused uses of the API (C21).
#include "vh.hpp"
#include "spaces.hpp"
#include "proxsuite-nlp/prox-solver.hpp"
#include "proxsuite-nlp/ldlt-allocator.hpp"
#include "proxsuite-nlp/linesearch-armijo.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/residuals/state-residual.hpp"
#include "proxsuite-nlp/modelling/costs/squared-distance.hpp"
using namespace vh; using VS = VectorSpaceTpl<double>; using Cart = CartesianProductTpl<double>; using Poly = polymorphic<MBase>; using V = Eigen::VectorXd; using M = Eigen::MatrixXd;
using CSet = ConstraintSetTpl<double>; using Solver = ProxNLPSolverTpl<double>; using Prob = ProblemTpl<double>;
struct Node { std::string k; long n = 0; std::vector<Node> c; };
static Node node(Reader &r) { r.i(); Node x; x.k = r.w(); if (x.k == "vs") x.n = r.i(); else if (x.k == "tb") x.c.push_back(node(r)); else if (x.k == "prod") { long n = r.i(); for (long i = 0; i < n; i++) x.c.push_back(node(r)); } return x; }
static Poly make(const Node &x);
static Cart prod(const Node &x) { Cart c; for (auto &q : x.c) c.addComponent(make(q)); return c; }
static Poly make(const Node &x) {
  if (x.k == "vs") return Poly(VS((int)x.n)); if (x.k == "par") return Poly(Parabola()); if (x.k == "hei") return Poly(Heisenberg()); if (x.k == "prod") return Poly(prod(x));
  const Node &b = x.c[0]; if (b.k == "vs") return Poly(TangentBundleTpl<VS>(VS((int)b.n))); if (b.k == "par") return Poly(TangentBundleTpl<Parabola>(Parabola())); if (b.k == "hei") return Poly(TangentBundleTpl<Heisenberg>(Heisenberg())); return Poly(TangentBundleTpl<Cart>(prod(b)));
}
// move the first curve coordinate met off the curve; returns whether there was one
static long nxOf(const Node &x) { return make(x)->nx(); }
static bool spoil(const Node &x, V &p, long off) { if (x.k == "par") { p(off + 1) += 1; return true; } if (x.k == "tb") return spoil(x.c[0], p, off); if (x.k == "prod") { std::vector<long> offs; long o = off; for (auto &q : x.c) { offs.push_back(o); o += nxOf(q); } for (size_t i = x.c.size(); i-- > 0;) if (spoil(x.c[i], p, offs[i])) return true; } return false; }
struct Fn : C2FunctionTpl<double> { using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); Fn(long nx, long nr) : Fn(nx, nx, nr) {} Fn(long nx, long ndx, long nr) : C2FunctionTpl<double>(nx, ndx, nr) {} VectorXs operator()(const ConstVectorRef &x) const override { return VectorXs::Constant(nr(), x.sum()); } void computeJacobian(const ConstVectorRef &, MatrixRef J) const override { J.setOnes(); } };
struct Cst : CostFunctionBaseTpl<double> { using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); Cst() : CostFunctionBaseTpl<double>(2, 2) {} double call(const ConstVectorRef &x) const override { return 0.5 * x.squaredNorm() - x(0); } void computeGradient(const ConstVectorRef &x, VectorRef g) const override { g = x; g(0) -= 1; } void computeHessian(const ConstVectorRef &, MatrixRef H) const override { H.setIdentity(); } };
static Node spn; static std::unique_ptr<Poly> sp; static Cart *cart = nullptr; static std::unique_ptr<Prob> prob; static std::unique_ptr<Solver> sol;
static J okj(const J &x) { return J::arr({js("ok"), x}); }
template <class F> static J guard(F f) { try { return okj(f()); } catch (const std::runtime_error &) { return J::arr({js("error")}); } catch (const std::exception &) { return J::arr({js("other")}); } }
static J run(Reader &r) {
  std::string op = r.w(); if (op == "reset") { sp.reset(); sol.reset(); prob.reset(); cart = nullptr; return J::arr({}); }
  if (op == "space") { spn = node(r); sp = std::make_unique<Poly>(make(spn)); cart = dynamic_cast<Cart *>(&**sp); return okj(J::arr({jn((*sp)->nx()), jn((*sp)->ndx())})); }
  if (op == "split") { long k = r.i(), n = r.i(); V x = V::LinSpaced(n, 1, n); const V xc = x; return guard([&] { std::vector<long> s; bool same = true; long o = 0; auto add = [&](const auto &v) { for (auto &b : v) { s.push_back(b.size()); for (long i = 0; i < b.size(); i++) same = same && b(i) == xc(o++); } };
      if (k == 0) add(cart->split(Eigen::Ref<const V>(xc))); else if (k == 1) add(cart->split(Eigen::Ref<V>(x))); else if (k == 2) add(cart->split_vector(Eigen::Ref<const V>(xc))); else add(cart->split_vector(Eigen::Ref<V>(x))); return same ? jil(s) : js("wrong"); }); }
  if (op == "norm") { long n = r.i(); V p = cart->neutral(); V x = V::Zero(n); x.head(std::min<long>(n, p.size())) = p.head(std::min<long>(n, p.size())); return guard([&] { return jb(cart->isNormalized(x)); }); }
  if (op == "jdiff") { long a = r.i(); V p = (*sp)->neutral(); M Jm((*sp)->ndx(), (*sp)->ndx()); return guard([&] { (*sp)->Jdifference(p, p, Jm, (int)a); return jn(0); }); }
  if (op == "target") { long wh = r.i(), how = r.i(), k = r.i(); V p = (*sp)->neutral(); if (how == 1) spoil(spn, p, 0); if (how == 2) { V q = V::Zero(k); q.head(std::min<long>(k, p.size())) = p.head(std::min<long>(k, p.size())); p = q; } long nd = (*sp)->ndx(); V x = (*sp)->neutral();
    return guard([&] { V e; if (wh == 0) { ManifoldDifferenceToPoint<double> f(*sp, p); e = f(x); } else if (wh == 1) { LinearFunctionDifferenceToPoint<double> f(*sp, p, M::Identity(nd, nd), V::Zero(nd)); e = f(x); } else { QuadraticDistanceCostTpl<double> c(*sp, p); V g(nd); c.computeGradient(x, g); e = g; } return e.size() == nd && e.isZero(0) ? jn(nd) : jn(-1); }); }
  if (op == "pset") { long a = r.i(), b = r.i(); return guard([&] { std::vector<polymorphic<CSet>> c(a, polymorphic<CSet>(EqualityConstraintTpl<double>())); std::vector<Eigen::Index> s(b, 1); ConstraintSetProductTpl<double> p(c, s); return jn(0); }); }
  if (op == "compose") { long way = r.i(), a = r.i(), b = r.i(), o = r.i(); shared_ptr<C2FunctionTpl<double>> l = std::make_shared<Fn>(a, b, o), q = std::make_shared<Fn>(2, 1, b); /* only the number of coordinates counts, not tangent dimensions */ return guard([&] { V x(2); x << 1, 2; if (way == 0) { auto f = compose<double>(l, q); return jn((*f)(x).size()); } ComposeFunctionTpl<double> f(l, q); return jn(f(x).size()); }); }
  if (op == "cast") { long n = r.i(); shared_ptr<C2FunctionTpl<double>> f = std::make_shared<Fn>(2, n); return guard([&] { auto c = downcast_function_to_cost<double>(f); V x(2); x << 1, 2; return jn(c->call(x) == 3 ? 0 : -1); }); }
  if (op == "sig") { auto s = r.li(); Eigen::VectorXi v(s.size()); for (size_t i = 0; i < s.size(); i++) v(i) = s[i]; return guard([&] { auto t = computeInertiaTuple(v); return J::arr({jn(t[0]), jn(t[1]), jn(t[2])}); }); }
  if (op == "ldlt") { long c = r.i(); auto p = r.li(), d = r.li(); std::vector<isize> a(p.begin(), p.end()), b(d.begin(), d.end()); long n = 0; for (auto z : p) n += z; for (auto z : d) n += z; return guard([&] { auto f = allocate_ldlt_from_sizes<double>(a, b, (LDLTChoice)c); M A = M::Identity(n, n) * 2; A.bottomRightCorner(n - a[0], n - a[0]).diagonal().array() *= -1; long s = boost::apply_visitor([&](auto &&g) -> long { g.compute(A); Eigen::VectorXi sg; ComputeSignatureVisitor{sg}(g); return sg.size() == n && g.info() == Eigen::Success && sg.sum() == 2 * a[0] - n ? n : -1; }, f); return jn(s); }); }
  if (op == "dim") { long n = r.i(), k = r.i(); V x = V::Zero(k); return guard([&] { PROXSUITE_NLP_DIM_CHECK(x, n); return jn(0); }); }
  if (op == "nan") { long nm = r.i(); auto s = r.li(); V v(s.size()); for (size_t i = 0; i < s.size(); i++) v(i) = s[i] == NANV ? NAN : dec(s[i], 1); return guard([&] { if (nm) PROXSUITE_NLP_RAISE_IF_NAN_NAME(v, "v"); if (!nm) PROXSUITE_NLP_RAISE_IF_NAN(v); return jn(0); }); }
  if (op == "interp") { long k = r.i(); Linesearch<double>::Options o; o.interp_type = (LSInterpolation)k; ArmijoLinesearch<double> ls(o); return guard([&] { double a; ls.run([](double x) { return x * x * 8 - x; }, 0., -1., a); return jn(0); }); }
  if (op == "mk") { long k = r.i(); sol.reset(); std::vector<ConstraintObjectTpl<double>> cs; for (long i = 0; i < k; i++) cs.emplace_back(std::make_shared<Fn>(2, 1), polymorphic<CSet>(NegativeOrthantTpl<double>())); prob = std::make_unique<Prob>(Poly(VS(2)), std::make_shared<Cst>(), cs); sol = std::make_unique<Solver>(*prob, 1e-6, 1e-2, 0., QUIET); return okj(jn(0)); }
  if (op == "setup") { long c = r.i(); sol->ldlt_choice_ = (LDLTChoice)c; return guard([&] { sol->setup(); return jn(0); }); }
  long st = r.i(); sol->ls_strat = st == 0 ? LinesearchStrategy::ARMIJO : (LinesearchStrategy)st; V x0(2); x0 << 2, -3; V l0 = V::Zero(prob->getTotalConstraintDim()); return guard([&] { auto f = sol->solve(x0, l0); return jn(f == ConvergenceFlag::SUCCESS ? 0 : -1); });
}
int main(int c, char **v) { return loop(c, v, run); }
