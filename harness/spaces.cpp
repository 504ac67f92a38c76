// Conformance driver for manifolds (C08, C09).
#include "vh.hpp"
#include "spaces.hpp"
using namespace vh;
using Poly = polymorphic<MBase>;
using VS = VectorSpaceTpl<double>; using VS2 = VectorSpaceTpl<double, 2>; using Cart = CartesianProductTpl<double>;
using VectorXd = Eigen::VectorXd; using MatrixXd = Eigen::MatrixXd;
using TBV = TangentBundleTpl<VS>; using TBV2 = TangentBundleTpl<VS2>; using TBH = TangentBundleTpl<Heisenberg>; using TBP = TangentBundleTpl<Parabola>;
using TBS = TangentBundleTpl<Scaled>;
using TBC = TangentBundleTpl<Cart>; using TTBV = TangentBundleTpl<TBV>;
static std::map<std::string, std::unique_ptr<Poly>> S;
static Poly &at(const std::string &n) { return *S.at(n); }
static void put(const std::string &n, const Poly &p) { auto it = S.find(n); if (it != S.end()) { *it->second = p; } else S[n] = std::make_unique<Poly>(p); }
static void desc(const MBase &m, std::vector<long> &o) {
  auto tb = [&](const MBase &b) { o.push_back(5); desc(b, o); };
  if (auto p = dynamic_cast<const VS *>(&m)) { o.push_back(1); o.push_back(p->nx()); }
  else if (auto p = dynamic_cast<const VS2 *>(&m)) { o.push_back(2); o.push_back(p->nx()); }
  else if (dynamic_cast<const Parabola *>(&m)) o.push_back(3);
  else if (dynamic_cast<const Heisenberg *>(&m)) o.push_back(4);
  else if (dynamic_cast<const Scaled *>(&m)) o.push_back(7);
  else if (auto p = dynamic_cast<const Cart *>(&m)) { o.push_back(6); o.push_back(p->numComponents()); for (size_t i = 0; i < p->numComponents(); i++) desc(p->getComponent(i), o); }
  else if (auto p = dynamic_cast<const TBV *>(&m)) tb(p->getBaseSpace());
  else if (auto p = dynamic_cast<const TBV2 *>(&m)) tb(p->getBaseSpace());
  else if (auto p = dynamic_cast<const TBH *>(&m)) tb(p->getBaseSpace());
  else if (auto p = dynamic_cast<const TBS *>(&m)) tb(p->getBaseSpace());
  else if (auto p = dynamic_cast<const TBP *>(&m)) tb(p->getBaseSpace());
  else if (auto p = dynamic_cast<const TBC *>(&m)) tb(p->getBaseSpace());
  else if (auto p = dynamic_cast<const TTBV *>(&m)) tb(p->getBaseSpace());
  else o.push_back(-1);
}
static J D(const std::string &n) { std::vector<long> o; desc(*at(n), o); return jil(o); }
static Poly bundle(const MBase &m) {
  if (auto p = dynamic_cast<const VS *>(&m)) { if (p->nx() % 2) return Poly(TBV(*p)); return Poly(TBV(p->nx())); }
  if (auto p = dynamic_cast<const VS2 *>(&m)) return Poly(TBV2(*p));
  if (auto p = dynamic_cast<const Parabola *>(&m)) return Poly(TBP(*p));
  if (auto p = dynamic_cast<const Scaled *>(&m)) return Poly(TBS(*p));
  if (auto p = dynamic_cast<const Heisenberg *>(&m)) return Poly(TBH(*p));
  if (auto p = dynamic_cast<const Cart *>(&m)) return Poly(TBC(*p));
  if (auto p = dynamic_cast<const TBV *>(&m)) return Poly(TTBV(*p));
  fprintf(stderr, "driver: no bundle\n"); exit(3);
}
static const Cart &C(const std::string &n) { return dynamic_cast<const Cart &>(*at(n)); }
const double U = 256;
// write into the middle of a guarded buffer
template <class F> static J guarded(long n, F f) {
  VectorXd b = VectorXd::Constant(n + 4, 777.);
  f(Eigen::Ref<VectorXd>(b.segment(2, n)));
  bool g = b(0) == 777. && b(1) == 777. && b(n + 2) == 777. && b(n + 3) == 777.;
  VectorXd o = b.segment(2, n);
  return J::arr({exv(o, U), jb(g)});
}
template <class F> static J guardedM(long r, F f) {
  MatrixXd b = MatrixXd::Constant(r + 2, r + 2, 777.);
  f(Eigen::Ref<MatrixXd>(b.block(1, 1, r, r)));
  MatrixXd o = b.block(1, 1, r, r); b.block(1, 1, r, r).setConstant(777.);
  if (!(b.array() == 777.).all()) return J::arr({js("wrote outside its block")});
  return J::arr({exm(o, U)});
}
static J pieces(const std::vector<VectorXd> &p) { std::vector<J> r; for (auto &v : p) r.push_back(exv(v, 1)); return J::arr(r); }
int main(int argc, char **argv) {
  return loop(argc, argv, [](Reader &r) -> J {
    std::string op = r.w();
    if (op == "reset") { S.clear(); return J::arr({js("ok")}); }
    std::string s = r.w();
    if (op == "new") {
      std::string k = r.w(); int n = r.i();
      if (k == "vs") put(s, Poly(VS(n))); else if (k == "vs2") put(s, Poly(VS2())); else if (k == "par") put(s, Poly(Parabola())); else if (k == "scl") put(s, Poly(Scaled())); else put(s, Poly(Heisenberg()));
      return J::arr({D(s)});
    }
    if (op == "tb") { Poly q = bundle(*at(r.w())); put(s, q); return J::arr({D(s)}); }
    if (op == "list") {
      auto l = r.lw(); std::vector<Poly> v; for (auto &x : l) v.push_back(at(x));
      if (v.size() == 2) put(s, Poly(Cart(v[0], v[1]))); else put(s, Poly(Cart(v)));
      return J::arr({D(s)});
    }
    if (op == "mul") {
      std::string a = r.w(), ma = r.w(), b = r.w(), mb = r.w();
      auto fin = [&](const Cart &c) { put(s, Poly(c)); };
      if (ma == "p" && mb == "p") fin(at(a) * at(b));
      else if (ma == "c" && mb == "p") fin(C(a) * at(b));
      else if (ma == "p" && mb == "c") fin(at(a) * C(b));
      else fin(C(a) * C(b));
      J e = J::arr({});
      return J::arr({D(s), a == s ? e : D(a), b == s ? e : D(b)});
    }
    if (op == "add") {
      std::string b = r.w(), mb = r.w();
      Cart &c = dynamic_cast<Cart &>(*at(s));
      const MBase &o = *at(b);
      if (mb == "c") c.addComponent(C(b));
      else if (b == s) { Poly cp(at(b)); c.addComponent(cp); }
      else if (auto p = dynamic_cast<const VS *>(&o)) c.addComponent(*p);
      else if (auto p = dynamic_cast<const Heisenberg *>(&o)) c.addComponent(*p);
      else c.addComponent(at(b));
      return J::arr({D(s), D(b)});
    }
    if (op == "copy") { std::string b = r.w(); Poly t(at(s)); put(b, t); return J::arr({D(b), D(s)}); }
    const MBase &m = *at(s);
    if (op == "dim") {
      auto t = m.tangentSpace();
      auto p = dynamic_cast<const Cart *>(&m);
      return J::arr({jn(m.nx()), jn(m.ndx()), jn(t.nx()), jn(t.ndx()), jn(p ? (long)p->numComponents() : -1)});
    }
    if (op == "neutral") { VectorXd x = m.neutral(); return J::arr({exv(x, U), jb(m.isNormalized(x))}); }
    if (op == "rand") { VectorXd x = m.rand(); return J::arr({jn(x.size()), jb(m.isNormalized(x))}); }
    VectorXd x = r.v(1);
    if (op == "norm") return J::arr({jb(m.isNormalized(x))});
    if (op == "split" || op == "splitv") {
      auto &c = dynamic_cast<const Cart &>(m); bool q = op == "split"; const VectorXd x0 = x;
      std::vector<VectorXd> cp, mp; bool ok = true;
      auto mut = q ? c.split(Eigen::Ref<VectorXd>(x)) : c.split_vector(Eigen::Ref<VectorXd>(x));
      Eigen::Ref<const VectorXd> cx(x);
      auto con = q ? c.split(cx) : c.split_vector(cx);
      ok &= con.size() == mut.size();
      for (auto &v : con) cp.push_back(v);
      for (size_t i = 0; i < mut.size() && ok; i++) ok &= VectorXd(mut[i]) == cp[i];
      VectorXd merged = q ? c.merge(cp) : c.merge_vector(cp);
      for (size_t i = 0; i < mut.size(); i++) for (long j = 0; j < mut[i].size(); j++) mut[i](j) = 100 * (i + 1) + j + 1;
      // the const views alias the same storage
      for (size_t i = 0; i < con.size() && ok; i++) ok &= VectorXd(con[i]) == VectorXd(mut[i]);
      return J::arr({pieces(cp), exv(x, 1), exv(merged, 1), jb(ok)});
    }
    VectorXd y = r.v(1);
    if (op == "int") {
      VectorXd a = m.integrate(x, y);
      J g = guarded(m.nx(), [&](Eigen::Ref<VectorXd> o) { m.integrate(x, y, o); if (VectorXd(o) != a) o.setConstant(555); });
      return g;
    }
    if (op == "diff") {
      VectorXd a = m.difference(x, y);
      return guarded(m.ndx(), [&](Eigen::Ref<VectorXd> o) { m.difference(x, y, o); if (VectorXd(o) != a) o.setConstant(555); });
    }
    if (op == "rt") { VectorXd v = r.v(1); return J::arr({exv(m.integrate(x, m.difference(x, y)), U), exv(m.difference(x, m.integrate(x, v)), U)}); }
    long a = r.i();
    if (op == "Jint") return guardedM(m.ndx(), [&](Eigen::Ref<MatrixXd> o) { m.Jintegrate(x, y, o, a); });
    if (op == "Jdiff") return guardedM(m.ndx(), [&](Eigen::Ref<MatrixXd> o) { m.Jdifference(x, y, o, a); });
    if (op == "interp") {
      VectorXd p = m.interpolate(x, y, a / 4.), p2(m.nx()); p2.setConstant(777.);
      m.interpolate(x, y, a / 4., p2); if (p2 != p) p.setConstant(555);
      return J::arr({exv(p, U)});
    }
    if (op == "trans") { MatrixXd Jm = r.m(1, 2); m.JintegrateTransport(x, y, Jm, a); return J::arr({exm(Jm, U)}); }
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3);
  });
}
