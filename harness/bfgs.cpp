// Conformance driver for BFGSStrategy (C18).
#include "vh.hpp"
#include "proxsuite-nlp/fwd.hpp"
#include "proxsuite-nlp/math.hpp"
#include "proxsuite-nlp/macros.hpp"
#include "proxsuite-nlp/bfgs-strategy.hpp"
#include <memory>
using namespace vh; using namespace proxsuite::nlp; using V = Eigen::VectorXd; using M = Eigen::MatrixXd;
using Inv = BFGSStrategy<double, BFGSType::InverseHessian>; using Dir = BFGSStrategy<double, BFGSType::Hessian>;
struct Slot { std::unique_ptr<Inv> a; std::unique_ptr<Dir> b; M H; };
// the update is homogeneous: points, gradients and hence the matrix may be measured in any units (powers of two)
static double UX = 1, UG = 1; static double UH(const Slot &s) { return s.a ? UX / UG : UG / UX; }
static std::map<std::string, Slot> S;
static V vec(Reader &r, double u) { auto l = r.li(); V v(l.size()); for (size_t i = 0; i < l.size(); i++) v(i) = l[i] == 7777 || l[i] == -7777 ? NAN : l[i] == 8888 ? INFINITY : l[i] == -8888 ? -INFINITY : u * double(l[i]); return v; }
static J dy(double v) { if (!std::isfinite(v)) return J::arr({jn(NANV), jn(0)}); long e = 0; while (v != std::floor(v) && e < 60) { v *= 2; e++; } if (std::abs(v) > 2e9) return J::arr({jn(BIG), jn(e)}); return J::arr({jn((long)v), jn(e)}); }
template <class F> static std::string guard(F f) { try { f(); } catch (const std::runtime_error &) { return "runtime_error"; } catch (...) { return "other"; } return "none"; }
static J view(Slot &s, const std::string &t) {
  std::vector<J> rows; for (long i = 0; i < s.H.rows(); i++) { std::vector<J> q; for (long j = 0; j < s.H.cols(); j++) q.push_back(dy(s.H(i, j) / UH(s))); rows.push_back(J::arr(q)); }
  bool v = s.a ? s.a->isValid() : s.b->isValid(), i = s.a ? s.a->is_init : s.b->is_init, p = s.a ? s.a->is_psd : s.b->is_psd; return J::arr({js(t), jb(v), jb(i), jb(p), J::arr(rows)});
}
static J run(Reader &r) {
  std::string op = r.w(); if (op == "reset") { S.clear(); UX = std::ldexp(1., (int)r.i()); UG = std::ldexp(1., (int)r.i()); return J::arr({}); } std::string n = r.w(); Slot &s = S[n]; std::string t = "none";
  if (op == "mk") { long ty = r.i(), d = r.i(), v = r.i(); s.a.reset(); s.b.reset(); if (ty == 0) s.a = v ? std::make_unique<Inv>(int(d)) : std::make_unique<Inv>(); else s.b = v ? std::make_unique<Dir>(int(d)) : std::make_unique<Dir>(); s.H = M::Identity(d, d) * UH(s); }
  else if (op == "H") s.H = r.m(1) * UH(s);
  else if (op == "init") { V x = vec(r, UX), g = vec(r, UG); t = guard([&] { if (s.a) s.a->init(x, g); else s.b->init(x, g); }); }
  else if (op == "upd") { V x = vec(r, UX), g = vec(r, UG); t = guard([&] { if (s.a) s.a->update(x, g, s.H); else s.b->update(x, g, s.H); }); }
  else { Slot &o = S[r.w()]; if (&o != &s) { if (o.a) { if (s.a) *s.a = *o.a; else s.a = std::make_unique<Inv>(*o.a); s.b.reset(); } else { if (s.b) { Dir c(*o.b); *s.b = std::move(c); } else s.b = std::make_unique<Dir>(*o.b); s.a.reset(); } s.H = o.H; } }
  return view(s, t);
}
int main(int c, char **v) { return loop(c, v, run); }
