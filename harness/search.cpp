// Conformance driver for the Armijo line search (C03): runs it on scripted merit functions and
// records every call of the merit function as an event.
#include "vh.hpp"
#include "proxsuite-nlp/math.hpp"
#include "proxsuite-nlp/fwd.hpp"
#include <functional>
#include "proxsuite-nlp/linesearch-armijo.hpp"
using namespace vh; using namespace proxsuite::nlp;
using LS = ArmijoLinesearch<double>; using Opt = Linesearch<double>::Options;
static FILE *out;
struct Obj { std::string s = "{"; void f(const char *k, const J &v) { if (s.size() > 1) s += ","; s += std::string("\"") + k + "\":" + v.s; } void n(const char *k, long v) { f(k, jn(v)); } void t(const char *k, const std::string &v) { f(k, js(v)); } void b(const char *k, bool v) { f(k, jb(v)); } };
static void emit(Obj &o) { fputs((o.s + "}").c_str(), out); fputc('\n', out); fflush(out); }
static std::unique_ptr<LS> ls;
struct Call { double a, v; bool ok; };
typedef long double ld;
// the minimiser of the polynomial c3 a^3 + c2 a^2 + d a relative to [lo, hi]
static J facts(bool cub, bool usable, ld c3, ld c2, ld d, double lo, double hi, double got) {
  std::string cls = "skip"; bool near = false; long left = 0; Obj o;
  if (usable && std::isfinite((double)c3) && std::isfinite((double)c2)) {
    ld x = NAN; bool good = true;
    if (cub && c3 == 0) good = false; else if (c3 == 0) { if (c2 > 0) x = -d / (2 * c2); else good = false; }
    else { ld disc = c2 * c2 - 3 * c3 * d, sc = c2 * c2 + std::abs(3 * c3 * d); if (disc < 1e-6L * sc) good = false; else { ld r = std::sqrt(disc); x = c2 > 0 ? -d / (c2 + r) : (-c2 + r) / (3 * c3); if (c2 > 0 && disc / (9 * c3 * c3) > 1e16L * x * x) good = false; if (std::abs(3 * c3 * d) < 1e-7L * c2 * c2) good = false; } }
    if (good) {
      ld m = 1e-6L * hi; cls = (x > lo + m && x < hi - m) ? "int" : (x < lo - m || x > hi + m) ? "ext" : "amb"; near = std::abs(got - x) <= 1e-6L * hi;
      auto p = [&](ld a) { return ((c3 * a + c2) * a + d) * a; }; ld pl = p(lo), pr = p(hi), e = 1e-9L * (std::abs(c3 * hi * hi * hi) + std::abs(c2 * hi * hi) + std::abs(d * hi)); left = pl < pr - e ? 1 : pl > pr + e ? -1 : 0;
    }
  }
  o.t("cls", cls); o.b("near", near); o.n("left", left); J j; j.s = o.s + "}"; return j;
}
static void run(Reader &r) {
  std::string op = r.w(); Obj o; o.t("ev", op);
  if (op == "poly") {
    auto p = r.li(); long x = r.i(); Eigen::VectorXd c(p.size()); for (size_t i = 0; i < p.size(); i++) c(i) = p[i]; PolynomialTpl<double> P(c); auto d = P.derivative();
    o.f("p", jil(p)); o.n("x", x); o.f("val", ex(P.evaluate(x), 1)); o.f("der", exv(d.coeffs, 1)); o.n("deg", P.degree()); emit(o); return;
  }
  long ip = r.i(), a = r.i(), am = r.i(), mx = r.i(), cmin = r.i(), cmax = r.i(), S = r.i(), thr = r.i(), p0 = r.i(), pb = r.i(), pc = r.i(), fresh = r.i(); long n = r.i(); std::vector<std::pair<long, long>> sc; for (long k = 0; k < n; k++) { auto q = r.li(); sc.push_back({q[0], q[1]}); }
  Opt opt; opt.armijo_c1 = std::ldexp(1., -a); opt.alpha_min = std::ldexp(1., -am); opt.max_num_steps = mx; opt.interp_type = (LSInterpolation)ip; opt.contraction_min = cmin / 16.; opt.contraction_max = cmax / 16.; opt.dphi_thresh = thr / 16.;
  if (fresh || !ls) ls = std::make_unique<LS>(opt); else ls->setOptions(opt);
  o.n("ip", ip); o.n("a", a); o.n("S", S); o.n("thr", thr); o.n("max", mx); emit(o);
  double phi0 = p0 / 16., s = S / 16., amin = opt.alpha_min; std::vector<Call> calls;
  auto phi = [&](double al) -> double {
    auto t = sc[std::min(calls.size(), sc.size() - 1)]; double v = 0; std::string kind = "val";
    switch (t.first) { case 0: v = phi0 + t.second / 16.; break; case 1: v = NAN; kind = "nan"; break; case 2: v = INFINITY; kind = "pinf"; break; case 3: v = -INFINITY; kind = "ninf"; break; case 5: kind = "lerr"; break; case 6: v = phi0 + al * (s + al * (pb / 16. + al * (pc / 16.))); break; default: kind = "rerr"; }
    Obj e; e.t("ev", "call"); double pa = calls.empty() ? 0 : calls.back().a; double A = al * 4194304.; long Af = A > 5e6 || A < 0 || std::isnan(A) ? -1 : (long)std::floor(A);
    e.n("A", Af); e.b("aex", Af == A); e.b("one", al == 1.); e.b("half", !calls.empty() && al == std::max(0.5 * pa, amin)); e.b("le", al <= amin); e.b("lt", !(al >= amin));
    double lo = opt.contraction_min * pa, hi = opt.contraction_max * pa; e.b("in", al > lo && al < hi); e.b("loE", al == lo); e.b("hiE", al == hi); e.b("fl", al == amin && lo <= amin);
    e.t("kind", kind); double D = std::isfinite(v) ? (v - phi0) * 65536. : 0; long Df = (long)std::floor(std::max(-1e9, std::min(1e9, D))); e.n("D", Df); e.b("dex", D == Df);
    long lat = 0, prv = 0; for (size_t k = 0; k < calls.size(); k++) if (calls[k].ok) { prv = lat; lat = k + 1; } e.n("lat", lat); e.n("prv", prv);
    { ld c2 = 0, c3 = 0; bool u = lat && S < 0 && std::isfinite(calls[lat - 1].v); if (u) { ld b0 = calls[lat - 1].a; c2 = (calls[lat - 1].v - phi0 - b0 * s) / (b0 * b0); } e.f("quad", facts(false, u, 0, c2, s, lo, hi, al));
      u = u && prv && std::isfinite(calls[prv - 1].v) && calls[prv - 1].a > 1.0001 * calls[lat - 1].a; if (u) { ld b0 = calls[lat - 1].a, b1 = calls[prv - 1].a, e0 = (calls[lat - 1].v - phi0 - b0 * s) / (b0 * b0), e1 = (calls[prv - 1].v - phi0 - b1 * s) / (b1 * b1); c3 = (e1 - e0) / (b1 - b0); c2 = e0 - c3 * b0; } e.f("cub", facts(true, u, c3, c2, s, lo, hi, al)); }
    emit(e); bool ok = kind != "rerr" && kind != "lerr"; calls.push_back({al, v, ok}); if (calls.size() > 4000) { Obj z; z.t("ev", "runaway"); emit(z); exit(0); }
    if (t.first == 4) throw std::runtime_error("no value"); if (t.first == 5) throw std::logic_error("no value"); if (t.first == 7) throw RuntimeError("no value"); return v;
  };
  double al = -7, res = -7; std::string thrown = "none"; try { res = ls->run(phi, phi0, s, al); } catch (const std::runtime_error &) { thrown = "runtime_error"; } catch (const std::logic_error &) { thrown = "logic_error"; }
  long idx = 0; for (size_t k = 0; k < calls.size(); k++) if (calls[k].a == al && calls[k].ok) idx = k + 1; Obj e; e.t("ev", "end"); e.t("thrown", thrown); e.n("idx", idx); e.b("same", idx && (res == calls[idx - 1].v || (std::isnan(res) && std::isnan(calls[idx - 1].v)))); emit(e);
}
int main(int, char **argv) { out = fopen(argv[2], "w"); std::ifstream in(argv[1]); std::string l; while (std::getline(in, l)) { Reader r(l); run(r); } fclose(out); return 0; }
