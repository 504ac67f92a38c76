// Conformance driver for printed forms (C24): what is printed, parsed back.
#include "vh.hpp"
#include "proxsuite-nlp/prox-solver.hpp"
#include "proxsuite-nlp/cost-sum.hpp"
#include "proxsuite-nlp/linesearch-base.hpp"
#include "proxsuite-nlp/fmt-hessian-approx.hpp"
#include "proxsuite-nlp/linalg/block-kind.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <cstring>
using namespace vh; using namespace proxsuite::nlp; using linalg::SymbolicBlockMatrix; using linalg::BlockKind;
using V = Eigen::VectorXd; using VS = VectorSpaceTpl<double>;
struct C0 : CostFunctionBaseTpl<double> { using Scalar = double; PROXSUITE_NLP_DYNAMIC_TYPEDEFS(double); C0() : CostFunctionBaseTpl<double>(1, 1) {} double call(const ConstVectorRef &) const override { return 0; } void computeGradient(const ConstVectorRef &, VectorRef) const override {} void computeHessian(const ConstVectorRef &, MatrixRef) const override {} };
static double rd(Reader &r) { auto q = r.li(); char b[40]; snprintf(b, sizeof b, "%lde%ld", q[0], q[1]); return strtod(b, nullptr); }
static J real(const std::string &t) { // four significant digits of a printed number
  char *e; double v = strtod(t.c_str(), &e); if (t.empty() || *e) return js("garbled"); if (v == 0) return jil(std::vector<long>{0, 0});
  char b[40]; snprintf(b, sizeof b, "%.3e", v); long ex = atol(strchr(b, 'e') + 1); *strchr(b, 'e') = 0; std::string m; for (char *p = b; *p; p++) if (*p != '.') m += *p; return jil(std::vector<long>{atol(m.c_str()), ex - 3});
}
static std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n,"); return a == std::string::npos || b == std::string::npos ? "" : s.substr(a, b - a + 1); }
static std::vector<std::string> words(const std::string &s, const char *seps) { std::vector<std::string> o; std::string c; for (char ch : s) if (strchr(seps, ch)) { if (!c.empty()) o.push_back(c); c.clear(); } else c += ch; if (!c.empty()) o.push_back(c); return o; }
template <class F> static std::string captured(F f) {
  std::cout.flush(); fflush(stdout); char name[] = "outXXXXXX"; int fd = mkstemp(name), save = dup(1); dup2(fd, 1); f(); std::cout.flush(); fflush(stdout); dup2(save, 1); close(save);
  std::string r; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k); close(fd); unlink(name); return r;
}
static J pattern(const std::string &t) {
  std::vector<J> rows; std::istringstream in(t); std::string l;
  while (std::getline(in, l)) { std::vector<J> c; for (size_t i = 0; i + 6 <= l.size(); i += 6) { std::string g = l.substr(i, 6); c.push_back(g == "██" ? jn(1) : g == "░░" ? jn(0) : js("garbled")); } if (l.size() % 6) c.push_back(js("garbled")); rows.push_back(J::arr(c)); }
  return J::arr(rows);
}
static J obj(const std::vector<std::pair<std::string, J>> &v) { J j; j.s = "{"; for (size_t k = 0; k < v.size(); k++) j.s += (k ? "," : "") + std::string("\"") + v[k].first + "\":" + v[k].second.s; j.s += "}"; return j; }
static J run(Reader &r) {
  std::string op = r.w(); if (op == "reset") return J::arr({});
  if (op == "pat") {
    auto lens = r.li(); long n = r.i(); SymbolicBlockMatrix s(std::vector<linalg::isize>(lens.begin(), lens.end()));
    for (long i = 0; i < n; i++) { auto q = r.li(); for (long j = 0; j < n; j++) s(i, j) = (BlockKind)q[j]; }
    long a = r.i(), k = r.i(); SymbolicBlockMatrix v = a == 0 && k == n ? s : s.submatrix(a, k);
    J out = pattern(captured([&] { linalg::print_sparsity_pattern(v); })); delete[] s.m_data; delete[] s.segment_lens; return out;
  }
  if (op == "csum") {
    auto w = r.li(); CostSumTpl<double> s(1, 1); for (long x : w) s.addComponent(std::make_shared<C0>(), x / 4.); std::ostringstream o; o << s; std::string t = o.str();
    size_t p = t.find("num_components="), q = t.find("weights=("), e = t.find(')', q); if (p == std::string::npos || q == std::string::npos || e == std::string::npos) return js("garbled");
    std::vector<J> ws; for (auto &x : words(t.substr(q + 9, e - q - 9), ", ")) ws.push_back(jn(exact(strtod(x.c_str(), nullptr), 4))); return J::arr({jn(atol(t.c_str() + p + 15)), J::arr(ws)});
  }
  if (op == "res") {
    long via = r.i(); auto d = r.li(); long k = r.i(); double s[8]; for (long i = 0; i < k; i++) s[i] = rd(r); auto viol = r.li(); std::vector<std::vector<long>> act(r.i()); for (auto &a : act) a = r.li();
    std::vector<ConstraintObjectTpl<double>> cs; for (long n : d) cs.emplace_back(std::make_shared<LinearFunctionTpl<double>>(Eigen::MatrixXd::Zero(n, 2), V::Zero(n)), EqualityConstraintTpl<double>());
    ProblemTpl<double> P(VS(2), std::make_shared<C0>(), cs); ResultsTpl<double> R(P); R.converged = (ConvergenceFlag)(int)s[0]; R.merit = s[1]; R.value = s[2]; R.num_iters = (size_t)s[3]; R.mu = s[4]; R.rho = s[5]; R.dual_infeas = s[6]; R.prim_infeas = s[7];
    for (size_t i = 0; i < d.size(); i++) { R.constraint_violations(i) = viol[i] / 4.; for (long j = 0; j < d[i]; j++) R.active_set[i](j) = act[i][j]; }
    std::string t; if (via) t = fmt::format("{}", R); else { std::ostringstream o; o << R; t = o.str(); }
    std::vector<J> keys, vals, vi; std::vector<std::vector<J>> as; bool ok = true; std::istringstream in(t); std::string l;
    while (std::getline(in, l)) {
      size_t c = l.find(':'); if (c == std::string::npos) continue; std::string key = trim(l.substr(0, c)), val = trim(l.substr(c + 1));
      if (key == "cstr_values") { for (auto &x : words(val, " ,[]()")) vi.push_back(jn(exact(strtod(x.c_str(), nullptr), 4))); }
      else if (key.rfind("activeSet[", 0) == 0) { ok = ok && (size_t)atol(key.c_str() + 10) == as.size(); as.emplace_back(); for (auto &x : words(val, " ,[]()")) as.back().push_back(x == "1" || x == "true" ? jn(1) : x == "0" || x == "false" ? jn(0) : js(x)); }
      else { keys.push_back(js(key)); vals.push_back(key == "convergence" || key == "num_iters" ? jil(std::vector<long>{atol(val.c_str()), 0}) : real(val)); }
    }
    std::vector<J> aj; for (auto &a : as) aj.push_back(J::arr(a)); if (!ok) return js("garbled");
    return obj({{"keys", J::arr(keys)}, {"vals", J::arr(vals)}, {"viol", J::arr(vi)}, {"act", J::arr(aj)}});
  }
  if (op == "hess") { long k = r.i(); return js(fmt::format("{}", (HessianApprox)k)); }
  Linesearch<double>::Options o; o.armijo_c1 = rd(r); o.contraction_min = rd(r); o.contraction_max = rd(r); std::ostringstream s; s << o; std::vector<std::pair<std::string, J>> f;
  for (auto &x : words(s.str(), "{},")) { size_t e = x.find('='); if (e != std::string::npos) f.push_back({trim(x.substr(0, e)), real(trim(x.substr(e + 1)))}); }
  return obj(f);
}
int main(int c, char **v) { return loop(c, v, run); }
