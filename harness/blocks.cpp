// Conformance driver for block structures and block-sparse factorisation (C14, C15).
#include <cstring>
#include <algorithm>
#include "blocks.hpp"
#include "proxsuite-nlp/linalg/block-ldlt.hpp"
#include "proxsuite-nlp/ldlt-allocator.hpp"
using Ldlt = BlockLDLT<double>;
static std::map<std::string, Sym> V;
static std::map<std::string, std::shared_ptr<Ldlt>> F;
static Sym external(const std::vector<long> &lens, const std::vector<std::vector<long>> &k) {
  long n = lens.size(); auto *d = new BlockKind[n * (n + 2)]; auto *l = new isize[n]; std::fill_n(d, n * (n + 2), Dense);
  Sym s(d, l, n, n + 2); for (long i = 0; i < n; i++) { l[i] = lens[i]; for (long j = 0; j < n; j++) s(i, j) = (BlockKind)k[i][j]; }
  return s;
}
static J kinds(const Sym &s) { std::vector<J> r; for (long i = 0; i < s.nsegments(); i++) { std::vector<J> q; for (long j = 0; j < s.nsegments(); j++) q.push_back(jn((long)s(i, j))); r.push_back(J::arr(q)); } return J::arr(r); }
static J lens(const Sym &s) { std::vector<J> r; for (long i = 0; i < s.nsegments(); i++) r.push_back(jn(s.segment_lens[i])); return J::arr(r); }
static std::vector<isize> idx(const std::vector<long> &v) { return std::vector<isize>(v.begin(), v.end()); }
J runGemmt(Reader &r); J runTri(Reader &r);
static J st(const Ldlt &f) { return J::arr({lens(f.structure()), kinds(f.structure()), jb(f.structure().performed_llt)}); }
int main(int argc, char **argv) {
  return loop(argc, argv, [](Reader &r) -> J {
    std::string op = r.w(); J ok = J::arr({js("ok")});
    if (op == "reset") { V.clear(); F.clear(); return ok; }
    if (op == "alg") {
      std::vector<J> t, a, m;
      for (int i = 0; i < 5; i++) { t.push_back(jn(trans((BlockKind)i))); std::vector<J> x, y; for (int j = 0; j < 5; j++) { x.push_back(jn(add((BlockKind)i, (BlockKind)j))); y.push_back(jn(mul((BlockKind)i, (BlockKind)j))); } a.push_back(J::arr(x)); m.push_back(J::arr(y)); }
      return J::arr({J::arr(t), J::arr(a), J::arr(m)});
    }
    if (op == "gemmt") return runGemmt(r);
    if (op == "tri") return runTri(r);
    std::string s = r.w();
    // structures
    if (op == "bnew") { auto l = r.li(); auto k = kindsIn(r); V[s] = (l.size() % 3 == 2) ? external(l, k) : make(l, k); return ok; }
    if (op == "bdense") { auto l = r.li(); V[s] = Sym(std::vector<isize>(l.begin(), l.end())); return ok; }
    if (op == "bkkt") { auto p = idx(r.li()), d = idx(r.li()); V[s] = proxsuite::nlp::create_default_block_structure(p, d); return ok; }
    if (op == "bset") { long i = r.i(), j = r.i(), k = r.i(); V.at(s)(i - 1, j - 1) = (BlockKind)k; return ok; }
    if (op == "bcopy") { V[s] = V.at(r.w()).copy(); return ok; }
    if (op == "balias") { Sym t = V.at(r.w()); V[s] = t; return ok; }
    if (op == "bsub") { Sym t = V.at(r.w()); long i = r.i(), n = r.i(); V[s] = t.submatrix(i, n); return ok; }
    if (op == "btrans") { Sym t = V.at(r.w()).transpose(); V[s] = t; return ok; }
    if (op == "bperm") { Sym t = V.at(r.w()); auto p = idx(r.li()); Sym o(t.nsegments(), t.nsegments()); symbolic_deep_copy(t, o, p.data()); V[s] = o; return ok; }
    if (op == "bget") { Sym &t = V.at(s); long n = 0; for (long i = 0; i < t.nsegments(); i++) n += t.segment_lens[i]; return J::arr({lens(t), kinds(t), jb(t.performed_llt), jn(n)}); }
    if (op == "bsym") return J::arr({jb(V.at(s).check_if_symmetric())});
    if (op == "bnnz") return J::arr({jn(V.at(s).count_nnz())});
    if (op == "bllt") { Sym &t = V.at(s); bool f = t.llt_in_place(); return J::arr({jb(f), kinds(t), jb(t.performed_llt)}); }
    if (op == "bbest") {
      Sym &t = V.at(s); long n = t.nsegments(); Sym o(n, n + 1); std::vector<isize> best(n, -1), iw(n, -1), p(n); std::iota(p.begin(), p.end(), isize(0));
      auto inf = o.brute_force_best_permutation(t, best.data(), iw.data()); std::vector<J> all;
      do { Sym q(n, n); symbolic_deep_copy(t, q, p.data()); q.performed_llt = false; bool f = q.llt_in_place(); all.push_back(J::arr({jil(p), jb(f), jn(f ? q.count_nnz() : -1)})); } while (std::next_permutation(p.begin(), p.end()));
      return J::arr({jb(inf == Eigen::Success), jil(best), jn(0), J::arr(all)});
    }
    // factorisations
    if (op == "fnew") { auto l = r.li(); auto k = kindsIn(r); Sym t = make(l, k); long n = 0; for (auto x : l) n += x; F[s] = std::make_shared<Ldlt>(n, t); for (long i = 0; i < (long)l.size(); i++) { t.segment_lens[i] = 99; for (long j = 0; j < (long)l.size(); j++) t(i, j) = Zero; } delete[] t.m_data; delete[] t.segment_lens; return ok; }
    if (op == "fdel") { F.erase(s); return ok; }
    if (op == "fcopy") { auto q = F.at(r.w()); F[s] = std::make_shared<Ldlt>(*q); return ok; }
    if (op == "fasg") { auto q = F.at(r.w()); *F.at(s) = *q; return ok; }
    Ldlt &f = *F.at(s);
    if (op == "fana") { bool b = f.analyzePattern(); return J::arr({jb(b), st(f)}); }
    if (op == "fperm") { auto p = idx(r.li()); f.setBlockPermutation(p.data()); return J::arr({jil(f.blockPermIndices()), st(f)}); }
    if (op == "fperm0") { f.setBlockPermutation(); return J::arr({jil(f.blockPermIndices()), st(f)}); }
    if (op == "fbest") { f.findSparsifyingPermutation(); return J::arr({jil(f.blockPermIndices()), st(f)}); }
    if (op == "fcomp") { MatrixXd A = r.m(1), A0 = A; f.compute(A); return J::arr({jb(f.info() == Eigen::Success), jb(A == A0)}); }
    if (op == "fsolve") { long how = r.i(); MatrixXd B = r.m(1); MatrixXd X; bool fl = true;
      if (how == 0) X = f.solve(B); else if (how == 1) { X = B; for (long j = 0; j < B.cols(); j++) { VectorXd b = B.col(j); fl = f.solveInPlace(b) && fl; X.col(j) = b; } }
      else { MatrixXd G = MatrixXd::Constant(B.rows() + 2, B.cols() + 1, 5); auto b = G.block(1, 0, B.rows(), B.cols()); b = B; fl = f.solveInPlace(b); X = b; b.setConstant(5); if ((G.array() != 5).any()) fl = false; }
      return J::arr({jb(fl), rm(X)}); }
    if (op == "frec") return J::arr({rm(f.reconstructedMatrix())});
    if (op == "fsig") { VectorXd d = f.vectorD(); long p = (d.array() > 0).count(), n = (d.array() < 0).count(); int sg = (int)f.sign(); return J::arr({jn(p), jn(n), jn(sg == Eigen::internal::PositiveSemiDef ? 1 : sg == Eigen::internal::NegativeSemiDef ? -1 : sg == Eigen::internal::Indefinite ? 2 : 0)}); }
    if (op == "fget") { MatrixXd P = f.permutationP().toDenseMatrix().cast<double>(); std::vector<J> ix; for (long i = 0; i < f.permutationP().indices().size(); i++) ix.push_back(jn(f.permutationP().indices()(i))); return J::arr({jil(f.blockPermIndices()), J::arr(ix), st(f), jn((long)f.nblocks())}); }
    fprintf(stderr, "op %s\n", op.c_str()); exit(3);
  });
}
