#include "blocks.hpp"
template <int Mode, class Mat> static bool tri(Mat &L, const Sym &s, MatrixXd &B, long vec, long gem) {
  TriangularBlockMatrix<Mat, Mode> T(L, s);
  if (vec && B.cols() == 1) { VectorXd b = B.col(0); bool f = gem ? T.solveInPlace(b) : T.template solveInPlace<VectorXd, false>(b); B.col(0) = b; return f; }
  return gem ? T.solveInPlace(B) : T.template solveInPlace<MatrixXd, false>(B);
}
J runTri(Reader &r) {
      long mode = r.i(), vec = r.i(), gem = r.i(); auto ln = r.li(); auto k = kindsIn(r); Sym s = make(ln, k); MatrixXd L = r.m(1), B = r.m(1), L0 = L; bool f;
      MatrixXd Lt = L.transpose(); auto tr = Lt.transpose();
      switch (mode) { case 0: f = tri<Eigen::Lower>(L, s, B, vec, gem); break; case 1: f = tri<Eigen::UnitLower>(L, s, B, vec, gem); break; case 2: f = tri<Eigen::Upper>(L, s, B, vec, gem); break;
        case 3: f = tri<Eigen::UnitUpper>(L, s, B, vec, gem); break; case 4: f = tri<Eigen::UnitUpper>(tr, s, B, vec, gem); break; default: f = tri<Eigen::Lower>(tr, s, B, vec, gem); }
      return J::arr({jb(f), f ? rm(B) : J::arr({}), jb(L == L0)});
}
