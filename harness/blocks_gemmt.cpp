#include "blocks.hpp"
J runGemmt(Reader &r) {
      auto a = (BlockKind)r.i(), b = (BlockKind)r.i(); double al = r.i(); long where = r.i(); long k = r.i(); MatrixXd D = r.m(1), L = r.m(1, k), R = r.m(1, k);
      MatrixXd G = MatrixXd::Constant(D.rows() + 2, D.cols() + 2, 77); G.block(1, 1, D.rows(), D.cols()) = D;
      if (where == 0) backend::gemmt(D, L, R, a, b, al);
      else { auto blk = G.block(1, 1, D.rows(), D.cols()); MatrixXd Rt = R.transpose();
        if (where == 1) { backend::gemmt(blk, L, R, a, b, al); } else { auto rt = Rt.transpose(); Eigen::Block<MatrixXd> lb = L.block(0, 0, L.rows(), L.cols()); backend::gemmt(blk, lb, rt, a, b, al); }
        D = blk; blk.setConstant(77); if ((G.array() != 77).any()) return J::arr({js("outside"), rm(D)}); }
      return J::arr({js("ok"), rm(D)});
}
