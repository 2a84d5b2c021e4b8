// A small set of problems that between them use every cone type, equality constraints, and every verdict.
// Each has three data variants with the same sparsity pattern (so that they are legal updates of each other).
#pragma once
#include "prob.hpp"
namespace vf {
struct Zoo { const char *name; Prob v[3]; };
inline Prob mk(long n, long p, long l, std::vector<idxint> q, long nex, std::vector<double> G, std::vector<double> A, std::vector<double> c, std::vector<double> h, std::vector<double> b) {
  Prob P; P.n = n; P.p = p; P.l = l; P.q = q; P.nex = nex; P.m = l + 3 * nex; for (auto x : q) P.m += x; P.G = G; P.A = A; P.c = c; P.h = h; P.b = b;
  if ((long)G.size() != P.m * n || (long)A.size() != p * n || (long)c.size() != n || (long)h.size() != P.m || (long)b.size() != p) { fprintf(stderr, "bad zoo entry\n"); abort(); } return P;
}
inline const std::vector<Zoo> &zoo() {
  static std::vector<Zoo> Z = {
    {"lp-box", {mk(2, 0, 4, {}, 0, {1, 0, -1, 0, 0, 1, 0, -1}, {}, {1, -2}, {3, 1, 2, 1}, {}), mk(2, 0, 4, {}, 0, {2, 0, -1, 0, 0, 4, 0, -3}, {}, {-1, 1}, {1, 2, 5, 1}, {}), mk(2, 0, 4, {}, 0, {1, 0, -1, 0, 0, 100, 0, -10}, {}, {1, 0.5}, {7, 3, 1, 2}, {})}},
    {"lp-eq", {mk(3, 1, 3, {}, 0, {-1, 0, 0, 0, -1, 0, 0, 0, -1}, {1, 1, 1}, {1, 2, 3}, {0, 0, 0}, {1}), mk(3, 1, 3, {}, 0, {-2, 0, 0, 0, -1, 0, 0, 0, -1}, {1, 2, 1}, {3, 1, -2}, {0, 0.5, 0}, {2}), mk(3, 1, 3, {}, 0, {-1, 0, 0, 0, -3, 0, 0, 0, -1}, {1, 1, -1}, {1, 1, 1}, {1, 0, 0}, {0.5})}},
    {"soc", {mk(2, 0, 1, {3}, 0, {1, 1, 0, 0, -1, 0, 0, -1}, {}, {1, -1}, {4, 2, 0, 0}, {}), mk(2, 0, 1, {3}, 0, {1, 2, 0, 0, -2, 0, 0, -1}, {}, {-2, -1}, {1, 3, 0.5, 0}, {}), mk(2, 0, 1, {3}, 0, {2, 1, 0, 0, -1, 0, 0, -8}, {}, {1, 1}, {9, 1, 0, 0.25}, {})}},
    {"soc2-eq", {mk(3, 1, 1, {2, 3}, 0, {-1, 0, 0, 0, 0, -1, 0, -1, 0, 0, 0, -1, -1, 0, 0, 0, -1, 0}, {1, 1, 1}, {0, 1, 2}, {1, 0, 0, 2, 0, 0}, {2}), mk(3, 1, 1, {2, 3}, 0, {-1, 0, 0, 0, 0, -2, 0, -1, 0, 0, 0, -1, -1, 0, 0, 0, -1, 0}, {1, 1, 2}, {1, 1, 1}, {2, 0.5, 0, 2, 0, 0.5}, {2}), mk(3, 1, 1, {2, 3}, 0, {-3, 0, 0, 0, 0, -1, 0, -1, 0, 0, 0, -1, -1, 0, 0, 0, -1, 0}, {2, 1, 1}, {0, -1, 3}, {1, 0, 0, 3, 0, 0}, {1})}},
    {"exp", {mk(2, 0, 1, {}, 1, {0, 1, -1, 0, 0, -1, 0, 0}, {}, {-1, 0.5}, {4, 0, 0, 1}, {}), mk(2, 0, 1, {}, 1, {0, 1, -1, 0, 0, -2, 0, 0}, {}, {-1, 0.25}, {3, 0.5, 0, 1}, {}), mk(2, 0, 1, {}, 1, {0, 2, -2, 0, 0, -1, 0, 0}, {}, {-2, 1}, {9, 0, 0.5, 2}, {})}},
    {"exp2-eq", {mk(4, 1, 2, {}, 2, {0, 0, -1, 0, 0, 0, 0, -1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1}, {0, 0, 1, 1}, {-1, -1, 0, 0}, {0, 0, 0, 1, 0, 0, 1, 0}, {2}), mk(4, 1, 2, {}, 2, {0, 0, -1, 0, 0, 0, 0, -1, -2, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1}, {0, 0, 1, 2}, {-1, -2, 0, 0}, {0, 0, 0, 1, 0.25, 0, 1, 0}, {3}), mk(4, 1, 2, {}, 2, {0, 0, -1, 0, 0, 0, 0, -1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1}, {0, 0, 2, 1}, {-3, -1, 0.5, 0}, {0, 0, 0, 2, 0, 0, 1, 0.5}, {2})}},
    {"mixed", {mk(3, 1, 1, {3}, 1, {0, 0, 1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0}, {1, 1, 1}, {1, -0.5, 0.25}, {5, 2, 0, 0, 0, 0, 1}, {1}), mk(3, 1, 1, {3}, 1, {0, 0, 1, 0, 0, 0, -2, 0, 0, 0, -1, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0}, {1, 2, 1}, {1, -1, 0.5}, {6, 3, 0, 0, 0, 0, 1}, {2}), mk(3, 1, 1, {3}, 1, {0, 0, 1, 0, 0, 0, -1, 0, 0, 0, -1, 0, 0, -1, 0, 0, 0, -1, 0, 0, 0}, {1, 1, 3}, {0.5, 0.5, 0.5}, {8, 2, 0.5, 0, 0.5, 0, 2}, {2})}},
    {"infeasible-then-feasible", {mk(2, 0, 3, {}, 0, {1, 0, -1, 0, 0, -1}, {}, {1, 1}, {-1, -1, 2}, {}), mk(2, 0, 3, {}, 0, {1, 0, -1, 0, 0, -1}, {}, {1, 1}, {2, 1, 2}, {}), mk(2, 0, 3, {}, 0, {1, 0, -2, 0, 0, -1}, {}, {1, 1}, {-2, 1, 2}, {})}},
    {"unbounded-then-bounded", {mk(2, 0, 2, {}, 0, {-1, 0, 0, -1}, {}, {-1, 1}, {1, 1}, {}), mk(2, 0, 2, {}, 0, {-1, 0, 0, -1}, {}, {1, 1}, {1, 2}, {}), mk(2, 0, 2, {}, 0, {-1, 0, 0, -2}, {}, {1, -1}, {0, 1}, {})}},
    {"soc-infeasible", {mk(2, 1, 1, {3}, 0, {-1, 0, 0, 0, -1, 0, 0, -1}, {1, 1}, {1, 0}, {0, 1, 0, 0}, {5}), mk(2, 1, 1, {3}, 0, {-1, 0, 0, 0, -1, 0, 0, -1}, {1, 1}, {1, 0}, {0, 3, 0, 0}, {2}), mk(2, 1, 1, {3}, 0, {-1, 0, 0, 0, -2, 0, 0, -1}, {1, 3}, {-1, 0}, {0, 1, 0, 0}, {9})}},
    {"soc-unbounded", {mk(2, 0, 0, {3}, 0, {-1, 0, 0, -1, 0, 0}, {}, {-1, 0}, {0, 0, 1}, {}), mk(2, 0, 0, {3}, 0, {-1, 0, 0, -1, 0, 0}, {}, {2, 1}, {1, 0, 1}, {}), mk(2, 0, 0, {3}, 0, {-1, 0, 0, -2, 0, 0}, {}, {0, -1}, {0, 0, 1}, {})}},
    {"exp-infeasible", {mk(1, 0, 1, {}, 1, {-1, -1, 0, 0}, {}, {1}, {-3, 0, 0.5, 1}, {}), mk(1, 0, 1, {}, 1, {-1, -1, 0, 0}, {}, {1}, {3, 0, 0.5, 1}, {}), mk(1, 0, 1, {}, 1, {-1, -2, 0, 0}, {}, {-1}, {3, 0, 1.5, 1}, {})}},
    {"eq-only", {mk(2, 2, 0, {}, 0, {}, {1, 1, 1, -1}, {1, 2}, {}, {1, 3}), mk(2, 2, 0, {}, 0, {}, {1, 2, 1, -1}, {0, 1}, {}, {2, 3}), mk(2, 2, 0, {}, 0, {}, {3, 1, 1, -1}, {-1, 2}, {}, {1, 0})}},
    {"degenerate", {mk(2, 0, 3, {}, 0, {1, 1, -1, 0, 0, -1}, {}, {0, 0}, {0, 0, 0}, {}), mk(2, 0, 3, {}, 0, {1, 1, -1, 0, 0, -1}, {}, {1, 1}, {1, 0, 0}, {}), mk(2, 0, 3, {}, 0, {2, 1, -1, 0, 0, -1}, {}, {1, -1}, {1, 1, 0}, {})}},
  };
  return Z;
}
}
