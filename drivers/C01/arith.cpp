#include "vf.hpp"
// element i of `a op b` is op(recycled a_i, recycled b_i); the length is the longer one
#define ARITH(N, OP, TA, TB, SPECEXPR)                                            \
  IMPL(N, double, const TA &a, const TB &b, Z i) {                               \
    ne(a); ne(b); vf_assume(i < len2(a, b));                                     \
    const auto &x = a OP b;                                                      \
    vf_out_z(1, x.size());                                                       \
    return x[i];                                                                 \
  }                                                                              \
  SPEC(N, double, const TA &a, const TB &b, Z i) {                               \
    auto l = el(a, i); auto r = el(b, i);                                        \
    vf_out_z(1, len2(a, b));                                                     \
    return SPECEXPR;                                                             \
  }
#define OPS(N, TA, TB)                                                           \
  ARITH(add_##N, +, TA, TB, l + r)                                               \
  ARITH(sub_##N, -, TA, TB, l - r)                                               \
  ARITH(mul_##N, *, TA, TB, l *r)                                                \
  ARITH(div_##N, /, TA, TB, (double)l / (double)r)
#define POW(N, TA, TB) ARITH(pow_##N, ^, TA, TB, std::pow(l, r))
OPS(dd, VD, VD) POW(dd, VD, VD)
#ifdef FULL
#endif
OPS(di, VD, VI) OPS(id, VI, VD) OPS(ii, VI, VI) OPS(bd, VB, VD) OPS(db, VD, VB)
OPS(vs, VD, double) OPS(sv, double, VD) POW(vs, VD, double) POW(sv, double, VD)
OPS(is, VI, int) OPS(si, int, VI) OPS(ds, VD, int) OPS(sd, int, VD)
OPS(Bd, BD, VD) OPS(dB, VD, BD) OPS(BB, BD, BD)
