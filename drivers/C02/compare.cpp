#include "vf.hpp"
// element i of a comparison is the comparison of the recycled elements, as a logical
#define CMP(N, OP, TA, TB, SPECEXPR)                                              \
  IMPL(N, bool, const TA &a, const TB &b, Z i) {                                 \
    ne(a); ne(b); vf_assume(i < len2(a, b));                                     \
    const auto &x = a OP b;                                                      \
    static_assert(std::is_same_v<decltype(x.d[i]), bool>);                       \
    vf_out_z(1, x.size());                                                       \
    return x.d[i];                                                               \
  }                                                                              \
  SPEC(N, bool, const TA &a, const TB &b, Z i) {                                 \
    auto l = el(a, i); auto r = el(b, i);                                        \
    vf_out_z(1, len2(a, b));                                                     \
    return SPECEXPR;                                                             \
  }
#define NEAR(l, r) (std::fabs((double)(l - r)) < 1E-3)
#define OPS(N, TA, TB)                                                           \
  CMP(eq_##N, ==, TA, TB, NEAR(l, r))                                            \
  CMP(ne_##N, !=, TA, TB, !NEAR(l, r))                                           \
  CMP(lt_##N, <, TA, TB, l < r)                                                  \
  CMP(gt_##N, >, TA, TB, l > r)                                                  \
  CMP(le_##N, <=, TA, TB, l <= r)                                                \
  CMP(ge_##N, >=, TA, TB, l >= r)
OPS(dd, VD, VD) OPS(di, VD, VI) OPS(id, VI, VD) OPS(ii, VI, VI)
OPS(vs, VD, double) OPS(sv, double, VD) OPS(is, VI, int) OPS(si, int, VI)
OPS(bd, VB, VD) OPS(db, VD, VB) OPS(Bd, BD, VD) OPS(dB, VD, BD)
#ifdef FULL
OPS(bb, VB, VB) OPS(bi, VB, VI) OPS(ib, VI, VB) OPS(BB, BD, BD) OPS(Bs, BD, double) OPS(sB, double, BD)
OPS(ids, VI, double) OPS(dsi, double, VI) OPS(vis, VD, int) OPS(siv, int, VD)
#endif
// reading through the vector instead of the expression gives the same truth value
#define VAL(N, OP, TA, TB, SPECEXPR)                                              \
  IMPL(N, bool, const TA &a, const TB &b, Z i) {                                 \
    ne(a); ne(b); vf_assume(i < len2(a, b));                                     \
    const auto &x = a OP b;                                                      \
    return x[i] != 0;                                                            \
  }                                                                              \
  SPEC(N, bool, const TA &a, const TB &b, Z i) {                                 \
    auto l = el(a, i); auto r = el(b, i);                                        \
    return SPECEXPR;                                                             \
  }
VAL(val_eq, ==, VD, VD, NEAR(l, r)) VAL(val_ne, !=, VD, VD, !NEAR(l, r)) VAL(val_lt, <, VD, VD, l < r)
VAL(val_gt, >, VD, VD, l > r) VAL(val_le, <=, VD, VD, l <= r) VAL(val_ge, >=, VD, VD, l >= r)
// != is the complement of ==, on every element, including NA
#define COMPL(N, TA, TB)                                                         \
  IMPL(N, bool, const TA &a, const TB &b, Z i) {                                 \
    ne(a); ne(b); vf_assume(i < len2(a, b));                                     \
    const auto &x = a != b;                                                      \
    return x[i] != 0;                                                            \
  }                                                                              \
  SPEC(N, bool, const TA &a, const TB &b, Z i) {                                 \
    const auto &x = a == b;                                                      \
    return !(x[i] != 0);                                                         \
  }
COMPL(compl_dd, VD, VD) COMPL(compl_ii, VI, VI) COMPL(compl_vs, VD, double) COMPL(compl_sv, double, VD)
COMPL(compl_Bd, BD, VD)
// a > b is b < a, a >= b is b <= a
#define SWAP(N, O1, O2, TA, TB)                                                  \
  IMPL(N, bool, const TA &a, const TB &b, Z i) {                                 \
    ne(a); ne(b); vf_assume(i < len2(a, b));                                     \
    const auto &x = a O1 b;                                                      \
    return x[i] != 0;                                                            \
  }                                                                              \
  SPEC(N, bool, const TA &a, const TB &b, Z i) {                                 \
    const auto &x = b O2 a;                                                      \
    return x[i] != 0;                                                            \
  }
SWAP(swap_gt, >, <, VD, VD) SWAP(swap_ge, >=, <=, VD, VD) SWAP(swap_eq, ==, ==, VD, VD) SWAP(swap_ne, !=, !=, VD, VI)
// compound operands
#define CMPX(N, OP, SPECEXPR)                                                    \
  IMPL(N, bool, const VD &a, const VD &b, const VI &c, Z i) {                    \
    ne(a); ne(b); ne(c); vf_assume(i < zmax(len2(a, b), len(c)));                \
    const auto &y = a * b;                                                       \
    const auto &w = c - 2;                                                       \
    const auto &x = y OP w;                                                      \
    vf_out_z(1, x.size());                                                       \
    return x.d[i];                                                               \
  }                                                                              \
  SPEC(N, bool, const VD &a, const VD &b, const VI &c, Z i) {                    \
    Z n = len2(a, b);                                                            \
    double l = el(a, i % n) * el(b, i % n); int r = el(c, i) - 2;                \
    vf_out_z(1, zmax(n, len(c)));                                                \
    return SPECEXPR;                                                             \
  }
CMPX(expr_eq, ==, NEAR(l, r)) CMPX(expr_ne, !=, !NEAR(l, r)) CMPX(expr_lt, <, l < r)
CMPX(expr_gt, >, l > r) CMPX(expr_le, <=, l <= r) CMPX(expr_ge, >=, l >= r)
// an empty operand is an error, not an arbitrary value
#define EMPTY(N, OP)                                                             \
  IMPL(N, bool, const VD &a, const VD &b, Z i) {                                 \
    wf(a); ne(b); vf_assume(a.d.sz == 0); vf_assume(i < len(b));                 \
    vf_flag(16);                                                                 \
    const auto &x = a OP b;                                                      \
    return x.d[i];                                                               \
  }                                                                              \
  SPEC(N, bool, const VD &a, const VD &b, Z i) { vf_throw(); }
EMPTY(empty_eq, ==) EMPTY(empty_ne, !=) EMPTY(empty_lt, <) EMPTY(empty_gt, >) EMPTY(empty_le, <=) EMPTY(empty_ge, >=)
// a logical vector used as a condition: its first element, with a warning unless the length is one
IMPL(cond, bool, const VB &a) { ne(a); return static_cast<bool>(a); }
SPEC(cond, bool, const VB &a) { vf_warn(a.d.sz == 1); return a.d.p[0]; }
#define COND(N, OP, SPECEXPR)                                                    \
  IMPL(N, bool, const VD &a, const VD &b) {                                      \
    ne(a); ne(b);                                                                \
    const auto &x = a OP b;                                                      \
    return static_cast<bool>(x);                                                 \
  }                                                                              \
  SPEC(N, bool, const VD &a, const VD &b) {                                      \
    double l = a.d.p[0], r = b.d.p[0];                                           \
    vf_warn(len2(a, b) == 1);                                                    \
    return SPECEXPR;                                                             \
  }
COND(cond_eq, ==, NEAR(l, r)) COND(cond_ne, !=, !NEAR(l, r)) COND(cond_lt, <, l < r)
COND(cond_gt, >, l > r) COND(cond_le, <=, l <= r) COND(cond_ge, >=, l >= r)
