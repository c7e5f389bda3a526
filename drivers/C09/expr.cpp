#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// subsets of expressions, r value indices, subsets inside expressions
#define EX(N, PARAMS, PRE, EXPR, LEN, EL)                                        \
  IMPL(N, double, VD &r, VD &a, UNPAREN PARAMS, Z i, Z j) {                      \
    wf(r); wfm(a); PRE; vf_flag(1);                                              \
    r = EXPR;                                                                    \
    vf_out_z(1, r.d.sz);                                                         \
    return r.d.p[j * (UNPAREN LEN) + i];                                         \
  }                                                                              \
  SPEC(N, double, VD &r, VD &a, UNPAREN PARAMS, Z i, Z j) { EL; }
#define OK(i_, j_) vf_assume(i_ < n_ && j_ < m_)
#define MN(k, l) { Z n_ = num(k, NR), m_ = num(l, NC); vf_assume(i < n_ && j < m_); } legal(k, NR, i); legal(l, NC, j)
#define SAMESHAPE(b) wfm(b); vf_assume(b.d.mp.rows == NR && b.d.mp.cols == NC)
#define POSQ(k, l) Z n = num(k, NR), m = num(l, NC); vf_out_z(1, n * m); Z q = pos(l, NC, j) * NR + pos(k, NR, i)
#define QB b.d.p[q]
#define ON(TL, TR, T)                                                            \
  EX(of_add_##T, (VD & b, TL k, TR l), SAMESHAPE(b); pre(k); pre(l); MN(k, l); vf_flag(1), etr::subset(a + b, k, l), (num(k, NR)), POSQ(k, l); return a.d.p[q] + QB) \
  EX(of_fn_##T, (TL k, TR l), pre(k); pre(l); MN(k, l), etr::subset(etr::exp(a), k, l), (num(k, NR)), POSQ(k, l); return std::exp(a.d.p[q])) \
  EX(of_scal_##T, (TL k, TR l), pre(k); pre(l); MN(k, l), etr::subset(a * 3.0, k, l), (num(k, NR)), POSQ(k, l); return a.d.p[q] * 3.0) \
  EX(in_scal_##T, (TL k, TR l), pre(k); pre(l); MN(k, l), etr::subset(a, k, l) * 3.0, (num(k, NR)), POSQ(k, l); return a.d.p[q] * 3.0) \
  EX(in_neg_##T, (TL k, TR l), pre(k); pre(l); MN(k, l), -etr::subset(a, k, l), (num(k, NR)), POSQ(k, l); return -a.d.p[q]) \
  EX(pa_##T, (TL k, TR l), pre(k); pre(l); MN(k, l), a(k, l), (num(k, NR)), POSQ(k, l); return a.d.p[q])
ON(int, int, i_i) ON(VI &, VI &, vi_vi) ON(int, VD &, i_vd) ON(VB &, bool, vb_t) ON(double, bool, d_t)
#ifdef FULL
ON(VI &, int, vi_i) ON(bool, VI &, t_vi) ON(VB &, VB &, vb_vb)
#endif
EX(ix_rv, (int k, int l, int h), MN(k, l); { vf_assume(h >= 1 && (Z)h <= NR && i < 2); }, etr::subset(a, etr::coca(k, h), l), (2),
   vf_out_z(1, 2); return a.d.p[(Z)(l - 1) * NR + (Z)((i == 0 ? k : h) - 1)])
EX(ix_expr, (VI & k, int l), ne(k); { vf_assume(i < k.d.sz && k.d.p[i] >= 0 && (Z)k.d.p[i] < NR && l >= 1 && (Z)l <= NC && j == 0); }, etr::subset(a, k + 1, l), (k.d.sz),
   vf_out_z(1, k.d.sz); return a.d.p[(Z)(l - 1) * NR + (Z)k.d.p[i]])
EX(num, (int k, int l), MN(k, l), (double)etr::subset(a, k, l), (1), vf_out_z(1, 1); return a.d.p[(Z)(l - 1) * NR + (Z)(k - 1)])
EX(self, (VI & k, VI & l), ne(k); ne(l); MN(k, l), (a = etr::subset(a, k, l), a), (k.d.sz), vf_out_z(1, k.d.sz * l.d.sz); return a.d.p[pos(l, NC, j) * NR + pos(k, NR, i)])
// reading changes neither the matrix nor the indices
#define KP(N, TL, TR)                                                            \
  IMPL(keep_##N, double, VD &a, VD &r, TL k, TR l, Z i) {                        \
    wfm(a); wf(r); pre(k); pre(l); vf_flag(1); vf_assume(i < NR * NC);           \
    r = etr::subset(a, k, l);                                                    \
    vf_out_z(1, a.d.sz); vf_out_b(2, a.im()); vf_out_z(3, NR); vf_out_z(4, NC); return a.d.p[i]; \
  }                                                                              \
  SPEC(keep_##N, double, VD &a, VD &r, TL k, TR l, Z i) {                        \
    vf_out_z(1, NR * NC); vf_out_b(2, true); vf_out_z(3, NR); vf_out_z(4, NC); return a.d.p[i]; \
  }
KP(i_i, int, int) KP(vi_vi, VI &, VI &) KP(vb_t, VB &, bool)
// ---- errors: not a matrix, an index outside its dimension, nothing selected
#define RE(N, PARAMS, PRE, SUB)                                                  \
  IMPL(N, double, VD &a, VD &r, UNPAREN PARAMS) {                                \
    vf_flag(2 | 16); PRE; wf(r);                                                 \
    r = SUB;                                                                     \
    return 0;                                                                    \
  }                                                                              \
  SPEC(N, double, VD &a, VD &r, UNPAREN PARAMS) { vf_throw(); }
#define BADI(k, n) vf_assume((k < 1 || (Z)k > n) && k > -(1 << 30))
#define BADD(k, n) vf_assume((k < 1.0 || k >= (double)n + 1) && k > -1e9 && k < 1e9)
#define NOM wf(a); vf_assume(!a.d.mp.ismatrix && a.d.sz > 0)
RE(e_nomat_ii, (int k, int l), NOM, etr::subset(a, k, l))
RE(e_nomat_tt, (int k), NOM, etr::subset(a, true, true))
RE(e_nomat_vi, (VI & k, VI & l), NOM; ne(k); ne(l), etr::subset(a, k, l))
RE(e_ff, (int k), wfm(a), etr::subset(a, false, true))
RE(e_tf, (int k), wfm(a), etr::subset(a, true, false))
#define EL(T, TL, OKV)                                                           \
  RE(e_row_i_##T, (int k, TL l), wfm(a); pre(l); BADI(k, NR), etr::subset(a, k, l)) \
  RE(e_row_d_##T, (double k, TL l), wfm(a); pre(l); BADD(k, NR), etr::subset(a, k, l)) \
  RE(e_col_i_##T, (int k, TL l), wfm(a); pre(l); BADI(k, NC), etr::subset(a, l, k)) \
  RE(e_col_d_##T, (double k, TL l), wfm(a); pre(l); BADD(k, NC), etr::subset(a, l, k)) \
  RE(e_row_f_##T, (TL l), wfm(a); pre(l), etr::subset(a, false, l))              \
  RE(e_col_f_##T, (TL l), wfm(a); pre(l), etr::subset(a, l, false))              \
  RE(e_row_long_##T, (VB & k, TL l), wfm(a); pre(l); ne(k); vf_assume(k.d.sz > NR), etr::subset(a, k, l)) \
  RE(e_col_long_##T, (VB & k, TL l), wfm(a); pre(l); ne(k); vf_assume(k.d.sz > NC), etr::subset(a, l, k)) \
  RE(e_row_none_##T, (VB & k, TL l), wfm(a); pre(l); ne(k); vf_assume(cnt(k, NR) == 0), etr::subset(a, k, l)) \
  RE(e_col_none_##T, (VB & k, TL l), wfm(a); pre(l); ne(k); vf_assume(cnt(k, NC) == 0), etr::subset(a, l, k))
EL(t, bool, ) EL(i, int, ) EL(vi, VI &, ) EL(vb, VB &, )
#ifdef FULL
EL(d, double, ) EL(vd, VD &, )
#endif
// a position behind the last column is behind the storage
RE(e_vi_col, (VI & l, Z j), wfm(a); ne(l); vf_assume(j < l.d.sz && l.d.p[j] > 0 && (Z)l.d.p[j] > NC), etr::subset(a, true, l))
RE(e_vi_coli, (int k, VI & l, Z j), wfm(a); ne(l); vf_assume(k >= 1 && (Z)k <= NR && j < l.d.sz && l.d.p[j] > 0 && (Z)l.d.p[j] > NC), etr::subset(a, k, l))
RE(e_vi_neg, (VI & l, Z j), wfm(a); ne(l); vf_assume(j < l.d.sz && l.d.p[j] < 1 && l.d.p[j] > -(1 << 30)), etr::subset(a, true, l))
RE(e_vi_row, (VI & k, Z j), wfm(a); ne(k); vf_assume(j < k.d.sz && (k.d.p[j] < 1 || (Z)k.d.p[j] > NR) && k.d.p[j] > -(1 << 30)), etr::subset(a, k, true))
RE(e_vi_rowi, (VI & k, int l, Z j), wfm(a); ne(k); vf_assume(l >= 1 && (Z)l <= NC && j < k.d.sz && (k.d.p[j] < 1 || (Z)k.d.p[j] > NR) && k.d.p[j] > -(1 << 30)), etr::subset(a, k, l))
