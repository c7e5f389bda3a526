#include "../mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// after STMT (an assignment to subset(a, k, l)) the element (r, c) of `a` is the right hand side's
// element for the last selected (i, j) that addresses it, in terms of the values before, and unchanged otherwise
#define WM(N, TA, TL, TR, PARAMS, PRE, STMT, CHK, RHS)                           \
  IMPL(N, double, TA &a, TL k, TR l, Z r, Z c, UNPAREN PARAMS) {                 \
    wfm(a); pre(k); pre(l); PRE; vf_assume(r < NR && c < NC);                    \
    STMT;                                                                        \
    vf_out_z(1, a.d.sz); vf_out_b(2, a.im()); vf_out_z(3, a.d.mp.rows); vf_out_z(4, a.d.mp.cols); \
    return a.d.p[c * NR + r];                                                    \
  }                                                                              \
  SPEC(N, double, TA &a, TL k, TR l, Z r, Z c, UNPAREN PARAMS) {                 \
    err(k, NR); err(l, NC);                                                      \
    Z n = num(k, NR), m = num(l, NC); CHK;                                       \
    vf_out_z(1, NR * NC); vf_out_b(2, true); vf_out_z(3, NR); vf_out_z(4, NC);   \
    auto v = a.d.p[c * NR + r]; using E = decltype(v);                           \
    for (Z j = 0; j < m; j++)                                                    \
      for (Z i = 0; i < n; i++)                                                  \
        if (pos(k, NR, i) == r && pos(l, NC, j) == c) v = (E)(RHS);              \
    return v;                                                                    \
  }
// legal numeric index vectors (an illegal one may or may not raise)
inline void lg(bool, Z) {} inline void lg(int, Z) {} inline void lg(double, Z) {} inline void lg(const VB &, Z) {}
inline void lg(const VI &k, Z n) { vf_flag(1); for (Z j = 0; j < k.d.sz; j++) vf_assume(k.d.p[j] >= 1 && (Z)k.d.p[j] <= n); }
inline void lg(const VD &k, Z n) { vf_flag(1); for (Z j = 0; j < k.d.sz; j++) vf_assume(k.d.p[j] >= 1 && k.d.p[j] < (double)n + 1); }
#define LG lg(k, NR); lg(l, NC)
// give `b` as many elements as the subset has
#define LEN(b) const_cast<Z &>(b.d.sz) = num(k, NR) * num(l, NC); ne(b)
#define SC(T, TA, TL, TR, TS) WM(s_##T, TA, TL, TR, (TS s), LG, etr::subset(a, k, l) = s, (void)0, s)
#define VC(T, TA, TL, TR, TB) WM(v_##T, TA, TL, TR, (TB & b), LEN(b); LG, etr::subset(a, k, l) = b, (void)0, b.d.p[j * n + i])
#define ROW(M, L, TL, T, TA, TX) M(T##_##L##_t, TA, TL, bool, TX) M(T##_##L##_i, TA, TL, int, TX) M(T##_##L##_d, TA, TL, double, TX) \
  M(T##_##L##_vi, TA, TL, VI &, TX) M(T##_##L##_vd, TA, TL, VD &, TX) M(T##_##L##_vb, TA, TL, VB &, TX)
#define TAB(M, T, TA, TX) ROW(M, t, bool, T, TA, TX) ROW(M, i, int, T, TA, TX) ROW(M, d, double, T, TA, TX) \
  ROW(M, vi, VI &, T, TA, TX) ROW(M, vd, VD &, T, TA, TX) ROW(M, vb, VB &, T, TA, TX)
#define SOME(M, T, TA, TX) M(T##_t_t, TA, bool, bool, TX) M(T##_i_i, TA, int, int, TX) M(T##_vi_vi, TA, VI &, VI &, TX) M(T##_vb_i, TA, VB &, int, TX) M(T##_t_vi, TA, bool, VI &, TX)
TAB(VC, dd, VD, VD) SOME(SC, dd, VD, double)
#ifdef FULL
TAB(SC, ff, VD, double) TAB(VC, fi, VI, VD)
#endif
SOME(SC, Bd, BD, double) SOME(VC, Bd, BD, VD) SOME(SC, id, VI, double) SOME(VC, di, VD, VI)

// ---- expressions and matrices on the right, evaluated before anything is written
#define XX(N, TL, TR, PARAMS, PRE, EXPR, RHS) WM(N, VD, TL, TR, PARAMS, PRE; LG, etr::subset(a, k, l) = EXPR, (void)0, RHS)
#define XS(T, TL, TR)                                                            \
  XX(x_add_##T, TL, TR, (VD & b, double s), LEN(b), b + s, b.d.p[j * n + i] + s) \
  XX(x_fn_##T, TL, TR, (VD & b), LEN(b), etr::exp(b), std::exp(b.d.p[j * n + i])) \
  XX(x_self_##T, TL, TR, (int u), (void)u, etr::subset(a, k, l) * 2.0, a.d.p[pos(l, NC, j) * NR + pos(k, NR, i)] * 2.0) \
  WM(pa_##T, VD, TL, TR, (double s), LG, a(k, l) = s, (void)0, s)
XS(i_i, int, int) XS(vi_vi, VI &, VI &) XS(i_vd, int, VD &) XS(t_vi, bool, VI &) XS(vb_t, VB &, bool)
// swap of two rows / of two columns: source and target overlap
WM(al_rows, VD, VI &, bool, (VI & h), ne(h); vf_assume(h.d.sz == k.d.sz); lg(h, NR); LG, etr::subset(a, k, l) = etr::subset(a, h, l), (void)0, a.d.p[j * NR + (Z)(h.d.p[i] - 1)])
WM(al_cols, VD, bool, VI &, (VI & h), ne(h); vf_assume(h.d.sz == l.d.sz); lg(h, NC); LG, etr::subset(a, k, l) = etr::subset(a, k, h), (void)0, a.d.p[(Z)(h.d.p[j] - 1) * NR + i])
WM(al_rowx, VD, VI &, bool, (VI & h), ne(h); vf_assume(h.d.sz == k.d.sz); lg(h, NR); LG, etr::subset(a, k, l) = etr::subset(a, h, l) + 1.0, (void)0, a.d.p[j * NR + (Z)(h.d.p[i] - 1)] + 1.0)
WM(al_whole, VD, bool, bool, (int u), (void)u, etr::subset(a, k, l) = a, (void)0, a.d.p[j * NR + i])
// ---- the right hand side and the indices are not changed
#define KEEP(N, TL, TR, LOOK)                                                    \
  IMPL(N, double, VD &a, TL k, TR l, VD &b, Z i) {                               \
    vf_flag(1); wfm(a); pre(k); pre(l); LEN(b); lg(k, NR); lg(l, NC); vf_assume(i < LOOK.d.sz); \
    etr::subset(a, k, l) = b; vf_out_z(1, LOOK.d.sz); return LOOK.d.p[i];        \
  }                                                                              \
  SPEC(N, double, VD &a, TL k, TR l, VD &b, Z i) { Z n_ = num(k, NR) * num(l, NC); vf_out_z(1, (void *)&LOOK == (void *)&b ? n_ : LOOK.d.sz); return LOOK.d.p[i]; }
KEEP(keep_b, VI &, VI &, b) KEEP(keep_k, VI &, VI &, k) KEEP(keep_bi, int, bool, b)
// ---- errors
#define RE(N, TA, PARAMS, PRE, STMT)                                             \
  IMPL(N, double, TA &a, UNPAREN PARAMS) { vf_flag(2 | 16); PRE; STMT; return 0; } \
  SPEC(N, double, TA &a, UNPAREN PARAMS) { vf_throw(); }
#define BADI(k, n) vf_assume((k < 1 || (Z)k > n) && k > -(1 << 30))
#define BADD(k, n) vf_assume((k < 1.0 || k >= (double)n + 1) && k > -1e9 && k < 1e9)
#define NOM wf(a); vf_assume(!a.d.mp.ismatrix && a.d.sz > 0)
RE(e_nomat, VD, (int k, int l, double s), NOM, etr::subset(a, k, l) = s)
RE(e_nomatv, VD, (VI & k, VI & l, double s), NOM; ne(k); ne(l), etr::subset(a, k, l) = s)
#define EL(T, TL)                                                                \
  RE(e_row_i_##T, VD, (int k, TL l, double s), wfm(a); pre(l); BADI(k, NR), etr::subset(a, k, l) = s) \
  RE(e_row_d_##T, VD, (double k, TL l, double s), wfm(a); pre(l); BADD(k, NR), etr::subset(a, k, l) = s) \
  RE(e_col_i_##T, VD, (int k, TL l, double s), wfm(a); pre(l); BADI(k, NC), etr::subset(a, l, k) = s) \
  RE(e_col_d_##T, VD, (double k, TL l, double s), wfm(a); pre(l); BADD(k, NC), etr::subset(a, l, k) = s) \
  RE(e_row_f_##T, VD, (TL l, double s), wfm(a); pre(l), etr::subset(a, false, l) = s) \
  RE(e_col_none_##T, VD, (VB & k, TL l, double s), wfm(a); pre(l); ne(k); vf_assume(cnt(k, NC) == 0), etr::subset(a, l, k) = s)
EL(t, bool) EL(i, int) EL(vi, VI &) EL(vb, VB &)
#define LENE(T, TL, TR) RE(e_len_##T, VD, (TL k, TR l, VD &b), wfm(a); pre(k); pre(l); ne(b); vf_assume(b.d.sz != num(k, NR) * num(l, NC)), etr::subset(a, k, l) = b)
LENE(t_t, bool, bool) LENE(i_i, int, int) LENE(t_i, bool, int) LENE(vi_t, VI &, bool) LENE(vi_vi, VI &, VI &) LENE(vb_vb, VB &, VB &) LENE(d_vd, double, VD &) LENE(vb_i, VB &, int)
RE(e_vi_col, VD, (VI & l, Z j, double s), wfm(a); ne(l); vf_assume(j < l.d.sz && l.d.p[j] > 0 && (Z)l.d.p[j] > NC), etr::subset(a, true, l) = s)
RE(e_vi_neg, VD, (VI & l, Z j, double s), wfm(a); ne(l); vf_assume(j < l.d.sz && l.d.p[j] < 1 && l.d.p[j] > -(1 << 30)), etr::subset(a, true, l) = s)
RE(e_vi_rowi, VD, (VI & k, int l, Z j, double s), wfm(a); ne(k); vf_assume(l >= 1 && (Z)l <= NC && j < k.d.sz && (k.d.p[j] < 1 || (Z)k.d.p[j] > NR) && k.d.p[j] > -(1 << 30)), etr::subset(a, k, l) = s)
