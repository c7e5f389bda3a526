#include "mat.hpp"
// element (i, j) of subset(a, k, l) is a[row position i, column position j]; shape num(k) x num(l),
// a matrix iff neither index is a scalar
#define BODY_I(SETUP, X)                                                         \
    SETUP; pre(k); pre(l);                                                       \
    Z n = num(k, NR), m = num(l, NC);                                            \
    vf_assume(i < n && j < m); legal(k, NR, i); legal(l, NC, j);                 \
    X;                                                                           \
    vf_out_z(1, x.size()); vf_out_b(2, x.im());                                  \
    if (dimv(k) && dimv(l)) { vf_out_z(3, x.nr()); vf_out_z(4, x.nc()); }        \
    return x[j * n + i];
#define BODY_S(EL)                                                               \
    err(k, NR); err(l, NC);                                                      \
    Z n = num(k, NR), m = num(l, NC);                                            \
    vf_out_z(1, n * m); vf_out_b(2, dimv(k) && dimv(l));                         \
    if (dimv(k) && dimv(l)) { vf_out_z(3, n); vf_out_z(4, m); }                  \
    { Z q = pos(l, NC, j) * NR + pos(k, NR, i); return EL; }
#define RM(N, TA, TL, TR)                                                        \
  IMPL(N, double, TA &a, TL k, TR l, Z i, Z j) { BODY_I(wfm(a), const auto &x = etr::subset(a, k, l)) } \
  SPEC(N, double, TA &a, TL k, TR l, Z i, Z j) { BODY_S(a.d.p[q]) }
#define RS(N, TA, TL, TR)                                                        \
  IMPL(s_##N, double, TA &a, VD &x, TL k, TR l, Z i, Z j) { BODY_I(wfm(a); wf(x); vf_flag(1), x = etr::subset(a, k, l)) } \
  SPEC(s_##N, double, TA &a, VD &x, TL k, TR l, Z i, Z j) { BODY_S(a.d.p[q]) }
#define ROW(M, T, TA, L, TL) M(T##_##L##_t, TA, TL, bool) M(T##_##L##_i, TA, TL, int) M(T##_##L##_d, TA, TL, double) \
  M(T##_##L##_vi, TA, TL, VI &) M(T##_##L##_vd, TA, TL, VD &) M(T##_##L##_vb, TA, TL, VB &)
#define TAB(M, T, TA) ROW(M, T, TA, t, bool) ROW(M, T, TA, i, int) ROW(M, T, TA, d, double) ROW(M, T, TA, vi, VI &) ROW(M, T, TA, vd, VD &) ROW(M, T, TA, vb, VB &)
#define SOME(M, T, TA) M(T##_t_t, TA, bool, bool) M(T##_i_d, TA, int, double) M(T##_vi_vi, TA, VI &, VI &) M(T##_vb_i, TA, VB &, int) M(T##_vb_vi, TA, VB &, VI &) M(T##_vd_vb, TA, VD &, VB &) M(T##_t_vi, TA, bool, VI &)
TAB(RM, d, VD) SOME(RS, d, VD) SOME(RM, i, VI)
SOME(RM, B, BD) SOME(RS, B, BD)
#ifdef FULL
TAB(RS, D, VD) SOME(RM, b, VB) SOME(RS, i, VI) TAB(RM, I, VI)
#endif
