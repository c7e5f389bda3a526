#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// the same functions keeping their result as constant 1 of an AllVars object: the elements are those of
// the plain function, stored as numbers, and the other constants and variables stay
using AV = etr::AllVars<1, 0, 0, 2>;
#define OKI(k) vf_assume(k > -(1 << 20) && k < (1 << 20))
#define OKD(k) vf_assume(k > -1e5 && k < 1e5)
#define FST(v) v.d.p[0]
#define AVW wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]); vf_assume(h < av.varConstants[0].d.sz)
#define REST vf_out_z(1, av.varConstants[0].d.sz); vf_out_d(2, av.varConstants[0].d.p[h]); vf_out_z(3, av.varBuffer[0].d.sz)
#define C(N, PARAMS, PRE, CALL, LEN, EL)                                         \
  IMPL(N, double, AV &av, UNPAREN PARAMS, Z i, Z h) {                            \
    vf_flag(2); AVW; PRE; vf_assume(i < (Z)(LEN));                               \
    auto x = CALL;                                                          \
    REST; vf_out_z(4, av.varConstants[1].d.sz); vf_out_z(5, x.size());           \
    return av.varConstants[1].d.p[i];                                            \
  }                                                                              \
  SPEC(N, double, AV &av, UNPAREN PARAMS, Z i, Z h) {                            \
    REST; vf_out_z(4, (Z)(LEN)); vf_out_z(5, (Z)(LEN)); return EL;               \
  }
#define RNG(s, f) ((s < f ? f - s : s - f) + 1)
#define CO(N, PARAMS, PRE, A, B, S, F, T, OKT)                                   \
  C(aco_##N, PARAMS, PRE; OKT((T)(S)); OKT((T)(F)), (etr::colon<1>(av, A, B)), RNG((T)(S), (T)(F)), ((T)(S) < (T)(F) ? (double)(T)(S) + (double)i : (double)(T)(S) - (double)i))
CO(ii, (int k, int l), (void)0, k, l, k, l, int, OKI)
CO(vi, (VI & k, int l), ne(k), k, l, FST(k), l, int, OKI)
CO(iv, (int k, VI &l), ne(l), k, l, k, FST(l), int, OKI)
CO(vv, (VI & k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), int, OKI)
CO(dd, (double k, double l), (void)0, k, l, k, l, double, OKD)
CO(id, (int k, double l), (void)0, k, l, k, l, double, OKD)
CO(di, (double k, int l), (void)0, k, l, k, l, double, OKD)
CO(vd, (VD & k, double l), ne(k), k, l, FST(k), l, double, OKD)
CO(vid, (VI & k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), double, OKD)
#define P(v, i) (v).d.p[i]
#define S_(v) v.d.sz
C(acc_dd, (double a, double b), (void)0, (etr::coca<1>(av, a, b)), 2, i == 0 ? a : b)
C(acc_iii, (int a, int b, int c), (void)0, (etr::coca<1>(av, a, b, c)), 3, i == 0 ? a : i == 1 ? b : c)
C(acc_bd, (bool a, double b), (void)0, (etr::coca<1>(av, a, b)), 2, i == 0 ? a : b)
C(acc_vd, (VD & v, double a), wf(v), (etr::coca<1>(av, v, a)), S_(v) + 1, i < S_(v) ? P(v, i) : a)
C(acc_iv, (int a, VD &v), wf(v), (etr::coca<1>(av, a, v)), S_(v) + 1, i == 0 ? a : P(v, i - 1))
C(acc_vv, (VD & v, VI &w), ne(v); ne(w), (etr::coca<1>(av, v, w)), S_(v) + S_(w), i < S_(v) ? P(v, i) : P(w, i - S_(v)))
