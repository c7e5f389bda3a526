#include "vf.hpp"
#define UNPAREN(...) __VA_ARGS__
#define N_ a.d.sz
// after STMT (an assignment to a subset of `a`) the length of `a` is unchanged and its
// element q is EL, in terms of the values before
#define WR(N, TA, PARAMS, PRE, STMT, BODY)                                       \
  IMPL(N, double, TA &a, UNPAREN PARAMS, Z q) {                                  \
    ne(a); PRE; vf_assume(q < N_);                                               \
    STMT;                                                                        \
    vf_out_z(1, N_); vf_out_z(2, a.size()); vf_out_b(3, a.im());                 \
    return a.d.p[q];                                                             \
  }                                                                              \
  SPEC(N, double, TA &a, UNPAREN PARAMS, Z q) {                                  \
    vf_out_z(1, N_); vf_out_z(2, N_); vf_out_b(3, a.d.mp.ismatrix);              \
    auto v = a.d.p[q]; using E = decltype(v);                                    \
    BODY;                                                                        \
    return v;                                                                    \
  }
inline Z cnt(const VB &k, Z n) { Z c = 0; for (Z j = 0; j < n; j++) if (k.d.p[j % k.d.sz]) c++; return c; }
inline Z rank(const VB &k, Z q) { Z c = 0; for (Z j = 0; j < q; j++) if (k.d.p[j % k.d.sz]) c++; return c; }
#define OKI(k) vf_assume((k) >= 1 && (Z)(k) <= N_)
#define OKD(k) vf_assume((k) >= 1 && (k) < (double)N_ + 1)
// every index of the vector is valid
inline void oki(const VI &k, Z n) { for (Z j = 0; j < k.d.sz; j++) if (k.d.p[j] < 1 || (Z)k.d.p[j] > n) vf_throw(); }
inline void okd(const VD &k, Z n) { for (Z j = 0; j < k.d.sz; j++) if (!(k.d.p[j] >= 1 && k.d.p[j] < (double)n + 1)) vf_throw(); }
#define ATI(X) for (Z j = 0; j < k.d.sz; j++) if ((Z)(k.d.p[j] - 1) == q) v = (E)(X)
#define ATD(X) for (Z j = 0; j < k.d.sz; j++) if ((Z)k.d.p[j] - 1 == q) v = (E)(X)
#define SAME(b, n) if (b.d.sz != (n)) vf_throw()
#define NVB(x) vf_assume(cnt(k, N_) > 0)
// ---- scalars
#define SC(T, TA, TS, E0)                                                        \
  WR(s_int_##T, TA, (int k, TS s), OKI(k), etr::subset(a, k) = s, if ((Z)k - 1 == q) v = (E)s) \
  WR(s_dbl_##T, TA, (double k, TS s), vf_flag(2); OKD(k); vf_assume(k < 1e9), etr::subset(a, k) = s, if ((Z)k - 1 == q) v = (E)s) \
  WR(s_all_##T, TA, (TS s), (void)0, etr::subset(a, true) = s, v = (E)s)         \
  WR(s_vi_##T, TA, (VI & k, TS s), vf_flag(1); ne(k), etr::subset(a, k) = s, ATI(s)) \
  WR(s_vd_##T, TA, (VD & k, TS s), vf_flag(1); ne(k), etr::subset(a, k) = s, ATD(s)) \
  WR(s_vb_##T, TA, (VB & k, TS s), ne(k); NVB(), etr::subset(a, k) = s, if (k.d.p[q % k.d.sz]) v = (E)s)
SC(dd, VD, double, 0) SC(di, VD, int, 0) SC(id, VI, double, 0) SC(ii, VI, int, 0) SC(Bd, BD, double, 0)
SC(db, VD, bool, 0) SC(bb, VB, bool, 0)
// ---- scalar indices of the other numeric types, e.g. a.size()
WR(s_z_d, VD, (Z k, double s), vf_assume(k >= 1 && k <= N_), etr::subset(a, k) = s, if (k - 1 == q) v = s)
WR(s_z_i, VI, (Z k, double s), vf_assume(k >= 1 && k <= N_), etr::subset(a, k) = s, if (k - 1 == q) v = (int)s)
WR(s_z_B, BD, (Z k, double s), vf_assume(k >= 1 && k <= N_), etr::subset(a, k) = s, if (k - 1 == q) v = s)
WR(s_l_d, VD, (long k, double s), vf_assume(k >= 1 && (Z)k <= N_), etr::subset(a, k) = s, if ((Z)k - 1 == q) v = s)
WR(s_last, VD, (double s), (void)0, etr::subset(a, a.size()) = s, if (q == N_ - 1) v = s)
WR(v_z_d, VD, (Z k, VD &b), ne(b); vf_assume(k >= 1 && k <= N_), etr::subset(a, k) = b, SAME(b, 1); if (k - 1 == q) v = b.d.p[0])
IMPL(s_z_err, Z, VD &a, Z k, double s) { ne(a); etr::subset(a, k) = s; return a.d.sz; }
SPEC(s_z_err, Z, VD &a, Z k, double s) { if (k < 1 || k > a.d.sz) vf_throw(); return a.d.sz; }
// ---- vectors
#define VC(T, TA, TB)                                                            \
  WR(v_int_##T, TA, (int k, TB & b), ne(b); OKI(k), etr::subset(a, k) = b, SAME(b, 1); if ((Z)k - 1 == q) v = (E)b.d.p[0]) \
  WR(v_all_##T, TA, (TB & b), ne(b), etr::subset(a, true) = b, SAME(b, N_); v = (E)b.d.p[q]) \
  WR(v_vi_##T, TA, (VI & k, TB & b), vf_flag(1); ne(b); ne(k); vf_assume(b.d.sz == k.d.sz), etr::subset(a, k) = b, ATI(b.d.p[j])) \
  WR(v_vd_##T, TA, (VD & k, TB & b), vf_flag(1); ne(b); ne(k); vf_assume(b.d.sz == k.d.sz), etr::subset(a, k) = b, ATD(b.d.p[j])) \
  WR(v_vb_##T, TA, (VB & k, TB & b), ne(b); ne(k); NVB(), etr::subset(a, k) = b, SAME(b, cnt(k, N_)); if (k.d.p[q % k.d.sz]) v = (E)b.d.p[rank(k, q)])
VC(dd, VD, VD) VC(di, VD, VI) VC(id, VI, VD) VC(ii, VI, VI) VC(Bd, BD, VD) VC(dB, VD, BD) VC(db, VD, VB)
// ---- writing through iteration
#define LOOPW(SUB, X) for (auto &x : SUB) x = X
WR(it_self, VD, (double s), (void)0, LOOPW(a, s), v = s)
WR(it_selfi, VI, (int s), (void)0, LOOPW(a, s), v = s)
WR(it_selfB, BD, (double s), (void)0, LOOPW(a, s), v = s)
WR(it_all, VD, (double s), (void)0, LOOPW(etr::subset(a, true), s), v = s)
WR(it_int, VD, (int k, double s), OKI(k), LOOPW(etr::subset(a, k), s), if ((Z)k - 1 == q) v = s)
WR(it_vi, VD, (VI & k, double s), vf_flag(1); ne(k), LOOPW(etr::subset(a, k), s), ATI(s))
WR(it_vii, VI, (VI & k, int s), vf_flag(1); ne(k), LOOPW(etr::subset(a, k), s), ATI(s))
WR(it_vb, VD, (VB & k, double s), ne(k); NVB(), LOOPW(etr::subset(a, k), s), if (k.d.p[q % k.d.sz]) v = s)
// ---- expressions
WR(x_add, VD, (VI & k, VD &b, VD &c), vf_flag(1); ne(b); ne(c); ne(k); vf_assume(len2(b, c) == k.d.sz), etr::subset(a, k) = b + c, ATI(el(b, j) + el(c, j)))
WR(x_all, VD, (VD & b, VD &c), ne(b); ne(c), etr::subset(a, true) = b * c, if (len2(b, c) != N_) vf_throw(); v = el(b, q) * el(c, q))
WR(x_fn, VD, (VI & k, VD &b), vf_flag(1); ne(b); ne(k); vf_assume(b.d.sz == k.d.sz), etr::subset(a, k) = etr::exp(b), ATI(std::exp(b.d.p[j])))
WR(x_rv, VD, (int k, int l, double x, double y), vf_flag(1); OKI(k); OKI(l), etr::subset(a, etr::coca(k, l)) = etr::coca(x, y), if ((Z)l - 1 == q) v = y; else if ((Z)k - 1 == q) v = x)
WR(x_cmp, VD, (double t, double s), vf_flag(1), etr::subset(a, a > t) = s, if (v > t) v = s)
WR(x_pa, VD, (int k, double s), OKI(k), a(k) = s, if ((Z)k - 1 == q) v = s)
WR(x_pav, VD, (VI & k, double s), vf_flag(1); ne(k), a(k) = s, ATI(s))
WR(x_ixe, VD, (VI & k, double s), vf_flag(1); ne(k); vf_assume(q < (1u << 30)), etr::subset(a, k + 1) = s, for (Z j = 0; j < k.d.sz; j++) if ((Z)k.d.p[j] == q) v = s)
// ---- the right hand side is evaluated before anything is written
WR(al_self, VD, (VI & k), vf_flag(1); ne(k); vf_assume(k.d.sz == N_), etr::subset(a, k) = a, ATI(a.d.p[j]))
WR(al_selfx, VD, (VI & k), vf_flag(1); ne(k); vf_assume(k.d.sz == N_), etr::subset(a, k) = a * 2.0, ATI(a.d.p[j] * 2.0))
WR(al_perm, VD, (VI & k, VI &l), vf_flag(1); ne(k); ne(l); vf_assume(k.d.sz == l.d.sz), etr::subset(a, k) = etr::subset(a, l), ATI(a.d.p[(Z)(l.d.p[j] - 1)]))
WR(al_permx, VD, (VI & k, VI &l), vf_flag(1); ne(k); ne(l); vf_assume(k.d.sz == l.d.sz), etr::subset(a, k) = etr::subset(a, l) + 1.0, ATI(a.d.p[(Z)(l.d.p[j] - 1)] + 1.0))
WR(al_sc, VD, (int k, int l), OKI(k); OKI(l), etr::subset(a, k) = etr::subset(a, l), if ((Z)k - 1 == q) v = a.d.p[l - 1])
WR(al_b, VD, (VB & k, VD &b), vf_flag(1); ne(k); ne(b); NVB(), etr::subset(a, k) = etr::subset(a, k) + 1.0, if (k.d.p[q % k.d.sz]) v = v + 1.0)
WR(al_bw, BD, (VI & k), vf_flag(1); ne(k); vf_assume(k.d.sz == N_), etr::subset(a, k) = a, ATI(a.d.p[j]))
// ---- the source and the indices are not changed
#define KEEP(N, PARAMS, PRE, STMT, LOOK)                                         \
  IMPL(N, double, VD &a, UNPAREN PARAMS, Z i) {                                  \
    vf_flag(1); ne(a); PRE; STMT; vf_out_z(1, LOOK.d.sz); return LOOK.d.p[i];    \
  }                                                                              \
  SPEC(N, double, VD &a, UNPAREN PARAMS, Z i) { vf_out_z(1, LOOK.d.sz); return LOOK.d.p[i]; }
KEEP(keep_b, (VI & k, VD &b), ne(k); ne(b); vf_assume(i < b.d.sz), etr::subset(a, k) = b, b)
KEEP(keep_k, (VI & k, VD &b), ne(k); ne(b); vf_assume(i < k.d.sz), etr::subset(a, k) = b, k)
KEEP(keep_s, (VI & k, VD &b), ne(k); ne(b); vf_assume(i < b.d.sz), etr::subset(a, k) = etr::subset(b, k), b)
// ---- errors
#define RE(N, TA, PARAMS, PRE, STMT)                                             \
  IMPL(N, double, TA &a, UNPAREN PARAMS) { vf_flag(2 | 16); ne(a); PRE; STMT; return 0; } \
  SPEC(N, double, TA &a, UNPAREN PARAMS) { vf_throw(); }
#define ERRS(T, TA, TB)                                                          \
  RE(e_lo_##T, TA, (int k, double s), vf_assume(k < 1 && k > -(1 << 30)), etr::subset(a, k) = s)   \
  RE(e_hi_##T, TA, (int k, double s), vf_assume(k > 0 && (Z)k > N_), etr::subset(a, k) = s)        \
  RE(e_hiv_##T, TA, (int k, TB & b), ne(b); vf_assume(k > 0 && (Z)k > N_), etr::subset(a, k) = b)  \
  RE(e_dlo_##T, TA, (double k, double s), vf_assume(k < 1.0 && k > -1e9), etr::subset(a, k) = s)   \
  RE(e_dhi_##T, TA, (double k, double s), vf_assume(k >= 1.0 && k < 1e9 && (Z)k > N_), etr::subset(a, k) = s) \
  RE(e_vi_##T, TA, (VI & k, Z i, double s), ne(k); vf_assume(i < k.d.sz && (k.d.p[i] < 1 || (Z)k.d.p[i] > N_) && k.d.p[i] > -(1 << 30)), etr::subset(a, k) = s) \
  RE(e_viv_##T, TA, (VI & k, Z i, TB &b), ne(b); ne(k); vf_assume(i < k.d.sz && (k.d.p[i] < 1 || (Z)k.d.p[i] > N_) && k.d.p[i] > -(1 << 30)), etr::subset(a, k) = b) \
  RE(e_len_##T, TA, (VI & k, TB &b), ne(b); ne(k); vf_assume(b.d.sz != k.d.sz), etr::subset(a, k) = b) \
  RE(e_lend_##T, TA, (VD & k, TB &b), ne(b); ne(k); vf_assume(b.d.sz != k.d.sz), etr::subset(a, k) = b) \
  RE(e_leni_##T, TA, (int k, TB &b), ne(b); vf_assume(b.d.sz != 1), etr::subset(a, k) = b)         \
  RE(e_false_##T, TA, (double s), (void)0, etr::subset(a, false) = s)            \
  RE(e_none_##T, TA, (VB & k, double s), ne(k); vf_assume(cnt(k, N_) == 0), etr::subset(a, k) = s)
ERRS(dd, VD, VD) ERRS(di, VD, VI) ERRS(id, VI, VD) ERRS(Bd, BD, VD)
