#include "vf.hpp"
#define UNPAREN(...) __VA_ARGS__
// x = subset(a, k): length LEN, element i is a[POS] (POS: 0-based position)
#define RD(N, TA, PARAMS, PRE, SUB, LEN, POS)                                    \
  IMPL(N, double, TA &a, UNPAREN PARAMS, Z i) {                                  \
    ne(a); PRE; { Z n_ = LEN; vf_assume(i < n_); }                               \
    const auto &x = SUB;                                                         \
    vf_out_z(1, x.size()); vf_out_b(2, x.im());                                  \
    return x[i];                                                                 \
  }                                                                              \
  SPEC(N, double, TA &a, UNPAREN PARAMS, Z i) {                                  \
    Z n = LEN; vf_out_z(1, n); vf_out_b(2, false);                               \
    Z q = POS; return a.d.p[q];                                                  \
  }                                                                              \
  IMPL(N##_st, double, TA &a, VD &r, UNPAREN PARAMS, Z i) {                      \
    ne(a); wf(r); PRE; { Z n_ = LEN; vf_assume(i < n_); }                        \
    r = SUB;                                                                     \
    vf_out_z(1, r.d.sz); vf_out_b(2, r.im());                                    \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(N##_st, double, TA &a, VD &r, UNPAREN PARAMS, Z i) {                      \
    Z n = LEN; vf_out_z(1, n); vf_out_b(2, false);                               \
    for (Z j = 0; j < n; j++) { Z i = j; Z q = POS; if (q >= a.d.sz) vf_throw(); } \
    Z q = POS; return a.d.p[q];                                                  \
  }
template <class V> inline void noti(const V &v) { vf_assume(!v.d.mp.ismatrix); }
// the number of selected positions / the i-th selected position
inline Z cnt(const VB &k, Z n) { Z c = 0; for (Z j = 0; j < n; j++) if (k.d.p[j % k.d.sz]) c++; return c; }
inline Z nth(const VB &k, Z n, Z i) {
  Z c = 0, r = 0;
  for (Z j = 0; j < n; j++) if (k.d.p[j % k.d.sz]) { if (c == i) r = j; c++; }
  return r;
}
#define N_ a.d.sz
#define ALL(T, TA)                                                               \
  RD(all_##T, TA, (int u), (void)u, etr::subset(a, true), N_, i)                 \
  RD(int_##T, TA, (int k), vf_assume(k >= 1 && (Z)k <= N_), etr::subset(a, k), 1, (Z)(k - 1)) \
  RD(vi_##T, TA, (VI & k), ne(k); vf_assume(k.d.p[i] >= 1 && (Z)k.d.p[i] <= N_); vf_flag(1), etr::subset(a, k), k.d.sz, (Z)(k.d.p[i] - 1)) \
  RD(vd_##T, TA, (VD & k), ne(k); vf_assume(k.d.p[i] >= 1 && k.d.p[i] < (double)N_ + 1); vf_flag(1), etr::subset(a, k), k.d.sz, (Z)k.d.p[i] - 1) \
  RD(vb_##T, TA, (VB & k), ne(k), etr::subset(a, k), cnt(k, N_), nth(k, N_, i))
ALL(d, VD) ALL(i, VI) ALL(b, VB) ALL(B, BD)
// ---- scalar indices of the other numeric types, e.g. a.size()
RD(z_d, VD, (Z k), vf_assume(k >= 1 && k <= N_), etr::subset(a, k), 1, k - 1)
RD(z_i, VI, (Z k), vf_assume(k >= 1 && k <= N_), etr::subset(a, k), 1, k - 1)
RD(z_B, BD, (Z k), vf_assume(k >= 1 && k <= N_), etr::subset(a, k), 1, k - 1)
RD(l_d, VD, (long k), vf_assume(k >= 1 && (Z)k <= N_), etr::subset(a, k), 1, (Z)k - 1)
RD(last_d, VD, (int u), (void)u, etr::subset(a, a.size()), 1, N_ - 1)
RD(lastl_i, VI, (int u), (void)u; vf_assume(N_ < (1u << 31)), etr::subset(a, etr::length(a)), 1, N_ - 1)
RD(one_d, VD, (double u), (void)u, etr::subset(a, etr::length(u)), 1, 0)
IMPL(z_err, Z, VD &a, VD &r, Z k) { ne(a); wf(r); r = etr::subset(a, k); return r.d.sz; }
SPEC(z_err, Z, VD &a, VD &r, Z k) { if (k < 1 || k > a.d.sz) vf_throw(); return 1; }
IMPL(l_err, Z, VD &a, VD &r, long k) { ne(a); wf(r); r = etr::subset(a, k); return r.d.sz; }
SPEC(l_err, Z, VD &a, VD &r, long k) { if (k < 1 || (Z)k > a.d.sz) vf_throw(); return 1; }

// ---- iteration visits the selected elements in order
#define IT(N, TA, PARAMS, PRE, SUB, LEN, POS)                                    \
  IMPL(N, double, TA &a, UNPAREN PARAMS, Z i) {                                  \
    ne(a); PRE; { Z n_ = LEN; vf_assume(i < n_); }                               \
    Z c = 0; double v = 0;                                                       \
    for (auto &x : SUB) { if (c == i) v = x; c++; }                              \
    vf_out_z(1, c);                                                              \
    return v;                                                                    \
  }                                                                              \
  SPEC(N, double, TA &a, UNPAREN PARAMS, Z i) {                                  \
    Z n = LEN; vf_out_z(1, n); Z q = POS; return a.d.p[q];                       \
  }
#define ITS(T, TA)                                                               \
  IT(it_self_##T, TA, (int u), (void)u, a, N_, i)                                \
  IT(it_cself_##T, TA, (int u), (void)u, std::as_const(a), N_, i)                \
  IT(it_all_##T, TA, (int u), (void)u, etr::subset(a, true), N_, i)              \
  IT(it_int_##T, TA, (int k), vf_assume(k >= 1 && (Z)k <= N_), etr::subset(a, k), 1, (Z)(k - 1)) \
  IT(it_vi_##T, TA, (VI & k), ne(k); vf_assume(k.d.p[i] >= 1 && (Z)k.d.p[i] <= N_); vf_flag(1), etr::subset(a, k), k.d.sz, (Z)(k.d.p[i] - 1)) \
  IT(it_vd_##T, TA, (VD & k), ne(k); vf_assume(k.d.p[i] >= 1 && k.d.p[i] < (double)N_ + 1); vf_flag(1), etr::subset(a, k), k.d.sz, (Z)k.d.p[i] - 1) \
  IT(it_vb_##T, TA, (VB & k), ne(k); vf_assume(cnt(k, N_) > 0), etr::subset(a, k), cnt(k, N_), nth(k, N_, i))
ITS(d, VD) ITS(i, VI) ITS(b, VB) ITS(B, BD)
IMPL(it_err, Z, VD &a, VI &k) { ne(a); ne(k); Z c = 0; for (auto x : etr::subset(a, k)) c++; return c; }
SPEC(it_err, Z, VD &a, VI &k) { for (Z j = 0; j < k.d.sz; j++) if (k.d.p[j] < 1 || (Z)k.d.p[j] > a.d.sz) vf_throw(); return k.d.sz; }
// ---- scalar double: truncated, a warning exactly if something is cut off
#define DBL(T, TA)                                                               \
  IMPL(dbl_##T, double, TA &a, VD &r, double k, Z i) {                           \
    ne(a); wf(r); vf_assume(k < 1e9);                                            \
    r = etr::subset(a, k);                                                       \
    vf_out_z(1, r.d.sz);                                                         \
    return r.d.p[0];                                                             \
  }                                                                              \
  SPEC(dbl_##T, double, TA &a, VD &r, double k, Z i) {                           \
    if (!(k >= 1.0)) vf_throw();                                                 \
    Z p = (Z)k;                                                                  \
    if (p > a.d.sz) vf_throw();                                                  \
    vf_warn(k - (double)(int)k <= 0);                                            \
    vf_out_z(1, 1);                                                              \
    return a.d.p[p - 1];                                                         \
  }
DBL(d, VD) DBL(i, VI) DBL(B, BD)
// ---- errors: FALSE, an index below one or above the length, nothing selected
#define RE(N, TA, PARAMS, PRE, SUB)                                              \
  IMPL(N, double, TA &a, VD &r, UNPAREN PARAMS) {                                \
    vf_flag(2 | 16); ne(a); wf(r); PRE;                                          \
    r = SUB;                                                                     \
    return 0;                                                                    \
  }                                                                              \
  SPEC(N, double, TA &a, VD &r, UNPAREN PARAMS) { vf_throw(); }
#define ERRS(T, TA)                                                              \
  RE(e_false_##T, TA, (int u), (void)u, etr::subset(a, false))                   \
  RE(e_lo_##T, TA, (int k), vf_assume(k < 1 && k > -(1 << 30)), etr::subset(a, k)) \
  RE(e_hi_##T, TA, (int k), vf_assume(k > 0 && (Z)k > N_), etr::subset(a, k))    \
  RE(e_dlo_##T, TA, (double k), vf_assume(k < 1.0 && k > -1e9), etr::subset(a, k)) \
  RE(e_dhi_##T, TA, (double k), vf_assume(k >= 1.0 && k < 1e9 && (Z)k > N_), etr::subset(a, k)) \
  RE(e_vi_##T, TA, (VI & k, Z i), ne(k); vf_assume(i < k.d.sz && (k.d.p[i] < 1 || (Z)k.d.p[i] > N_) && k.d.p[i] > -(1 << 30)), etr::subset(a, k)) \
  RE(e_vd_##T, TA, (VD & k, Z i), ne(k); vf_assume(i < k.d.sz && (k.d.p[i] < 1 || k.d.p[i] >= (double)N_ + 1) && k.d.p[i] >= 0 && k.d.p[i] < 1e15), etr::subset(a, k)) \
  RE(e_none_##T, TA, (VB & k), ne(k); vf_assume(cnt(k, N_) == 0), etr::subset(a, k)) \
  RE(e_evi_##T, TA, (VI & k), wf(k); vf_assume(k.d.sz == 0), etr::subset(a, k))  \
  RE(e_evb_##T, TA, (VB & k), wf(k); vf_assume(k.d.sz == 0), etr::subset(a, k))
ERRS(d, VD) ERRS(i, VI) ERRS(B, BD)
// ---- index expressions, subsets of expressions / r values / subsets, subsets within expressions
#define EX(N, PARAMS, PRE, EXPR, LEN, EL)                                        \
  IMPL(N, double, VD &r, VD &a, UNPAREN PARAMS, Z i) {                           \
    wf(r); ne(a); PRE; vf_flag(1); { Z n_ = LEN; vf_assume(i < n_); }            \
    r = EXPR;                                                                    \
    vf_out_z(1, r.d.sz);                                                         \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(N, double, VD &r, VD &a, UNPAREN PARAMS, Z i) {                           \
    Z n = LEN; vf_out_z(1, n);                                                   \
    return EL;                                                                   \
  }
#define OKI(e) vf_assume((e) >= 1 && (Z)(e) <= N_)
#define OKD(e) vf_assume((e) >= 1 && (e) < (double)N_ + 1)
EX(ix_expr, (VI & k), ne(k); OKI(k.d.p[i] + 1), etr::subset(a, k + 1), k.d.sz, a.d.p[k.d.p[i]])
EX(ix_dexpr, (VD & k), ne(k); OKD(k.d.p[i] * 2.0), etr::subset(a, k * 2.0), k.d.sz, a.d.p[(Z)(k.d.p[i] * 2.0) - 1])
EX(ix_rvec, (int k, int l), OKI(k); OKI(l), etr::subset(a, etr::coca(k, l)), 2, i == 0 ? a.d.p[k - 1] : a.d.p[l - 1])
EX(ix_sub, (VI & k, VI &l), ne(k); ne(l); vf_assume(l.d.p[i] >= 1 && (Z)l.d.p[i] <= k.d.sz); OKI(k.d.p[l.d.p[i] - 1]), etr::subset(a, etr::subset(k, l)), l.d.sz, a.d.p[k.d.p[l.d.p[i] - 1] - 1])
inline Z ccnt(const VD &a, double t) { Z c = 0; for (Z j = 0; j < a.d.sz; j++) if (a.d.p[j] > t) c++; return c; }
inline double cnth(const VD &a, double t, Z i) { Z c = 0; double r = 0; for (Z j = 0; j < a.d.sz; j++) if (a.d.p[j] > t) { if (c == i) r = a.d.p[j]; c++; } return r; }
EX(ix_cmp, (double t), (void)0, etr::subset(a, a > t), ccnt(a, t), cnth(a, t, i))
EX(ix_cmpv, (const VD &b), ne(b); vf_assume(b.d.sz == 1), etr::subset(a, a > b), ccnt(a, b.d.p[0]), cnth(a, b.d.p[0], i))
EX(of_expr, (VI & k, const VD &b), ne(k); ne(b); vf_assume(k.d.p[i] >= 1 && (Z)k.d.p[i] <= len2(a, b)), etr::subset(a + b, k), k.d.sz, el(a, k.d.p[i] - 1) + el(b, k.d.p[i] - 1))
EX(of_expri, (int k, const VD &b), ne(b); vf_assume(k >= 1 && (Z)k <= len2(a, b)), etr::subset(a * b, k), 1, el(a, k - 1) * el(b, k - 1))
EX(of_exprt, (const VD & b), ne(b), etr::subset(a * b, true), len2(a, b), el(a, i) * el(b, i))
EX(of_un, (VI & k), ne(k); OKI(k.d.p[i]), etr::subset(etr::exp(a), k), k.d.sz, std::exp(a.d.p[k.d.p[i] - 1]))
EX(of_rvec, (double x, double y, int k), vf_assume(k >= 1 && k <= 2), etr::subset(etr::coca(x, y), k), 1, k == 1 ? x : y)
EX(of_sub, (VI & k, VI &l), ne(k); ne(l); vf_assume(l.d.p[i] >= 1 && (Z)l.d.p[i] <= k.d.sz); OKI(k.d.p[l.d.p[i] - 1]), etr::subset(etr::subset(a, k), l), l.d.sz, a.d.p[k.d.p[l.d.p[i] - 1] - 1])
EX(in_add, (VI & k, const VD &b), ne(k); ne(b); OKI(k.d.p[i % k.d.sz]), etr::subset(a, k) + b, zmax(k.d.sz, b.d.sz), a.d.p[k.d.p[i % k.d.sz] - 1] + el(b, i))
EX(in_sub, (VD & k, const VI &b), ne(k); ne(b); OKD(k.d.p[i % k.d.sz]), b - etr::subset(a, k), zmax(k.d.sz, b.d.sz), el(b, i) - a.d.p[(Z)k.d.p[i % k.d.sz] - 1])
EX(in_two, (VI & k, VI &l), ne(k); ne(l); OKI(k.d.p[i % k.d.sz]); OKI(l.d.p[i % l.d.sz]), etr::subset(a, k) * etr::subset(a, l), zmax(k.d.sz, l.d.sz), a.d.p[k.d.p[i % k.d.sz] - 1] * a.d.p[l.d.p[i % l.d.sz] - 1])
EX(in_fn, (VI & k), ne(k); OKI(k.d.p[i]), etr::exp(etr::subset(a, k)), k.d.sz, std::exp(a.d.p[k.d.p[i] - 1]))
EX(in_sc, (int k, const VD &b), ne(b); OKI(k), etr::subset(a, k) * b, b.d.sz, a.d.p[k - 1] * b.d.p[i])
EX(in_scb, (const VD &b), ne(b), etr::subset(a, true) + b, len2(a, b), el(a, i) + el(b, i))
EX(pa_int, (int k), OKI(k), a(k), 1, a.d.p[k - 1])
EX(pa_vec, (VI & k), ne(k); OKI(k.d.p[i]), a(k), k.d.sz, a.d.p[k.d.p[i] - 1])
EX(pa_all, (int u), (void)u, a(true), N_, a.d.p[i])
// the target may be the vector that is subset
#define AL(N, PARAMS, PRE, EXPR, LEN, EL)                                        \
  IMPL(N, double, VD &a, UNPAREN PARAMS, Z i) {                                  \
    ne(a); PRE; vf_flag(1); { Z n_ = LEN; vf_assume(i < n_); }                   \
    a = EXPR;                                                                    \
    vf_out_z(1, a.d.sz);                                                         \
    return a.d.p[i];                                                             \
  }                                                                              \
  SPEC(N, double, VD &a, UNPAREN PARAMS, Z i) {                                  \
    Z n = LEN; vf_out_z(1, n);                                                   \
    return EL;                                                                   \
  }
AL(al_vi, (VI & k), ne(k); OKI(k.d.p[i]), etr::subset(a, k), k.d.sz, a.d.p[k.d.p[i] - 1])
AL(al_vb, (VB & k), ne(k), etr::subset(a, k), cnt(k, N_), a.d.p[nth(k, N_, i)])
AL(al_int, (int k), OKI(k), etr::subset(a, k), 1, a.d.p[k - 1])
AL(al_expr, (VI & k), ne(k); OKI(k.d.p[i]), etr::subset(a, k) * 2.0, k.d.sz, a.d.p[k.d.p[i] - 1] * 2.0)
// the subset vector and the indices are not changed by reading
IMPL(keep, double, VD &a, VI &k, VD &r, Z i, Z j) {
  ne(a); ne(k); wf(r); vf_flag(1); vf_assume(i < a.d.sz && j < k.d.sz);
  r = etr::subset(a, k);
  vf_out_z(1, a.d.sz); vf_out_z(2, k.d.sz); vf_out_i(3, k.d.p[j]);
  return a.d.p[i];
}
SPEC(keep, double, VD &a, VI &k, VD &r, Z i, Z j) {
  vf_out_z(1, a.d.sz); vf_out_z(2, k.d.sz); vf_out_i(3, k.d.p[j]);
  return a.d.p[i];
}
// a subset of a single element used as a number
IMPL(num, double, VD &a, int k) { ne(a); OKI(k); double x = etr::subset(a, k); return x; }
SPEC(num, double, VD &a, int k) { return a.d.p[k - 1]; }
