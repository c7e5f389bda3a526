#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
template <class T, class E> constexpr bool isE = std::is_same_v<typename std::remove_reference_t<T>::Type, E>;
#define OKI(k) vf_assume(k > -(1 << 20) && k < (1 << 20))
#define OK(k) vf_assume(k >= 1 && k < (1 << 20))
// ---- a:b for integers
#define CI(N, PARAMS, PRE, A, B, S, F)                                           \
  IMPL(ci_##N, int, UNPAREN PARAMS, Z i) {                                       \
    vf_flag(2); PRE; { int s = S, f = F; OKI(s); OKI(f); vf_assume(i <= (Z)(s < f ? f - s : s - f)); } \
    auto r = etr::colon(A, B);                                                   \
    vf_out_z(1, r.size()); vf_out_b(2, r.im()); vf_out_b(3, isE<decltype(r), int>); \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(ci_##N, int, UNPAREN PARAMS, Z i) {                                       \
    int s = S, f = F;                                                            \
    vf_out_z(1, (Z)(s < f ? f - s : s - f) + 1); vf_out_b(2, false); vf_out_b(3, true); \
    return s < f ? s + (int)i : s - (int)i;                                      \
  }
#define WE(v) vf_warn(v.d.sz == 1)
#define FST(v) v.d.p[0]
CI(ii, (int k, int l), (void)0, k, l, k, l)
CI(vi, (VI & k, int l), ne(k), k, l, FST(k), l)
CI(iv, (int k, VI &l), ne(l), k, l, k, FST(l))
CI(vv, (VI & k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l))
CI(cvi, (const VI &k, int l), ne(k), k, l, FST(k), l)
CI(icv, (int k, const VI &l), ne(l), k, l, k, FST(l))
CI(xi, (VI & k, int l), ne(k); OKI(FST(k)), k + 1, l, FST(k) + 1, l)
CI(ix, (int k, VI &l), ne(l); OKI(FST(l)), k, -l, k, -FST(l))
CI(xx, (VI & k, VI &l), ne(k); ne(l); OKI(FST(k)); OKI(FST(l)), k - 1, l + 1, FST(k) - 1, FST(l) + 1)
CI(xv, (VI & k, VI &l), ne(k); ne(l); OKI(FST(k)), k - 1, l, FST(k) - 1, FST(l))
CI(vx, (VI & k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1)
CI(bi, (bool k, int l), (void)0, k, l, (int)k, l)
CI(ib, (int k, bool l), (void)0, k, l, k, (int)l)
CI(vbi, (VB & k, int l), ne(k), k, l, (int)FST(k), l)
CI(ibv, (VI & k, VB &l), ne(k); ne(l), k, l, FST(k), (int)FST(l))
// ---- a:b as soon as one operand is numeric: the type is numeric and the step one
#define OKD(k) vf_assume(k > -1e5 && k < 1e5)
#define CD(N, PARAMS, PRE, A, B, S, F)                                           \
  IMPL(cd_##N, double, UNPAREN PARAMS, Z i) {                                    \
    vf_flag(2 | 4); PRE; { double s = S, f = F; OKD(s); OKD(f); vf_assume(i < (Z)((s < f ? f - s : s - f) + 1)); } \
    auto r = etr::colon(A, B);                                                   \
    vf_out_z(1, r.size()); vf_out_b(2, r.im()); vf_out_b(3, isE<decltype(r), double>); \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(cd_##N, double, UNPAREN PARAMS, Z i) {                                    \
    double s = S, f = F;                                                         \
    vf_out_z(1, (Z)((s < f ? f - s : s - f) + 1)); vf_out_b(2, false); vf_out_b(3, true); \
    return s < f ? s + (double)i : s - (double)i;                                \
  }
CD(dd, (double k, double l), (void)0, k, l, k, l)
CD(di, (double k, int l), (void)0, k, l, k, l)
CD(id, (int k, double l), (void)0, k, l, k, l)
CD(vd, (VD & k, double l), ne(k), k, l, FST(k), l)
CD(dv, (double k, VD &l), ne(l), k, l, k, FST(l))
CD(vid, (VI & k, double l), ne(k), k, l, FST(k), l)
CD(vvi, (VD & k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l))
CD(viv, (VI & k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l))
CD(vv, (VD & k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l))
CD(xd, (VD & k, double l), ne(k); OKD(FST(k)), k + 1.0, l, FST(k) + 1.0, l)
CD(dx, (double k, VD &l), ne(l); OKD(FST(l)), k, -l, k, -FST(l))
CD(xx, (VD & k, VD &l), ne(k); ne(l); OKD(FST(k)); OKD(FST(l)), k - 1.0, l + 1.0, FST(k) - 1.0, FST(l) + 1.0)
CD(B, (BD & k, double l), ne(k), k, l, FST(k), l)
// the result assigned to a variable; warnings
IMPL(cas, int, VI &r, int k, int l, Z i) {
  wf(r); OKI(k); OKI(l); vf_assume(i <= (Z)(k < l ? l - k : k - l));
  r = etr::colon(k, l);
  vf_out_z(1, r.size()); return r.d.p[i];
}
SPEC(cas, int, VI &r, int k, int l, Z i) { vf_out_z(1, (Z)(k < l ? l - k : k - l) + 1); return k < l ? k + (int)i : k - (int)i; }
#define CW(N, PARAMS, PRE, A, B, W)                                              \
  IMPL(cw_##N, int, UNPAREN PARAMS) { PRE; auto r = etr::colon(A, B); return r.d.p[0]; } \
  SPEC(cw_##N, int, UNPAREN PARAMS) { W; return 1; }
CW(vi, (VI & k, int l), ne(k); vf_assume(FST(k) == 1); OK(l), k, l, WE(k))
CW(iv, (VI & l), ne(l); OK(FST(l)), 1, l, WE(l))
CW(vv, (VI & k, VI &l), ne(k); ne(l); vf_assume(FST(k) == 1); OK(FST(l)), k, l, WE(l); WE(k))
// an empty operand is an error
#define CE(N, PARAMS, PRE, A, B)                                                 \
  IMPL(ce_##N, Z, UNPAREN PARAMS) { vf_flag(2 | 16); PRE; auto r = etr::colon(A, B); return r.size(); } \
  SPEC(ce_##N, Z, UNPAREN PARAMS) { vf_throw(); }
#define EM(v) wf(v); vf_assume(v.d.sz == 0)
CE(vi, (VI & k, int l), EM(k); OK(l), k, l) CE(iv, (int k, VI &l), EM(l); OK(k), k, l)
CE(vv, (VI & k, VI &l), EM(k); ne(l); OKI(FST(l)), k, l) CE(vv2, (VI & k, VI &l), ne(k); EM(l); OKI(FST(k)), k, l)
CE(vd, (VD & k, double l), EM(k); OKD(l), k, l) CE(dv, (double k, const VD &l), EM(l); OKD(k), k, l)
// ---- rep
#define RP(N, E, PARAMS, PRE, A, B, T, LEN, EL)                                  \
  IMPL(rp_##N, E, UNPAREN PARAMS, Z i) {                                         \
    vf_flag(2); PRE; OK(T); vf_assume(i < (Z)(T) * (LEN));                       \
    auto r = etr::rep(A, B);                                                     \
    vf_out_z(1, r.size()); vf_out_b(2, r.im()); vf_out_b(3, isE<decltype(r), E>); \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(rp_##N, E, UNPAREN PARAMS, Z i) {                                         \
    vf_out_z(1, (Z)(T) * (LEN)); vf_out_b(2, false); vf_out_b(3, true);          \
    return EL;                                                                   \
  }
#define SMV(v) vf_assume(v.d.sz < (1 << 20))
RP(di, double, (double s, int k), (void)0, s, k, k, 1, s)
RP(dd, double, (double s, double k), (void)0, s, k, k, 1, s)
RP(ii, int, (int s, int k), (void)0, s, k, k, 1, s)
RP(bi, bool, (bool s, int k), (void)0, s, k, k, 1, s)
RP(dv, double, (double s, VI &k), ne(k), s, k, FST(k), 1, s)
RP(dvd, double, (double s, VD &k), ne(k), s, k, FST(k), 1, s)
RP(iv, int, (int s, VD &k), ne(k), s, k, FST(k), 1, s)
RP(vi, double, (VD & v, int k), ne(v); SMV(v), v, k, k, v.d.sz, el(v, i))
RP(vd, double, (VD & v, double k), ne(v); SMV(v), v, k, k, v.d.sz, el(v, i))
RP(ivi, int, (VI & v, int k), ne(v); SMV(v), v, k, k, v.d.sz, el(v, i))
RP(bvi, bool, (VB & v, int k), ne(v); SMV(v), v, k, k, v.d.sz, el(v, i))
RP(Bvi, double, (BD & v, int k), ne(v); SMV(v), v, k, k, v.d.sz, el(v, i))
RP(vv, double, (VD & v, VI &k), ne(v); ne(k); SMV(v), v, k, FST(k), v.d.sz, el(v, i))
RP(vvd, double, (VD & v, VD &k), ne(v); ne(k); SMV(v), v, k, FST(k), v.d.sz, el(v, i))
RP(xi, double, (VD & v, int k), ne(v); SMV(v), v + 1.0, k, k, v.d.sz, el(v, i) + 1.0)
RP(xx, double, (VD & v, VI &k), ne(v); ne(k); SMV(v); OK(FST(k)), -v, k + 1, FST(k) + 1, v.d.sz, -el(v, i))
RP(vx, double, (VD & v, VI &k), ne(v); ne(k); SMV(v); OK(FST(k)), v, k + 1, FST(k) + 1, v.d.sz, el(v, i))
RP(sub, double, (VD & v, int l, int k), vf_flag(1); ne(v); vf_assume(l >= 1 && (Z)l <= v.d.sz), etr::subset(v, l), k, k, 1, v.d.p[l - 1])
// expressions over integers and logicals repeat the values they have
#define RX(N, E, V, X, EL) RP(t_##N, E, (V & v, VI &w, int k), ne(v); ne(w); vf_assume(w.d.sz == v.d.sz); SMV(v), X, k, k, v.d.sz, EL)
RX(div, double, VI, v / w, (double)el(v, i) / (double)el(w, i))
RX(divs, double, VI, v / 2, (double)el(v, i) / 2.0)
RX(sdiv, double, VI, 2 / v, 2.0 / (double)el(v, i))
RX(sin, double, VI, etr::sinus(v), __builtin_sin(el(v, i)))
RX(exp, double, VI, etr::exp(v), __builtin_exp(el(v, i)))
RX(sqrt, double, VI, etr::sqroot(v), __builtin_sqrt(el(v, i)))
RX(bdiv, double, VB, v / w, (double)el(v, i) / (double)el(w, i))
RX(pow, int, VI, v ^ w, (int)__builtin_pow(el(v, i), el(w, i)))
RX(powd, double, VI, v ^ 0.5, __builtin_pow(el(v, i), 0.5))
RX(neg, int, VB, -v, -(int)el(v, i))
RX(blog, double, VB, etr::atangens(v), __builtin_atan(el(v, i)))
RX(mixp, double, VI, v + 0.5, (double)el(v, i) + 0.5)
RX(nest, double, VI, (v / 2) * w, (double)el(v, i) / 2.0 * (double)el(w, i))
RX(cmp, bool, VI, v < w, el(v, i) < el(w, i))
IMPL(ras, double, VD &r, VD &v, int k, Z i) { wf(r); ne(v); SMV(v); OK(k); vf_assume(i < (Z)k * v.d.sz); r = etr::rep(v, k); vf_out_z(1, r.size()); return r.d.p[i]; }
SPEC(ras, double, VD &r, VD &v, int k, Z i) { vf_out_z(1, (Z)k * v.d.sz); return el(v, i); }
IMPL(rself, double, VD &v, int k, Z i) { ne(v); SMV(v); OK(k); vf_assume(i < (Z)k * v.d.sz); v = etr::rep(v, k); vf_out_z(1, v.size()); return v.d.p[i]; }
SPEC(rself, double, VD &v, int k, Z i) { vf_out_z(1, (Z)k * v.d.sz); return el(v, i); }
#define RW(N, PARAMS, PRE, A, B, W)                                              \
  IMPL(rw_##N, double, UNPAREN PARAMS) { PRE; auto r = etr::rep(A, B); return 0; } \
  SPEC(rw_##N, double, UNPAREN PARAMS) { W; return 0; }
RW(dv, (double s, VI &k), ne(k); OK(FST(k)), s, k, vf_warn(k.d.sz <= 1))
RW(vv, (VD & s, VI &k), ne(s); SMV(s); ne(k); OK(FST(k)), s, k, vf_warn(k.d.sz <= 1))
RW(dd, (double s, double k), OK(k), s, k, vf_warn(k - (double)(int)k <= 0))
RW(vd, (VD & s, double k), ne(s); SMV(s); OK(k), s, k, vf_warn(k - (double)(int)k <= 0))
#define RE(N, PARAMS, PRE, A, B)                                                 \
  IMPL(re_##N, Z, UNPAREN PARAMS) { vf_flag(2 | 16); PRE; auto r = etr::rep(A, B); return r.size(); } \
  SPEC(re_##N, Z, UNPAREN PARAMS) { vf_throw(); }
#define LO(k) vf_assume(k < 1 && k > -(1 << 20))
RE(di, (double s, int k), LO(k), s, k) RE(dd, (double s, double k), LO(k), s, k)
RE(vi, (VD & v, int k), ne(v); LO(k), v, k) RE(vd, (VI & v, double k), ne(v); LO(k), v, k)
RE(dv, (double s, VI &k), ne(k); LO(FST(k)), s, k) RE(vv, (VD & v, VD &k), ne(v); ne(k); LO(FST(k)), v, k)
RE(de, (double s, VI &k), EM(k), s, k) RE(ve, (VD & v, VI &k), ne(v); EM(k), v, k)
RE(ev, (VD & v, int k), EM(v); OK(k), v, k) RE(evv, (VD & v, VI &k), EM(v); ne(k); OK(FST(k)), v, k)
// ---- coca
#define CC(N, E, PARAMS, PRE, ARGS, LEN, EL)                                     \
  IMPL(cc_##N, E, UNPAREN PARAMS, Z i) {                                         \
    PRE; vf_assume(i < LEN);                                                     \
    auto r = etr::coca(UNPAREN ARGS);                                            \
    vf_out_z(1, r.size()); vf_out_b(2, r.im()); vf_out_b(3, isE<decltype(r), E>); \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(cc_##N, E, UNPAREN PARAMS, Z i) {                                         \
    vf_out_z(1, LEN); vf_out_b(2, false); vf_out_b(3, true);                     \
    return EL;                                                                   \
  }
#define P(v, i) (v).d.p[i]
#define S_(v) v.d.sz
CC(d, double, (double a), (void)0, (a), 1, a)
CC(dd, double, (double a, double b), (void)0, (a, b), 2, i == 0 ? a : b)
CC(ddd, double, (double a, double b, double c), (void)0, (a, b, c), 3, i == 0 ? a : i == 1 ? b : c)
CC(dddd, double, (double a, double b, double c, double e), (void)0, (a, b, c, e), 4, i == 0 ? a : i == 1 ? b : i == 2 ? c : e)
CC(iii, int, (int a, int b, int c), (void)0, (a, b, c), 3, i == 0 ? a : i == 1 ? b : c)
CC(bb, bool, (bool a, bool b), (void)0, (a, b), 2, i == 0 ? a : b)
CC(bi, int, (bool a, int b), (void)0, (a, b), 2, i == 0 ? a : b)
CC(id, double, (int a, double b), (void)0, (a, b), 2, i == 0 ? a : b)
CC(iid, double, (int a, int b, double c), (void)0, (a, b, c), 3, i == 0 ? a : i == 1 ? b : c)
CC(dbi, double, (double a, bool b, int c), (void)0, (a, b, c), 3, i == 0 ? a : i == 1 ? b : c)
CC(v, double, (VD & v), wf(v); ne(v), (v), S_(v), P(v, i))
CC(vd, double, (VD & v, double a), wf(v), (v, a), S_(v) + 1, i < S_(v) ? P(v, i) : a)
CC(dv, double, (double a, VD &v), wf(v), (a, v), S_(v) + 1, i == 0 ? a : P(v, i - 1))
CC(vv, double, (VD & v, VD &w), ne(v); wf(w), (v, w), S_(v) + S_(w), i < S_(v) ? P(v, i) : P(w, i - S_(v)))
CC(viv, double, (VI & v, VD &w), ne(v); ne(w), (v, w), S_(v) + S_(w), i < S_(v) ? P(v, i) : P(w, i - S_(v)))
CC(vvi, double, (VD & v, VI &w), ne(v); ne(w), (v, w), S_(v) + S_(w), i < S_(v) ? P(v, i) : P(w, i - S_(v)))
CC(vivi, int, (VI & v, VI &w), ne(v); ne(w), (v, w), S_(v) + S_(w), i < S_(v) ? P(v, i) : P(w, i - S_(v)))
CC(vbvi, int, (VB & v, VI &w), ne(v); ne(w), (v, w), S_(v) + S_(w), i < S_(v) ? P(v, i) : P(w, i - S_(v)))
CC(vbvb, bool, (VB & v, VB &w), ne(v); ne(w), (v, w), S_(v) + S_(w), i < S_(v) ? P(v, i) : P(w, i - S_(v)))
CC(vid, double, (VI & v, double a), ne(v), (v, a), S_(v) + 1, i < S_(v) ? P(v, i) : a)
CC(Bd, double, (BD & v, double a), ne(v), (v, a), S_(v) + 1, i < S_(v) ? P(v, i) : a)
CC(dvd, double, (double a, VD &v, double b), ne(v), (a, v, b), S_(v) + 2, i == 0 ? a : i <= S_(v) ? P(v, i - 1) : b)
CC(vvv, double, (VD & v, VD &w, VD &u), ne(v); ne(w); ne(u), (v, w, u), S_(v) + S_(w) + S_(u), i < S_(v) ? P(v, i) : i < S_(v) + S_(w) ? P(w, i - S_(v)) : P(u, i - S_(v) - S_(w)))
CC(vdv, double, (VD & v, double a, VD &w), ne(v); ne(w), (v, a, w), S_(v) + S_(w) + 1, i < S_(v) ? P(v, i) : i == S_(v) ? a : P(w, i - S_(v) - 1))
CC(vself, double, (VD & v), ne(v), (v, v), S_(v) + S_(v), i < S_(v) ? P(v, i) : P(v, i - S_(v)))
IMPL(ccas, double, VD &v, double a, Z i) { wf(v); vf_assume(i <= v.d.sz); v = etr::coca(v, a); vf_out_z(1, v.size()); vf_out_b(2, v.im()); return v.d.p[i]; }
SPEC(ccas, double, VD &v, double a, Z i) { vf_out_z(1, S_(v) + 1); vf_out_b(2, false); return i < S_(v) ? P(v, i) : a; }
IMPL(ccasi, int, VI &r, VD &v, double a, Z i) { wf(r); ne(v); vf_assume(i <= v.d.sz); r = etr::coca(a, v); vf_out_z(1, r.size()); return r.d.p[i]; }
SPEC(ccasi, int, VI &r, VD &v, double a, Z i) { vf_out_z(1, S_(v) + 1); return (int)(i == 0 ? a : P(v, i - 1)); }
IMPL(ccun, double, VD &v, VI &w, Z i) { ne(v); ne(w); vf_assume(i < v.d.sz); { auto r = etr::coca(v, w); } vf_out_z(1, v.size()); vf_out_z(2, w.size()); vf_out_b(3, v.im()); return v.d.p[i]; }
SPEC(ccun, double, VD &v, VI &w, Z i) { vf_out_z(1, S_(v)); vf_out_z(2, S_(w)); vf_out_b(3, v.d.mp.ismatrix); return P(v, i); }
IMPL(cce, Z, VD &v) { vf_flag(16); EM(v); auto r = etr::coca(v); return r.size(); }
SPEC(cce, Z, VD &v) { vf_throw(); }
