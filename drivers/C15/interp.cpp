#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// the knots increase strictly; everything is finite
#define FIN(e) ((double)(e) > -1e6 && (double)(e) < 1e6)
template <class V> inline bool fin(const V &v) {
  bool ok = true;
  for (Z j = 0; j < v.d.sz; j++) ok = ok && FIN(v.d.p[j]);
  return ok;
}
template <class V> inline bool sorted(const V &v) {
  bool ok = true;
  for (Z j = 0; j + 1 < v.d.sz; j++) ok = ok && v.d.p[j] < v.d.p[j + 1];
  return ok;
}
#define KNOTS(m) ne(x); ne(y); vf_assume(x.d.sz >= m); vf_assume(x.d.sz == y.d.sz); vf_assume(sorted(x)); vf_assume(FIN(x.d.p[0])); vf_assume(FIN(x.d.p[x.d.sz - 1])); vf_assume(fin(y))
#define X(j) ((double)x.d.p[j])
#define Y(j) ((double)y.d.p[j])
#define LAST (x.d.sz - 1)
#define IN(t) vf_assume(i < LAST); vf_assume(X(i) <= t && t < X(i + 1))
// ---- straight line between two knots
#define SEG(t) (Y(i) + (Y(i + 1) - Y(i)) / (X(i + 1) - X(i)) * (t - X(i)))
#define LI(N, VT, VX, VY)                                                        \
  IMPL(li_in_##N, double, VT &s, VX &x, VY &y, Z i) { ne(s); vf_assume(s.d.sz == 1); KNOTS(2); IN(s.d.p[0]); return etr::li(s, x, y); } \
  SPEC(li_in_##N, double, VT &s, VX &x, VY &y, Z i) { return SEG(s.d.p[0]); }    \
  IMPL(li_lo_##N, double, VT &s, VX &x, VY &y) { ne(s); vf_assume(s.d.sz == 1); KNOTS(2); vf_assume(s.d.p[0] <= X(0)); return etr::li(s, x, y); } \
  SPEC(li_lo_##N, double, VT &s, VX &x, VY &y) { return Y(0); }                  \
  IMPL(li_hi_##N, double, VT &s, VX &x, VY &y) { ne(s); vf_assume(s.d.sz == 1); KNOTS(2); vf_assume(s.d.p[0] >= X(LAST)); return etr::li(s, x, y); } \
  SPEC(li_hi_##N, double, VT &s, VX &x, VY &y) { return Y(LAST); }               \
  IMPL(li_kn_##N, double, VT &s, VX &x, VY &y, Z i) { ne(s); vf_assume(s.d.sz == 1); KNOTS(2); vf_assume(i <= LAST); vf_assume(s.d.p[0] == X(i)); return etr::li(s, x, y); } \
  SPEC(li_kn_##N, double, VT &s, VX &x, VY &y, Z i) { return Y(i); }
LI(d, VD, VD, VD) LI(B, VD, BD, BD) LI(i, VD, VI, VD) LI(t, VI, VD, VI)
#define LIX(N, PARAMS, PRE, S, A, B, T, XX, YY)                                  \
  IMPL(lix_##N, double, UNPAREN PARAMS, Z i) { PRE; vf_assume(i < LAST); vf_assume(XX(i) <= T && T < XX(i + 1)); return etr::li(S, A, B); } \
  SPEC(lix_##N, double, UNPAREN PARAMS, Z i) { return YY(i) + (YY(i + 1) - YY(i)) / (XX(i + 1) - XX(i)) * (T - XX(i)); }
#define XP(j) (x.d.p[j] + 1.0)
#define YN(j) (-y.d.p[j])
LIX(x, (VD & s, VD &x, VD &y), ne(s); vf_assume(s.d.sz == 1); KNOTS(2), s, x + 1.0, y, s.d.p[0], XP, Y)
LIX(s, (VD & s, VD &x, VD &y), ne(s); vf_assume(s.d.sz == 1); KNOTS(2), s * 2.0, x, y, s.d.p[0] * 2.0, X, Y)
// ---- cubic through the knots; the neighbours of the ends are taken from the other end
inline double cub(double t, double t0, double t1, double t2, double t3, double y0, double y1, double y2, double y3) {
  double u = (t - t1) / (t2 - t1), m1 = (y2 - y0) / (t2 - t0), m2 = (y3 - y1) / (t3 - t1);
  double u2 = std::pow(u, 2), u3 = std::pow(u, 3);
  return (2. * u3 - 3. * u2 + 1.) * y1 + (u3 - 2. * u2 + u) * (t2 - t1) * m1 + (-2. * u3 + 3. * u2) * y2 + (u3 - u2) * (t2 - t1) * m2;
}
#define DV(v) vf_assume(v.d.sz < (1 << 20))
#define CU(N, PARAMS, PRE, S, T, FS)                                             \
  IMPL(cm_in_##N, double, UNPAREN PARAMS, Z i) { PRE; KNOTS(4); DV(x); vf_assume(i >= 1 && i + 2 <= LAST); IN(T); vf_flag(FS); return etr::cmr(S, x, y); } \
  SPEC(cm_in_##N, double, UNPAREN PARAMS, Z i) { return cub(T, X(i - 1), X(i), X(i + 1), X(i + 2), Y(i - 1), Y(i), Y(i + 1), Y(i + 2)); } \
  IMPL(cm_fi_##N, double, UNPAREN PARAMS, Z i) { PRE; KNOTS(4); DV(x); vf_assume(i == 0); IN(T); vf_flag(FS); return etr::cmr(S, x, y); } \
  SPEC(cm_fi_##N, double, UNPAREN PARAMS, Z i) { return cub(T, X(LAST), X(0), X(1), X(2), Y(LAST), Y(0), Y(1), Y(2)); } \
  IMPL(cm_la_##N, double, UNPAREN PARAMS, Z i) { PRE; KNOTS(4); DV(x); vf_assume(i + 1 == LAST); IN(T); vf_flag(FS); return etr::cmr(S, x, y); } \
  SPEC(cm_la_##N, double, UNPAREN PARAMS, Z i) { return cub(T, X(LAST - 2), X(LAST - 1), X(LAST), X(0) + X(LAST), Y(LAST - 2), Y(LAST - 1), Y(LAST), Y(0)); } \
  IMPL(cm_lo_##N, double, UNPAREN PARAMS) { PRE; KNOTS(4); DV(x); vf_assume(T <= X(0)); vf_flag(FS); return etr::cmr(S, x, y); } \
  SPEC(cm_lo_##N, double, UNPAREN PARAMS) { return Y(0); }                       \
  IMPL(cm_hi_##N, double, UNPAREN PARAMS) { PRE; KNOTS(4); DV(x); vf_assume(T >= X(LAST)); vf_flag(FS); return etr::cmr(S, x, y); } \
  SPEC(cm_hi_##N, double, UNPAREN PARAMS) { return Y(LAST); }                    \
  IMPL(cm_kn_##N, double, UNPAREN PARAMS, Z i) { PRE; KNOTS(4); DV(x); vf_assume(i <= LAST); vf_assume(X(0) >= 0); vf_assume(T == X(i)); vf_flag(FS); return etr::cmr(S, x, y); } \
  SPEC(cm_kn_##N, double, UNPAREN PARAMS, Z i) { return Y(i); }
CU(d, (double s, VD &x, VD &y), (void)0, s, s, 0)
CU(i, (int s, VD &x, VD &y), (void)0, s, (double)s, 0)
CU(v, (VD & s, VD &x, VD &y), ne(s), s, s.d.p[0], 2)
CU(B, (double s, BD &x, BD &y), (void)0, s, s, 0)
#define CX(N, PARAMS, PRE, S, A, B, T, XX, YY)                                   \
  IMPL(cx_##N, double, UNPAREN PARAMS, Z i) { PRE; KNOTS(4); DV(x); vf_assume(i >= 1 && i + 2 <= LAST); vf_assume(XX(i) <= T && T < XX(i + 1)); vf_flag(2); return etr::cmr(S, A, B); } \
  SPEC(cx_##N, double, UNPAREN PARAMS, Z i) { return cub(T, XX(i - 1), XX(i), XX(i + 1), XX(i + 2), YY(i - 1), YY(i), YY(i + 1), YY(i + 2)); }
CX(y, (double s, VD &x, VD &y), (void)0, s, x, -y, s, X, YN)
CX(s, (VD & s, VD &x, VD &y), ne(s), s + 0.5, x, y, s.d.p[0] + 0.5, X, Y)
// ---- errors and warnings
#define ER(N, PARAMS, PRE, E)                                                    \
  IMPL(e_##N, double, UNPAREN PARAMS) { vf_flag(2 | 16); PRE; return etr::E; }        \
  SPEC(e_##N, double, UNPAREN PARAMS) { vf_throw(); }
ER(lit, (VD & s, VD &x, VD &y), wf(s); ne(x); ne(y); vf_assume(s.d.sz != 1), li(s, x, y))
ER(lis, (VD & s, VD &x, VD &y), ne(s); vf_assume(s.d.sz == 1); ne(x); ne(y); vf_assume(x.d.sz != y.d.sz), li(s, x, y))
ER(lie, (VD & s, VD &x, VD &y), ne(s); vf_assume(s.d.sz == 1); wf(x); wf(y); vf_assume(x.d.sz == 0 && y.d.sz == 0), li(s, x, y))
ER(cms, (double s, VD &x, VD &y), wf(x); wf(y); vf_assume(x.d.sz != y.d.sz), cmr(s, x, y))
ER(cm4, (double s, VD &x, VD &y), wf(x); wf(y); vf_assume(x.d.sz == y.d.sz && x.d.sz < 4), cmr(s, x, y))
ER(cmvs, (VD & s, VD &x, VD &y), ne(s); wf(x); wf(y); vf_assume(x.d.sz != y.d.sz), cmr(s, x, y))
ER(cmv4, (VD & s, VD &x, VD &y), ne(s); wf(x); wf(y); vf_assume(x.d.sz == y.d.sz && x.d.sz < 4), cmr(s, x, y))
ER(cme, (VD & s, VD &x, VD &y), wf(s); vf_assume(s.d.sz == 0); KNOTS(4), cmr(s, x, y))
IMPL(w_cm, double, VD &s, VD &x, VD &y) { ne(s); KNOTS(4); DV(x); vf_assume(s.d.p[0] < X(0)); return etr::cmr(s, x, y); }
SPEC(w_cm, double, VD &s, VD &x, VD &y) { vf_warn(s.d.sz <= 1); return Y(0); }
// operands are left alone
IMPL(un_li, double, VD &s, VD &x, VD &y, Z i) { ne(s); vf_assume(s.d.sz == 1); KNOTS(2); vf_assume(i < x.d.sz); volatile double q = etr::li(s, x, y); (void)q; vf_out_d(1, x.d.p[i]); vf_out_z(2, x.d.sz); return y.d.p[i]; }
SPEC(un_li, double, VD &s, VD &x, VD &y, Z i) { vf_out_d(1, x.d.p[i]); vf_out_z(2, x.d.sz); return y.d.p[i]; }
// ---- knots that begin below zero
IMPL(kneg, double, double s, VD &x, VD &y) { KNOTS(4); DV(x); vf_assume(X(0) + X(LAST) == X(LAST - 1)); vf_assume(s == X(LAST - 1)); return etr::cmr(s, x, y); }
SPEC(kneg, double, double s, VD &x, VD &y) { return Y(LAST - 1); }
IMPL(knegx, double, double s, VD &x, VD &y, Z i) { KNOTS(4); DV(x); vf_assume(X(0) + X(LAST) != X(LAST - 1)); vf_assume(i <= LAST); vf_assume(s == X(i)); return etr::cmr(s, x, y); }
SPEC(knegx, double, double s, VD &x, VD &y, Z i) { return Y(i); }
// many knots: the times 1, 2, ..., n
#define SQX(j) ((double)((j) + 1))
#define YF(j) FIN(Y((j) % n))
#define SQ(m) ne(y); Z n = y.d.sz; vf_assume(n >= m && n < (1 << 20)); vf_assume(i < n); vf_assume(YF(i + n - 1) && YF(i) && YF(i + 1) && YF(i + 2)); VD x = etr::colon(1, (int)n); vf_flag(4)
#define SQT vf_assume(i + 1 < n); vf_assume(f >= 0 && f < 1)
IMPL(li_sq, double, double f, VD &y, Z i) { SQ(2); SQT; VD s = (double)(i + 1) + f; return etr::li(s, x, y); }
SPEC(li_sq, double, double f, VD &y, Z i) { double t = (double)(i + 1) + f; return Y(i) + (Y(i + 1) - Y(i)) / (SQX(i + 1) - SQX(i)) * (t - SQX(i)); }
IMPL(cm_sq, double, double f, VD &y, Z i) { SQ(4); SQT; vf_assume(i >= 1 && i + 2 < n); return etr::cmr((double)(i + 1) + f, x, y); }
SPEC(cm_sq, double, double f, VD &y, Z i) { return cub((double)(i + 1) + f, SQX(i - 1), SQX(i), SQX(i + 1), SQX(i + 2), Y(i - 1), Y(i), Y(i + 1), Y(i + 2)); }
IMPL(cm_sqk, double, VD &y, Z i) { SQ(4); return etr::cmr((double)(i + 1), x, y); }
SPEC(cm_sqk, double, VD &y, Z i) { return Y(i); }
