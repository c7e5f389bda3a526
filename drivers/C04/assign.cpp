#include "vf.hpp"
#define UNPAREN(...) __VA_ARGS__
// After `STMT` the vector `r` has length LEN and element i is EL, both in terms of the
// values before the statement.
#define AS(N, PARAMS, PRE, STMT, LEN, EL)                                        \
  IMPL(N, double, UNPAREN PARAMS, Z i) {                                         \
    PRE; { Z n_ = LEN; vf_assume(i < n_); }                                        \
    STMT;                                                                        \
    vf_out_z(1, r.d.sz);                                                         \
    vf_out_z(2, r.size());                                                       \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(N, double, UNPAREN PARAMS, Z i) {                                         \
    Z n = LEN;                                                                   \
    vf_out_z(1, n);                                                              \
    vf_out_z(2, n);                                                              \
    return EL;                                                                   \
  }
#define WF2 wf(r); ne(a)
#define WF3 wf(r); ne(a); ne(b)
// ---- plain copies and conversions between element types
AS(dd, (VD & r, const VD &a), WF2, r = a, a.d.sz, a.d.p[i])
AS(di, (VD & r, const VI &a), WF2, r = a, a.d.sz, (double)a.d.p[i])
AS(db, (VD & r, const VB &a), WF2, r = a, a.d.sz, (double)a.d.p[i])
AS(id, (VI & r, const VD &a), WF2, r = a, a.d.sz, (int)a.d.p[i])
AS(ii, (VI & r, const VI &a), WF2, r = a, a.d.sz, a.d.p[i])
AS(ib, (VI & r, const VB &a), WF2, r = a, a.d.sz, (int)a.d.p[i])
AS(bd, (VB & r, const VD &a), WF2, r = a, a.d.sz, (bool)a.d.p[i])
AS(bi, (VB & r, const VI &a), WF2, r = a, a.d.sz, (bool)a.d.p[i])
AS(bb, (VB & r, const VB &a), WF2, r = a, a.d.sz, a.d.p[i])
AS(dB, (VD & r, const BD &a), WF2, r = a, a.d.sz, a.d.p[i])
AS(iB, (VI & r, const BD &a), WF2, r = a, a.d.sz, (int)a.d.p[i])
AS(self, (VD & r), ne(r), r = r, r.d.sz, r.d.p[i])
AS(selfI, (VI & r), ne(r), r = r, r.d.sz, r.d.p[i])
// ---- scalars
AS(sd, (VD & r, double s), wf(r), r = s, 1, s)
AS(si, (VD & r, int s), wf(r), r = s, 1, (double)s)
AS(sb, (VD & r, bool s), wf(r), r = s, 1, (double)s)
AS(isd, (VI & r, double s), wf(r), r = s, 1, (int)s)
AS(isi, (VI & r, int s), wf(r), r = s, 1, s)
AS(bsd, (VB & r, double s), wf(r), r = s, 1, (bool)s)
AS(bsb, (VB & r, bool s), wf(r), r = s, 1, s)
// ---- expressions; the target may occur on the right hand side
AS(add, (VD & r, const VD &a, const VD &b), WF3, r = a + b, len2(a, b), el(a, i) + el(b, i))
AS(mixed, (VD & r, const VI &a, const VD &b), WF3, r = a *b, len2(a, b), el(a, i) * el(b, i))
AS(toint, (VI & r, const VD &a, const VD &b), WF3, r = a - b, len2(a, b), (int)(el(a, i) - el(b, i)))
AS(scal, (VD & r, const VD &a, double s), WF2, r = a / s, a.d.sz, el(a, i) / s)
AS(scal2, (VD & r, const VD &a, double s), WF2, r = s / a, a.d.sz, s / el(a, i))
AS(cmp, (VB & r, const VD &a, const VD &b), WF3, r = a < b, len2(a, b), el(a, i) < el(b, i))
AS(cmpeq, (VB & r, const VD &a, const VI &b), WF3, r = a == b, len2(a, b), std::fabs(el(a, i) - el(b, i)) < 1E-3)
AS(un, (VD & r, const VD &a), WF2, r = -a, a.d.sz, -a.d.p[i])
AS(fn, (VD & r, const VD &a), WF2, r = etr::exp(a), a.d.sz, std::exp(a.d.p[i]))
AS(nest, (VD & r, const VD &a, const VD &b), WF3, r = etr::sinus(a *b) + a, len2(a, b), std::sin(el(a, i) * el(b, i)) + el(a, i))
#define SEL(k) ne(k); vf_assume(i < k.d.sz && k.d.p[i] >= 1 && (Z)k.d.p[i] <= r.d.sz); vf_flag(1)
AS(al_perm, (VD & r, VI &k), ne(r); SEL(k), r = etr::subset(r, k), k.d.sz, r.d.p[(Z)k.d.p[i] - 1])
AS(al_permi, (VI & r, VI &k), ne(r); SEL(k), r = etr::subset(r, k), k.d.sz, r.d.p[(Z)k.d.p[i] - 1])
AS(al_permd, (VB & r, VD &k), ne(r); SEL(k); vf_assume(k.d.p[i] < 1e6), r = etr::subset(r, k), k.d.sz, r.d.p[(Z)k.d.p[i] - 1])
AS(al_permx, (VD & r, VI &k, double s), ne(r); SEL(k), r = etr::subset(r, k) + s, k.d.sz, r.d.p[(Z)k.d.p[i] - 1] + s)
AS(al_perm2, (VD & r, VI &k, VI &l), ne(r); SEL(k); SEL(l); vf_assume(k.d.sz == l.d.sz), r = etr::subset(r, k) - etr::subset(r, l), k.d.sz, r.d.p[(Z)k.d.p[i] - 1] - r.d.p[(Z)l.d.p[i] - 1])
AS(al_permr, (VD & r, VI &k), ne(r); SEL(k); vf_assume(k.d.sz == r.d.sz), r = r * etr::subset(r, k), k.d.sz, r.d.p[i] * r.d.p[(Z)k.d.p[i] - 1])
AS(al_l, (VD & r, const VD &a), ne(r); ne(a), r = r + a, len2(r, a), el(r, i) + el(a, i))
AS(al_r, (VD & r, const VD &a), ne(r); ne(a), r = a - r, len2(a, r), el(a, i) - el(r, i))
AS(al_2, (VD & r), ne(r), r = r * r, r.d.sz, r.d.p[i] * r.d.p[i])
AS(al_u, (VD & r), ne(r), r = -r, r.d.sz, -r.d.p[i])
AS(al_f, (VD & r), ne(r), r = etr::cosinus(r), r.d.sz, std::cos(r.d.p[i]))
AS(al_s, (VD & r, double s), ne(r), r = r ^ s, r.d.sz, std::pow(r.d.p[i], s))
AS(al_n, (VD & r, const VD &a), ne(r); ne(a), r = (r + a) * r, len2(r, a), (el(r, i) + el(a, i)) * el(r, i))
AS(al_i, (VI & r, const VI &a), ne(r); ne(a), r = r + a, len2(r, a), el(r, i) + el(a, i))
AS(al_id, (VI & r, const VD &a), ne(r); ne(a), r = r * a, len2(r, a), (int)(el(r, i) * el(a, i)))
AS(al_c, (VB & r, const VB &a), ne(r); ne(a), r = r == a, len2(r, a), std::fabs((double)(el(r, i) - el(a, i))) < 1E-3)
AS(al_cd, (VD & r, const VD &a), ne(r); ne(a), r = r > a, len2(r, a), el(r, i) > el(a, i))
AS(B_add, (VD & r, const BD &a, const VD &b), WF3, r = a + b, len2(a, b), el(a, i) + el(b, i))
// ---- sequences
AS(seq, (VD & r, const VD &a, const VD &b), WF3, r = a; r = r + b, len2(a, b), el(a, i) + el(b, i))
AS(seq2, (VD & r, const VD &a, double s), WF2, r = s; r = r * a, a.d.sz, s *el(a, i))
AS(chain, (VD & r, VD &t, const VD &a), wf(t); WF2, r = t = a, a.d.sz, a.d.p[i])
AS(chain2, (VD & r, VI &t, const VD &a), wf(t); WF2, r = t = a, a.d.sz, (double)(int)a.d.p[i])
// ---- construction
#define CT(N, TR, PARAMS, PRE, STMT, LEN, EL)                                    \
  IMPL(N, double, UNPAREN PARAMS, Z i) {                                         \
    PRE; { Z n_ = LEN; vf_assume(i < n_); }                                        \
    STMT;                                                                        \
    static_assert(std::is_same_v<std::remove_cvref_t<decltype(r)>, TR>);         \
    vf_out_z(1, r.d.sz);                                                         \
    vf_out_z(2, r.size());                                                       \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(N, double, UNPAREN PARAMS, Z i) {                                         \
    Z n = LEN;                                                                   \
    vf_out_z(1, n);                                                              \
    vf_out_z(2, n);                                                              \
    return EL;                                                                   \
  }
CT(c_copy, VD, (const VD &a), ne(a), VD r = a, a.d.sz, a.d.p[i])
CT(c_copyI, VI, (const VI &a), ne(a), VI r = a, a.d.sz, a.d.p[i])
CT(c_copyB, VB, (const VB &a), ne(a), VB r = a, a.d.sz, a.d.p[i])
CT(c_move, VD, (VD & a), ne(a), VD r = std::move(a), a.d.sz, a.d.p[i])
CT(c_add, VD, (const VD &a, const VD &b), ne(a); ne(b), VD r = a + b, len2(a, b), el(a, i) + el(b, i))
CT(c_addI, VI, (const VI &a, const VI &b), ne(a); ne(b), VI r = a + b, len2(a, b), el(a, i) + el(b, i))
CT(c_mix, VD, (const VI &a, const VD &b), ne(a); ne(b), VD r = a *b, len2(a, b), el(a, i) * el(b, i))
CT(c_cmp, VB, (const VD &a, const VD &b), ne(a); ne(b), VB r = a <= b, len2(a, b), el(a, i) <= el(b, i))
CT(c_sd, VD, (double s), (void)0, VD r = s, 1, s)
CT(c_si, VD, (int s), (void)0, VD r(s), 1, s)
CT(c_isd, VI, (double s), (void)0, VI r = s, 1, (int)s)
CT(c_isi, VI, (int s), (void)0, VI r(s), 1, s)
CT(c_bsb, VB, (bool s), (void)0, VB r = s, 1, s)
CT(c_coca, VD, (double s, double t, int u), (void)0, VD r = etr::coca(s, t, u), 3, i == 0 ? s : i == 1 ? t : (double)u)
CT(c_cocaI, VI, (int s, int t), (void)0, VI r = etr::coca(s, t), 2, i == 0 ? s : t)
CT(c_cocaX, VI, (double s, double t), (void)0, VI r = etr::coca(s, t), 2, (int)(i == 0 ? s : t))
// ---- a copy is independent of its source, in both directions
#define IND(N, PARAMS, PRE, STMT, LOOK)                                          \
  IMPL(N, double, UNPAREN PARAMS, double x, Z j, Z i) {                          \
    PRE; STMT; return LOOK.d.p[i];                                               \
  }                                                                              \
  SPEC(N, double, UNPAREN PARAMS, double x, Z j, Z i) { return LOOK.d.p[i]; }
IND(ind_as, (VD & r, VD &a), wf(r); ne(a); vf_assume(i < a.d.sz && j < a.d.sz), r = a; r[j] = x, a)
IND(ind_ct, (VD & a), ne(a); vf_assume(i < a.d.sz && j < a.d.sz), VD r = a; r[j] = x, a)
IND(ind_sc, (VD & r, VD &a), wf(r); ne(a); vf_assume(i < a.d.sz && j < a.d.sz), r = a; r = x, a)
IND(ind_ex, (VD & r, VD &a), wf(r); ne(a); vf_assume(i < a.d.sz && j < a.d.sz), r = a + 0.5; r[j] = x, a)
IND(ind_id, (VI & r, VD &a), wf(r); ne(a); vf_assume(i < a.d.sz && j < a.d.sz), r = a; r[j] = (int)x, a)
#define IND2(N, PARAMS, PRE, STMT, LOOK)                                         \
  IMPL(N, double, UNPAREN PARAMS, double x, Z j, Z i) {                          \
    PRE; STMT; vf_out_z(1, r.d.sz); return r.d.p[i];                             \
  }                                                                              \
  SPEC(N, double, UNPAREN PARAMS, double x, Z j, Z i) { vf_out_z(1, a.d.sz); return a.d.p[i]; }
IND2(ind2_as, (VD & r, VD &a), wf(r); ne(a); vf_assume(i < a.d.sz && j < a.d.sz), r = a; a[j] = x, r)
IND2(ind2_ct, (VD & a), ne(a); vf_assume(i < a.d.sz && j < a.d.sz), VD r = a; a[j] = x, r)
IND2(ind2_sc, (VD & r, VD &a), wf(r); ne(a); vf_assume(i < a.d.sz && j < a.d.sz), r = a; a = x, r)
IND2(ind2_b, (VD & r, VD &a, const VD &b), wf(r); ne(a); ne(b); vf_assume(i < a.d.sz && j < a.d.sz), r = a; a = b, r)
// the other operands of an assignment keep their contents
IND(keep_r, (VD & r, const VD &b, VD &a), wf(r); ne(a); ne(b); vf_assume(i < a.d.sz), r = b / a, a)
IND(keep_l, (VD & r, const VD &b, VD &a), wf(r); ne(a); ne(b); vf_assume(i < a.d.sz), r = a < b, a)
// exchange of two vectors through a third
IMPL(xchg, double, VD &a, VD &b, Z i, Z j) {
  ne(a); ne(b); vf_assume(i < b.d.sz && j < a.d.sz);
  VD t = a; a = b; b = t;
  vf_out_z(1, a.d.sz); vf_out_z(2, b.d.sz); vf_out_d(3, b.d.p[j]);
  return a.d.p[i];
}
SPEC(xchg, double, VD &a, VD &b, Z i, Z j) {
  vf_out_z(1, b.d.sz); vf_out_z(2, a.d.sz); vf_out_d(3, a.d.p[j]);
  return b.d.p[i];
}
