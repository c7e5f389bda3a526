#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
#define SAME(b) wfm(b); vf_assume(b.d.mp.rows == NR && b.d.mp.cols == NC)
#define FITS(v) ne(v); vf_assume(!v.d.mp.ismatrix && v.d.sz <= NR * NC)
#define OUTM(r) vf_out_b(1, r.im()); vf_out_z(2, r.nr()); vf_out_z(3, r.nc()); vf_out_z(4, r.size())
#define SHAPE vf_out_b(1, true); vf_out_z(2, NR); vf_out_z(3, NC); vf_out_z(4, NR * NC)
#define FLAT(n) vf_out_b(1, false); vf_out_z(4, n)
#define OUTF(r) vf_out_b(1, r.im()); vf_out_z(4, r.size())
// EXPR has the shape of the matrix a and element EL at (x, y); the same after it has been stored in a
// variable of any previous state, after construction of a new one, and for dim()
#define SH0(N, A, T, PARAMS, PRE, EXPR, EL)                                      \
  IMPL(st_##N, double, T &r, A &a, UNPAREN PARAMS, Z x, Z y) {                   \
    wf(r); wfm(a); PRE; vf_assume(x < NR && y < NC);                             \
    r = EXPR;                                                                    \
    OUTM(r);                                                                     \
    return (double)r.d.p[y * NR + x];                                            \
  }                                                                              \
  SPEC(st_##N, double, T &r, A &a, UNPAREN PARAMS, Z x, Z y) { Z i = y * NR + x; (void)i; SHAPE; return (double)(T::Type)(EL); } \
  IMPL(dim_##N, int, A &a, UNPAREN PARAMS, Z i) {                                \
    wfm(a); PRE; vf_assume(i < 2);                                               \
    VI q; q = etr::dim(EXPR);                                                    \
    OUTF(q);                                                                     \
    return q.d.p[i];                                                             \
  }                                                                              \
  SPEC(dim_##N, int, A &a, UNPAREN PARAMS, Z i) { FLAT(2); return (int)(i == 0 ? NR : NC); }
#define SH(N, PARAMS, PRE, EXPR, EL) SH0(N, VD, VD, PARAMS, PRE, EXPR, EL)      \
  IMPL(ex_##N, Z, VD &a, UNPAREN PARAMS) { wfm(a); PRE; const auto &x = EXPR; OUTM(x); return 0; } \
  SPEC(ex_##N, Z, VD &a, UNPAREN PARAMS) { SHAPE; return 0; }
SH(mm, (VD & b), SAME(b), a + b, a.d.p[i] + b.d.p[i])
SH(mi, (VI & b), SAME(b), a * b, a.d.p[i] * b.d.p[i])
SH(mb, (VB & b), SAME(b), b - a, b.d.p[i] - a.d.p[i])
SH(mB, (BD & b), SAME(b), a / b, a.d.p[i] / b.d.p[i])
SH(ms, (double s), (void)0, a * s, a.d.p[i] * s)
SH(sm, (double s), (void)0, s - a, s - a.d.p[i])
SH(ps, (double s), (void)0, a ^ s, std::pow(a.d.p[i], s))
SH(mv, (VD & v), FITS(v), a + v, a.d.p[i] + el(v, i))
SH(vm, (VD & v), FITS(v), v / a, el(v, i) / a.d.p[i])
SH(vim, (VI & v), FITS(v), v * a, el(v, i) * a.d.p[i])
SH(mvB, (BD & v), FITS(v), a - v, a.d.p[i] - el(v, i))
SH(neg, (int u), (void)u, -a, -a.d.p[i])
SH(fn, (int u), (void)u, etr::exp(a), std::exp(a.d.p[i]))
SH(sq, (int u), (void)u, etr::sqroot(a), std::sqrt(a.d.p[i]))
SH(nest, (VD & b, double s), SAME(b), (a - b) * s, (a.d.p[i] - b.d.p[i]) * s)
SH(nestu, (VD & v), FITS(v), -(v + a), -(el(v, i) + a.d.p[i]))
SH(nestf, (VD & b), SAME(b), etr::sinus(a) + b, std::sin(a.d.p[i]) + b.d.p[i])
SH(eq, (VD & b), SAME(b), a == b, std::fabs(a.d.p[i] - b.d.p[i]) < 1e-3)
SH(lt, (double s), (void)0, a < s, a.d.p[i] < s)
SH(gev, (VD & v), FITS(v), v >= a, el(v, i) >= a.d.p[i])
SH0(cp, VD, VD, (int u), (void)u, a, a.d.p[i])
SH0(cpi, VI, VD, (int u), (void)u, a, a.d.p[i])
SH0(cpb, VB, VI, (int u), (void)u, a, a.d.p[i])
SH0(cpd, VD, VI, (int u), (void)u, a, a.d.p[i])
SH0(cpB, BD, VD, (int u), (void)u, a, a.d.p[i])
SH0(Bs, BD, VD, (double s), (void)0, a + s, a.d.p[i] + s)
SH0(ii, VI, VI, (VI & b), SAME(b), a + b, a.d.p[i] + b.d.p[i])
SH0(ine, VI, VB, (int s), (void)0, a > s, a.d.p[i] > s)
SH0(all, VD, VD, (int u), (void)u, etr::subset(a, true, true), a.d.p[i])
// the target keeps its own shape where it is assigned from itself
SH0(self2, VD, VD, (double s), (void)0, (a = a * s, a), a.d.p[i] * s)
// ---- construction
#define CT(N, A, T, PARAMS, PRE, EXPR, EL)                                       \
  IMPL(ct_##N, double, A &a, UNPAREN PARAMS, Z i) {                              \
    wfm(a); PRE; vf_assume(i < NR * NC);                                         \
    T r = EXPR;                                                                  \
    OUTM(r);                                                                     \
    return (double)r.d.p[i];                                                     \
  }                                                                              \
  SPEC(ct_##N, double, A &a, UNPAREN PARAMS, Z i) { SHAPE; return (double)(T::Type)(EL); }
CT(cp, VD, VD, (int u), (void)u, a, a.d.p[i])
CT(cpi, VI, VI, (int u), (void)u, a, a.d.p[i])
CT(cpB, BD, BD, (int u), (void)u, a, a.d.p[i])
CT(id, VI, VD, (int u), (void)u, VD(std::move(a)), a.d.p[i])
CT(bd, VB, VI, (int u), (void)u, VI(std::move(a)), a.d.p[i])
CT(mv, VD, VD, (int u), (void)u, VD(std::move(a)), a.d.p[i])
// ---- the shape of what is no matrix
#define FL(N, T, PARAMS, PRE, STMT, LEN)                                         \
  IMPL(fl_##N, int, T &r, UNPAREN PARAMS) { wf(r); PRE; STMT; OUTF(r); return 0; }     \
  SPEC(fl_##N, int, T &r, UNPAREN PARAMS) { FLAT(LEN); return 0; }
#define NOM(v) ne(v); vf_assume(!v.d.mp.ismatrix)
FL(v, VD, (VD & a), NOM(a), r = a, a.d.sz)
FL(vi, VD, (VI & a), NOM(a), r = a, a.d.sz)
FL(vB, VD, (BD & a), NOM(a), r = a, a.d.sz)
FL(vv, VD, (VD & a, VD &b), NOM(a); NOM(b), r = a + b, len2(a, b))
FL(vs, VD, (VD & a, double s), NOM(a), r = a * s, a.d.sz)
FL(neg, VD, (VD & a), NOM(a), r = -a, a.d.sz)
FL(cmp, VB, (VD & a, VD &b), NOM(a); NOM(b), r = a < b, len2(a, b))
FL(s, VD, (double s), (void)0, r = s, 1)
FL(si, VI, (double s), (void)0, r = s, 1)
FL(sb, VB, (bool s), (void)0, r = s, 1)
FL(coca, VD, (double s, double t), (void)0, r = etr::coca(s, t), 2)
FL(cocam, VD, (VD & a, VD &b), wfm(a); wfm(b), r = etr::coca(a, b), a.d.mp.rows * a.d.mp.cols + b.d.mp.rows * b.d.mp.cols)
FL(sub, VD, (VD & a, VI &k), vf_flag(1); wfm(a); ne(k), r = etr::subset(a, k), k.d.sz)
FL(sub1, VD, (VD & a, int k), vf_flag(1); wfm(a), r = etr::subset(a, k), 1)
FL(suball, VD, (VD & a), wfm(a), r = etr::subset(a, true), a.d.mp.rows * a.d.mp.cols)
FL(colon, VI, (int n), vf_assume(n > 0 && n < (1 << 20)), r = etr::colon(1, n), (Z)n)
FL(rep, VD, (VD & a), wfm(a); vf_assume(a.d.sz < (1 << 20)), r = etr::rep(a, 2), a.d.mp.rows * a.d.mp.cols * 2)
FL(vec, VD, (int n), vf_assume(n > 0 && n < (1 << 20)), r = etr::vector_numeric(n), (Z)n)
FL(isna, VB, (VD & a), NOM(a), r = etr::isNA(a), a.d.sz)
#define NODIM(N, PARAMS, PRE, EXPR)                                              \
  IMPL(nd_##N, void, UNPAREN PARAMS) { vf_flag(16); PRE; VI q; q = etr::dim(EXPR); }          \
  SPEC(nd_##N, void, UNPAREN PARAMS) { vf_throw(); }
NODIM(v, (VD & a), wf(a); vf_assume(!a.d.mp.ismatrix), a)
NODIM(vi, (VI & a), wf(a); vf_assume(!a.d.mp.ismatrix), a)
NODIM(B, (BD & a), wf(a); vf_assume(!a.d.mp.ismatrix), a)
NODIM(vv, (VD & a, VD &b), NOM(a); NOM(b), a + b)
NODIM(neg, (VD & a), NOM(a), -a)
NODIM(sub, (VD & a, VI &k), wfm(a); ne(k); { Z n = a.d.sz; (void)n; }, etr::subset(a, k))
NODIM(rv, (double s, double t), (void)0, etr::coca(s, t))
// ---- writing into a matrix keeps its shape
#define KEEP(N, PARAMS, PRE, STMT)                                               \
  IMPL(k_##N, int, VD &a, UNPAREN PARAMS) { vf_flag(1); wfm(a); PRE; STMT; OUTM(a); return 0; } \
  SPEC(k_##N, int, VD &a, UNPAREN PARAMS) { SHAPE; return 0; }
KEEP(fill, (double s), (void)0, a.fill(s))
KEEP(at, (int k, int l, double s), (void)0, etr::at(a, k, l) = s)
KEEP(br, (Z k, double s), (void)0, a[k] = s)
KEEP(sub, (VI & k, VD &b), ne(k); ne(b), etr::subset(a, k) = b)
KEEP(subs, (VI & k, double s), ne(k), etr::subset(a, k) = s)
KEEP(subm, (VI & k, VI &l, VD &b), ne(k); ne(l); ne(b), etr::subset(a, k, l) = b)
KEEP(subt, (VD & b), ne(b), etr::subset(a, true) = b)
KEEP(read, (VD & b), ne(b), b = a + b)
KEEP(readc, (VD & b), wf(b), b = a; b = 1.0)
KEEP(readk, (VI & k, VD &b), ne(k); wf(b), b = etr::subset(a, k, true))
// ---- constructors with a shape
IMPL(c_rc, double, Z r, Z c, Z i) { vf_assume(r > 0 && c > 0 && r < (1 << 20) && c < (1 << 20) && i < r * c); VD a(r, c); OUTM(a); return a.d.p[i]; }
SPEC(c_rc, double, Z r, Z c, Z i) { vf_out_b(1, true); vf_out_z(2, r); vf_out_z(3, c); vf_out_z(4, r * c); return 0; }
IMPL(c_rcv, double, Z r, Z c, double x, Z i) { vf_assume(r > 0 && c > 0 && r < (1 << 20) && c < (1 << 20) && i < r * c); VD a(r, c, x); OUTM(a); return a.d.p[i]; }
SPEC(c_rcv, double, Z r, Z c, double x, Z i) { vf_out_b(1, true); vf_out_z(2, r); vf_out_z(3, c); vf_out_z(4, r * c); return x; }
IMPL(c_rci, int, Z r, Z c, double x, Z i) { vf_assume(r > 0 && c > 0 && r < (1 << 20) && c < (1 << 20) && i < r * c && x > -1e6 && x < 1e6); VI a(r, c, x); OUTM(a); return a.d.p[i]; }
SPEC(c_rci, int, Z r, Z c, double x, Z i) { vf_out_b(1, true); vf_out_z(2, r); vf_out_z(3, c); vf_out_z(4, r * c); return (int)x; }
IMPL(c_ptr, double, double *q, Z r, Z c, Z i) {
  vf_assume(r > 0 && c > 0 && r < (1 << 20) && c < (1 << 20) && i < r * c);
  vf_buffer(q, r * c * 8); vf_owned(q, false); VD a(q, r, c); OUTM(a); return a.d.p[i];
}
SPEC(c_ptr, double, double *q, Z r, Z c, Z i) { vf_out_b(1, true); vf_out_z(2, r); vf_out_z(3, c); vf_out_z(4, r * c); return q[i]; }
IMPL(c_zero, void, Z r, Z c) { vf_flag(16); vf_assume(r < (1 << 20) && c < (1 << 20) && (r == 0 || c == 0)); VD a(r, c); }
SPEC(c_zero, void, Z r, Z c) { vf_throw(); }
