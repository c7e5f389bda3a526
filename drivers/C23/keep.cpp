#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// An operation that ends in an error leaves the objects it was given as they were: the location at
// which the error is raised finds the watched fields and element as they were when the call began.
template <class B> inline void wat(const B &d) {
  vf_watch_p(&d.p); vf_watch_z(&d.sz); vf_watch_z(&d.capacity); vf_watch_b(&d.allocated);
  vf_watch_b(&d.mp.ismatrix); vf_watch_z(&d.mp.rows); vf_watch_z(&d.mp.cols);
}
inline void wel(const double *p) { vf_watch_d(p); }
inline void wel(const int *p) { vf_watch_i(p); }
inline void wel(const bool *p) { vf_watch_b(p); }
// all fields and element h (any position) of the vector a
#define W(a, h) wat(a.d); vf_watch_live(&a.temp.p); vf_assume(h < a.d.sz); wel(&a.d.p[h])
#define KEEP(N, PARAMS, PRE, WATCH, ...)                                         \
  IMPL(k_##N, Z, UNPAREN PARAMS, Z h, Z g) { vf_flag(1 | 2 | 4 | 16); PRE; WATCH; __VA_ARGS__; return 0; } \
  SPEC(k_##N, Z, UNPAREN PARAMS, Z h, Z g) { PRE; return 0; }
// ---- the target of an assignment whose right side fails
#define TGT(N, PARAMS, PRE, X)                                                   \
  KEEP(d_##N, (VD &r, UNPAREN PARAMS), ne(r); PRE, W(r, h), r = X)                     \
  KEEP(i_##N, (VI &r, UNPAREN PARAMS), ne(r); PRE, W(r, h), r = X)                     \
  KEEP(b_##N, (VB &r, UNPAREN PARAMS), ne(r); PRE, W(r, h), r = X)                     \
  KEEP(w_##N, (BD &r, UNPAREN PARAMS), ne(r); PRE, W(r, h), r = X)
TGT(add, (VD &a, VD &b), wf(a); wf(b), a + b)
TGT(mul, (VI &a, VD &b), wf(a); wf(b), a * b)
TGT(cmp, (VD &a, VD &b), wf(a); wf(b), a <= b)
TGT(neg, (VD &a), wf(a), -a)
TGT(fn, (VD &a), wf(a), etr::exp(a))
TGT(nest, (VD &a, VD &b, VD &c), wf(a); wf(b); wf(c), (a + b) * etr::sinus(c))
TGT(scal, (VD &a, double s), wf(a), a / s)
TGT(isna, (VD &a), wf(a), etr::isNA(a))
TGT(vec, (VD &a), wf(a), a)
TGT(veci, (VI &a), wf(a), a)
TGT(vecb, (VB &a), wf(a), a)
TGT(bor, (BD &a), wf(a), a)
TGT(subi, (VD &a, int k), wf(a), etr::subset(a, k))
TGT(subd, (VD &a, double k), wf(a), etr::subset(a, k))
TGT(subvi, (VD &a, VI &k), wf(a); wf(k), etr::subset(a, k))
TGT(subvd, (VD &a, VD &k), wf(a); wf(k), etr::subset(a, k))
TGT(subvb, (VD &a, VB &k), wf(a); wf(k), etr::subset(a, k))
TGT(subx, (VD &a, VI &k, double s), wf(a); wf(k), etr::subset(a, k) + s)
TGT(mii, (VD &a, int k, int l), wf(a), etr::subset(a, k, l))
TGT(mvi, (VD &a, VI &k, int l), wf(a); wf(k), etr::subset(a, k, l))
TGT(mti, (VD &a, int l), wf(a), etr::subset(a, true, l))
TGT(mvv, (VD &a, VI &k, VD &l), wf(a); wf(k); wf(l), etr::subset(a, k, l))
TGT(mbb, (VD &a, VB &k, VB &l), wf(a); wf(k); wf(l), etr::subset(a, k, l))
TGT(mbt, (VD &a, VB &k), wf(a); wf(k), etr::subset(a, k, true))
TGT(mx, (VD &a, int k, int l, double s), wf(a), s - etr::subset(a, k, l))
TGT(rep, (VD &a, int n), wf(a), etr::rep(a, n))
TGT(repd, (double s, double n), (void)0, etr::rep(s, n))
TGT(numi, (int n), (void)0, etr::vector_numeric(n))
TGT(numd, (double n), (void)0, etr::vector_numeric(n))
TGT(numv, (VI &n), wf(n), etr::vector_numeric(n))
TGT(lgli, (int n), (void)0, etr::vector_logical(n))
TGT(inti, (int n), (void)0, etr::vector_integer(n))
TGT(mat, (VD &a, int n, int m), wf(a), etr::matrix(std::move(a), std::move(n), std::move(m)))
TGT(mats, (double a, int n, int m), (void)0, etr::matrix(std::move(a), std::move(n), std::move(m)))
TGT(colv, (VI &a, VI &b), wf(a); wf(b), etr::colon(a, b))
TGT(coc, (VD &a, VD &b), wf(a); wf(b), etr::coca(a, b))
TGT(dim, (VD &a), wf(a), etr::dim(a))
TGT(li, (VD &x, VD &t, VD &p), wf(x); wf(t); wf(p), etr::li(x, t, p))
TGT(cmr, (VD &x, VD &t, VD &p), wf(x); wf(t); wf(p), etr::cmr(x, t, p))
// ---- the target is also read
KEEP(s_add, (VD &r, VD &a), ne(r); wf(a), W(r, h), r = r + a)
KEEP(s_sub, (VD &r, VI &k), ne(r); wf(k), W(r, h), r = etr::subset(r, k))
KEEP(s_subb, (VD &r, VB &k), ne(r); wf(k), W(r, h), r = etr::subset(r, k))
KEEP(s_suba, (VD &r, VI &k), ne(r); wf(k), W(r, h), r = r + etr::subset(r, k))
KEEP(s_m, (VD &r, int k, VI &l), ne(r); wf(l), W(r, h), r = etr::subset(r, k, l))
KEEP(s_rep, (VD &r, int k), ne(r), W(r, h), r = etr::rep(r, k))
KEEP(s_mat, (VD &r, int k, int l), ne(r), W(r, h), r = etr::matrix(r * 1.0, std::move(k), std::move(l)))
KEEP(s_bsub, (BD &r, VI &k), ne(r); wf(k), W(r, h), r = etr::subset(r, k))
KEEP(s_badd, (BD &r, VD &a), ne(r); wf(a), W(r, h), r = r + a)
// ---- writes through a subset: a single position, one position per dimension, and sizes which differ
KEEP(p_i, (VD &a, int k, double b), wf(a), W(a, h), etr::subset(a, k) = b)
KEEP(p_d, (VD &a, double k, double b), wf(a), W(a, h), etr::subset(a, k) = b)
KEEP(p_ii, (VI &a, int k, double b), wf(a), W(a, h), etr::subset(a, k) = b)
KEEP(p_m, (VD &a, int k, int l, double b), wf(a), W(a, h), etr::subset(a, k, l) = b)
KEEP(p_md, (VD &a, double k, double l, double b), wf(a), W(a, h), etr::subset(a, k, l) = b)
KEEP(p_bw, (BD &a, int k, double b), wf(a), W(a, h), etr::subset(a, k) = b)
KEEP(p_mt, (VD &a, int l, double b), wfm(a), W(a, h), etr::subset(a, true, l) = b)
KEEP(p_tm, (VD &a, int l, double b), wfm(a), W(a, h), etr::subset(a, l, true) = b)
#define INR for (Z i = 0; i < k.d.sz; i++) vf_assume(k.d.p[i] >= 1 && (Z)k.d.p[i] <= a.d.sz)
KEEP(z_vi, (VD &a, VI &k, VD &b), ne(a); ne(k); wf(b); INR, W(a, h), etr::subset(a, k) = b)
KEEP(z_vd, (VI &a, VD &k, VD &b), ne(a); ne(k); wf(b); INR, W(a, h), etr::subset(a, k) = b)
KEEP(z_vb, (VD &a, VB &k, VD &b), ne(a); ne(k); wf(b), W(a, h), etr::subset(a, k) = b)
KEEP(z_t, (VD &a, VD &b), ne(a); wf(b), W(a, h), etr::subset(a, true) = b)
KEEP(z_x, (VD &a, VI &k, VD &b, VD &c), ne(a); ne(k); wf(b); wf(c); INR, W(a, h), etr::subset(a, k) = b + c)
KEEP(z_s, (VD &a, VI &k, VD &b, VI &l), ne(a); ne(k); wf(b); wf(l); INR, W(a, h), etr::subset(a, k) = etr::subset(b, l))
KEEP(z_ss, (VD &a, VI &k, VI &l), ne(a); ne(k); wf(l); INR, W(a, h), etr::subset(a, k) = etr::subset(a, l))
KEEP(z_i, (VD &a, int k, VD &b), ne(a); wf(b), W(a, h), etr::subset(a, k) = b)
KEEP(z_mm, (VD &a, int k, int l, VD &b), ne(a); wf(b), W(a, h), etr::subset(a, k, l) = b)
KEEP(z_mt, (VD &a, int l, VD &b), wfm(a); wf(b), W(a, h), etr::subset(a, true, l) = b)
KEEP(z_tt, (VD &a, VD &b), wfm(a); wf(b), W(a, h), etr::subset(a, true, true) = b)
KEEP(z_bb, (VD &a, VB &k, VB &l, VD &b), wfm(a); wf(k); wf(l); wf(b), W(a, h), etr::subset(a, k, l) = b)
KEEP(z_bw, (BD &a, VI &k, VD &b), ne(a); ne(k); wf(b); INR, W(a, h), etr::subset(a, k) = b)
// ---- at
KEEP(at_i, (VD &a, int k, double x), wf(a), W(a, h), etr::at(a, k) = x)
KEEP(at_d, (VD &a, double k, double x), wf(a), W(a, h), etr::at(a, k) = x)
KEEP(at_vi, (VI &a, int k, int x), wf(a), W(a, h), etr::at(a, k) = x)
KEEP(at_vb, (VB &a, int k, bool x), wf(a), W(a, h), etr::at(a, k) = x)
KEEP(at_ii, (VD &a, int k, int l, double x), wf(a), W(a, h), etr::at(a, k, l) = x)
KEEP(at_dd, (VD &a, double k, double l, double x), wf(a), W(a, h), etr::at(a, k, l) = x)
KEEP(at_id, (VI &a, int k, double l, int x), wf(a), W(a, h), etr::at(a, k, l) = x)
KEEP(at_b, (BD &a, int k, double x), wf(a), W(a, h), etr::at(a, k) = x)
KEEP(br, (VD &a, Z k, double x), wf(a), W(a, h), a[k] = x)
KEEP(back, (VD &a, double x), wf(a), W(a, h), a.back() = x)
// ---- operands of an operation that fails
#define OPER(N, PARAMS, PRE, WATCH, X)                                           \
  KEEP(o_##N, (VD &r, UNPAREN PARAMS), wf(r); PRE, WATCH, r = X)
OPER(add, (VD &a, VD &b), ne(a); wf(b), W(a, h), a + b)
OPER(addm, (VI &a, VD &b), wf(a); ne(b), W(b, h), a - b)
OPER(fn, (VD &a, VD &b), ne(a); wf(b), W(a, h), etr::exp(a) * b)
OPER(sub, (VD &a, VI &k), ne(a); ne(k), W(a, h); W(k, g), etr::subset(a, k))
OPER(subd, (VD &a, VD &k), ne(a); ne(k), W(a, h); W(k, g), etr::subset(a, k))
OPER(subb, (VD &a, VB &k), ne(a); ne(k), W(a, h); W(k, g), etr::subset(a, k))
OPER(mat, (VD &a, VI &k, VI &l), ne(a); ne(k); ne(l), W(a, h); W(k, g), etr::subset(a, k, l))
OPER(matb, (VD &a, VB &k, int l), ne(a); ne(k), W(a, h); W(k, g), etr::subset(a, k, l))
OPER(rep, (VD &a, VI &k), ne(a); wf(k), W(a, h), etr::rep(a, k))
OPER(matrix, (VD &a, VI &k, VI &l), ne(a); wf(k); wf(l), W(a, h), etr::matrix(std::move(a), std::move(k), std::move(l)))
OPER(coca, (VD &a, VD &b), ne(a); wf(b), W(a, h), etr::coca(a, b))
OPER(dim, (VD &a), ne(a), W(a, h), etr::dim(a))
OPER(li, (VD &x, VD &t, VD &p), ne(x); ne(t); wf(p), W(x, h); W(t, g), etr::li(x, t, p))
OPER(cmr, (VD &x, VD &t, VD &p), ne(x); ne(t); wf(p), W(x, h); W(t, g), etr::cmr(x, t, p))
// ---- storage
KEEP(st_resize, (VD &a, Z n), wf(a), W(a, h), a.d.resize(n))
KEEP(st_vresize, (VD &a, Z n), wf(a), W(a, h), a.resize(n))
KEEP(st_fill, (VD &a, VD &b), wf(a); wf(b), W(a, h), a.d.fill(b.d))
KEEP(st_bresize, (BD &a, Z n), wf(a), W(a, h), a.d.resize(n))
KEEP(st_bfill, (BD &a, VD &b), wf(a); wf(b), W(a, h), a.d.fill(b.d))
KEEP(st_bs, (BD &a, double s), wf(a), W(a, h), a = s)
// ---- constants and variables of an AllVars object
using AV = etr::AllVars<2, 1, 0, 2>;
#define AVW wf(av.varConstants[0]); wf(av.varConstants[1]); ne(av.varBuffer[0]); wf(av.varBuffer[1])
#define AVC(N, PARAMS, PRE, X)                                                   \
  KEEP(c_##N, (AV &av, UNPAREN PARAMS), AVW; PRE, W(av.varConstants[1], h); W(av.varBuffer[0], g), X) \
  KEEP(c0_##N, (AV &av, UNPAREN PARAMS), AVW; PRE, W(av.varConstants[0], h), X)
AVC(num, (int n), (void)0, (etr::vector_numeric<1>(av, n)))
AVC(numd, (double n), (void)0, (etr::vector_numeric<1>(av, n)))
AVC(numv, (VI &n), wf(n), (etr::vector_numeric<1>(av, n)))
AVC(int, (int n), (void)0, (etr::vector_integer<1>(av, n)))
AVC(lgl, (int n), (void)0, (etr::vector_logical<1>(av, n)))
AVC(coca, (VD &a, VD &b), wf(a); wf(b), (etr::coca<1>(av, a, b)))
AVC(colon, (VI &a, VI &b), wf(a); wf(b), (etr::colon<1>(av, a, b)))
// ---- targets that may still be without memory: all fields, no element
#define WF(a) wat(a.d); vf_watch_live(&a.temp.p)
KEEP(u_resize, (VD &a, Z n), wf(a), WF(a), a.d.resize(n))
KEEP(u_resizei, (VI &a, Z n), wf(a), WF(a), a.d.resize(n))
KEEP(u_resizeb, (VB &a, Z n), wf(a), WF(a), a.resize(n))
KEEP(u_push, (VD &a, double x), wf(a), WF(a), a.d.push_back(x))
KEEP(u_realloc, (VD &a, Z n), wf(a), WF(a), a.d.realloc(n))
KEEP(u_s, (VD &a, double x), wf(a), WF(a), a = x)
KEEP(u_si, (VI &a, double x), wf(a), WF(a), a = x)
KEEP(u_v, (VD &r, VD &a), wf(r); wf(a), WF(r), r = a)
KEEP(u_vi, (VI &r, VD &a), wf(r); wf(a), WF(r), r = a)
KEEP(u_add, (VD &r, VD &a, VD &b), wf(r); wf(a); wf(b), WF(r), r = a + b)
KEEP(u_sub, (VD &r, VD &a, VI &k), wf(r); wf(a); wf(k), WF(r), r = etr::subset(a, k))
KEEP(u_num, (VD &r, int n), wf(r), WF(r), r = etr::vector_numeric(n))
KEEP(u_store, (VD &r, VD &a), wf(r); wf(a), WF(r), r.d = a.d)
KEEP(u_c, (AV &av, int n), AVW, WF(av.varConstants[1]), (etr::vector_numeric<1>(av, n)))
