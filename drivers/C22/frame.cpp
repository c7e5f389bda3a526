#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// an operation that reads its operands leaves each of them as it is: storage, length, elements, shape
#define ST(T, o, h) vf_out_z(T, o.d.sz); vf_out_z(T + 1, o.d.capacity); vf_out_b(T + 2, o.d.allocated); vf_out_b(T + 3, o.d.mp.ismatrix); \
  vf_out_z(T + 4, o.d.mp.rows); vf_out_z(T + 5, o.d.mp.cols); vf_out_d(T + 6, o.d.p[h])
#define SAME(T, o) vf_out_b(T + 7, o.d.p == o##_0)
#define F1(N, PARAMS, PRE, CODE)                                                                          \
  IMPL(f_##N, int, UNPAREN PARAMS, Z h) { vf_flag(1 | 2 | 4); PRE; vf_assume(h < a.d.sz); auto *a_0 = a.d.p; CODE; ST(10, a, h); SAME(10, a); return 0; } \
  SPEC(f_##N, int, UNPAREN PARAMS, Z h) { PRE; ST(10, a, h); vf_out_b(17, true); return 0; }
#define F2(N, PARAMS, PRE, CODE)                                                                          \
  IMPL(f_##N, int, UNPAREN PARAMS, Z h, Z g) { vf_flag(1 | 2 | 4); PRE; vf_assume(h < a.d.sz); vf_assume(g < b.d.sz); auto *a_0 = a.d.p; auto *b_0 = b.d.p; CODE; \
    ST(10, a, h); SAME(10, a); ST(20, b, g); SAME(20, b); return 0; }                                     \
  SPEC(f_##N, int, UNPAREN PARAMS, Z h, Z g) { PRE; ST(10, a, h); vf_out_b(17, true); ST(20, b, g); vf_out_b(27, true); return 0; }
#define R2 wf(r); ne(a); ne(b)
#define R1 wf(r); ne(a)
#define NB(k) ne(k); for (Z q = 0; q < k.d.sz; q++) vf_assume(k.d.p[q] > -1000000 && k.d.p[q] < 1000000)
// ---- operators
F2(add, (VD &r, VD &a, VD &b), R2, r = a + b) F2(sub, (VD &r, VD &a, VI &b), R2, r = a - b) F2(mul, (VD &r, VI &a, VI &b), R2, r = a * b)
F2(div, (VD &r, VI &a, VD &b), R2, r = a / b) F2(pow, (VD &r, VD &a, VD &b), R2, r = a ^ b) F2(addb, (VD &r, VB &a, VD &b), R2, r = a + b)
F2(bo, (BD &r, BD &a, VD &b), R2; vf_assume(r.d.capacity >= len2(a, b)), r = a + b) F2(bo2, (VD &r, VD &a, BD &b), R2, r = a * b)
F1(adds, (VD &r, VD &a, double s), R1, r = a + s) F1(sadd, (VD &r, VI &a, double s), R1, r = s - a) F1(divs, (VD &r, VI &a, int s), R1, r = a / s)
F2(eq, (VB &r, VD &a, VD &b), R2, r = a == b) F2(ne, (VB &r, VI &a, VD &b), R2, r = a != b) F2(lt, (VB &r, VD &a, VI &b), R2, r = a < b)
F2(ge, (VB &r, VD &a, BD &b), R2, r = a >= b) F1(gts, (VB &r, VD &a, double s), R1, r = a > s)
F2(nest, (VD &r, VD &a, VD &b), R2, r = (a + b) * (a - b)) F2(nestu, (VD &r, VD &a, VD &b), R2, r = etr::sinus(a + b) * etr::exp(a)) F1(twice, (VD &r, VD &a), R1, r = a * a + a)
// ---- functions
#define FU(f) F1(u_##f, (VD &r, VD &a), R1, r = etr::f(a)) F1(ui_##f, (VD &r, VI &a), R1, r = etr::f(a)) F1(ub_##f, (VD &r, BD &a), R1, r = etr::f(a))
FU(sinus) FU(asinus) FU(sinush) FU(cosinus) FU(acosinus) FU(cosinush) FU(tangens) FU(atangens) FU(tangensh) FU(exp) FU(ln) FU(sqroot)
F1(neg, (VD &r, VD &a), R1, r = -a) F1(negi, (VI &r, VI &a), R1, r = -a)
F1(isna, (VB &r, VD &a), R1, r = etr::isNA(a)) F1(isinf, (VB &r, VD &a), R1, r = etr::isInf(a))
F1(len, (VD &a), ne(a), vf_out_z(1, etr::length(a)); ) F1(dim, (VI &r, VD &a), wf(r); wfm(a), r = etr::dim(a))
// ---- construction and assignment from
F1(copy, (VD &a), ne(a), VD c(a)) F1(asg, (VD &r, VD &a), R1, r = a) F1(asgi, (VI &r, VD &a), R1, r = a) F1(asgb, (VB &r, VI &a), R1, r = a)
F1(asgd, (VD &r, VI &a), R1, r = a) F1(asgm, (VD &r, VD &a), wf(r); wfm(a), r = a) F1(frombo, (VD &r, BD &a), R1, r = a)
F1(tobo, (BD &r, VD &a), R1; vf_assume(r.d.capacity >= a.d.sz), r = a) F2(cctor, (VD &a, VD &b), ne(a); ne(b), VD c(a + b))
F2(coca, (VD &r, VD &a, VI &b), R2, r = etr::coca(a, 1.5, b)) F1(rep, (VD &r, VD &a, int n), R1; vf_assume(n < 1000), r = etr::rep(a, n))
F1(repn, (VD &r, VI &a), wf(r); NB(a), r = etr::rep(2.0, a)) F1(colon, (VI &r, VI &a, int k), wf(r); NB(a); vf_assume(k < 1000 && k > -1000), r = etr::colon(a, k))
F1(num, (VD &r, VI &a), wf(r); NB(a), r = etr::vector_numeric(a))
// ---- subsets and elements that are read
#define FS(N, K) F2(s_##N, (VD &r, VD &a, K &b), R2, r = etr::subset(a, b)) F2(sm_##N, (VD &r, VD &a, K &b), wf(r); wfm(a); ne(b), r = etr::subset(a, b, true)) \
  F2(sn_##N, (VD &r, VD &a, K &b), wf(r); wfm(a); ne(b), r = etr::subset(a, 1, b)) F2(se_##N, (VD &r, VD &a, K &b), R2, r = etr::subset(a + 1.0, b))
FS(i, VI) FS(d, VD) FS(b, VB)
F1(ss, (VD &r, VD &a, int k), R1, r = etr::subset(a, k)) F1(sk, (VD &r, VD &a, int k, double l), wf(r); wfm(a); pre(l), r = etr::subset(a, k, l))
F2(sx, (VD &r, VD &a, VI &b), R2, r = etr::subset(a, b) + a) F2(se2, (VD &r, VD &a, VI &b), R2, r = etr::subset(a, b + 1))
F1(at, (VD &a, int k), ne(a), vf_out_d(1, etr::at(a, k))) F1(atd, (VD &a, double k), ne(a); pre(k), vf_out_d(1, etr::at(a, k)))
F1(atm, (VD &a, int k, int l), wfm(a), vf_out_d(1, etr::at(a, k, l))) F1(ate, (VD &a, int k, int l), wfm(a), vf_out_d(1, etr::at(a + 1.0, k, l)))
F1(idx, (const VD &a, Z k), ne(a); vf_assume(k < a.d.sz), vf_out_d(1, a[k]))
F1(cond, (VB &a), ne(a), if (a) vf_out_z(1, 1))
F2(condx, (VD &a, VD &b), ne(a); ne(b), if (a < b) vf_out_z(1, 1))
// ---- subsets that are written: index and right hand side stay
#define FW(N, K) F2(w_##N, (VD &r, VD &a, K &b), R2, etr::subset(r, b) = a) F2(wm_##N, (VD &r, VD &a, K &b), wfm(r); ne(a); ne(b), etr::subset(r, b, true) = a) \
  F2(wx_##N, (VD &r, VD &a, K &b), R2, etr::subset(r, b) = a * 2.0)
FW(i, VI) FW(d, VD) FW(b, VB)
F2(ws, (VD &r, VD &a, VI &b), R2, etr::subset(r, b) = etr::subset(a, b))
// ---- interpolation, printing
F2(li, (VD &r, VD &a, VD &b, VD &s), R2; ne(s), r = etr::li(s, a, b)) F2(cmr, (VD &r, VD &a, VD &b, double s), R2, r = etr::cmr(s, a, b))
F1(print, (VD &a), ne(a), etr::print(a)) F2(printx, (VD &a, VD &b), ne(a); ne(b), etr::print(a + b)) F1(printm, (VD &a), wfm(a), etr::print(a))
// ---- parts of an expression that are asked separately
F2(e_size, (VD &a, VD &b), ne(a); ne(b), vf_out_z(1, (a + b).size())) F2(e_im, (VD &a, VD &b), ne(a); ne(b), vf_out_b(1, (a * b).im()))
F2(e_nr, (VD &a, VD &b), wfm(a); ne(b), vf_out_z(1, (a + b).nr())) F2(e_nc, (VD &a, VD &b), wfm(a); ne(b), vf_out_z(1, etr::sinus(a + b).nc()))
