#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// ---- one element of a variable, positions from 1
#define Q(k) ((Z)(k) - 1)
#define INR(k, n) vf_assume(k >= 1 && (double)k < (double)n + 1 && k < (1 << 30))
// read; the vector is unchanged
#define RD(N, V, E, TK)                                                          \
  IMPL(rd_##N, E, V &v, TK k, Z i) {                                             \
    ne(v); INR(k, v.d.sz); vf_assume(i < v.d.sz);                                \
    E x = etr::at(v, k);                                                         \
    vf_out_z(1, v.d.sz); vf_out_d(2, (double)v.d.p[i]); vf_out_b(3, v.im());     \
    return x;                                                                    \
  }                                                                              \
  SPEC(rd_##N, E, V &v, TK k, Z i) {                                             \
    vf_out_z(1, v.d.sz); vf_out_d(2, (double)v.d.p[i]); vf_out_b(3, v.d.mp.ismatrix); \
    return v.d.p[Q(k)];                                                          \
  }                                                                              \
  IMPL(wr_##N, E, V &v, TK k, E x, Z i) {                                        \
    ne(v); INR(k, v.d.sz); vf_assume(i < v.d.sz);                                \
    etr::at(v, k) = x;                                                           \
    vf_out_z(1, v.d.sz); vf_out_b(3, v.im()); vf_out_z(4, v.d.mp.rows); vf_out_z(5, v.d.mp.cols); \
    return v.d.p[i];                                                             \
  }                                                                              \
  SPEC(wr_##N, E, V &v, TK k, E x, Z i) {                                        \
    vf_out_z(1, v.d.sz); vf_out_b(3, v.d.mp.ismatrix); vf_out_z(4, v.d.mp.rows); vf_out_z(5, v.d.mp.cols); \
    return i == Q(k) ? x : v.d.p[i];                                             \
  }                                                                              \
  IMPL(lo_##N, E, V &v, TK k) { vf_flag(16); wf(v); vf_assume(k < 1 && k > -(1 << 30)); return etr::at(v, k); } \
  SPEC(lo_##N, E, V &v, TK k) { vf_throw(); }                                    \
  IMPL(hi_##N, E, V &v, TK k) { vf_flag(16); wf(v); vf_assume(k < (1 << 30) && (double)k >= (double)v.d.sz + 1); return etr::at(v, k); } \
  SPEC(hi_##N, E, V &v, TK k) { vf_throw(); }                                    \
  IMPL(wlo_##N, void, V &v, TK k, E x) { vf_flag(16); wf(v); vf_assume(k < 1 && k > -(1 << 30)); etr::at(v, k) = x; } \
  SPEC(wlo_##N, void, V &v, TK k, E x) { vf_throw(); }                           \
  IMPL(whi_##N, void, V &v, TK k, E x) { vf_flag(16); wf(v); vf_assume(k < (1 << 30) && (double)k >= (double)v.d.sz + 1); etr::at(v, k) = x; } \
  SPEC(whi_##N, void, V &v, TK k, E x) { vf_throw(); }
RD(d_i, VD, double, int) RD(d_d, VD, double, double)
RD(i_i, VI, int, int) RD(i_d, VI, int, double)
RD(b_i, VB, bool, int) RD(b_d, VB, bool, double)
RD(B_i, BD, double, int) RD(B_d, BD, double, double)
// an element written can be read back, a second one is independent
IMPL(seq, double, VD &v, int k, int l, double x, double y) {
  ne(v); INR(k, v.d.sz); INR(l, v.d.sz);
  etr::at(v, k) = x; etr::at(v, l) = etr::at(v, k) + y;
  return etr::at(v, k) - etr::at(v, l);
}
SPEC(seq, double, VD &v, int k, int l, double x, double y) { double z = x + y; return k == l ? z - z : x - z; }
IMPL(swap, double, VD &v, int k, int l, Z i) {
  ne(v); INR(k, v.d.sz); INR(l, v.d.sz); vf_assume(i < v.d.sz);
  double t = etr::at(v, k); etr::at(v, k) = etr::at(v, l); etr::at(v, l) = t;
  return v.d.p[i];
}
SPEC(swap, double, VD &v, int k, int l, Z i) { return v.d.p[i == Q(l) ? Q(k) : i == Q(k) ? Q(l) : i]; }
// ---- one cell of a matrix
#define CELL(r, c) (Q(c) * NR + Q(r))
#define INM(r, c) vf_assume(r >= 1 && (double)r < (double)NR + 1 && c >= 1 && (double)c < (double)NC + 1)
#define SML(r) vf_assume(r > -(1 << 30) && r < (1 << 30))
#define OUTM(r, c) SML(r); SML(c); vf_assume(r < 1 || (double)r >= (double)NR + 1 || c < 1 || (double)c >= (double)NC + 1)
#define MT(N, V, E, TR, TC)                                                      \
  IMPL(mrd_##N, E, V &a, TR r, TC c, Z i) {                                      \
    wfm(a); INM(r, c); vf_assume(i < NR * NC);                                   \
    E x = etr::at(a, r, c);                                                      \
    vf_out_d(1, (double)a.d.p[i]);                                               \
    return x;                                                                    \
  }                                                                              \
  SPEC(mrd_##N, E, V &a, TR r, TC c, Z i) { vf_out_d(1, (double)a.d.p[i]); return a.d.p[CELL(r, c)]; } \
  IMPL(mwr_##N, E, V &a, TR r, TC c, E x, Z i) {                                 \
    wfm(a); INM(r, c); vf_assume(i < NR * NC);                                   \
    etr::at(a, r, c) = x;                                                        \
    vf_out_z(1, a.d.sz); vf_out_b(2, a.im()); vf_out_z(3, NR); vf_out_z(4, NC);  \
    return a.d.p[i];                                                             \
  }                                                                              \
  SPEC(mwr_##N, E, V &a, TR r, TC c, E x, Z i) {                                 \
    vf_out_z(1, NR * NC); vf_out_b(2, true); vf_out_z(3, NR); vf_out_z(4, NC);   \
    return i == CELL(r, c) ? x : a.d.p[i];                                       \
  }                                                                              \
  IMPL(mer_##N, E, V &a, TR r, TC c) { vf_flag(16); wfm(a); OUTM(r, c); return etr::at(a, r, c); } \
  SPEC(mer_##N, E, V &a, TR r, TC c) { vf_throw(); }                             \
  IMPL(mew_##N, void, V &a, TR r, TC c, E x) { vf_flag(16); wfm(a); OUTM(r, c); etr::at(a, r, c) = x; } \
  SPEC(mew_##N, void, V &a, TR r, TC c, E x) { vf_throw(); }                     \
  IMPL(mno_##N, E, V &a, TR r, TC c) { vf_flag(16); wf(a); SML(r); SML(c); vf_assume(!a.d.mp.ismatrix); return etr::at(a, r, c); } \
  SPEC(mno_##N, E, V &a, TR r, TC c) { vf_throw(); }
MT(d_ii, VD, double, int, int) MT(d_id, VD, double, int, double) MT(d_di, VD, double, double, int) MT(d_dd, VD, double, double, double)
MT(i_ii, VI, int, int, int) MT(b_ii, VB, bool, int, int) MT(B_ii, BD, double, int, int) MT(B_dd, BD, double, double, double)
#ifdef FULL
MT(i_id, VI, int, int, double) MT(i_di, VI, int, double, int) MT(i_dd, VI, int, double, double)
MT(b_id, VB, bool, int, double) MT(b_di, VB, bool, double, int) MT(b_dd, VB, bool, double, double)
MT(B_id, BD, double, int, double) MT(B_di, BD, double, double, int)
#endif
// ---- a cell of an expression or of a subset
#define EXV(N, PARAMS, PRE, EXPR, TR, TC, EL)                                    \
  IMPL(x_##N, double, VD &a, UNPAREN PARAMS, TR r, TC c) { wfm(a); PRE; INM(r, c); return etr::at(EXPR, r, c); } \
  SPEC(x_##N, double, VD &a, UNPAREN PARAMS, TR r, TC c) { Z q = CELL(r, c); return EL; }       \
  IMPL(xe_##N, double, VD &a, UNPAREN PARAMS, TR r, TC c) { vf_flag(16); wfm(a); PRE; OUTM(r, c); return etr::at(EXPR, r, c); } \
  SPEC(xe_##N, double, VD &a, UNPAREN PARAMS, TR r, TC c) { vf_throw(); }
#define SAME(b) wfm(b); vf_assume(b.d.mp.rows == NR && b.d.mp.cols == NC)
#define X4(N, PARAMS, PRE, EXPR, EL)                                             \
  EXV(N##_ii, PARAMS, PRE, EXPR, int, int, EL) EXV(N##_id, PARAMS, PRE, EXPR, int, double, EL) \
  EXV(N##_di, PARAMS, PRE, EXPR, double, int, EL) EXV(N##_dd, PARAMS, PRE, EXPR, double, double, EL)
X4(add, (VD & b), SAME(b), a + b, a.d.p[q] + b.d.p[q])
EXV(mul_ii, (VI & b), SAME(b), a * b, int, int, a.d.p[q] * b.d.p[q])
EXV(scal_ii, (double s), (void)0, s - a, int, int, s - a.d.p[q])
EXV(neg_ii, (int u), (void)u, -a, int, int, -a.d.p[q])
EXV(fn_ii, (int u), (void)u, etr::exp(a), int, int, std::exp(a.d.p[q]))
EXV(sub_ii, (int u), (void)u, etr::subset(a, true, true), int, int, a.d.p[q])
EXV(sub_dd, (int u), (void)u, etr::subset(a, true, true), double, double, a.d.p[q])
// ---- the subscript operator and the last element, positions from 0
#define BR(N, V, E)                                                              \
  IMPL(br_##N, E, V &v, Z k) { ne(v); vf_assume(k < v.d.sz); return v[k]; }      \
  SPEC(br_##N, E, V &v, Z k) { return v.d.p[k]; }                                \
  IMPL(brc_##N, E, const V &v, Z k) { ne(v); vf_assume(k < v.d.sz); return v[k]; } \
  SPEC(brc_##N, E, const V &v, Z k) { return v.d.p[k]; }                         \
  IMPL(bw_##N, E, V &v, Z k, E x, Z i) { ne(v); vf_assume(k < v.d.sz && i < v.d.sz); v[k] = x; vf_out_z(1, v.d.sz); return v.d.p[i]; } \
  SPEC(bw_##N, E, V &v, Z k, E x, Z i) { vf_out_z(1, v.d.sz); return i == k ? x : v.d.p[i]; } \
  IMPL(be_##N, E, V &v, Z k) { vf_flag(16); wf(v); vf_assume(k >= v.d.sz); return v[k]; } \
  SPEC(be_##N, E, V &v, Z k) { vf_throw(); }                                     \
  IMPL(bec_##N, E, const V &v, Z k) { vf_flag(16); wf(v); vf_assume(k >= v.d.sz); return v[k]; } \
  SPEC(bec_##N, E, const V &v, Z k) { vf_throw(); }                              \
  IMPL(bew_##N, void, V &v, Z k, E x) { vf_flag(16); wf(v); vf_assume(k >= v.d.sz); v[k] = x; } \
  SPEC(bew_##N, void, V &v, Z k, E x) { vf_throw(); }                            \
  IMPL(lb_##N, E, V &v) { ne(v); return v.back(); }                              \
  SPEC(lb_##N, E, V &v) { return v.d.p[v.d.sz - 1]; }                            \
  IMPL(lw_##N, E, V &v, E x, Z i) { ne(v); vf_assume(i < v.d.sz); v.back() = x; return v.d.p[i]; } \
  SPEC(lw_##N, E, V &v, E x, Z i) { return i == v.d.sz - 1 ? x : v.d.p[i]; }     \
  IMPL(le_##N, E, V &v) { vf_flag(16); wf(v); vf_assume(v.d.sz == 0); return v.back(); } \
  SPEC(le_##N, E, V &v) { vf_throw(); }                                          \
  IMPL(cv_##N, E, V &v) { ne(v); vf_flag(2); return (E)v; }                      \
  SPEC(cv_##N, E, V &v) { return v.d.p[0]; }                                     \
  IMPL(cve_##N, E, V &v) { vf_flag(2 | 16); wf(v); vf_assume(v.d.sz == 0); return (E)v; } \
  SPEC(cve_##N, E, V &v) { vf_throw(); }
BR(d, VD, double) BR(i, VI, int) BR(b, VB, bool) BR(B, BD, double)
// ---- whole-vector views
#define WH(N, V, E)                                                              \
  IMPL(it_##N, double, V &v) { ne(v); double s = 0; for (auto &e : v) s = s * 3.0 + e; return s; } \
  SPEC(it_##N, double, V &v) { double s = 0; for (Z j = 0; j < v.d.sz; j++) s = s * 3.0 + v.d.p[j]; return s; } \
  IMPL(itw_##N, E, V &v, E x, Z i) { ne(v); vf_assume(i < v.d.sz); for (auto &e : v) e = x; vf_out_z(1, v.d.sz); return v.d.p[i]; } \
  SPEC(itw_##N, E, V &v, E x, Z i) { vf_out_z(1, v.d.sz); return x; }            \
  IMPL(itn_##N, Z, V &v) { wf(v); Z n = 0; for (auto &e : v) { n++; (void)e; } return n; } \
  SPEC(itn_##N, Z, V &v) { return v.d.sz; }                                      \
  IMPL(fi_##N, E, V &v, E x, Z i) { ne(v); vf_assume(i < v.d.sz); v.fill(x); vf_out_z(1, v.d.sz); vf_out_b(2, v.im()); vf_out_z(3, v.d.capacity); return v.d.p[i]; } \
  SPEC(fi_##N, E, V &v, E x, Z i) { vf_out_z(1, v.d.sz); vf_out_b(2, v.d.mp.ismatrix); vf_out_z(3, v.d.capacity); return x; } \
  IMPL(pt_##N, E, V &v, Z i) { ne(v); vf_assume(i < v.d.sz); return v.getPtr()[i]; } \
  SPEC(pt_##N, E, V &v, Z i) { return v.d.p[i]; }                                \
  IMPL(ln_##N, Z, V &v) { wf(v); vf_out_z(1, etr::length(v)); vf_out_z(2, v.nr()); vf_out_z(3, v.nc()); vf_out_b(4, v.im()); return v.size(); } \
  SPEC(ln_##N, Z, V &v) { vf_out_z(1, v.d.sz); vf_out_z(2, v.d.mp.rows); vf_out_z(3, v.d.mp.cols); vf_out_b(4, v.d.mp.ismatrix); return v.d.sz; }
WH(d, VD, double) WH(i, VI, int) WH(b, VB, bool) WH(B, BD, double)
