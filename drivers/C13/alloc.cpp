#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
#define SML(n) vf_assume(n < (1 << 20))
#define SMV(n) vf_assume(n.d.p[0] < (1 << 20))
template <class T, class E> constexpr bool isE = std::is_same_v<typename std::remove_reference_t<T>::Type, E>;
// ---- a new vector of LEN elements, all zero, of element type E
#define AL(N, FCT, E, PARAMS, PRE, ARG, LEN)                                     \
  IMPL(al_##N, E, UNPAREN PARAMS, Z i) {                                         \
    PRE; auto x = etr::FCT(ARG); vf_assume(i < (Z)(LEN));                        \
    vf_out_z(1, x.size()); vf_out_b(2, x.im()); vf_out_b(3, isE<decltype(x), E>); \
    return x.d.p[i];                                                             \
  }                                                                              \
  SPEC(al_##N, E, UNPAREN PARAMS, Z i) {                                         \
    vf_out_z(1, (Z)(LEN)); vf_out_b(2, false); vf_out_b(3, true); return 0;      \
  }                                                                              \
  IMPL(as_##N, E, etr::Vec<E> &r, UNPAREN PARAMS, Z i) {                         \
    wf(r); PRE; r = etr::FCT(ARG); vf_assume(i < (Z)(LEN));                      \
    vf_out_z(1, r.size()); vf_out_b(2, r.im());                                  \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(as_##N, E, etr::Vec<E> &r, UNPAREN PARAMS, Z i) { vf_out_z(1, (Z)(LEN)); vf_out_b(2, false); return 0; }
#define AER(N, FCT, PARAMS, PRE, ARG)                                            \
  IMPL(er_##N, Z, UNPAREN PARAMS) { vf_flag(2 | 16); PRE; auto x = etr::FCT(ARG); return x.size(); } \
  SPEC(er_##N, Z, UNPAREN PARAMS) { vf_throw(); }
#define LO(n) vf_assume(n < 1 && n > -(1 << 20))
#define ALL(F, E)                                                                \
  AL(F##_i, F, E, (int n), vf_assume(n >= 1); SML(n), n, n)                      \
  AL(F##_z, F, E, (Z n), vf_assume(n >= 1); SML(n), n, n)                        \
  AL(F##_c, F, E, (const int &n), vf_assume(n >= 1); SML(n), n, n)               \
  AL(F##_d, F, E, (double n), vf_flag(2); vf_assume(n >= 1); SML(n), n, (Z)n)    \
  AL(F##_vi, F, E, (VI & n), ne(n); vf_assume(n.d.sz == 1); vf_assume(n.d.p[0] >= 1); SMV(n), n, n.d.p[0]) \
  AL(F##_vd, F, E, (VD & n), vf_flag(2); ne(n); vf_assume(n.d.sz == 1); vf_assume(n.d.p[0] >= 1); SMV(n), n, (Z)n.d.p[0]) \
  AL(F##_vc, F, E, (const VI &n), ne(n); vf_assume(n.d.sz == 1); vf_assume(n.d.p[0] >= 1); SMV(n), n, n.d.p[0]) \
  AL(F##_zc, F, E, (const Z &n), vf_assume(n >= 1); SML(n), n, n)                \
  AL(F##_dc, F, E, (const double &n), vf_flag(2); vf_assume(n >= 1); SML(n), n, (Z)n) \
  AL(F##_vdc, F, E, (const VD &n), vf_flag(2); ne(n); vf_assume(n.d.sz == 1); vf_assume(n.d.p[0] >= 1); SMV(n), n, (Z)n.d.p[0]) \
  AL(F##_b, F, E, (BD & n), vf_flag(2); ne(n); vf_assume(n.d.sz == 1); vf_assume(n.d.p[0] >= 1); SMV(n), n, (Z)n.d.p[0]) \
  AER(F##_ic, F, (const int &n), LO(n), n) AER(F##_dc, F, (const double &n), LO(n), n) AER(F##_zc, F, (const Z &n), vf_assume(n == 0), n) \
  AER(F##_vc, F, (const VI &n), ne(n); vf_assume(n.d.sz == 1 && n.d.p[0] < 1), n) \
  AL(F##_x, F, E, (VI & n, int k), ne(n); vf_assume(n.d.sz == 1); vf_assume(n.d.p[0] >= 1); SMV(n); vf_assume(k >= 0); SML(k), n + k, n.d.p[0] + k) \
  AER(F##_i, F, (int n), LO(n), n) AER(F##_d, F, (double n), LO(n), n) AER(F##_z, F, (Z n), vf_assume(n == 0), n) \
  AER(F##_vi, F, (VI & n), ne(n); vf_assume(n.d.sz == 1 && n.d.p[0] < 1), n)     \
  AER(F##_vd, F, (VD & n), ne(n); vf_assume(n.d.sz == 1 && n.d.p[0] < 1 && n.d.p[0] > -1e6), n) \
  AER(F##_vn, F, (VI & n), wf(n); vf_assume(n.d.sz != 1), n)                     \
  AER(F##_vnc, F, (const VD &n), wf(n); vf_assume(n.d.sz != 1), n)               \
  AER(F##_xn, F, (VI & n), ne(n); vf_assume(n.d.sz != 1), n + 1)
ALL(vector_integer, int) ALL(vector_logical, bool) ALL(vector_numeric, double)
// ---- a truncated size is warned about
IMPL(w_num, Z, double n) { vf_assume(n >= 1); SML(n); VD x; x = etr::vector_numeric(n); return x.size(); }
SPEC(w_num, Z, double n) { vf_warn(n - (double)(int)n <= 0); return (Z)n; }
IMPL(w_mat, Z, double n) { vf_assume(n >= 1); SML(n); VD x; x = etr::matrix(0.0, std::move(n), 2); return x.d.mp.rows; }
SPEC(w_mat, Z, double n) { vf_warn(n - (double)(int)n <= 0); return (Z)n; }
// ---- matrix: every combination of scalar and vector arguments
#define MV(v) std::move(v)
#define MA(N, E, PARAMS, PRE, V, R, C, VR, VC, EL)                               \
  IMPL(ma_##N, E, UNPAREN PARAMS, Z x, Z y) {                                    \
    PRE; vf_assume((VR) >= 1 && (VC) >= 1 && (VR) < (1 << 20) && (VC) < (1 << 20)); \
    Z nr = (Z)(VR), nc = (Z)(VC); vf_assume(x < nr && y < nc);                   \
    auto r = etr::matrix(V, R, C);                                               \
    vf_out_z(1, r.size()); vf_out_b(2, r.im()); vf_out_z(3, r.nr()); vf_out_z(4, r.nc()); vf_out_b(5, isE<decltype(r), E>); \
    return r.d.p[y * nr + x];                                                    \
  }                                                                              \
  SPEC(ma_##N, E, UNPAREN PARAMS, Z x, Z y) {                                    \
    Z nr = (Z)(VR), nc = (Z)(VC); Z i = y * nr + x; (void)i;                     \
    vf_out_z(1, nr * nc); vf_out_b(2, true); vf_out_z(3, nr); vf_out_z(4, nc); vf_out_b(5, true); \
    return EL;                                                                   \
  }
#define FILL(v) ne(v); vf_flag(1)
#define DC(k) MV(k)
MA(sd_ii, double, (double s, int k, int l), (void)0, MV(s), DC(k), DC(l), k, l, s)
MA(si_ii, int, (int s, int k, int l), (void)0, MV(s), DC(k), DC(l), k, l, s)
MA(sb_ii, bool, (bool s, int k, int l), (void)0, MV(s), DC(k), DC(l), k, l, s)
MA(sd_id, double, (double s, int k, double l), vf_flag(2), MV(s), DC(k), DC(l), k, l, s)
MA(sd_di, double, (double s, double k, int l), vf_flag(2), MV(s), DC(k), DC(l), k, l, s)
MA(sd_dd, double, (double s, double k, double l), vf_flag(2), MV(s), DC(k), DC(l), k, l, s)
MA(vd_ii, double, (VD & v, int k, int l), FILL(v); vf_assume(v.d.sz == (Z)k * (Z)l), MV(v), DC(k), DC(l), k, l, v.d.p[i])
MA(vi_ii, int, (VI & v, int k, int l), FILL(v); vf_assume(v.d.sz == (Z)k * (Z)l), MV(v), DC(k), DC(l), k, l, v.d.p[i])
MA(vb_ii, bool, (VB & v, int k, int l), FILL(v); vf_assume(v.d.sz == (Z)k * (Z)l), MV(v), DC(k), DC(l), k, l, v.d.p[i])
MA(vB_ii, double, (BD & v, int k, int l), FILL(v); vf_assume(v.d.sz == (Z)k * (Z)l), MV(v), DC(k), DC(l), k, l, v.d.p[i])
MA(sd_vi, double, (double s, VI & k, int l), ne(k), MV(s), DC(k), DC(l), k.d.p[0], l, (vf_warn(k.d.sz <= 1), s))
MA(sd_iv, double, (double s, int k, VI & l), ne(l), MV(s), DC(k), DC(l), k, l.d.p[0], (vf_warn(l.d.sz <= 1), s))
MA(sd_vv, double, (double s, VI & k, VI & l), ne(k); ne(l); vf_flag(2), MV(s), DC(k), DC(l), k.d.p[0], l.d.p[0], s)
MA(sd_vdvd, double, (double s, VD & k, VD & l), ne(k); ne(l); vf_flag(2), MV(s), DC(k), DC(l), k.d.p[0], l.d.p[0], s)
MA(si_vi, int, (int s, VD & k, int l), ne(k); vf_flag(2), MV(s), DC(k), DC(l), k.d.p[0], l, s)
MA(vd_vi, double, (VD & v, VI & k, int l), FILL(v); ne(k); vf_flag(2); vf_assume(v.d.sz == (Z)k.d.p[0] * (Z)l), MV(v), DC(k), DC(l), k.d.p[0], l, v.d.p[i])
MA(vd_iv, double, (VD & v, int k, VI & l), FILL(v); ne(l); vf_flag(2); vf_assume(v.d.sz == (Z)k * (Z)l.d.p[0]), MV(v), DC(k), DC(l), k, l.d.p[0], v.d.p[i])
MA(vi_vv, int, (VI & v, VI & k, VI & l), FILL(v); ne(k); ne(l); vf_flag(2); vf_assume(v.d.sz == (Z)k.d.p[0] * (Z)l.d.p[0]), MV(v), DC(k), DC(l), k.d.p[0], l.d.p[0], v.d.p[i])
MA(si_iv, int, (int s, int k, VD & l), ne(l); vf_flag(2), MV(s), DC(k), DC(l), k, l.d.p[0], s)
MA(sb_vv, bool, (bool s, VD & k, VI & l), ne(k); ne(l); vf_flag(2), MV(s), DC(k), DC(l), k.d.p[0], l.d.p[0], s)
MA(vi_vi, int, (VI & v, VI & k, int l), FILL(v); ne(k); vf_assume(v.d.sz == (Z)k.d.p[0] * (Z)l), MV(v), DC(k), DC(l), k.d.p[0], l, (vf_warn(k.d.sz <= 1), v.d.p[i]))
MA(vb_iv, bool, (VB & v, int k, VI & l), FILL(v); ne(l); vf_assume(v.d.sz == (Z)k * (Z)l.d.p[0]), MV(v), DC(k), DC(l), k, l.d.p[0], (vf_warn(l.d.sz <= 1), v.d.p[i]))
MA(vd_id, double, (VD & v, int k, double l), FILL(v); vf_flag(2); vf_assume(v.d.sz == (Z)k * (Z)l), MV(v), DC(k), DC(l), k, l, v.d.p[i])
MA(vd_dv, double, (VD & v, double k, VI & l), FILL(v); ne(l); vf_flag(2); vf_assume(v.d.sz == (Z)k * (Z)l.d.p[0]), MV(v), DC(k), DC(l), k, l.d.p[0], v.d.p[i])
// sizes of a vector's first element are warned about once, when there are more
IMPL(w_mvv, Z, double s, VI &k, VI &l) { ne(k); ne(l); vf_assume(k.d.p[0] >= 1 && l.d.p[0] >= 1); SMV(k); SMV(l); vf_assume(k.d.sz == 1 || l.d.sz == 1); auto r = etr::matrix(std::move(s), std::move(k), std::move(l)); return r.size(); }
SPEC(w_mvv, Z, double s, VI &k, VI &l) { vf_warn(l.d.sz <= 1); vf_warn(k.d.sz <= 1); return (Z)k.d.p[0] * (Z)l.d.p[0]; }
IMPL(w_mxv, Z, VD &s, VI &k, VI &l) { ne(k); ne(l); FILL(s); vf_assume(k.d.p[0] >= 1 && l.d.p[0] >= 1); SMV(k); SMV(l); vf_assume(s.d.sz == (Z)k.d.p[0] * (Z)l.d.p[0]); vf_assume(k.d.sz == 1 || l.d.sz == 1); auto r = etr::matrix(std::move(s), std::move(k), std::move(l)); return r.size(); }
SPEC(w_mxv, Z, VD &s, VI &k, VI &l) { vf_warn(l.d.sz <= 1); vf_warn(k.d.sz <= 1); return (Z)k.d.p[0] * (Z)l.d.p[0]; }
MA(vd_vv, double, (VD & v, VD & k, VD & l), FILL(v); ne(k); ne(l); vf_flag(2); vf_assume(v.d.sz == (Z)k.d.p[0] * (Z)l.d.p[0]), MV(v), DC(k), DC(l), k.d.p[0], l.d.p[0], v.d.p[i])
// the type of an expression is the type of its values
#define MX(N, E, V, X, EL) MA(t_##N, E, (V & v, VI &w, int k, int l), FILL(v); ne(w); vf_assume(w.d.sz == v.d.sz && v.d.sz == (Z)k * (Z)l), X, DC(k), DC(l), k, l, EL)
MX(div, double, VI, v / w, (double)el(v, i) / (double)el(w, i))
MX(sin, double, VI, etr::sinus(v), __builtin_sin(el(v, i)))
MX(pow, double, VI, v ^ 0.5, __builtin_pow(el(v, i), 0.5))
MX(bdiv, double, VB, v / 4, (double)el(v, i) / 4.0)
MX(cmp, bool, VI, v >= w, el(v, i) >= el(w, i))
// stored in a variable of any state
IMPL(mst, double, VD &r, VD &v, int k, int l, Z x, Z y) {
  wf(r); vf_assume(k >= 1 && l >= 1 && k < (1 << 20) && l < (1 << 20)); FILL(v); vf_assume(v.d.sz == (Z)k * (Z)l);
  vf_assume(x < (Z)k && y < (Z)l);
  r = etr::matrix(std::move(v), std::move(k), std::move(l));
  vf_out_z(1, r.size()); vf_out_b(2, r.im()); vf_out_z(3, r.nr()); vf_out_z(4, r.nc());
  return r.d.p[y * (Z)k + x];
}
SPEC(mst, double, VD &r, VD &v, int k, int l, Z x, Z y) {
  vf_out_z(1, (Z)k * (Z)l); vf_out_b(2, true); vf_out_z(3, k); vf_out_z(4, l);
  return v.d.p[y * (Z)k + x];
}
#define MER(N, PARAMS, PRE, V, R, C)                                             \
  IMPL(me_##N, Z, UNPAREN PARAMS) { vf_flag(2 | 16); PRE; auto r = etr::matrix(V, R, C); return r.size(); } \
  SPEC(me_##N, Z, UNPAREN PARAMS) { vf_throw(); }
#define OK(k) vf_assume(k >= 1 && k < (1 << 20))
MER(r0, (double s, int k, int l), LO(k); OK(l), MV(s), MV(k), MV(l))
MER(c0, (double s, int k, int l), LO(l); OK(k), MV(s), MV(k), MV(l))
MER(rd0, (double s, double k, int l), LO(k); OK(l), MV(s), MV(k), MV(l))
MER(cd0, (double s, int k, double l), LO(l); OK(k), MV(s), MV(k), MV(l))
MER(rv0, (double s, VI & k, int l), ne(k); LO(k.d.p[0]); OK(l), MV(s), MV(k), MV(l))
MER(cv0, (double s, int k, VI & l), ne(l); LO(l.d.p[0]); OK(k), MV(s), MV(k), MV(l))
MER(rve, (double s, VI & k, int l), wf(k); vf_assume(k.d.sz == 0); OK(l), MV(s), MV(k), MV(l))
MER(cve, (double s, int k, VI & l), wf(l); vf_assume(l.d.sz == 0); OK(k), MV(s), MV(k), MV(l))
MER(vsz, (VD & v, int k, int l), ne(v); OK(k); OK(l); vf_assume(v.d.sz != (Z)k * (Z)l), MV(v), MV(k), MV(l))
MER(visz, (VI & v, int k, int l), ne(v); OK(k); OK(l); vf_assume(v.d.sz != (Z)k * (Z)l), MV(v), MV(k), MV(l))
MER(vempty, (VD & v, int k, int l), wf(v); vf_assume(v.d.sz == 0); OK(k); OK(l), MV(v), MV(k), MV(l))
MER(vvsz, (VD & v, VI & k, VI & l), ne(v); ne(k); ne(l); OK(k.d.p[0]); OK(l.d.p[0]); vf_assume(v.d.sz != (Z)k.d.p[0] * (Z)l.d.p[0]), MV(v), MV(k), MV(l))
// ---- constants kept in an AllVars object
using AV = etr::AllVars<1, 0, 0, 2>;
#define AVAL(N, FCT, PARAMS, PRE, ARG, LEN)                                      \
  IMPL(av_##N, Z, AV &av, UNPAREN PARAMS) {                                      \
    wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]); PRE;    \
    auto x = etr::FCT<1>(av, ARG);                                               \
    vf_out_z(1, av.varConstants[0].d.sz); vf_out_z(2, av.varBuffer[0].d.sz); vf_out_z(3, av.varConstants[1].d.sz); \
    return x.size();                                                             \
  }                                                                              \
  SPEC(av_##N, Z, AV &av, UNPAREN PARAMS) {                                      \
    vf_out_z(1, av.varConstants[0].d.sz); vf_out_z(2, av.varBuffer[0].d.sz); vf_out_z(3, (Z)(LEN)); return (Z)(LEN); \
  }
#define AVALL(F)                                                                 \
  AVAL(F##_i, F, (int n), OK(n), n, n) AVAL(F##_z, F, (Z n), OK(n), n, n)        \
  AVAL(F##_d, F, (double n), vf_flag(2); OK(n), n, (Z)n)                         \
  AVAL(F##_ic, F, (const int &n), OK(n), n, n) AVAL(F##_zc, F, (const Z &n), OK(n), n, n) \
  AVAL(F##_dc, F, (const double &n), vf_flag(2); OK(n), n, (Z)n)                 \
  AVAL(F##_vic, F, (const VI &n), ne(n); vf_assume(n.d.sz == 1); OK(n.d.p[0]), n, n.d.p[0]) \
  AVAL(F##_vd, F, (VD & n), vf_flag(2); ne(n); vf_assume(n.d.sz == 1); OK(n.d.p[0]), n, (Z)n.d.p[0]) \
  IMPL(avec_##F, Z, AV &av, const int &n) { vf_flag(16); wf(av.varConstants[1]); LO(n); auto x = etr::F<1>(av, n); return x.size(); } \
  SPEC(avec_##F, Z, AV &av, const int &n) { vf_throw(); }                        \
  IMPL(avenc_##F, Z, AV &av, const VI &n) { vf_flag(16); wf(av.varConstants[1]); wf(n); vf_assume(n.d.sz != 1); auto x = etr::F<1>(av, n); return x.size(); } \
  SPEC(avenc_##F, Z, AV &av, const VI &n) { vf_throw(); }                        \
  AVAL(F##_vi, F, (VI & n), ne(n); vf_assume(n.d.sz == 1); OK(n.d.p[0]), n, n.d.p[0]) \
  IMPL(ave_##F, Z, AV &av, int n) { vf_flag(16); wf(av.varConstants[1]); LO(n); auto x = etr::F<1>(av, n); return x.size(); } \
  SPEC(ave_##F, Z, AV &av, int n) { vf_throw(); }                                \
  IMPL(aven_##F, Z, AV &av, VI &n) { vf_flag(16); wf(av.varConstants[1]); wf(n); vf_assume(n.d.sz != 1); auto x = etr::F<1>(av, n); return x.size(); } \
  SPEC(aven_##F, Z, AV &av, VI &n) { vf_throw(); }
AVALL(vector_integer) AVALL(vector_logical) AVALL(vector_numeric)
// ---- constructors with a size
IMPL(c_n, double, int n, Z i) { OK(n); vf_assume(i < (Z)n); VD x(etr::SI{(Z)n}); vf_out_z(1, x.size()); vf_out_b(2, x.im()); return x.d.p[i]; }
SPEC(c_n, double, int n, Z i) { vf_out_z(1, (Z)n); vf_out_b(2, false); return 0; }
IMPL(c_0, Z) { vf_flag(16); VD x(etr::SI{0}); return x.size(); }
SPEC(c_0, Z) { vf_throw(); }
IMPL(sd, double, AV &av, double s) {
  wf(av.varConstants[0]); wf(av.varConstants[1]); auto x = etr::scalarDeriv<1>(av, s);
  vf_out_z(1, x.size()); vf_out_z(2, av.varConstants[0].d.sz);
  return av.varConstants[1].d.p[0];
}
SPEC(sd, double, AV &av, double s) { vf_out_z(1, 1); vf_out_z(2, av.varConstants[0].d.sz); return s; }
