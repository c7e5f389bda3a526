#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// a:b for the remaining combinations of operand kinds (variable, constant variable, expression, scalar) and
// types, plain and kept in an AllVars object; warnings included
using AV = etr::AllVars<1, 0, 0, 2>;
template <class T, class E> constexpr bool isE = std::is_same_v<typename std::remove_reference_t<T>::Type, E>;
#define FST(v) v.d.p[0]
#define OKI(k) vf_assume(k > -(1 << 20) && k < (1 << 20))
#define OKD(k) vf_assume(k > -1e5 && k < 1e5)
#define K(N, T, OK, PARAMS, PRE, A, B, S, F, W)                                   \
  IMPL(k_##N, T, UNPAREN PARAMS, Z i) {                                          \
    vf_flag(4 | (std::is_same_v<T, double> ? 2 : 0)); PRE; { T s = S, f = F; OK(s); OK(f); vf_assume(i < (Z)((s < f ? f - s : s - f) + 1)); } \
    auto r = etr::colon(A, B);                                                   \
    vf_out_z(1, r.size()); vf_out_b(2, r.im()); vf_out_b(3, isE<decltype(r), T>); \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(k_##N, T, UNPAREN PARAMS, Z i) {                                          \
    W; T s = S, f = F;                                                           \
    vf_out_z(1, (Z)((s < f ? f - s : s - f) + 1)); vf_out_b(2, false); vf_out_b(3, true); \
    return s < f ? s + (T)i : s - (T)i;                                          \
  }
#define A(N, T, OK, PARAMS, PRE, A, B, S, F, W)                                   \
  IMPL(a_##N, double, AV &av, UNPAREN PARAMS, Z i, Z h) {                        \
    vf_flag(4 | (std::is_same_v<T, double> ? 2 : 0)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]); vf_assume(h < av.varConstants[0].d.sz); \
    PRE; { T s = S, f = F; OK(s); OK(f); vf_assume(i < (Z)((s < f ? f - s : s - f) + 1)); } \
    auto x = etr::colon<1>(av, A, B);                                            \
    vf_out_z(1, av.varConstants[0].d.sz); vf_out_d(2, av.varConstants[0].d.p[h]); vf_out_z(3, av.varBuffer[0].d.sz); \
    vf_out_z(4, av.varConstants[1].d.sz); vf_out_z(5, x.size());                 \
    return av.varConstants[1].d.p[i];                                            \
  }                                                                              \
  SPEC(a_##N, double, AV &av, UNPAREN PARAMS, Z i, Z h) {                        \
    W; T s = S, f = F; Z n = (Z)((s < f ? f - s : s - f) + 1);                   \
    vf_out_z(1, av.varConstants[0].d.sz); vf_out_d(2, av.varConstants[0].d.p[h]); vf_out_z(3, av.varBuffer[0].d.sz); \
    vf_out_z(4, n); vf_out_z(5, n);                                              \
    return s < f ? (double)s + (double)i : (double)s - (double)i;                \
  }
// warnings of numeric ranges: only about the operands (whole-numbered ranges cut nothing off)
#define W(N, AVP, PARAMS, PRE, CALL, S, F, WRN)                                     \
  IMPL(w_##N, double, UNPAREN AVP UNPAREN PARAMS) {                              \
    vf_flag(4); PRE; { double s = S, f = F; vf_assume(s == 2 && f == 5); }        \
    auto r = CALL; return 0;                                                     \
  }                                                                              \
  SPEC(w_##N, double, UNPAREN AVP UNPAREN PARAMS) { WRN; return 0; }
K(sivi, int, OKI, (int k, VI &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
K(sivd, double, OKD, (int k, VD &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
K(sdvi, double, OKD, (double k, VI &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
K(sdvd, double, OKD, (double k, VD &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
K(sici, int, OKI, (int k, const VI &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
K(sicd, double, OKD, (int k, const VD &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
K(sdci, double, OKD, (double k, const VI &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
K(sdcd, double, OKD, (double k, const VD &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
K(sixi, int, OKI, (int k, VI &l), ne(l); OKI(FST(l)), k, l + 1, k, FST(l) + 1, vf_warn(l.d.sz == 1))
K(sixd, double, OKD, (int k, VD &l), ne(l); OKD(FST(l)), k, l + 1.0, k, FST(l) + 1.0, vf_warn(l.d.sz == 1))
K(sdxi, double, OKD, (double k, VI &l), ne(l); OKI(FST(l)), k, l + 1, k, FST(l) + 1, vf_warn(l.d.sz == 1))
K(sdxd, double, OKD, (double k, VD &l), ne(l); OKD(FST(l)), k, l + 1.0, k, FST(l) + 1.0, vf_warn(l.d.sz == 1))
K(visi, int, OKI, (VI &k, int l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
K(visd, double, OKD, (VI &k, double l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
K(vdsi, double, OKD, (VD &k, int l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
K(vdsd, double, OKD, (VD &k, double l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
K(vivi, int, OKI, (VI &k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vivd, double, OKD, (VI &k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vdvi, double, OKD, (VD &k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vdvd, double, OKD, (VD &k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vici, int, OKI, (VI &k, const VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vicd, double, OKD, (VI &k, const VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vdci, double, OKD, (VD &k, const VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vdcd, double, OKD, (VD &k, const VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vixi, int, OKI, (VI &k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vixd, double, OKD, (VI &k, VD &l), ne(k); ne(l); OKD(FST(l)), k, l + 1.0, FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vdxi, double, OKD, (VD &k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(vdxd, double, OKD, (VD &k, VD &l), ne(k); ne(l); OKD(FST(l)), k, l + 1.0, FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cisi, int, OKI, (const VI &k, int l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
K(cisd, double, OKD, (const VI &k, double l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
K(cdsi, double, OKD, (const VD &k, int l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
K(cdsd, double, OKD, (const VD &k, double l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
K(civi, int, OKI, (const VI &k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(civd, double, OKD, (const VI &k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cdvi, double, OKD, (const VD &k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cdvd, double, OKD, (const VD &k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cici, int, OKI, (const VI &k, const VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cicd, double, OKD, (const VI &k, const VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cdci, double, OKD, (const VD &k, const VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cdcd, double, OKD, (const VD &k, const VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cixi, int, OKI, (const VI &k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cixd, double, OKD, (const VI &k, VD &l), ne(k); ne(l); OKD(FST(l)), k, l + 1.0, FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cdxi, double, OKD, (const VD &k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(cdxd, double, OKD, (const VD &k, VD &l), ne(k); ne(l); OKD(FST(l)), k, l + 1.0, FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xisi, int, OKI, (VI &k, int l), ne(k); OKI(FST(k)), k + 1, l, FST(k) + 1, l, vf_warn(k.d.sz == 1))
K(xisd, double, OKD, (VI &k, double l), ne(k); OKI(FST(k)), k + 1, l, FST(k) + 1, l, vf_warn(k.d.sz == 1))
K(xdsi, double, OKD, (VD &k, int l), ne(k); OKD(FST(k)), k + 1.0, l, FST(k) + 1.0, l, vf_warn(k.d.sz == 1))
K(xdsd, double, OKD, (VD &k, double l), ne(k); OKD(FST(k)), k + 1.0, l, FST(k) + 1.0, l, vf_warn(k.d.sz == 1))
K(xivi, int, OKI, (VI &k, VI &l), ne(k); OKI(FST(k)); ne(l), k + 1, l, FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xivd, double, OKD, (VI &k, VD &l), ne(k); OKI(FST(k)); ne(l), k + 1, l, FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xdvi, double, OKD, (VD &k, VI &l), ne(k); OKD(FST(k)); ne(l), k + 1.0, l, FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xdvd, double, OKD, (VD &k, VD &l), ne(k); OKD(FST(k)); ne(l), k + 1.0, l, FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xici, int, OKI, (VI &k, const VI &l), ne(k); OKI(FST(k)); ne(l), k + 1, l, FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xicd, double, OKD, (VI &k, const VD &l), ne(k); OKI(FST(k)); ne(l), k + 1, l, FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xdci, double, OKD, (VD &k, const VI &l), ne(k); OKD(FST(k)); ne(l), k + 1.0, l, FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xdcd, double, OKD, (VD &k, const VD &l), ne(k); OKD(FST(k)); ne(l), k + 1.0, l, FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xixi, int, OKI, (VI &k, VI &l), ne(k); OKI(FST(k)); ne(l); OKI(FST(l)), k + 1, l + 1, FST(k) + 1, FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xixd, double, OKD, (VI &k, VD &l), ne(k); OKI(FST(k)); ne(l); OKD(FST(l)), k + 1, l + 1.0, FST(k) + 1, FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xdxi, double, OKD, (VD &k, VI &l), ne(k); OKD(FST(k)); ne(l); OKI(FST(l)), k + 1.0, l + 1, FST(k) + 1.0, FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
K(xdxd, double, OKD, (VD &k, VD &l), ne(k); OKD(FST(k)); ne(l); OKD(FST(l)), k + 1.0, l + 1.0, FST(k) + 1.0, FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(sivi, int, OKI, (int k, VI &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
A(sivd, double, OKD, (int k, VD &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
A(sdvi, double, OKD, (double k, VI &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
A(sdvd, double, OKD, (double k, VD &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
A(sici, int, OKI, (int k, const VI &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
A(sicd, double, OKD, (int k, const VD &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
A(sdci, double, OKD, (double k, const VI &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
A(sdcd, double, OKD, (double k, const VD &l), ne(l), k, l, k, FST(l), vf_warn(l.d.sz == 1))
A(sixi, int, OKI, (int k, VI &l), ne(l); OKI(FST(l)), k, l + 1, k, FST(l) + 1, vf_warn(l.d.sz == 1))
A(sixd, double, OKD, (int k, VD &l), ne(l); OKD(FST(l)), k, l + 1.0, k, FST(l) + 1.0, vf_warn(l.d.sz == 1))
A(sdxi, double, OKD, (double k, VI &l), ne(l); OKI(FST(l)), k, l + 1, k, FST(l) + 1, vf_warn(l.d.sz == 1))
A(sdxd, double, OKD, (double k, VD &l), ne(l); OKD(FST(l)), k, l + 1.0, k, FST(l) + 1.0, vf_warn(l.d.sz == 1))
A(visi, int, OKI, (VI &k, int l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
A(visd, double, OKD, (VI &k, double l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
A(vdsi, double, OKD, (VD &k, int l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
A(vdsd, double, OKD, (VD &k, double l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
A(vivi, int, OKI, (VI &k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vivd, double, OKD, (VI &k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vdvi, double, OKD, (VD &k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vdvd, double, OKD, (VD &k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vici, int, OKI, (VI &k, const VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vicd, double, OKD, (VI &k, const VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vdci, double, OKD, (VD &k, const VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vdcd, double, OKD, (VD &k, const VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vixi, int, OKI, (VI &k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vixd, double, OKD, (VI &k, VD &l), ne(k); ne(l); OKD(FST(l)), k, l + 1.0, FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vdxi, double, OKD, (VD &k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(vdxd, double, OKD, (VD &k, VD &l), ne(k); ne(l); OKD(FST(l)), k, l + 1.0, FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cisi, int, OKI, (const VI &k, int l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
A(cisd, double, OKD, (const VI &k, double l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
A(cdsi, double, OKD, (const VD &k, int l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
A(cdsd, double, OKD, (const VD &k, double l), ne(k), k, l, FST(k), l, vf_warn(k.d.sz == 1))
A(civi, int, OKI, (const VI &k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(civd, double, OKD, (const VI &k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cdvi, double, OKD, (const VD &k, VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cdvd, double, OKD, (const VD &k, VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cici, int, OKI, (const VI &k, const VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cicd, double, OKD, (const VI &k, const VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cdci, double, OKD, (const VD &k, const VI &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cdcd, double, OKD, (const VD &k, const VD &l), ne(k); ne(l), k, l, FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cixi, int, OKI, (const VI &k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cixd, double, OKD, (const VI &k, VD &l), ne(k); ne(l); OKD(FST(l)), k, l + 1.0, FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cdxi, double, OKD, (const VD &k, VI &l), ne(k); ne(l); OKI(FST(l)), k, l + 1, FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(cdxd, double, OKD, (const VD &k, VD &l), ne(k); ne(l); OKD(FST(l)), k, l + 1.0, FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xisi, int, OKI, (VI &k, int l), ne(k); OKI(FST(k)), k + 1, l, FST(k) + 1, l, vf_warn(k.d.sz == 1))
A(xisd, double, OKD, (VI &k, double l), ne(k); OKI(FST(k)), k + 1, l, FST(k) + 1, l, vf_warn(k.d.sz == 1))
A(xdsi, double, OKD, (VD &k, int l), ne(k); OKD(FST(k)), k + 1.0, l, FST(k) + 1.0, l, vf_warn(k.d.sz == 1))
A(xdsd, double, OKD, (VD &k, double l), ne(k); OKD(FST(k)), k + 1.0, l, FST(k) + 1.0, l, vf_warn(k.d.sz == 1))
A(xivi, int, OKI, (VI &k, VI &l), ne(k); OKI(FST(k)); ne(l), k + 1, l, FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xivd, double, OKD, (VI &k, VD &l), ne(k); OKI(FST(k)); ne(l), k + 1, l, FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xdvi, double, OKD, (VD &k, VI &l), ne(k); OKD(FST(k)); ne(l), k + 1.0, l, FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xdvd, double, OKD, (VD &k, VD &l), ne(k); OKD(FST(k)); ne(l), k + 1.0, l, FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xici, int, OKI, (VI &k, const VI &l), ne(k); OKI(FST(k)); ne(l), k + 1, l, FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xicd, double, OKD, (VI &k, const VD &l), ne(k); OKI(FST(k)); ne(l), k + 1, l, FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xdci, double, OKD, (VD &k, const VI &l), ne(k); OKD(FST(k)); ne(l), k + 1.0, l, FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xdcd, double, OKD, (VD &k, const VD &l), ne(k); OKD(FST(k)); ne(l), k + 1.0, l, FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xixi, int, OKI, (VI &k, VI &l), ne(k); OKI(FST(k)); ne(l); OKI(FST(l)), k + 1, l + 1, FST(k) + 1, FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xixd, double, OKD, (VI &k, VD &l), ne(k); OKI(FST(k)); ne(l); OKD(FST(l)), k + 1, l + 1.0, FST(k) + 1, FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xdxi, double, OKD, (VD &k, VI &l), ne(k); OKD(FST(k)); ne(l); OKI(FST(l)), k + 1.0, l + 1, FST(k) + 1.0, FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
A(xdxd, double, OKD, (VD &k, VD &l), ne(k); OKD(FST(k)); ne(l); OKD(FST(l)), k + 1.0, l + 1.0, FST(k) + 1.0, FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_sivd, (), (int k, VD &l), ne(l), (etr::colon(k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(k_sdvi, (), (double k, VI &l), ne(l), (etr::colon(k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(k_sdvd, (), (double k, VD &l), ne(l), (etr::colon(k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(k_sicd, (), (int k, const VD &l), ne(l), (etr::colon(k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(k_sdci, (), (double k, const VI &l), ne(l), (etr::colon(k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(k_sdcd, (), (double k, const VD &l), ne(l), (etr::colon(k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(k_sixd, (), (int k, VD &l), ne(l); OKD(FST(l)), (etr::colon(k, l + 1.0)), k, FST(l) + 1.0, vf_warn(l.d.sz == 1))
W(k_sdxi, (), (double k, VI &l), ne(l); OKI(FST(l)), (etr::colon(k, l + 1)), k, FST(l) + 1, vf_warn(l.d.sz == 1))
W(k_sdxd, (), (double k, VD &l), ne(l); OKD(FST(l)), (etr::colon(k, l + 1.0)), k, FST(l) + 1.0, vf_warn(l.d.sz == 1))
W(k_visd, (), (VI &k, double l), ne(k), (etr::colon(k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(k_vdsi, (), (VD &k, int l), ne(k), (etr::colon(k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(k_vdsd, (), (VD &k, double l), ne(k), (etr::colon(k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(k_vivd, (), (VI &k, VD &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_vdvi, (), (VD &k, VI &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_vdvd, (), (VD &k, VD &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_vicd, (), (VI &k, const VD &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_vdci, (), (VD &k, const VI &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_vdcd, (), (VD &k, const VD &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_vixd, (), (VI &k, VD &l), ne(k); ne(l); OKD(FST(l)), (etr::colon(k, l + 1.0)), FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_vdxi, (), (VD &k, VI &l), ne(k); ne(l); OKI(FST(l)), (etr::colon(k, l + 1)), FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_vdxd, (), (VD &k, VD &l), ne(k); ne(l); OKD(FST(l)), (etr::colon(k, l + 1.0)), FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cisd, (), (const VI &k, double l), ne(k), (etr::colon(k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(k_cdsi, (), (const VD &k, int l), ne(k), (etr::colon(k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(k_cdsd, (), (const VD &k, double l), ne(k), (etr::colon(k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(k_civd, (), (const VI &k, VD &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cdvi, (), (const VD &k, VI &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cdvd, (), (const VD &k, VD &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cicd, (), (const VI &k, const VD &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cdci, (), (const VD &k, const VI &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cdcd, (), (const VD &k, const VD &l), ne(k); ne(l), (etr::colon(k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cixd, (), (const VI &k, VD &l), ne(k); ne(l); OKD(FST(l)), (etr::colon(k, l + 1.0)), FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cdxi, (), (const VD &k, VI &l), ne(k); ne(l); OKI(FST(l)), (etr::colon(k, l + 1)), FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_cdxd, (), (const VD &k, VD &l), ne(k); ne(l); OKD(FST(l)), (etr::colon(k, l + 1.0)), FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xisd, (), (VI &k, double l), ne(k); OKI(FST(k)), (etr::colon(k + 1, l)), FST(k) + 1, l, vf_warn(k.d.sz == 1))
W(k_xdsi, (), (VD &k, int l), ne(k); OKD(FST(k)), (etr::colon(k + 1.0, l)), FST(k) + 1.0, l, vf_warn(k.d.sz == 1))
W(k_xdsd, (), (VD &k, double l), ne(k); OKD(FST(k)), (etr::colon(k + 1.0, l)), FST(k) + 1.0, l, vf_warn(k.d.sz == 1))
W(k_xivd, (), (VI &k, VD &l), ne(k); OKI(FST(k)); ne(l), (etr::colon(k + 1, l)), FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xdvi, (), (VD &k, VI &l), ne(k); OKD(FST(k)); ne(l), (etr::colon(k + 1.0, l)), FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xdvd, (), (VD &k, VD &l), ne(k); OKD(FST(k)); ne(l), (etr::colon(k + 1.0, l)), FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xicd, (), (VI &k, const VD &l), ne(k); OKI(FST(k)); ne(l), (etr::colon(k + 1, l)), FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xdci, (), (VD &k, const VI &l), ne(k); OKD(FST(k)); ne(l), (etr::colon(k + 1.0, l)), FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xdcd, (), (VD &k, const VD &l), ne(k); OKD(FST(k)); ne(l), (etr::colon(k + 1.0, l)), FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xixd, (), (VI &k, VD &l), ne(k); OKI(FST(k)); ne(l); OKD(FST(l)), (etr::colon(k + 1, l + 1.0)), FST(k) + 1, FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xdxi, (), (VD &k, VI &l), ne(k); OKD(FST(k)); ne(l); OKI(FST(l)), (etr::colon(k + 1.0, l + 1)), FST(k) + 1.0, FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(k_xdxd, (), (VD &k, VD &l), ne(k); OKD(FST(k)); ne(l); OKD(FST(l)), (etr::colon(k + 1.0, l + 1.0)), FST(k) + 1.0, FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_sivd, (AV &av, ), (int k, VD &l), ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(a_sdvi, (AV &av, ), (double k, VI &l), ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(a_sdvd, (AV &av, ), (double k, VD &l), ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(a_sicd, (AV &av, ), (int k, const VD &l), ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(a_sdci, (AV &av, ), (double k, const VI &l), ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(a_sdcd, (AV &av, ), (double k, const VD &l), ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), k, FST(l), vf_warn(l.d.sz == 1))
W(a_sixd, (AV &av, ), (int k, VD &l), ne(l); OKD(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1.0)), k, FST(l) + 1.0, vf_warn(l.d.sz == 1))
W(a_sdxi, (AV &av, ), (double k, VI &l), ne(l); OKI(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1)), k, FST(l) + 1, vf_warn(l.d.sz == 1))
W(a_sdxd, (AV &av, ), (double k, VD &l), ne(l); OKD(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1.0)), k, FST(l) + 1.0, vf_warn(l.d.sz == 1))
W(a_visd, (AV &av, ), (VI &k, double l), ne(k); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(a_vdsi, (AV &av, ), (VD &k, int l), ne(k); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(a_vdsd, (AV &av, ), (VD &k, double l), ne(k); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(a_vivd, (AV &av, ), (VI &k, VD &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_vdvi, (AV &av, ), (VD &k, VI &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_vdvd, (AV &av, ), (VD &k, VD &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_vicd, (AV &av, ), (VI &k, const VD &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_vdci, (AV &av, ), (VD &k, const VI &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_vdcd, (AV &av, ), (VD &k, const VD &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_vixd, (AV &av, ), (VI &k, VD &l), ne(k); ne(l); OKD(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1.0)), FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_vdxi, (AV &av, ), (VD &k, VI &l), ne(k); ne(l); OKI(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1)), FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_vdxd, (AV &av, ), (VD &k, VD &l), ne(k); ne(l); OKD(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1.0)), FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cisd, (AV &av, ), (const VI &k, double l), ne(k); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(a_cdsi, (AV &av, ), (const VD &k, int l), ne(k); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(a_cdsd, (AV &av, ), (const VD &k, double l), ne(k); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), l, vf_warn(k.d.sz == 1))
W(a_civd, (AV &av, ), (const VI &k, VD &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cdvi, (AV &av, ), (const VD &k, VI &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cdvd, (AV &av, ), (const VD &k, VD &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cicd, (AV &av, ), (const VI &k, const VD &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cdci, (AV &av, ), (const VD &k, const VI &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cdcd, (AV &av, ), (const VD &k, const VD &l), ne(k); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l)), FST(k), FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cixd, (AV &av, ), (const VI &k, VD &l), ne(k); ne(l); OKD(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1.0)), FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cdxi, (AV &av, ), (const VD &k, VI &l), ne(k); ne(l); OKI(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1)), FST(k), FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_cdxd, (AV &av, ), (const VD &k, VD &l), ne(k); ne(l); OKD(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k, l + 1.0)), FST(k), FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xisd, (AV &av, ), (VI &k, double l), ne(k); OKI(FST(k)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1, l)), FST(k) + 1, l, vf_warn(k.d.sz == 1))
W(a_xdsi, (AV &av, ), (VD &k, int l), ne(k); OKD(FST(k)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1.0, l)), FST(k) + 1.0, l, vf_warn(k.d.sz == 1))
W(a_xdsd, (AV &av, ), (VD &k, double l), ne(k); OKD(FST(k)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1.0, l)), FST(k) + 1.0, l, vf_warn(k.d.sz == 1))
W(a_xivd, (AV &av, ), (VI &k, VD &l), ne(k); OKI(FST(k)); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1, l)), FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xdvi, (AV &av, ), (VD &k, VI &l), ne(k); OKD(FST(k)); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1.0, l)), FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xdvd, (AV &av, ), (VD &k, VD &l), ne(k); OKD(FST(k)); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1.0, l)), FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xicd, (AV &av, ), (VI &k, const VD &l), ne(k); OKI(FST(k)); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1, l)), FST(k) + 1, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xdci, (AV &av, ), (VD &k, const VI &l), ne(k); OKD(FST(k)); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1.0, l)), FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xdcd, (AV &av, ), (VD &k, const VD &l), ne(k); OKD(FST(k)); ne(l); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1.0, l)), FST(k) + 1.0, FST(l), vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xixd, (AV &av, ), (VI &k, VD &l), ne(k); OKI(FST(k)); ne(l); OKD(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1, l + 1.0)), FST(k) + 1, FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xdxi, (AV &av, ), (VD &k, VI &l), ne(k); OKD(FST(k)); ne(l); OKI(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1.0, l + 1)), FST(k) + 1.0, FST(l) + 1, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
W(a_xdxd, (AV &av, ), (VD &k, VD &l), ne(k); OKD(FST(k)); ne(l); OKD(FST(l)); wf(av.varConstants[0]); wf(av.varConstants[1]); wf(av.varBuffer[0]), (etr::colon<1>(av, k + 1.0, l + 1.0)), FST(k) + 1.0, FST(l) + 1.0, vf_warn(k.d.sz == 1); vf_warn(l.d.sz == 1))
