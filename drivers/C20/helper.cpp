#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
#define IS(N, PARAMS, PRE, CALL, LEN, EL)                                            \
  IMPL(is_##N, bool, UNPAREN PARAMS, Z i) { PRE; vf_assume(i < (Z)(LEN)); auto r = CALL; vf_out_z(1, r.d.sz); vf_out_b(2, r.d.mp.ismatrix); \
    static_assert(std::is_same_v<std::remove_cvref_t<decltype(r.d.p[0])>, bool>); return r.d.p[i]; } \
  SPEC(is_##N, bool, UNPAREN PARAMS, Z i) { vf_out_z(1, LEN); vf_out_b(2, false); return EL; }
#define NANF(x) ((x) != (x))
#define INFF(x) (std::fabs(x) > 1.7976931348623157e308)
IS(na_v, (VD &a), ne(a), etr::isNA(a), a.d.sz, NANF(a.d.p[i]))
IS(na_cv, (const VD &a), ne(a), etr::isNA(a), a.d.sz, NANF(a.d.p[i]))
IS(na_bo, (BD &a), ne(a), etr::isNA(a), a.d.sz, NANF(a.d.p[i]))
IS(na_i, (VI &a), ne(a), etr::isNA(a), a.d.sz, false)
IS(na_b, (VB &a), ne(a), etr::isNA(a), a.d.sz, false)
IS(na_add, (VD &a, VD &b), ne(a); ne(b), etr::isNA(a + b), len2(a, b), NANF(el(a, i) + el(b, i)))
IS(na_div, (VD &a, VD &b), ne(a); ne(b), etr::isNA(a / b), len2(a, b), NANF(el(a, i) / el(b, i)))
IS(inf_v, (VD &a), ne(a), etr::isInf(a), a.d.sz, INFF(a.d.p[i]))
IS(inf_cv, (const VD &a), ne(a), etr::isInf(a), a.d.sz, INFF(a.d.p[i]))
IS(inf_bo, (BD &a), ne(a), etr::isInf(a), a.d.sz, INFF(a.d.p[i]))
IS(inf_i, (VI &a), ne(a), etr::isInf(a), a.d.sz, false)
IS(inf_b, (VB &a), ne(a), etr::isInf(a), a.d.sz, false)
IS(inf_add, (VD &a, VD &b), ne(a); ne(b), etr::isInf(a + b), len2(a, b), INFF(el(a, i) + el(b, i)))
IS(inf_div, (VD &a, VD &b), ne(a); ne(b), etr::isInf(a / b), len2(a, b), INFF(el(a, i) / el(b, i)))
// kept in a variable
#define ISA(N, PARAMS, PRE, CALL, LEN, EL)                                           \
  IMPL(isa_##N, bool, VB &r, UNPAREN PARAMS, Z i) { wf(r); PRE; vf_assume(i < (Z)(LEN)); r = CALL; vf_out_z(1, r.d.sz); return r.d.p[i]; } \
  SPEC(isa_##N, bool, VB &r, UNPAREN PARAMS, Z i) { vf_out_z(1, LEN); return EL; }
ISA(na, (VD &a), ne(a), etr::isNA(a), a.d.sz, NANF(a.d.p[i]))
ISA(inf, (VD &a), ne(a), etr::isInf(a), a.d.sz, INFF(a.d.p[i]))
ISA(naself, (VB &a), ne(a), etr::isNA(a), a.d.sz, false)
// scalars
#define SC(N, T, R, CALL, EL) IMPL(sc_##N, R, T a) { return CALL; } SPEC(sc_##N, R, T a) { return EL; }
SC(na_d, double, bool, etr::isNA(a), NANF(a)) SC(na_i, int, bool, etr::isNA(a), false) SC(na_b, bool, bool, etr::isNA(a), false)
SC(inf_d, double, bool, etr::isInf(a), INFF(a)) SC(inf_i, int, bool, etr::isInf(a), false)
SC(na_D, double, bool, etr::ISNA(a), NANF(a)) SC(inf_D, double, bool, etr::ISInfinite(a), INFF(a))
SC(len_d, double, Z, etr::length(a), 1) SC(len_i, int, Z, etr::length(a), 1)
SC(d2i, double, int, (vf_assume(a > -1e9 && a < 1e9), etr::d2i(a)), (int)a)
SC(i2d, int, double, etr::i2d(a), (double)a) SC(d2b, double, bool, etr::d2b(a), a != 0) SC(i2b, int, bool, etr::i2b(a), a != 0) SC(b2d, bool, double, etr::b2d(a), a ? 1.0 : 0.0)
// the named constants
IMPL(const_na, bool, int x) { return etr::isNA(std::numeric_limits<double>::quiet_NaN()); } SPEC(const_na, bool, int x) { return true; }
// the operand stays
#define KP(N, T, F) IMPL(kp_##N, double, T &a, Z i) { ne(a); vf_assume(i < a.d.sz); auto r = etr::F(a); vf_out_z(1, a.d.sz); vf_out_b(2, a.d.mp.ismatrix); return a.d.p[i]; } \
  SPEC(kp_##N, double, T &a, Z i) { vf_out_z(1, a.d.sz); vf_out_b(2, a.d.mp.ismatrix); return a.d.p[i]; }
KP(na, VD, isNA) KP(inf, VD, isInf) KP(nab, BD, isNA) KP(infi, VI, isInf)
