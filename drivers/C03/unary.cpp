#include "vf.hpp"
// f(a) has the length of a and element i is f(a_i)
#define UN(N, CALL, TA, SPECEXPR)                                                \
  IMPL(N, double, const TA &a, Z i) {                                            \
    ne(a); vf_assume(i < len(a));                                                \
    const auto &x = CALL(a);                                                     \
    vf_out_z(1, x.size());                                                       \
    return x[i];                                                                 \
  }                                                                              \
  SPEC(N, double, const TA &a, Z i) {                                            \
    double l = el(a, i);                                                         \
    vf_out_z(1, len(a));                                                         \
    return SPECEXPR;                                                             \
  }
#define ALL(N, TA)                                                               \
  UN(sin_##N, etr::sinus, TA, std::sin(l)) UN(sinh_##N, etr::sinush, TA, std::sinh(l)) \
  UN(asin_##N, etr::asinus, TA, std::asin(l)) UN(cos_##N, etr::cosinus, TA, std::cos(l)) \
  UN(cosh_##N, etr::cosinush, TA, std::cosh(l)) UN(acos_##N, etr::acosinus, TA, std::acos(l)) \
  UN(tan_##N, etr::tangens, TA, std::tan(l)) UN(tanh_##N, etr::tangensh, TA, std::tanh(l)) \
  UN(atan_##N, etr::atangens, TA, std::atan(l)) UN(ln_##N, etr::ln, TA, std::log(l)) \
  UN(sqrt_##N, etr::sqroot, TA, std::sqrt(l)) UN(exp_##N, etr::exp, TA, std::exp(l)) \
  UN(neg_##N, -, TA, -el(a, i))
ALL(d, VD) ALL(i, VI) ALL(B, BD) 
#ifdef FULL
ALL(b, VB)
#endif
// scalars
#define SC(N, CALL, SPECEXPR)                                                    \
  IMPL(N, double, double a) { return CALL(a); }                                  \
  SPEC(N, double, double a) { double l = a; return SPECEXPR; }
SC(sin_s, etr::sinus, std::sin(l)) SC(sinh_s, etr::sinush, std::sinh(l)) SC(asin_s, etr::asinus, std::asin(l))
SC(cos_s, etr::cosinus, std::cos(l)) SC(cosh_s, etr::cosinush, std::cosh(l)) SC(acos_s, etr::acosinus, std::acos(l))
SC(tan_s, etr::tangens, std::tan(l)) SC(tanh_s, etr::tangensh, std::tanh(l)) SC(atan_s, etr::atangens, std::atan(l))
SC(ln_s, etr::ln, std::log(l)) SC(sqrt_s, etr::sqroot, std::sqrt(l)) SC(exp_s, etr::exp, std::exp(l))
// compound operands: f(a + b), f(g(a)), and a + f(b)
#define CX(N, CALL, SPECEXPR)                                                    \
  IMPL(N##_sum, double, const VD &a, const VI &b, Z i) {                         \
    ne(a); ne(b); vf_assume(i < len2(a, b));                                     \
    const auto &y = a + b; const auto &x = CALL(y);                              \
    vf_out_z(1, x.size());                                                       \
    return x[i];                                                                 \
  }                                                                              \
  SPEC(N##_sum, double, const VD &a, const VI &b, Z i) {                         \
    double l = el(a, i) + el(b, i); vf_out_z(1, len2(a, b)); return SPECEXPR;    \
  }                                                                              \
  IMPL(N##_in, double, const VD &a, const VD &b, Z i) {                          \
    ne(a); ne(b); vf_assume(i < len2(a, b));                                     \
    const auto &y = CALL(b); const auto &x = a * y;                              \
    vf_out_z(1, x.size());                                                       \
    return x[i];                                                                 \
  }                                                                              \
  SPEC(N##_in, double, const VD &a, const VD &b, Z i) {                          \
    double l = el(b, i); vf_out_z(1, len2(a, b)); return el(a, i) * (SPECEXPR);  \
  }                                                                              \
  IMPL(N##_nest, double, const VD &a, Z i) {                                     \
    ne(a); vf_assume(i < len(a));                                                \
    const auto &y = -a; const auto &x = CALL(y);                                 \
    vf_out_z(1, x.size());                                                       \
    return x[i];                                                                 \
  }                                                                              \
  SPEC(N##_nest, double, const VD &a, Z i) {                                     \
    double l = -el(a, i); vf_out_z(1, len(a)); return SPECEXPR;                  \
  }                                                                              \
  IMPL(N##_empty, double, const VD &a, Z i) {                                    \
    wf(a); vf_assume(a.d.sz == 0);                                               \
    vf_flag(16);                                                                 \
    const auto &x = CALL(a);                                                     \
    return x[i];                                                                 \
  }                                                                              \
  SPEC(N##_empty, double, const VD &a, Z i) { vf_throw(); }                      \
  /* a vector built from the expression owns the computed values */              \
  IMPL(N##_store, double, VD &r, const VD &a, Z i) {                             \
    wf(r); ne(a); vf_assume(i < len(a));                                         \
    const auto &y = CALL(a);                                                     \
    r = y;                                                                       \
    vf_out_z(1, r.d.sz);                                                         \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(N##_store, double, VD &r, const VD &a, Z i) {                             \
    double l = el(a, i); vf_out_z(1, len(a)); return SPECEXPR;                   \
  }
CX(sin, etr::sinus, std::sin(l)) CX(sinh, etr::sinush, std::sinh(l)) CX(asin, etr::asinus, std::asin(l))
CX(cos, etr::cosinus, std::cos(l)) CX(cosh, etr::cosinush, std::cosh(l)) CX(acos, etr::acosinus, std::acos(l))
CX(tan, etr::tangens, std::tan(l)) CX(tanh, etr::tangensh, std::tanh(l)) CX(atan, etr::atangens, std::atan(l))
CX(ln, etr::ln, std::log(l)) CX(sqrt, etr::sqroot, std::sqrt(l)) CX(exp, etr::exp, std::exp(l)) CX(neg, -, -l)
