#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
using AV = etr::AllVars<3, 1, 0, 2>;
template <int I> using VP = etr::Vec<double, etr::VarPointer<AV, I, 0>, etr::VariableTypeTrait>;
using BP = etr::Vec<double, etr::VarPointer<AV, 0, 1>, etr::VariableTypeTrait>;
using CP = etr::Vec<double, etr::VarPointer<AV &, 0, -1, etr::ConstantTypeTrait>, etr::ConstantTypeTrait>;
#define VV(k) av.varBuffer[k].d
#define DD(k) av.varBufferDerivs[k]
// a state between two assignments: every variable has as many derivatives as elements
inline void st(AV &av) {
#define ST1(k) ne(av.varBuffer[k]); const_cast<Z &>(DD(k).sz) = VV(k).sz; inv(DD(k));
  ST1(0) ST1(1) ST1(2)
  ne(av.varBorrow[0]); const_cast<Z &>(av.varBorrowDerivs[0].sz) = av.varBorrow[0].d.sz; inv(av.varBorrowDerivs[0]);
  ne(av.varConstants[0]); ne(av.varConstants[1]); vf_assume(!av.varConstants[0].d.mp.ismatrix);
}
#define VA(k) VV(k).p[i % VV(k).sz]
#define DA(k) DD(k).p[i % VV(k).sz]
#define VJ(k, j) VV(k).p[(j) % VV(k).sz]
#define DJ(k, j) DD(k).p[(j) % VV(k).sz]
#define CV av.varConstants[0].d.p[i % av.varConstants[0].d.sz]
#define LC av.varConstants[0].d.sz
#define VBo av.varBorrow[0].d.p[i % av.varBorrow[0].d.sz]
#define DBo av.varBorrowDerivs[0].p[i % av.varBorrow[0].d.sz]
#define LBo av.varBorrow[0].d.sz
#define L(k) VV(k).sz
#define M2(a, b) zmax(a, b)
// variable T is assigned EXPR: its values are VAL, its derivatives DER, of the common length LEN; variable O keeps both
#define AS(N, PARAMS, PRE, T, O, EXPR, LEN, VAL, DER)                            \
  IMPL(as_##N, double, AV &av, UNPAREN PARAMS, Z i, Z h) {                       \
    st(av); PRE; vf_assume(i < LEN); vf_assume(h < L(O));                        \
    VP<0> a(av); VP<1> b(av); VP<2> c(av); BP q(av); CP u(av);                   \
    VP<T> t(av);                                                                 \
    t = EXPR;                                                                    \
    vf_out_z(1, VV(T).sz); vf_out_z(2, DD(T).sz); vf_out_d(3, DD(T).p[i]);       \
    vf_out_z(4, VV(O).sz); vf_out_z(5, DD(O).sz); vf_out_d(6, VV(O).p[h]); vf_out_d(7, DD(O).p[h]); \
    return VV(T).p[i];                                                           \
  }                                                                              \
  SPEC(as_##N, double, AV &av, UNPAREN PARAMS, Z i, Z h) {                       \
    vf_out_z(1, LEN); vf_out_z(2, LEN); vf_out_d(3, DER);                        \
    vf_out_z(4, VV(O).sz); vf_out_z(5, VV(O).sz); vf_out_d(6, VV(O).p[h]); vf_out_d(7, DD(O).p[h]); \
    return VAL;                                                                  \
  }
#define SAMESZ vf_assume(L(0) == L(1) && L(1) == L(2))
AS(add, (int z), (void)z, 2, 0, a + b, M2(L(0), L(1)), VA(0) + VA(1), DA(0) + DA(1))
AS(sub, (int z), (void)z, 2, 1, a - b, M2(L(0), L(1)), VA(0) - VA(1), DA(0) - DA(1))
AS(mul, (int z), (void)z, 2, 0, a * b, M2(L(0), L(1)), VA(0) * VA(1), DA(0) * VA(1) + DA(1) * VA(0))
AS(div, (int z), (void)z, 2, 1, a / b, M2(L(0), L(1)), VA(0) / VA(1), (DA(0) * VA(1) - VA(0) * DA(1)) / std::pow(VA(1), 2))
AS(sin, (int z), (void)z, 2, 0, etr::sinus(a), L(0), std::sin(VA(0)), std::cos(VA(0)) * DA(0))
AS(sq, (int z), (void)z, 2, 0, a * a, L(0), VA(0) * VA(0), DA(0) * VA(0) + DA(0) * VA(0))
AS(var, (int z), (void)z, 2, 0, a, L(0), VA(0), DA(0))
AS(eq, (int z), (void)z, 2, 0, a == b, M2(L(0), L(1)), std::fabs(VA(0) - VA(1)) < 1e-3, 0)
AS(lt, (int z), (void)z, 2, 0, a < b, M2(L(0), L(1)), VA(0) < VA(1), 0)
AS(ge, (int z), (void)z, 2, 0, a >= b, M2(L(0), L(1)), VA(0) >= VA(1), 0)
AS(le, (int z), (void)z, 2, 0, a <= b, M2(L(0), L(1)), VA(0) <= VA(1), 0)
AS(gt, (int z), (void)z, 2, 0, a > b, M2(L(0), L(1)), VA(0) > VA(1), 0)
AS(ne, (int z), (void)z, 2, 0, a != b, M2(L(0), L(1)), !(std::fabs(VA(0) - VA(1)) < 1e-3), 0)
// the target occurs on the right
AS(self_add, (int z), (void)z, 0, 1, a + b, M2(L(0), L(1)), VA(0) + VA(1), DA(0) + DA(1))
AS(self_mul, (int z), (void)z, 0, 1, b * a, M2(L(0), L(1)), VA(1) * VA(0), DA(1) * VA(0) + DA(0) * VA(1))
AS(self_sq, (int z), (void)z, 0, 1, a * a, L(0), VA(0) * VA(0), DA(0) * VA(0) + DA(0) * VA(0))
AS(self_sin, (int z), (void)z, 1, 0, etr::sinus(b), L(1), std::sin(VA(1)), std::cos(VA(1)) * DA(1))
AS(self_div, (int z), (void)z, 1, 0, a / b, M2(L(0), L(1)), VA(0) / VA(1), (DA(0) * VA(1) - VA(0) * DA(1)) / std::pow(VA(1), 2))
// nested
AS(mulsin, (int z), SAMESZ, 2, 0, etr::sinus(a * b), L(0), std::sin(VA(0) * VA(1)), std::cos(VA(0) * VA(1)) * (DA(0) * VA(1) + DA(1) * VA(0)))
AS(sinmul, (int z), SAMESZ, 2, 0, etr::sinus(a) * b, L(0), std::sin(VA(0)) * VA(1), std::cos(VA(0)) * DA(0) * VA(1) + DA(1) * std::sin(VA(0)))
AS(addmul, (int z), SAMESZ, 2, 1, (a + b) * a, L(0), (VA(0) + VA(1)) * VA(0), (DA(0) + DA(1)) * VA(0) + DA(0) * (VA(0) + VA(1)))
AS(submul, (int z), SAMESZ, 2, 1, a * (a - b), L(0), VA(0) * (VA(0) - VA(1)), DA(0) * (VA(0) - VA(1)) + (DA(0) - DA(1)) * VA(0))
AS(divsub, (int z), SAMESZ, 2, 0, a / b - b, L(0), VA(0) / VA(1) - VA(1), (DA(0) * VA(1) - VA(0) * DA(1)) / std::pow(VA(1), 2) - DA(1))
AS(divadd, (int z), SAMESZ, 2, 0, a / (a + b), L(0), VA(0) / (VA(0) + VA(1)), (DA(0) * (VA(0) + VA(1)) - VA(0) * (DA(0) + DA(1))) / std::pow(VA(0) + VA(1), 2))
AS(mul3, (int z), SAMESZ, 2, 0, a * b * b, L(0), VA(0) * VA(1) * VA(1), (DA(0) * VA(1) + DA(1) * VA(0)) * VA(1) + DA(1) * (VA(0) * VA(1)))
AS(sinsin, (int z), SAMESZ, 2, 0, etr::sinus(etr::sinus(a)), L(0), std::sin(std::sin(VA(0))), std::cos(std::sin(VA(0))) * (std::cos(VA(0)) * DA(0)))
// nested operands of different lengths: each operand recycles as a whole
#define N01 (i % M2(L(0), L(1)))
AS(three, (int z), (void)z, 2, 0, a * b + c, M2(M2(L(0), L(1)), L(2)), VJ(0, N01) * VJ(1, N01) + VA(2), (DJ(0, N01) * VJ(1, N01) + DJ(1, N01) * VJ(0, N01)) + DA(2))
AS(three2, (int z), (void)z, 2, 0, c * (a + b), M2(L(2), M2(L(0), L(1))), VA(2) * (VJ(0, N01) + VJ(1, N01)), (DJ(0, N01) + DJ(1, N01)) * VA(2) + DA(2) * (VJ(0, N01) + VJ(1, N01)))
AS(three3, (int z), (void)z, 2, 0, c / etr::sinus(a), M2(L(2), L(0)), VA(2) / std::sin(VA(0)), (DA(2) * std::sin(VA(0)) - VA(2) * (std::cos(VA(0)) * DA(0))) / std::pow(std::sin(VA(0)), 2))
AS(three4, (int z), (void)z, 1, 0, c - a / b, M2(L(2), M2(L(0), L(1))), VA(2) - VJ(0, N01) / VJ(1, N01), DA(2) - (DJ(0, N01) * VJ(1, N01) - VJ(0, N01) * DJ(1, N01)) / std::pow(VJ(1, N01), 2))
// constants
AS(cons, (int z), (void)z, 2, 0, u, LC, CV, av.IndepVarIdx == 2 && av.IndepVarTypeIdx == 0 ? 1.0 : 0.0)
AS(cons0, (int z), (void)z, 0, 1, u, LC, CV, av.IndepVarIdx == 0 && av.IndepVarTypeIdx == 0 ? 1.0 : 0.0)
AS(divc, (int z), (void)z, 2, 0, a / u, M2(L(0), LC), VA(0) / CV, DA(0) / CV)
AS(mulc, (int z), (void)z, 2, 0, a * u, M2(L(0), LC), VA(0) * CV, DA(0) * CV + 0.0 * VA(0))
AS(cmul, (int z), (void)z, 2, 0, u * a, M2(L(0), LC), CV * VA(0), 0.0 * VA(0) + DA(0) * CV)
AS(addc, (int z), (void)z, 2, 0, a + u, M2(L(0), LC), VA(0) + CV, DA(0) + 0.0)
AS(csub, (int z), (void)z, 2, 0, u - a, M2(L(0), LC), CV - VA(0), 0.0 - DA(0))
AS(cdiv, (int z), (void)z, 2, 0, u / a, M2(L(0), LC), CV / VA(0), (0.0 * VA(0) - CV * DA(0)) / std::pow(VA(0), 2))
AS(cself, (int z), (void)z, 0, 1, a / u, M2(L(0), LC), VA(0) / CV, DA(0) / CV)
// borrowed variables
AS(bo_add, (int z), (void)z, 2, 0, a + q, M2(L(0), LBo), VA(0) + VBo, DA(0) + DBo)
AS(bo_mul, (int z), (void)z, 2, 0, q * a, M2(L(0), LBo), VBo * VA(0), DBo * VA(0) + DA(0) * VBo)
AS(bo_var, (int z), (void)z, 2, 0, q, LBo, VBo, DBo)
// before the first use the derivatives do not exist yet: 1 for the chosen variable, 0 for the others
inline void fresh(AV &av) {
#define FR(D) D.sz = 0; D.capacity = 0; D.allocated = false; D.p = nullptr;
  ne(av.varBuffer[0]); ne(av.varBuffer[1]); ne(av.varBuffer[2]); ne(av.varBorrow[0]);
  FR(DD(0)) FR(DD(1)) FR(DD(2)) FR(av.varBorrowDerivs[0])
  ne(av.varConstants[0]); ne(av.varConstants[1]); vf_assume(!av.varConstants[0].d.mp.ismatrix);
  av.DerivInit = false;
}
#define IND(T, I) (av.IndepVarTypeIdx == T && av.IndepVarIdx == I ? 1.0 : 0.0)
#define FI(N, EXPR, DER)                                                               \
  IMPL(fi_##N, double, AV &av, Z i, Z h) {                                             \
    fresh(av); vf_assume(h < L(0));                                                    \
    VP<0> a(av); VP<1> b(av); VP<2> c(av); BP q(av); CP u(av);                         \
    auto e = EXPR;                                                                     \
    constexpr auto w = VP<2>::walkTD<std::remove_reference_t<etr::ExtractedTypeD<std::remove_reference_t<decltype(e)>>>>(); \
    double r = w.getDeriv(av, i);                                                      \
    vf_out_z(1, DD(0).sz); vf_out_d(2, DD(0).p[h]);                                    \
    return r;                                                                          \
  }                                                                                    \
  SPEC(fi_##N, double, AV &av, Z i, Z h) {                                             \
    vf_out_z(1, L(0)); vf_out_d(2, IND(0, 0)); return DER;                             \
  }
FI(add, a + b, IND(0, 0) + IND(0, 1))
FI(sub, a - b, IND(0, 0) - IND(0, 1))
FI(mul, a * b, IND(0, 0) * VA(1) + IND(0, 1) * VA(0))
FI(sq, a * a, IND(0, 0) * VA(0) + IND(0, 0) * VA(0))
FI(div, a / b, (IND(0, 0) * VA(1) - VA(0) * IND(0, 1)) / std::pow(VA(1), 2))
FI(sin, etr::sinus(a), std::cos(VA(0)) * IND(0, 0))
FI(bo, q * a, IND(1, 0) * VA(0) + IND(0, 0) * VBo)
FI(divc, a / u, IND(0, 0) / CV)
// one variable
#define FV(N, X, S, LEN, D)                                                            \
  IMPL(fv_##N, double, AV &av, Z i, Z h) {                                             \
    fresh(av); vf_assume(h < LEN);                                                     \
    VP<0> a(av); VP<1> b(av); VP<2> c(av); BP q(av);                                   \
    double r = X.d.getDeriv(av, i);                                                    \
    vf_out_z(1, S.sz); vf_out_d(2, S.p[h]); vf_out_b(3, av.DerivInit); return r;       \
  }                                                                                    \
  SPEC(fv_##N, double, AV &av, Z i, Z h) {                                             \
    vf_out_z(1, LEN); vf_out_d(2, D); vf_out_b(3, D == 1.0); return D;                 \
  }
FV(a, a, DD(0), L(0), IND(0, 0)) FV(b, b, DD(1), L(1), IND(0, 1)) FV(c, c, DD(2), L(2), IND(0, 2))
FV(q, q, av.varBorrowDerivs[0], LBo, IND(1, 0))
// reading the derivatives back
#define GD(N, PRE, X, LEN, DER)                                                        \
  IMPL(gd_##N, double, AV &av, Z i) {                                                  \
    PRE(av); vf_assume(i < LEN);                                                       \
    VP<0> a(av); VP<1> b(av); BP q(av);                                                \
    auto r = etr::get_derivs(X);                                                       \
    vf_out_z(1, r.d.sz); vf_out_b(2, r.d.mp.ismatrix); return r.d.p[i];                \
  }                                                                                    \
  SPEC(gd_##N, double, AV &av, Z i) { vf_out_z(1, LEN); vf_out_b(2, false); return DER; }
GD(a, st, a, L(0), DA(0)) GD(b, st, b, L(1), DA(1)) GD(q, st, q, LBo, DBo)
// two assignments in a row: the chain rule
#define TW(N, E1, E2, LEN, VAL, DER)                                                   \
  IMPL(tw_##N, double, AV &av, Z i) {                                                  \
    st(av); SAMESZ; vf_assume(i < LEN);                                                \
    VP<0> a(av); VP<1> b(av); VP<2> c(av);                                             \
    E1; E2;                                                                            \
    vf_out_z(1, VV(2).sz); vf_out_z(2, DD(2).sz); vf_out_d(3, DD(2).p[i]);             \
    return VV(2).p[i];                                                                 \
  }                                                                                    \
  SPEC(tw_##N, double, AV &av, Z i) {                                                  \
    vf_out_z(1, LEN); vf_out_z(2, LEN); vf_out_d(3, DER); return VAL;                  \
  }
TW(ab, b = a * a, c = b * a, L(0), (VA(0) * VA(0)) * VA(0), DA(0) * (VA(0) * VA(0)) + (DA(0) * VA(0) + DA(0) * VA(0)) * VA(0))
TW(ss, b = etr::sinus(a), c = etr::sinus(b), L(0), std::sin(std::sin(VA(0))), std::cos(std::sin(VA(0))) * (std::cos(VA(0)) * DA(0)))
TW(cc, c = a + b, c = c * c, L(0), (VA(0) + VA(1)) * (VA(0) + VA(1)), (DA(0) + DA(1)) * (VA(0) + VA(1)) + (DA(0) + DA(1)) * (VA(0) + VA(1)))
