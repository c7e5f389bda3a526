#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// An assignment to a variable of an AllVars object that ends in an error leaves the values and
// derivatives of every variable as they were.
using AV = etr::AllVars<3, 1, 0, 2>;
template <int I> using VP = etr::Vec<double, etr::VarPointer<AV, I, 0>, etr::VariableTypeTrait>;
using BP = etr::Vec<double, etr::VarPointer<AV, 0, 1>, etr::VariableTypeTrait>;
using CP = etr::Vec<double, etr::VarPointer<AV &, 0, -1, etr::ConstantTypeTrait>, etr::ConstantTypeTrait>;
template <class B> inline void wat(const B &d) {
  vf_watch_p(&d.p); vf_watch_z(&d.sz); vf_watch_z(&d.capacity); vf_watch_b(&d.allocated);
  vf_watch_b(&d.mp.ismatrix); vf_watch_z(&d.mp.rows); vf_watch_z(&d.mp.cols);
}
#define VV(k) av.varBuffer[k].d
#define DD(k) av.varBufferDerivs[k]
#define VQ av.varBorrow[0].d
#define DQ av.varBorrowDerivs[0]
inline void st(AV &av) {
#define ST1(k) wf(av.varBuffer[k]); const_cast<Z &>(DD(k).sz) = VV(k).sz; inv(DD(k));
  ST1(0) ST1(1) ST1(2)
  wf(av.varBorrow[0]); const_cast<Z &>(DQ.sz) = VQ.sz; inv(DQ);
  wf(av.varConstants[0]); wf(av.varConstants[1]); vf_assume(!av.varConstants[0].d.mp.ismatrix);
}
#define WV(V, D, h) wat(V); wat(D); vf_assume(h < V.sz); vf_watch_d(&V.p[h]); vf_watch_d(&D.p[h])
#define KA(N, PARAMS, PRE, T, V, D, X)                                           \
  IMPL(ka_##N, Z, AV &av, UNPAREN PARAMS, Z h) {                                 \
    vf_flag(1 | 2 | 4 | 16 | 128); st(av); PRE;                                  \
    VP<0> a(av); VP<1> b(av); VP<2> c(av); BP q(av); CP u(av);                   \
    WV(V, D, h); T = X; return 0;                                                \
  }                                                                              \
  SPEC(ka_##N, Z, AV &av, UNPAREN PARAMS, Z h) { st(av); PRE; return 0; }
// target, another variable
#define KB(N, PARAMS, PRE, X)                                                    \
  KA(c_##N, PARAMS, PRE, c, VV(2), DD(2), X) KA(o_##N, PARAMS, PRE, c, VV(0), DD(0), X) KA(q_##N, PARAMS, PRE, q, VQ, DQ, X)
KB(add, (int z), (void)z, a + b)
KB(sub, (int z), (void)z, a - b)
KB(mul, (int z), (void)z, a * b)
KB(div, (int z), (void)z, a / b)
KB(sin, (int z), (void)z, etr::sinus(a))
KB(var, (int z), (void)z, a)
KB(cmp, (int z), (void)z, a < b)
KB(nest, (int z), (void)z, etr::sinus(a * b) - b)
KB(con, (int z), (void)z, a * u)
KB(conly, (int z), (void)z, u)
KB(self, (int z), (void)z, c * a)
KB(qs, (int z), (void)z, q + a)
