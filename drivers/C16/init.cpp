#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// the variables of an AllVars object are set up in the order of the arguments: initBuffer copies their
// elements, initBorrow lets the borrowed variables show the memory of theirs
using AV = etr::AllVars<2, 2, 0, 1>;
inline void st(AV &av) { wf(av.varBuffer[0]); wf(av.varBuffer[1]); }
#define IB(N, TA, TB)                                                            \
  IMPL(ib_##N, double, AV &av, TA &x, TB &y, Z i, Z j) {                         \
    st(av); ne(x); ne(y); vf_assume(i < x.d.sz); vf_assume(j < y.d.sz);          \
    av.initBuffer(x, y);                                                         \
    vf_out_z(1, av.varBuffer[0].d.sz); vf_out_z(2, av.varBuffer[1].d.sz); vf_out_d(3, av.varBuffer[1].d.p[j]); \
    vf_out_z(4, x.d.sz); vf_out_d(5, x.d.p[i]); vf_out_d(6, y.d.p[j]);           \
    vf_out_b(7, av.varBuffer[0].d.mp.ismatrix);                                  \
    return av.varBuffer[0].d.p[i];                                               \
  }                                                                              \
  SPEC(ib_##N, double, AV &av, TA &x, TB &y, Z i, Z j) {                         \
    vf_out_z(1, x.d.sz); vf_out_z(2, y.d.sz); vf_out_d(3, y.d.p[j]);             \
    vf_out_z(4, x.d.sz); vf_out_d(5, x.d.p[i]); vf_out_d(6, y.d.p[j]);           \
    vf_out_b(7, x.d.mp.ismatrix);                                                \
    return x.d.p[i];                                                             \
  }
IB(dd, VD, VD) IB(di, VD, VI) IB(bd, BD, VD)
// the buffer variable is a copy
IMPL(ib_own, double, AV &av, VD &x, Z i, double k) {
  st(av); ne(x); vf_assume(i < x.d.sz); av.initBuffer(x); x.d.p[i] = k; return av.varBuffer[0].d.p[i];
}
SPEC(ib_own, double, AV &av, VD &x, Z i, double k) { return x.d.p[i]; }
IMPL(io, double, AV &av, BD &x, BD &y, Z i, Z j) {
  ne(x); ne(y); vf_assume(i < x.d.sz); vf_assume(j < y.d.sz);
  av.initBorrow(x, y);
  vf_out_z(1, av.varBorrow[0].d.sz); vf_out_z(2, av.varBorrow[1].d.sz); vf_out_d(3, av.varBorrow[1].d.p[j]);
  vf_out_b(4, av.varBorrow[0].d.p == x.d.p); vf_out_b(5, av.varBorrow[1].d.p == y.d.p);
  vf_out_z(6, av.varBorrow[0].d.capacity); vf_out_b(7, av.varBorrow[0].d.mp.ismatrix); vf_out_z(8, x.d.sz); vf_out_z(9, x.d.capacity);
  return av.varBorrow[0].d.p[i];
}
SPEC(io, double, AV &av, BD &x, BD &y, Z i, Z j) {
  vf_out_z(1, x.d.sz); vf_out_z(2, y.d.sz); vf_out_d(3, y.d.p[j]);
  vf_out_b(4, true); vf_out_b(5, true);
  vf_out_z(6, x.d.capacity); vf_out_b(7, x.d.mp.ismatrix); vf_out_z(8, x.d.sz); vf_out_z(9, x.d.capacity);
  return x.d.p[i];
}
// writing to the variable writes to that memory
IMPL(iow, double, AV &av, BD &x, Z i, double k) {
  ne(x); vf_assume(i < x.d.sz); av.initBorrow(x); av.varBorrow[0].d.p[i] = k; return x.d.p[i];
}
SPEC(iow, double, AV &av, BD &x, Z i, double k) { return k; }
