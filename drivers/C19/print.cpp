#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// a plain object: its elements in order; a matrix: its rows, each in column order
#define OUT1(LEN, EL) for (Z i = 0; i < LEN; i++) std::cout << std::boolalpha << (EL) << " "; std::cout << "\n";
#define OUT2(R, C, EL) for (Z i = 0; i < R; i++) { for (Z j = 0; j < C; j++) std::cout << std::boolalpha << (EL) << "\t"; std::cout << "\n"; }
#define PV(N, PARAMS, PRE, X, LEN, EL)                                                       \
  IMPL(pv_##N, int, UNPAREN PARAMS) { vf_flag(32); PRE; etr::print(X); return 0; }           \
  SPEC(pv_##N, int, UNPAREN PARAMS) { OUT1(LEN, EL) return 0; }
#define PM(N, PARAMS, PRE, X, R, C, EL)                                                      \
  IMPL(pm_##N, int, UNPAREN PARAMS) { vf_flag(32); PRE; etr::print(X); return 0; }           \
  SPEC(pm_##N, int, UNPAREN PARAMS) { OUT2(R, C, EL) return 0; }
#define PLAIN(a) wf(a); vf_assume(a.d.allocated); vf_assume(!a.d.mp.ismatrix)
PV(vd, (const VD &a), PLAIN(a), a, a.d.sz, a.d.p[i])
PV(vi, (const VI &a), PLAIN(a), a, a.d.sz, a.d.p[i])
PV(vb, (const VB &a), PLAIN(a), a, a.d.sz, a.d.p[i])
PV(bo, (const BD &a), PLAIN(a), a, a.d.sz, a.d.p[i])
PM(vd, (const VD &a), wfm(a); vf_assume(a.d.allocated), a, NR, NC, a.d.p[j * NR + i])
PM(vi, (const VI &a), wfm(a); vf_assume(a.d.allocated), a, NR, NC, a.d.p[j * NR + i])
PM(vb, (const VB &a), wfm(a); vf_assume(a.d.allocated), a, NR, NC, a.d.p[j * NR + i])
PM(bo, (const BD &a), wfm(a), a, NR, NC, a.d.p[j * NR + i])
// expressions, subsets, results of functions
#define UNM(a) PLAIN(a); vf_assume(a.d.sz > 0)
#define MATB(b) wfm(b); vf_assume(b.d.allocated && b.d.mp.rows == NR && b.d.mp.cols == NC)
#define MATA wfm(a); vf_assume(a.d.allocated)
PV(add, (VD &a, VD &b), UNM(a); UNM(b), a + b, len2(a, b), el(a, i) + el(b, i))
PV(adds, (VD &a), UNM(a), a * 2.0, a.d.sz, a.d.p[i] * 2.0)
PV(addi, (VI &a, VI &b), UNM(a); UNM(b), a - b, len2(a, b), double(el(a, i)) - double(el(b, i)))
PV(cmp, (VI &a, int b), UNM(a), a < b, a.d.sz, a.d.p[i] < b)
PV(neg, (VD &a), UNM(a), -a, a.d.sz, -a.d.p[i])
PV(fn, (VD &a), UNM(a), etr::exp(a), a.d.sz, std::exp(a.d.p[i]))
PV(nest, (VD &a, VD &b), UNM(a); UNM(b), etr::sinus(a + b), len2(a, b), std::sin(el(a, i) + el(b, i)))
PV(coca, (double x, double y, double z), (void)0, etr::coca(x, y, z), 3, (i == 0 ? x : i == 1 ? y : z))
PV(rng, (int k, int l), vf_assume(k > -1000 && k < 1000 && l > -1000 && l < 1000), etr::colon(k, l), (Z)(k < l ? l - k : k - l) + 1, (k < l ? k + (int)i : k - (int)i))
PM(add, (VD &a, VD &b), MATA; MATB(b), a + b, NR, NC, a.d.p[j * NR + i] + b.d.p[j * NR + i])
PM(mul, (VI &a, int b), MATA, a * b, NR, NC, double(a.d.p[j * NR + i]) * double(b))
PM(cmp, (VD &a, double b), MATA, a >= b, NR, NC, a.d.p[j * NR + i] >= b)
PM(neg, (VD &a), MATA, -a, NR, NC, -a.d.p[j * NR + i])
PM(fn, (VD &a), MATA, etr::exp(a), NR, NC, std::exp(a.d.p[j * NR + i]))
PV(sub, (VD &a, VI &k, Z h), UNM(a); ne(k); vf_flag(1); for (Z i = 0; i < k.d.sz; i++) vf_assume(k.d.p[i] >= 1 && (Z)k.d.p[i] <= a.d.sz), etr::subset(a, k), k.d.sz, a.d.p[k.d.p[i] - 1])
PM(subrow, (VD &a, int k), MATA; vf_flag(1); vf_assume(k >= 1 && (Z)k <= NR), etr::subset(a, etr::colon(k, k), true), 1, NC, a.d.p[j * NR + (Z)(k - 1)])
PM(mat, (double x, int r, int c), vf_assume(r >= 1 && r < 50 && c >= 1 && c < 50), etr::matrix(+x, +r, +c), (Z)r, (Z)c, x)
// scalars, text, nothing
#define PS(N, PARAMS, X, TEXT)                                                               \
  IMPL(ps_##N, int, UNPAREN PARAMS) { vf_flag(32); etr::print X; return 0; }                 \
  SPEC(ps_##N, int, UNPAREN PARAMS) { std::cout << std::boolalpha << TEXT; return 0; }
PS(d, (double a), (a), a << "\n\n") PS(i, (int a), (a), a << "\n\n") PS(b, (bool a), (a), a << " \n")
PS(s, (int a), ("some text"), "some text" << "\n\n") PS(none, (int a), (), "\n")
// variables of derivative programs
using AV = etr::AllVars<1, 0, 0, 1>;
using VP = etr::Vec<double, etr::VarPointer<AV, 0, 0>, etr::VariableTypeTrait>;
#define AP(N, PRE, BODY)                                                                     \
  IMPL(pa_##N, int, AV &av) { vf_flag(32); PRE(av.varBuffer[0]); vf_assume(av.varBuffer[0].d.allocated); VP v(av); etr::print(v, av); return 0; } \
  SPEC(pa_##N, int, AV &av) { auto &a = av.varBuffer[0]; BODY return 0; }
AP(v, UNM, OUT1(a.d.sz, a.d.p[i]))
AP(m, wfm, OUT2(NR, NC, a.d.p[j * NR + i]))
// printing leaves the object as it is
#define KP(N, V, PRE)                                                                        \
  IMPL(kp_##N, double, V &a, Z h) { PRE(a); vf_assume(a.d.allocated && h < a.d.sz); etr::print(a); vf_out_z(1, a.d.sz); vf_out_b(2, a.d.mp.ismatrix); vf_out_z(3, NR); vf_out_z(4, NC); return a.d.p[h]; } \
  SPEC(kp_##N, double, V &a, Z h) { PRE(a); vf_out_z(1, a.d.sz); vf_out_b(2, a.d.mp.ismatrix); vf_out_z(3, NR); vf_out_z(4, NC); return a.d.p[h]; }
KP(v, VD, PLAIN) KP(i, VI, PLAIN) KP(b, VB, PLAIN) KP(bo, BD, PLAIN)
KP(m, VD, wfm)

// writing a vector or its storage into a stream
#define OS(N, PARAMS, PRE, X, LEN, EL)                                                       \
  IMPL(os_##N, int, UNPAREN PARAMS) { vf_flag(32); PRE; std::cout << X; return 0; }          \
  SPEC(os_##N, int, UNPAREN PARAMS) { std::cout << "Vec [ "; for (Z i = 0; i < LEN; i++) std::cout << (EL) << " "; std::cout << "]"; return 0; }
OS(vd, (const VD &a), PLAIN(a), a, a.d.sz, a.d.p[i])
OS(vi, (const VI &a), PLAIN(a), a, a.d.sz, a.d.p[i])
OS(vb, (const VB &a), PLAIN(a), a, a.d.sz, a.d.p[i])
OS(bo, (const BD &a), PLAIN(a), a, a.d.sz, a.d.p[i])
OS(md, (const VD &a), wf(a); vf_assume(a.d.allocated), a, a.d.sz, a.d.p[i])
OS(coca, (double x, double y, double z), (void)0, etr::coca(x, y, z), 3, (i == 0 ? x : i == 1 ? y : z))
OS(dd, (const VD &a), PLAIN(a), a.d, a.d.sz, a.d.p[i])
OS(di, (const VI &a), PLAIN(a), a.d, a.d.sz, a.d.p[i])
OS(db, (const BD &a), PLAIN(a), a.d, a.d.sz, a.d.p[i])
#define INR for (Z i = 0; i < k.d.sz; i++) vf_assume(k.d.p[i] >= 1 && (Z)k.d.p[i] <= a.d.sz)
OS(sub, (VD &a, VI &k), UNM(a); ne(k); vf_flag(1); INR, etr::subset(a, k), k.d.sz, a.d.p[k.d.p[i] - 1])
OS(subi, (VI &a, int k), UNM(a); vf_flag(1); vf_assume(k >= 1 && (Z)k <= a.d.sz), etr::subset(a, k), 1, a.d.p[k - 1])
OS(subb, (VB &a, int k), UNM(a); vf_flag(1); vf_assume(k >= 1 && (Z)k <= a.d.sz), etr::subset(a, k), 1, a.d.p[k - 1])
OS(subrow, (VD &a, int k), MATA; vf_flag(1); vf_assume(k >= 1 && (Z)k <= NR), etr::subset(a, etr::colon(k, k), true), NC, a.d.p[i * NR + (Z)(k - 1)])
// the elements of a subset have the type of the object
PV(subi, (VI &a, VI &k), UNM(a); ne(k); vf_flag(1); INR, etr::subset(a, k), k.d.sz, a.d.p[k.d.p[i] - 1])
PV(subb, (VB &a, VI &k), UNM(a); ne(k); vf_flag(1); INR, etr::subset(a, k), k.d.sz, a.d.p[k.d.p[i] - 1])
PV(subbo, (BD &a, int k), UNM(a); vf_flag(1); vf_assume(k >= 1 && (Z)k <= a.d.sz), etr::subset(a, k), 1, a.d.p[k - 1])
PV(subcmp, (VI &a, int k, int z), UNM(a); vf_flag(1); vf_assume(k >= 1 && (Z)k <= a.d.sz), etr::subset(a > z, k), 1, a.d.p[k - 1] > z)
PM(subrowi, (VI &a, int k), MATA; vf_flag(1); vf_assume(k >= 1 && (Z)k <= NR), etr::subset(a, etr::colon(k, k), true), 1, NC, a.d.p[j * NR + (Z)(k - 1)])
PM(subrowb, (VB &a, int k), MATA; vf_flag(1); vf_assume(k >= 1 && (Z)k <= NR), etr::subset(a, etr::colon(k, k), true), 1, NC, a.d.p[j * NR + (Z)(k - 1)])
