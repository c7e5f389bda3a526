#include "mat.hpp"
#define UNPAREN(...) __VA_ARGS__
// no operation other than print writes anything (warnings, which go through etr::warn, aside)
#define Q(N, PARAMS, PRE, CODE)                                                      \
  IMPL(q_##N, int, UNPAREN PARAMS) { vf_flag(1 | 2 | 4 | 16 | 96); PRE; CODE; return 0; } \
  SPEC(q_##N, int, UNPAREN PARAMS) { return 0; }
#define AB ne(a); ne(b)
Q(add, (VD &r, VD &a, VD &b), wf(r); AB, r = a + b)
Q(cmp, (VB &r, VI &a, VD &b), wf(r); AB, r = a < b)
Q(fn, (VD &r, VD &a), wf(r); ne(a), r = etr::exp(a))
Q(pow, (VD &r, VD &a, VD &b), wf(r); AB, r = a ^ b)
Q(copy, (VD &r, VD &a), wf(r); ne(a), r = a)
Q(conv, (VI &r, VD &a), wf(r); ne(a), r = a)
Q(scal, (VD &r, double x), wf(r), r = x)
Q(bo, (BD &r, VD &a), wf(r); ne(a), r = a)
Q(ctor, (VD &a), ne(a), VD c(a))
Q(sub, (VD &r, VD &a, VI &k), wf(r); ne(a); ne(k), r = etr::subset(a, k))
Q(subl, (VD &r, VD &a, VB &k), wf(r); ne(a); ne(k), r = etr::subset(a, k))
Q(subm, (VD &r, VD &a, int k, int l), wf(r); wfm(a), r = etr::subset(a, k, l))
Q(subw, (VD &a, VI &k, VD &b), ne(a); ne(k); ne(b), etr::subset(a, k) = b)
Q(submw, (VD &a, int k, VD &b), wfm(a); ne(b), etr::subset(a, k, true) = b)
Q(at, (VD &a, int k), ne(a), etr::at(a, k) = 1.0)
Q(atm, (VD &a, int k, int l), wfm(a), etr::at(a, k, l) = 1.0)
Q(colon, (VI &r, int k, int l), wf(r); vf_assume(k > -1000 && l < 1000), r = etr::colon(k, l))
Q(rep, (VD &r, VD &a, int n), wf(r); ne(a); vf_assume(n < 1000), r = etr::rep(a, n))
Q(coca, (VD &r, double x, double y), wf(r), r = etr::coca(x, y))
Q(num, (VD &r, int n), wf(r); vf_assume(n < 1000), r = etr::vector_numeric(n))
Q(logi, (VB &r, int n), wf(r); vf_assume(n < 1000), r = etr::vector_logical(n))
Q(matrix, (VD &r, VD &a, int k, int l), wf(r); ne(a); vf_assume(k < 1000 && l < 1000), r = etr::matrix(std::move(a), std::move(k), std::move(l)))
Q(cmr, (VD &r, double t, VD &a, VD &b), wf(r); AB, r = etr::cmr(t, a, b))
Q(isna, (VB &r, VD &a), wf(r); ne(a), r = etr::isNA(a))
Q(dim, (VI &r, VD &a), wf(r); wfm(a), r = etr::dim(a))
Q(res, (VD &a, Z n), wf(a); vf_assume(n < 1000), a.resize(n))
Q(push, (VD &a, double x), wf(a), a.d.push_back(x))
Q(cond, (VB &a), ne(a), if (a) vf_out_z(1, 1))
