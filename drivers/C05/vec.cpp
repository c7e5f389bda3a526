#include "vf.hpp"
#define UNPAREN(...) __VA_ARGS__
// vectors: any assignment leaves both the vector and its scratch buffer consistent
template <class B> inline void chk(B &d, int k) {
  using E = std::remove_pointer_t<decltype(d.p)>;
  vf_out_b(k + 1, d.sz <= d.capacity);
  vf_out_b(k + 2, d.allocated == (d.p != nullptr));
  if (d.capacity > 0) {
    d.p[0] = E();
    d.p[d.capacity - 1] = E();
  }
}
#define VS(N, PARAMS, PRE, STMT, R, LEN)                                         \
  IMPL(N, void, UNPAREN PARAMS) {                                                \
    vf_flag(1 | 2); PRE;                                                         \
    STMT;                                                                        \
    vf_out_z(1, R.d.sz);                                                         \
    chk(R.d, 10); chk(R.temp, 20);                                               \
    vf_out_b(31, R.d.p != R.temp.p || R.d.p == nullptr);                         \
  }                                                                              \
  SPEC(N, void, UNPAREN PARAMS) {                                                \
    vf_out_z(1, LEN);                                                            \
    vf_out_b(11, true); vf_out_b(12, true); vf_out_b(21, true); vf_out_b(22, true); vf_out_b(31, true); \
  }
#define W1 wf(r); vf_assume(r.d.p != r.temp.p || r.d.p == nullptr)
#define W2 W1; ne(a)
#define W3 W2; ne(b)
VS(a_d, (VD & r, VD &a), W2, r = a, r, a.d.sz)
VS(a_i, (VD & r, VI &a), W2, r = a, r, a.d.sz)
VS(a_self, (VD & r), W1; ne(r), r = r, r, r.d.sz)
VS(a_s, (VD & r, double s), W1, r = s, r, 1)
VS(a_ex, (VD & r, VD &a, VD &b), W3, r = a + b, r, len2(a, b))
VS(a_al, (VD & r, VD &a), W2; ne(r), r = r * a, r, len2(r, a))
VS(a_i2d, (VI & r, VD &a, VD &b), W3, r = a / b, r, len2(a, b))
VS(a_b, (VB & r, VD &a, VD &b), W3, r = a < b, r, len2(a, b))
VS(a_rv, (VD & r, double s, double t), W1, r = etr::coca(s, t), r, 2)
VS(a_rvi, (VD & r, int s, int t), W1, r = etr::coca(s, t), r, 2)
VS(a_bw, (VD & r, BD &a), W2, r = a, r, a.d.sz)
VS(a_un, (VD & r, VD &a), W2, r = etr::exp(a), r, a.d.sz)
VS(c_cp, (VD & a), ne(a), VD r = a, r, a.d.sz)
VS(c_cpe, (VD & a), wf(a), VD r = a, r, a.d.sz)
VS(c_mv, (VD & a), ne(a), VD r = std::move(a), r, a.d.sz)
VS(c_ex, (VD & a, VD &b), ne(a); ne(b), VD r = a - b, r, len2(a, b))
VS(c_s, (double s), (void)0, VD r = s, r, 1)
VS(c_i, (int s), (void)0, VI r(s), r, 1)
VS(c_e, (int s), (void)0, VD r, r, 0)
VS(c_rv, (double s, double t), (void)0, VD r = etr::coca(s, t), r, 2)
VS(c_rvx, (double s, double t), (void)0, VI r = etr::coca(s, t), r, 2)
VS(c_sz, (Z n), vf_assume(n > 0 && n < (1ull << 30)), VD r(etr::SI{n}), r, n)
VS(c_num, (int n), vf_assume(n > 0 && n < (1 << 29)), VD r = etr::vector_numeric(n), r, n)
VS(m_rs, (VD & r, Z n), W1; vf_assume(n > 0 && n < (1ull << 30)), r.resize(n), r, n)
VS(m_fill, (VD & r, double x), W1; ne(r), r.fill(x), r, r.d.sz)
// a source of an assignment stays consistent as well
VS(src, (VD & r, VD &a), W2, r = a, a, a.d.sz)
VS(src_mv, (VD & r, VD &a), W2, VD t = std::move(a); r = t, r, a.d.sz)
VS(seq3, (VD & r, VD &a, VD &b), W3, r = a; r = r + b; r = 1.0, r, 1)
VS(seq4, (VD & r, VD &a, VD &b), W3, VD t = r; r = a; a = t; t = b, t, b.d.sz)
// empty vectors: an error or an empty result, never a wild access or a division by zero
#define EMPTY(N, PARAMS, PRE, STMT)                                              \
  IMPL(N, void, UNPAREN PARAMS) {                                                \
    vf_flag(1 | 2 | 16); PRE;                                                    \
    STMT;                                                                        \
  }                                                                              \
  SPEC(N, void, UNPAREN PARAMS) {}
#define E1(N, STMT) EMPTY(N, (VD & r, VD & a), wf(r); wf(a), STMT)
#define E2(N, STMT) EMPTY(N, (VD & r, VD & a, VD & b), wf(r); wf(a); wf(b), STMT)
#define E3(N, STMT) EMPTY(N, (VD & r, VD & a, VI & k), wf(r); wf(a); wf(k), STMT)
E1(e_as, r = a)
E2(e_add, r = a + b)
E1(e_sc, r = 2.0 * a)
E1(e_un, r = -a)
E1(e_fn, r = etr::sinus(a))
E2(e_cmp, r = a == b)
E2(e_nest, r = (a + b) * a)
E1(e_ctor, VD t = a; r = t)
EMPTY(e_ctor2, (VD & a, VD & b), wf(a); wf(b), VD t = a + b)
E3(e_sub, r = etr::subset(a, k))
E1(e_sub1, r = etr::subset(a, 1))
E3(e_subw, etr::subset(a, k) = r)
E1(e_subw1, etr::subset(a, 2) = r)
EMPTY(e_subs, (VD & a, VI & k), wf(a); wf(k), etr::subset(a, k) = 1.5)
EMPTY(e_subb, (VD & a, VB & k), wf(a); wf(k), etr::subset(a, k) = 1.5)
E1(e_at, etr::at(a, 1) = 3.0)
E1(e_back, a.back() = 2.0)
E2(e_coca, r = etr::coca(a, b))
E1(e_rep, r = etr::rep(a, 3))
E1(e_cond, if (static_cast<double>(a) > 1) r = 1.0)
E1(e_conv, double x = a; r = x)
E1(e_range, for (auto &x : a) x = 1.0)
