#include "vf.hpp"
#define UNPAREN(...) __VA_ARGS__
// Storage blocks: length <= capacity <= allocated extent, allocated exactly when there is
// a block, every block released exactly once, nothing outside a block touched.
using SD = etr::Buffer<double>;
using SI_ = etr::Buffer<int>;
using SB = etr::Buffer<bool>;
template <class B> inline void chk(B &d) {
  using E = std::remove_pointer_t<decltype(d.p)>;
  vf_out_z(11, d.sz);
  vf_out_b(12, d.sz <= d.capacity);
  vf_out_b(13, d.allocated == (d.p != nullptr));
  if (d.capacity > 0) {     // the whole block is usable
    d.p[0] = E();
    d.p[d.capacity - 1] = E();
  }
}
inline void exp_(Z n) { vf_out_z(11, n); vf_out_b(12, true); vf_out_b(13, true); }
#define ST(N, PARAMS, PRE, STMT, LEN, LIVE, EL)                                  \
  IMPL(N, double, UNPAREN PARAMS, Z i) {                                         \
    PRE; { Z n_ = LIVE; vf_assume(i < n_); }                                       \
    STMT;                                                                        \
    double v = r.p[i];                                                           \
    chk(r);                                                                      \
    return v;                                                                    \
  }                                                                              \
  SPEC(N, double, UNPAREN PARAMS, Z i) { exp_(LEN); return EL; }
#define BIG (1ull << 30)
// `LIVE` is how many leading elements are known afterwards
#define OPS(N, B, E)                                                             \
  ST(ctor_##N, (Z n), vf_assume(n > 0 && n < BIG), B r(n), n, n, (double)E())   \
  ST(ctori_##N, (int n), vf_assume(n > 0 && n < (1 << 29)), B r(n), n, n, (double)E()) \
  ST(copy_##N, (B & a), inv(a), B r(a), a.sz, a.sz, a.p[i])                      \
  ST(move_##N, (B & a), inv(a), B r(std::move(a)), a.sz, a.sz, a.p[i])           \
  ST(assign_##N, (B & r, B & a), inv(r); inv(a), r = a, a.sz, a.sz, a.p[i])      \
  ST(self_##N, (B & r), inv(r), r = r, r.sz, r.sz, r.p[i])                       \
  ST(realloc_##N, (B & r, Z n), inv(r); vf_assume(n > 0 && n < BIG), r.realloc(n), n, n, i < r.sz ? (double)r.p[i] : (double)E()) \
  ST(push_##N, (B & r, E x), inv(r), r.push_back(x), r.sz + 1, r.sz + 1, i < r.sz ? (double)r.p[i] : (double)x) \
  ST(push2_##N, (B & r, E x, E y), inv(r), r.push_back(x); r.push_back(y), r.sz + 2, r.sz + 2, i < r.sz ? (double)r.p[i] : (double)(i == r.sz ? x : y)) \
  ST(fill_##N, (B & r, E x), inv(r), r.fill(x), r.sz, r.sz, (double)x)           \
  ST(shrink_##N, (B & r, Z n), inv(r); vf_assume(n > 0 && n <= r.sz), r.resize(n), n, n, r.p[i]) \
  ST(swap_##N, (B & r, B & a), inv(r); inv(a), r.moveit(a), a.sz, a.sz, a.p[i])  \
  ST(swap2_##N, (B & a, B & r), inv(r); inv(a), r.moveit(a); r.moveit(a), r.sz, r.sz, r.p[i]) \
  IMPL(grow_##N, double, B &r, Z n) {                                            \
    inv(r); vf_assume(n > 0 && n < BIG);                                         \
    r.resize(n); chk(r); return 0;                                               \
  }                                                                              \
  SPEC(grow_##N, double, B &r, Z n) { exp_(n); return 0; }                       \
  IMPL(growz_##N, double, B &r, Z n, Z i) { /* newly obtained storage starts out zeroed */ \
    inv(r); vf_assume(n > r.capacity && n > 0 && n < BIG && i < n);              \
    r.resize(n); return r.p[i];                                                  \
  }                                                                              \
  SPEC(growz_##N, double, B &r, Z n, Z i) { return (double)E(); }                \
  IMPL(rz0_##N, double, B &r) { vf_flag(16); inv(r); r.resize(0); return 0; }                 \
  SPEC(rz0_##N, double, B &r) { vf_throw(); }                                    \
  IMPL(ctor0_##N, double, Z n) { vf_flag(16); vf_assume(n == 0); B r(n); return 0; }          \
  SPEC(ctor0_##N, double, Z n) { vf_throw(); }                                   \
  IMPL(ctorneg_##N, double, int n) { vf_flag(16); vf_assume(n <= 0); B r(n); return 0; }      \
  SPEC(ctorneg_##N, double, int n) { vf_throw(); }                               \
  IMPL(dflt_##N, double) { B r; chk(r); return 0; }                              \
  SPEC(dflt_##N, double) { exp_(0); return 0; }                                  \
  IMPL(moved_##N, double, B &a) { inv(a); B r(std::move(a)); chk(a); return 0; } \
  SPEC(moved_##N, double, B &a) { exp_(0); return 0; }                           \
  IMPL(swapo_##N, double, B &r, B &a, Z i) { /* the other side receives the storage */ \
    inv(r); inv(a); vf_assume(i < r.sz); r.moveit(a);                            \
    double v = a.p[i]; chk(a); return v;                                         \
  }                                                                              \
  SPEC(swapo_##N, double, B &r, B &a, Z i) { exp_(r.sz); return r.p[i]; }        \
  IMPL(rd_##N, double, const B &a, Z i) { inv(a); return a[i]; }                 \
  SPEC(rd_##N, double, const B &a, Z i) {                                        \
    if (!a.allocated || i >= a.sz) vf_throw();                                   \
    return a.p[i];                                                               \
  }                                                                              \
  IMPL(wr_##N, double, B &a, Z i, E x, Z j) {                                    \
    inv(a); vf_assume(j < a.sz);                                                 \
    a[i] = x; return a.p[j];                                                     \
  }                                                                              \
  SPEC(wr_##N, double, B &a, Z i, E x, Z j) {                                    \
    if (!a.allocated || i >= a.sz) vf_throw();                                   \
    return i == j ? x : a.p[j];                                                  \
  }                                                                              \
  IMPL(back_##N, double, B &a) { inv(a); return a.back(); }                      \
  SPEC(back_##N, double, B &a) { if (a.sz == 0) vf_throw(); return a.p[a.sz - 1]; } \
  IMPL(iter_##N, double, B &a, Z k) { /* begin/end span exactly the elements */  \
    inv(a); vf_assume(a.sz > 0 && k < a.sz);                                     \
    auto b = a.begin(), e = a.end();                                             \
    vf_out_z(1, e.p - b.p);                                                      \
    return b.p[k];                                                               \
  }                                                                              \
  SPEC(iter_##N, double, B &a, Z k) { vf_out_z(1, a.sz); return a.p[k]; }
OPS(d, SD, double)
OPS(i, SI_, int)
#ifdef FULL
OPS(b, SB, bool)
OPS(z, etr::Indices, Z)
#endif
// filling from vectors and expressions of the same length, error otherwise
#define FILL(N, PARAMS, PRE, STMT, L, EL)                                        \
  IMPL(N, double, UNPAREN PARAMS, Z i) {                                         \
    PRE; vf_assume(i < r.sz); Z j = i;                                           \
    STMT;                                                                        \
    double v = r.p[i]; chk(r); return v;                                         \
  }                                                                              \
  SPEC(N, double, UNPAREN PARAMS, Z i) {                                         \
    if ((L) != r.sz) vf_throw();                                                 \
    exp_(r.sz); return EL;                                                       \
  }
FILL(fill_vd, (SD & r, VD &a), inv(r); ne(a), r.fill(a), a.d.sz, a.d.p[i])
FILL(fill_vi, (SD & r, VI &a), inv(r); ne(a), r.fill(a), a.d.sz, (double)a.d.p[i])
FILL(fill_id, (SI_ & r, VD &a), inv(r); ne(a), r.fill(a), a.d.sz, (int)a.d.p[i])
FILL(fill_rv, (SD & r, double s, double t), inv(r), r.fill(etr::coca(s, t)), 2, i == 0 ? s : t)
FILL(fill_bw, (SD & r, BD &a), inv(r); ne(a), r.fill(a), a.d.sz, a.d.p[i])
