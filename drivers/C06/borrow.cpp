#include "vf.hpp"
#define UNPAREN(...) __VA_ARGS__
// caller memory q[0..n)
inline void mem(double *q, Z n) { vf_buffer(q, n * 8); vf_owned(q, false); vf_assume(q != nullptr && n > 0 && n < (1ull << 30)); }
// after STMT on the vector r borrowed from q[0..n): its length is LEN, its address unchanged, q[i] is EL
#define BO(N, PARAMS, PRE, STMT, LEN, EL)                                        \
  IMPL(N, double, double *q, Z n, UNPAREN PARAMS, Z i) {                         \
    mem(q, n); PRE; vf_assume(i < n);                                            \
    BD r(q, n);                                                                  \
    STMT;                                                                        \
    vf_out_z(1, r.d.sz); vf_out_z(2, r.size()); vf_out_b(3, r.d.p == q);         \
    return q[i];                                                                 \
  }                                                                              \
  SPEC(N, double, double *q, Z n, UNPAREN PARAMS, Z i) {                         \
    Z L = LEN; vf_out_z(1, L); vf_out_z(2, L); vf_out_b(3, true);                \
    return EL;                                                                   \
  }
#define ISN(e) vf_assume((e) == n)
BO(ctor, (int u), (void)u, (void)r, n, q[i])
BO(a_vec, (const VD &a), ne(a); ISN(a.d.sz), r = a, n, a.d.p[i])
BO(a_int, (const VI &a), ne(a); ISN(a.d.sz), r = a, n, (double)a.d.p[i])
BO(a_log, (const VB &a), ne(a); ISN(a.d.sz), r = a, n, (double)a.d.p[i])
BO(a_bw, (const BD &a), ne(a); ISN(a.d.sz), r = a, n, a.d.p[i])
BO(a_self, (int u), (void)u, r = r, n, q[i])
BO(a_add, (const VD &a, const VD &b), ne(a); ne(b); ISN(len2(a, b)), r = a + b, n, el(a, i) + el(b, i))
BO(a_scal, (const VD &a, double s), ne(a); ISN(len(a)), r = s * a, n, s * el(a, i))
BO(a_fn, (const VD &a), ne(a); ISN(len(a)), r = etr::exp(a), n, std::exp(el(a, i)))
BO(a_neg, (const VD &a), ne(a); ISN(len(a)), r = -a, n, -el(a, i))
BO(a_cmp, (const VD &a, const VD &b), ne(a); ne(b); ISN(len2(a, b)), r = a < b, n, (double)(el(a, i) < el(b, i)))
BO(al_add, (const VD &a), ne(a); vf_assume(a.d.sz <= n), r = r + a, n, q[i] + el(a, i))
BO(al_sub, (const VD &a), ne(a); vf_assume(a.d.sz <= n), r = a - r, n, el(a, i) - q[i])
BO(al_sq, (int u), (void)u, r = r * r, n, q[i] * q[i])
BO(al_neg, (int u), (void)u, r = -r, n, -q[i])
BO(al_fn, (int u), (void)u, r = etr::sinus(r), n, std::sin(q[i]))
BO(al_s, (double s), (void)0, r = r ^ s, n, std::pow(q[i], s))
BO(al_nest, (const VD &a), ne(a); vf_assume(a.d.sz <= n), r = (r + a) * r, n, (q[i] + el(a, i)) * q[i])
#define OKK ne(k); vf_assume(k.d.sz == n && k.d.p[i] >= 1 && (Z)k.d.p[i] <= n); vf_flag(1)
BO(al_perm, (VI & k), OKK, r = etr::subset(r, k), n, q[k.d.p[i] - 1])
BO(al_permx, (VI & k, double s), OKK, r = etr::subset(r, k) * s, n, q[k.d.p[i] - 1] * s)
BO(al_permr, (VI & k), OKK, r = r - etr::subset(r, k), n, q[i] - q[k.d.p[i] - 1])
BO(al_pershare, (VI & k), OKK, BD t(q, n); r = etr::subset(t, k), n, q[k.d.p[i] - 1])
BO(al_conc, (double s), vf_assume(n >= 2); vf_flag(1 | 16), BD t(q, n - 1); r = etr::coca(s, t), n, i == 0 ? s : q[i - 1])
BO(al_shift, (int u), vf_assume(n >= 2), BD t(q + 1, n - 1); BD v(q, n - 1); t = -v; (void)u, n, i == 0 ? q[0] : -q[i - 1])
BO(al_shiftb, (int u), vf_assume(n >= 2), BD t(q + 1, n - 1); BD v(q, n - 1); t = v; (void)u, n, i == 0 ? q[0] : q[i - 1])
BO(al_shiftd, (int u), vf_assume(n >= 2), BD t(q + 1, n - 1); BD v(q, n - 1); v = t; (void)u, n, i + 1 < n ? q[i + 1] : q[i])
BO(al_shiftc, (int u), vf_assume(n >= 2), BD t(q + 1, n - 1); const BD v(q, n - 1); t = v; (void)u, n, i == 0 ? q[0] : q[i - 1])
BO(al_wshare, (int j), vf_assume(j >= 1 && (Z)j <= n), BD t(q, n); etr::subset(r, j) = t[n - 1]; (void)j, n, i == (Z)j - 1 ? q[n - 1] : q[i])
BO(al_wrev, (VI & k), OKK; vf_assume(n == 2), BD t(q, n); etr::subset(r, k) = t, n, (Z)k.d.p[1] - 1 == i ? q[1] : (Z)k.d.p[0] - 1 == i ? q[0] : q[i])
BO(al_shiftv, (int u), vf_assume(n >= 2), BD t(q + 1, n - 1); VD v(q, n - 1); t = v; (void)u, n, i == 0 ? q[0] : q[i - 1])
BO(al_shared, (const VD &a), ne(a); ISN(a.d.sz), BD t(q, n); t = r + a; r = t * r, n, (q[i] + a.d.p[i]) * (q[i] + a.d.p[i]))
BO(rv, (double s, double t), ISN(2), r = etr::coca(s, t), 2, i == 0 ? s : t)
BO(seq, (const VD &a), ne(a); ISN(a.d.sz), r = a; r = r + a, n, a.d.p[i] + a.d.p[i])
// a scalar becomes the only element, the rest of the caller's memory stays
BO(s_d, (double s), (void)0, r = s, 1, i == 0 ? s : q[i])
BO(s_i, (int s), (void)0, r = s, 1, i == 0 ? (double)s : q[i])
BO(s_b, (bool s), (void)0, r = s, 1, i == 0 ? (double)s : q[i])
BO(s_grow, (double s, const VD &a), ne(a); ISN(a.d.sz), r = s; r = a, n, a.d.p[i])
// element writes
BO(w_br, (double x, Z j), vf_assume(j < n), r[j] = x, n, i == j ? x : q[i])
BO(w_at, (double x, int j), vf_assume(j >= 1 && (Z)j <= n), etr::at(r, j) = x, n, i == (Z)j - 1 ? x : q[i])
BO(w_set, (double x, Z j), vf_assume(j < n), r.d.set(j, x), n, i == j ? x : q[i])
BO(w_back, (double x), (void)0, r.back() = x, n, i == n - 1 ? x : q[i])
BO(w_dback, (double x), (void)0, r.d.back() = x, n, i == n - 1 ? x : q[i])
BO(w_sub1, (double x, int j), vf_assume(j >= 1 && (Z)j <= n), etr::subset(r, j) = x, n, i == (Z)j - 1 ? x : q[i])
BO(w_suball, (double x), (void)0, etr::subset(r, true) = x, n, x)
BO(w_fill, (double x), (void)0, r.fill(x), n, x)
BO(w_dfill, (double x), (void)0, r.d.fill(x), n, x)
BO(w_dfilli, (int x), (void)0, r.d.fill(x), n, (double)x)
BO(w_fillv, (VD & a), ne(a); ISN(a.d.sz), r.d.fill(a), n, a.d.p[i])
BO(w_filli, (VI & a), ne(a); ISN(a.d.sz), r.d.fill(a), n, (double)a.d.p[i])
BO(w_iter, (double x), (void)0, for (auto &e : r) e = x, n, x)
BO(w_init, (double *q0, Z n0), mem(q0, n0), BD t(q0, n0); t.d.init(q, n); t[0] = 1.0, n, i == 0 ? 1.0 : q[i])
BO(c_rs, (Z k), vf_assume(k > 0 && k <= n), r.resize(k), k, q[i])
BO(c_share, (double x, Z j), vf_assume(j < n), BD t = r; t[j] = x, n, i == j ? x : q[i])
BO(c_cpy, (double x, Z j), vf_assume(j < n), VD t; t = r; t[j] = x, n, q[i])
BO(c_cpe, (double x, Z j), vf_assume(j < n), VD t; t = r + 0.0; t[j] = x, n, q[i])
// a vector with length below the borrowed extent may grow up to it
#define GR(N, PARAMS, PRE, STMT, LEN, EL)                                        \
  IMPL(N, double, BD &r, UNPAREN PARAMS, Z i) {                                  \
    ne(r); PRE; vf_assume(i < r.d.capacity);                                     \
    STMT;                                                                        \
    vf_out_z(1, r.d.sz);                                                         \
    return r.d.p[i];                                                             \
  }                                                                              \
  SPEC(N, double, BD &r, UNPAREN PARAMS, Z i) {                                  \
    vf_out_z(1, LEN);                                                            \
    return EL;                                                                   \
  }
#define FIT(a) vf_assume(len(a) >= r.d.sz && len(a) <= r.d.capacity)
GR(g_vec, (const VD &a), ne(a); FIT(a), r = a, a.d.sz, i < a.d.sz ? a.d.p[i] : r.d.p[i])
GR(g_int, (const VI &a), ne(a); FIT(a), r = a, a.d.sz, i < a.d.sz ? (double)a.d.p[i] : r.d.p[i])
GR(g_bw, (const BD &a), ne(a); FIT(a), r = a, a.d.sz, i < a.d.sz ? a.d.p[i] : r.d.p[i])
GR(g_al, (const VD &a), ne(a); FIT(a), r = r + a, a.d.sz, i < a.d.sz ? el(r, i) + a.d.p[i] : r.d.p[i])
GR(g_ex, (const VD &a, const VD &b), ne(a); ne(b); vf_assume(len2(a, b) >= r.d.sz && len2(a, b) <= r.d.capacity), r = a * b, len2(a, b), i < len2(a, b) ? el(a, i) * el(b, i) : r.d.p[i])
GR(g_sc, (double x), (void)0, r = x, 1, i == 0 ? x : r.d.p[i])
// more elements than were borrowed: an error
#define ERR(N, PARAMS, PRE, STMT)                                                \
  IMPL(N, double, BD &r, UNPAREN PARAMS) { wf(r); PRE; STMT; return 0; }         \
  SPEC(N, double, BD &r, UNPAREN PARAMS) { vf_throw(); }
ERR(x_vec, (const VD &a), vf_flag(16); ne(a); vf_assume(len(a) > r.d.capacity), r = a)
ERR(x_int, (const VI &a), vf_flag(16); ne(a); vf_assume(len(a) > r.d.capacity), r = a)
ERR(x_bw, (const BD &a), vf_flag(16); ne(a); vf_assume(len(a) > r.d.capacity), r = a)
ERR(x_ex, (const VD &a, const VD &b), vf_flag(16); ne(a); ne(b); vf_assume(len2(a, b) > r.d.capacity), r = a + b)
ERR(x_al, (const VD &a), vf_flag(16); ne(r); ne(a); vf_assume(len(a) > r.d.capacity), r = r + a)
ERR(x_rs, (Z k), vf_flag(16); vf_assume(k > r.d.capacity), r.resize(k))
ERR(x_rs0, (Z k), vf_flag(16); vf_assume(k == 0), r.resize(k))
ERR(x_rd, (Z k), vf_flag(16); vf_assume(k >= r.d.sz), return r[k])
ERR(x_wr, (Z k), vf_flag(16); vf_assume(k >= r.d.sz), r[k] = 1.0)
ERR(x_set, (Z k), vf_flag(16); vf_assume(k >= r.d.sz), r.d.set(k, 1.0))
ERR(x_back, (Z k), vf_flag(16); vf_assume(r.d.sz == 0), r.back() = 1.0)
ERR(x_fill, (VD & a), vf_flag(16); ne(a); vf_assume(len(a) != r.d.sz), r.d.fill(a))
// whatever the state, nothing outside the borrowed memory is touched and it is never released
#define SAFE(N, PARAMS, PRE, STMT)                                               \
  IMPL(N, void, UNPAREN PARAMS) { vf_flag(1 | 2 | 16); PRE; STMT; }                   \
  SPEC(N, void, UNPAREN PARAMS) {}
SAFE(s_any, (BD & r, VD &a), wf(r); wf(a), r = a)
SAFE(s_anyi, (BD & r, VI &a), wf(r); wf(a), r = a)
SAFE(s_anyx, (BD & r, VD &a), wf(r); wf(a), r = r + a)
SAFE(s_anys, (BD & r, double x), wf(r), r = x)
SAFE(s_anysi, (BD & r, int x), wf(r), r = x)
SAFE(s_anyc, (BD & r, double x), wf(r), BD t = r; VD c; c = t; t = c)
SAFE(s_back, (BD & r, VD &a), wf(r); wf(a), r = a; r.back() = 1.0)
SAFE(s_sub, (BD & r, VD &a, int k), wf(r); wf(a), etr::subset(r, k) = a)
SAFE(s_it, (BD & r, VD &a), wf(r); wf(a), r = a; for (auto &e : r) e = 1.0)
SAFE(s_rs, (BD & r, Z k, double x), wf(r), r.resize(k); r[k - 1] = x)
SAFE(s_dflt, (double x), (void)0, BD r; r = x)
SAFE(s_dflt2, (VD & a), wf(a), BD r; r = a)
// ---- owned vectors built from a pointer hold a copy
IMPL(p_vec, double, double *q, Z n, double x, Z j, Z i) {
  mem(q, n); vf_assume(i < n && j < n);
  VD r(q, n); q[j] = x;
  vf_out_z(1, r.d.sz); vf_out_b(2, r.im());
  return r.d.p[i];
}
SPEC(p_vec, double, double *q, Z n, double x, Z j, Z i) { vf_out_z(1, n); vf_out_b(2, false); return q[i]; }
IMPL(p_back, double, double *q, Z n, double x, Z j, Z i) {
  mem(q, n); vf_assume(i < n && j < n);
  VD r(q, n); r[j] = x;
  return q[i];
}
SPEC(p_back, double, double *q, Z n, double x, Z j, Z i) { return q[i]; }
IMPL(p_mat, double, double *q, Z nr, Z nc, Z i) {
  vf_assume(nr > 0 && nr < (1ull << 20) && nc > 0 && nc < (1ull << 20) && i < nr * nc);
  vf_buffer(q, nr * nc * 8); vf_owned(q, false);
  VD r(q, nr, nc);
  vf_out_z(1, r.d.sz); vf_out_b(2, r.im()); vf_out_z(3, r.nr()); vf_out_z(4, r.nc());
  return r.d.p[i];
}
SPEC(p_mat, double, double *q, Z nr, Z nc, Z i) {
  vf_out_z(1, nr * nc); vf_out_b(2, true); vf_out_z(3, nr); vf_out_z(4, nc);
  return q[i];
}
