// index vocabulary of the matrix rules: an index of kind K addresses one dimension of extent n
#ifndef VF_MAT_HPP
#define VF_MAT_HPP
#include "vf.hpp"
inline Z cnt(const VB &k, Z n) { Z c = 0; for (Z j = 0; j < n; j++) if (k.d.p[j % k.d.sz]) c++; return c; }
inline Z nth(const VB &k, Z n, Z i) {
  Z c = 0, r = 0;
  for (Z j = 0; j < n; j++) if (k.d.p[j % k.d.sz]) { if (c == i) r = j; c++; }
  return r;
}
// number of selected positions
inline Z num(bool, Z n) { return n; }
inline Z num(int, Z) { return 1; }
inline Z num(double, Z) { return 1; }
inline Z num(const VI &k, Z) { return k.d.sz; }
inline Z num(const VD &k, Z) { return k.d.sz; }
inline Z num(const VB &k, Z n) { return cnt(k, n); }
// i-th selected position, from 0
inline Z pos(bool, Z, Z i) { return i; }
inline Z pos(int k, Z, Z) { return (Z)k - 1; }
inline Z pos(double k, Z, Z) { return (Z)k - 1; }
inline Z pos(const VI &k, Z, Z i) { return (Z)k.d.p[i] - 1; }
inline Z pos(const VD &k, Z, Z i) { return (Z)k.d.p[i] - 1; }
inline Z pos(const VB &k, Z n, Z i) { return nth(k, n, i); }
// does the dimension survive
inline bool dimv(bool) { return true; }
inline bool dimv(int) { return false; }
inline bool dimv(double) { return false; }
template <class V> inline bool dimv(const V &) { return true; }
// preconditions on the index variable
inline void pre(bool) {}
inline void pre(int) {}
inline void pre(double k) { vf_assume(k < 1e9 && k > -1e9); vf_flag(2); }
template <class V> inline void pre(const V &k) { ne(k); }
// the i-th position is a legal one (numeric vectors)
inline void legal(bool, Z, Z) {}
inline void legal(int, Z, Z) {}
inline void legal(double, Z, Z) {}
inline void legal(const VB &, Z, Z) {}
inline void legal(const VI &k, Z n, Z i) { vf_flag(1); vf_assume(k.d.p[i] >= 1 && (Z)k.d.p[i] <= n); }
inline void legal(const VD &k, Z n, Z i) { vf_flag(1); vf_assume(k.d.p[i] >= 1 && k.d.p[i] < (double)n + 1); }
// the index is an error
inline void err(bool k, Z) { if (!k) vf_throw(); }
inline void err(int k, Z n) { if (k < 1 || (Z)k > n) vf_throw(); }
inline void err(double k, Z n) { if (!(k >= 1.0 && k < (double)n + 1.0)) vf_throw(); }
inline void err(const VI &, Z) {}
inline void err(const VD &, Z) {}
inline void err(const VB &k, Z n) { if (k.d.sz > n || cnt(k, n) == 0) vf_throw(); }
#define NR a.d.mp.rows
#define NC a.d.mp.cols
#endif
