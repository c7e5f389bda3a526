// Vocabulary of the analysis drivers.  Nothing in these files is executed: they
// only instantiate /repo's templates so that their value graphs can be built.
#ifndef VF_HPP
#define VF_HPP
#include "prelude.hpp"
extern "C" {
void vf_assume(bool);                       // precondition
void vf_throw() __attribute__((noreturn));  // "the rule requires an error here"
void vf_warn(bool);                         // "the rule requires a warning unless"
void vf_flag(int);                          // 1 ignore errors, 2 ignore warnings, 4 ignore safety, 16 may be vacuous, 32 compare output, 128 ignore failing memory requests
void vf_buffer(const void *, size_t);       // extent in bytes of a caller-owned block
void vf_owned(const void *, bool);          // the block may be released by the library
// from here on: an error must find the location as it is now
void vf_watch_z(const size_t *);
void vf_watch_i(const int *);
void vf_watch_b(const bool *);
void vf_watch_d(const double *);
void vf_watch_live(const void *);            // address of a pointer: its block must not have been released
void vf_watch_p(const void *);               // address of a pointer
void vf_out_d(int, double);
void vf_out_z(int, size_t);
void vf_out_i(int, int);
void vf_out_b(int, bool);
}
#define IMPL(N, R, ...) extern "C" R impl_##N(__VA_ARGS__)
#define SPEC(N, R, ...) extern "C" R spec_##N(__VA_ARGS__)

using VD = etr::Vec<double>;
using VI = etr::Vec<int>;
using VB = etr::Vec<bool>;
using BD = etr::Vec<double, etr::Borrow<double>>;
using Z = std::size_t;

// ---- representation invariant of owned storage (also itself an obligation, see S02)
template <class B> __attribute__((always_inline)) inline void inv(const B &d) {
  using E = std::remove_pointer_t<decltype(d.p)>;
  vf_assume(d.sz <= d.capacity);
  vf_assume(d.capacity < (1ull << 40));
  vf_buffer(d.p, d.capacity * sizeof(E));
  vf_assume(!d.allocated || d.p != nullptr);
  vf_assume(d.allocated || d.p == nullptr);
  vf_assume(d.allocated || d.capacity == 0);
  vf_owned(d.p, d.allocated);
}
template <class B> inline void inv_mp(const B &d) {
  vf_assume(d.mp.rows < (1ull << 20));
  vf_assume(d.mp.cols < (1ull << 20));
}
template <class T> inline void wf(const etr::Vec<T> &v) { inv(v.d); inv(v.temp); inv_mp(v.d); }
// borrowed storage: extent is `capacity`, never released
inline void wf(const BD &v) {
  vf_assume(v.d.sz <= v.d.capacity);
  vf_assume(v.d.capacity < (1ull << 40));
  vf_buffer(v.d.p, v.d.capacity * 8);
  vf_assume(v.d.allocated && v.d.p != nullptr);
  vf_owned(v.d.p, false);
  inv(v.temp);
  inv_mp(v.d);
}
template <class V> inline void wfm(const V &v) { // a matrix
  const_cast<Z &>(v.d.sz) = v.d.mp.rows * v.d.mp.cols;
  wf(v);
  vf_assume(v.d.mp.ismatrix);
  vf_assume(v.d.mp.rows >= 1 && v.d.mp.cols >= 1);
}
template <class V> inline void ne(const V &v) { wf(v); vf_assume(v.d.sz > 0); }
inline void wf(double) {} inline void wf(int) {} inline void wf(bool) {}
inline void ne(double) {} inline void ne(int) {} inline void ne(bool) {}

// ---- how the rules read operands
template <class V> inline auto el(const V &v, Z i) { // recycled element
  if constexpr (std::is_arithmetic_v<V>) return v;
  else return v.d.p[i % v.d.sz];
}
template <class V> inline Z len(const V &v) {
  if constexpr (std::is_arithmetic_v<V>) return 1;
  else return v.d.sz;
}
inline Z zmax(Z a, Z b) { return a > b ? a : b; }
template <class A, class B> inline Z len2(const A &a, const B &b) {
  if constexpr (std::is_arithmetic_v<A>) return len(b);
  else if constexpr (std::is_arithmetic_v<B>) return len(a);
  else return zmax(len(a), len(b));
}
template <class V> inline bool im(const V &v) {
  if constexpr (std::is_arithmetic_v<V>) return false;
  else return v.d.mp.ismatrix;
}
#endif
