#include <vector>
#include <string>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <type_traits>
#include "basis/utilities/utils.h"
#include "basis/containers/tarray.h"
#include "common.h"
using namespace espreso;
template <typename T> static inline void back(T *x, const std::vector<T> &v) { memcpy(x, v.data(), v.size() * sizeof(T)); }
// a std::vector placed over a plain array (the code below neither grows nor frees it)
template <typename T> struct Over { T *b, *e, *c; Over() {} Over(T *x, size_t n): b(x), e(x + n), c(x + n) {} std::vector<T>& operator()() { return *reinterpret_cast<std::vector<T>*>(this); } };
template <typename T> struct Over2 { Over<T> *b, *e, *c; Over2(Over<T> *x, size_t n): b(x), e(x + n), c(x + n) {} std::vector<std::vector<T> >& operator()() { return *reinterpret_cast<std::vector<std::vector<T> >*>(this); } };
V int v_s2o_i32(int *x, int n, int off) { return utils::sizesToOffsets(x, x + n, off); }
V long v_s2o_i64(unsigned long *x, long n, unsigned long off) { return (long)utils::sizesToOffsets(x, x + n, off); }
V int v_s2o_vec(int *x, int n) { Over<int> v(x, n); return utils::sizesToOffsets(v()); }
#define VV(T) V void v_s2o_vv_##T(int *a, int *b, int *c, int n, int *off, int use) { Over<int> p[3] = { Over<int>(a, n), Over<int>(b, n), Over<int>(c, n) }; Over2<int> v(p, T); \
    if (use) { Over<int> o(off, n); std::vector<int> r = utils::sizesToOffsets(v(), o()); back(off, r); } else { std::vector<int> r = utils::sizesToOffsets(v()); back(off, r); } }
VV(1) VV(2) VV(3)
V void v_perm_i32(int *x, int n, const int *p, int k, long es) { std::vector<int> v(x, x + n); Over<int> q((int*)p, k); utils::permute(v, q(), es); back(x, v); }
V void v_perm_f64(double *x, int n, const int *p, int k, long es) { std::vector<double> v(x, x + n); Over<int> q((int*)p, k); utils::permute(v, q(), es); back(x, v); }
#define TD(T) V void v_td_vv_##T(int *a, long na, int *b, long nb, int *c, long nc) { Over<int> p[3] = { Over<int>(a, na), Over<int>(b, nb), Over<int>(c, nc) }; Over2<int> v(p, T); utils::threadDistributionToFullDistribution(v()); } \
V void v_td_flat_##T(int *x, long n, long d1, long d2, long d3) { Over<int> v(x, n); size_t dd[4] = { 0, (size_t)d1, (size_t)d2, (size_t)d3 }; Over<size_t> d(dd, T + 1); utils::threadDistributionToFullDistribution(v(), d()); }
TD(1) TD(2) TD(3)
V long v_uniq_i32(int *x, long n, long begin) { Over<int> v(x, n); utils::removeDuplicates(v(), begin); return v().size(); }
V int v_up_i32(int n, int a) { return utils::round_up(n, a); }
V long v_up_u64(unsigned long n, unsigned long a) { return (long)utils::round_up(n, a); }
V int v_down_i32(int n, int a) { return utils::round_down(n, a); }
V long v_down_u64(unsigned long n, unsigned long a) { return (long)utils::round_down(n, a); }
V int v_divup_i32(int n, int a) { return utils::divide_round_up(n, a); }
V long v_pow(long b, long e) { return utils::my_int_pow(b, e); }
V void v_dist_u64(long *d, int T, long size) { std::vector<size_t> r = tarray<size_t>::distribute(T, size); for (size_t i = 0; i < r.size(); i++) d[i] = (long)r[i]; }
V void v_dist_min(long *d, int T, long size, long chunk) { std::vector<size_t> r = tarray<size_t>::distribute(T, size, chunk); for (size_t i = 0; i < r.size(); i++) d[i] = (long)r[i]; }
