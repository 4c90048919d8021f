#include <vector>
#include <string>
#include <cstring>
#include <memory>
#include <cmath>
#include <algorithm>
#define private public
#define protected public
#include "basis/utilities/packing.h"
#include "basis/containers/packer.h"
#include "basis/containers/tarray.h"
#undef private
#undef protected
#include "common.h"
using namespace espreso;
template <typename T> static inline void out(T *x, const std::vector<T> &v) { for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; }
// packs x, unpacks it into y; res: packed size, bytes written, bytes read
template <typename T> static inline void trip(const T &x, T &y, long *res) { size_t n = utils::packedSize(x); char *b = new char[n]; char *p = b; utils::pack(x, p); const char *q = b; utils::unpack(y, q); res[0] = n; res[1] = p - b; res[2] = q - b; delete[] b; }
#define NUM(T, NAME) V void v_pack_##NAME(const T *x, T *y, long *res) { trip(*x, *y, res); } \
V void v_pack_vec_##NAME(const T *x, long n, T *y, long *ny, long *res, long old) { std::vector<T> a(x, x + n), b(old); trip(a, b, res); *ny = b.size(); out(y, b); } \
V void v_pack_vv_##NAME(const T *x, long n0, long n1, T *y, long *ny, long *res, long old) { std::vector<std::vector<T> > a(2), b(old); a[0].assign(x, x + n0); a[1].assign(x + n0, x + n0 + n1); trip(a, b, res); ny[0] = b.size(); ny[1] = b[0].size(); ny[2] = b[1].size(); out(y, b[0]); out(y + n0, b[1]); }
NUM(int, int) NUM(double, double) NUM(size_t, ulong)
V void v_pack_string(const char *x, long n, char *y, long *ny, long *res) { std::string a(x, x + n), b("abc"); trip(a, b, res); *ny = b.size(); memcpy(y, b.data(), b.size()); }
V void v_pack_strings(const char *x, long n0, long n1, char *y, long *ny, long *res, long old) { std::vector<std::string> a(2), b(old); a[0] = std::string(x, x + n0); a[1] = std::string(x + n0, x + n0 + n1); trip(a, b, res); ny[0] = b.size(); ny[1] = b[0].size(); ny[2] = b[1].size(); memcpy(y, b[0].data(), b[0].size()); memcpy(y + n0, b[1].data(), b[1].size()); }
V void v_pack_nostrings(long *ny, long *res, long old) { std::vector<std::string> a, b(old); trip(a, b, res); ny[0] = b.size(); }
// several values through one Packer
V void v_packer(int *i, double *d, int *v, long n, double *w, long m, long *res) { int a = *i; double b = *d; std::vector<int> c(v, v + n); std::vector<double> e(w, w + m); Packer p(a, b); p += Packer(c, e); p.pack(); res[0] = p.size(); a = 0; b = 0; c.clear(); e.clear(); p.unpack(); *i = a; *d = b; res[1] = c.size(); res[2] = e.size(); out(v, c); out(w, e); }
// distributed arrays
#define TA(T, NAME) V void v_pack_tarray_##NAME(const T *x, long n, T *y, long *ny, long *dist, long *res, int threads, long align) { std::vector<T> v(x, x + n); tarray<T> a(threads, v, align), b(1, (size_t)2, (T)0, align); \
    size_t s = a.packedSize(); char *buf = new char[s]; char *p = buf; a.pack(p); const char *q = buf; b.unpack(q); res[0] = s; res[1] = p - buf; res[2] = q - buf; *ny = b.size(); for (size_t i = 0; i < b.size(); i++) y[i] = b[i]; dist[0] = b.distribution().size(); for (size_t i = 0; i < b.distribution().size(); i++) dist[i + 1] = b.distribution()[i]; delete[] buf; }
TA(int, int) TA(double, double)
