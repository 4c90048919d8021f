#include "analysis/math/math.physics.h"
#include "common.h"
using namespace espreso;
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
typedef Vector_Dense<double, int> VD; typedef Vector_Sparse<double, int> VS; typedef Matrix_CSR<double, int> MC;
// x and y vectors given by their sizes and values
V void v_dd_copy(double *x, int nx, const double *y, int ny, int off, int size, int step) { Raw<VD> X, Y; X().size = nx; X().vals = x; Y().size = ny; Y().vals = (double*)y; math::copy(X(), Y(), Selection(off, size, step)); }
V void v_dd_add(double *x, int nx, const double *y, int ny, int off, int size, int step, double a) { Raw<VD> X, Y; X().size = nx; X().vals = x; Y().size = ny; Y().vals = (double*)y; math::add(X(), a, Y(), Selection(off, size, step)); }
V void v_ss_copy(double *x, int nx, const double *y, int ny, int off, int size, int step) { Raw<VS> X, Y; X().nnz = nx; X().vals = x; Y().nnz = ny; Y().vals = (double*)y; math::copy(X(), Y(), Selection(off, size, step)); }
V void v_ss_add(double *x, int nx, const double *y, int ny, int off, int size, int step, double a) { Raw<VS> X, Y; X().nnz = nx; X().vals = x; Y().nnz = ny; Y().vals = (double*)y; math::add(X(), a, Y(), Selection(off, size, step)); }
V void v_ds_copy(double *x, int nx, const double *y, const int *iy, int ny) { Raw<VD> X; Raw<VS> Y; X().size = nx; X().vals = x; Y().size = nx; Y().nnz = ny; Y().indices = (int*)iy; Y().vals = (double*)y; math::copy(X(), Y(), Selection()); }
V void v_ds_add(double *x, int nx, const double *y, const int *iy, int ny, double a) { Raw<VD> X; Raw<VS> Y; X().size = nx; X().vals = x; Y().size = nx; Y().nnz = ny; Y().indices = (int*)iy; Y().vals = (double*)y; math::add(X(), a, Y(), Selection()); }
V void v_sd_copy(double *x, const int *ix, int nx, const double *y, int ny) { Raw<VS> X; Raw<VD> Y; X().size = ny; X().nnz = nx; X().indices = (int*)ix; X().vals = x; Y().size = ny; Y().vals = (double*)y; math::copy(X(), Y(), Selection()); }
V void v_sd_add(double *x, const int *ix, int nx, const double *y, int ny, double a) { Raw<VS> X; Raw<VD> Y; X().size = ny; X().nnz = nx; X().indices = (int*)ix; X().vals = x; Y().size = ny; Y().vals = (double*)y; math::add(X(), a, Y(), Selection()); }
#define CSR(NAME, OP) V void v_csr_##NAME(double *x, const int *xr, int xn, int xnnz, const double *y, const int *yr, int yn, int ynnz, int roff, int rsize, int rstep, int coff, int csize, int cstep, double a) { \
    Raw<MC> X, Y; X().nrows = X().ncols = xn; X().nnz = xnnz; X().rows = (int*)xr; X().vals = x; Y().nrows = Y().ncols = yn; Y().nnz = ynnz; Y().rows = (int*)yr; Y().vals = (double*)y; OP; }
CSR(copy, math::copy(X(), Y(), Selection(roff, rsize, rstep), Selection(coff, csize, cstep)))
CSR(add, math::add(X(), a, Y(), Selection(roff, rsize, rstep), Selection(coff, csize, cstep)))
