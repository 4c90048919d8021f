// cells, regions and intervals of the block mesh generator
#include <vector>
#include <string>
#include <map>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cmath>
#include <cstring>
#include <mutex>
#include <thread>
#include <memory>
#include <set>
#include <unordered_map>
#include <chrono>
#include <numeric>
#include <omp.h>
#include <mpi.h>
#define private public
#define protected public
#include "input/parsers/meshgenerator/primitives/block.cpp"
#include "input/parsers/meshgenerator/selection/blockborder.cpp"
#undef private
#undef protected
#include "common.h"
using namespace espreso;
namespace espreso { namespace eslog { void warning(const char* msg) {} } }
template <typename T> struct Raw { alignas(T) char b[sizeof(T)]; Raw() { memset(b, 0, sizeof(T)); } T& operator()() { return *reinterpret_cast<T*>(b); } };
struct Cell: public ElementGenerator {
    Cell(size_t x, size_t y, size_t z) { subnodes[0] = x; subnodes[1] = y; subnodes[2] = z; }
    void pushElements(std::vector<esint>&, const std::vector<esint>&) const {}
    void pushNodes(std::vector<esint>&, const std::vector<esint>&, CubeEdge) const {}
    void pushNodes(std::vector<esint>&, const std::vector<esint>&, CubeFace) const {}
    void pushEdge(std::vector<esint>&, std::vector<esint>&, std::vector<int>&, const std::vector<esint>&, CubeEdge) const {}
    void pushFace(std::vector<esint>&, std::vector<esint>&, std::vector<int>&, const std::vector<esint>&, CubeFace) const {}
};
// node numbers of the cell (bx, by, bz) of a block
V void v_cell(int sx, int sy, int sz, int64_t dx, int64_t dy, int64_t dz, int64_t ex, int64_t ey, int64_t ez, int64_t bx, int64_t by, int64_t bz, int *out)
{
    Raw<BlockSettings> bs; bs().domains = Triple<size_t>(dx, dy, dz); bs().elements = Triple<size_t>(ex, ey, ez);
    Cell cell(sx, sy, sz);
    struct B { const BlockSettings *b; const ElementGenerator *e; } bb = { &bs(), &cell };
    BlockGenerator &g = *reinterpret_cast<BlockGenerator*>(&bb);
    int n = 1; out[0] = 0;
    g.forEachElement(Triple<size_t>(bx, by, bz), Triple<size_t>(bx + 1, by + 1, bz + 1), [&] (std::vector<esint> &i) { for (size_t k = 0; k < i.size(); ++k) { out[n++] = i[k]; } ++out[0]; }, [] (Triple<size_t> &offset) {});
}
static inline void box(BlockBorder &b, const int *s, const int *e, const int *xs, const int *xe) { b.start = Triple<esint>(s[0], s[1], s[2]); b.end = Triple<esint>(e[0], e[1], e[2]); b.excludeStart = Triple<bool>(xs[0] != 0, xs[1] != 0, xs[2] != 0); b.excludeEnd = Triple<bool>(xe[0] != 0, xe[1] != 0, xe[2] != 0); }
V void v_border(const int *s, const int *e, const int *xs, const int *xe, const int *bs, const int *be, int *out)
{
    Raw<BlockBorder> b; Raw<BlockSettings> set; box(b(), s, e, xs, xe); set().start = Triple<long>(bs[0], bs[1], bs[2]); set().end = Triple<long>(be[0], be[1], be[2]);
    BlockBorder i = b().intersect(set());
    out[0] = i.start.x; out[1] = i.start.y; out[2] = i.start.z; out[3] = i.end.x; out[4] = i.end.y; out[5] = i.end.z;
    out[6] = i.excludeStart.x; out[7] = i.excludeStart.y; out[8] = i.excludeStart.z; out[9] = i.excludeEnd.x; out[10] = i.excludeEnd.y; out[11] = i.excludeEnd.z;
}
V int64_t v_dimension(const int *s, const int *e, const int *xs, const int *xe) { Raw<BlockBorder> b; box(b(), s, e, xs, xe); return b().dimension(); }
V int v_getface(const int *s, const int *e, const int *bs, const int *be) { int z[3] = { 0, 0, 0 }; Raw<BlockBorder> b; Raw<BlockSettings> set; box(b(), s, e, z, z); set().start = Triple<long>(bs[0], bs[1], bs[2]); set().end = Triple<long>(be[0], be[1], be[2]); return (int)b().getFace(set()); }
V int v_getedge(const int *s, const int *e, const int *bs, const int *be) { int z[3] = { 0, 0, 0 }; Raw<BlockBorder> b; Raw<BlockSettings> set; box(b(), s, e, z, z); set().start = Triple<long>(bs[0], bs[1], bs[2]); set().end = Triple<long>(be[0], be[1], be[2]); return (int)b().getEdge(set()); }
