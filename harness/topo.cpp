// topology tables of the element types and of the block mesh generator
#include <vector>
#include <string>
#include <map>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cmath>
#include <cstring>
#include <mutex>
#include <thread>
#include <memory>
#include <set>
#include <unordered_map>
#include <chrono>
#include <omp.h>
#include <mpi.h>
#define private public
#define protected public
#include "mesh/mesh.h"
#include "mesh/element.cpp"
#include "input/parsers/meshgenerator/elements/3D/linearvolume.cpp"
#include "input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp"
#include "input/parsers/meshgenerator/elements/3D/tetrahedron4.cpp"
#include "input/parsers/meshgenerator/elements/3D/tetrahedron10.cpp"
#include "input/parsers/meshgenerator/elements/3D/pyramid5.cpp"
#include "input/parsers/meshgenerator/elements/3D/pyramid13.cpp"
#include "input/parsers/meshgenerator/elements/3D/prisma6.cpp"
#include "input/parsers/meshgenerator/elements/3D/prisma15.cpp"
#include "input/parsers/meshgenerator/elements/3D/hexahedron8.cpp"
#include "input/parsers/meshgenerator/elements/3D/hexahedron20.cpp"
#include "input/parsers/meshgenerator/elements/2D/linearplane.cpp"
#include "input/parsers/meshgenerator/elements/2D/quadraticplane.cpp"
#include "input/parsers/meshgenerator/elements/2D/square4.cpp"
#include "input/parsers/meshgenerator/elements/2D/square8.cpp"
#include "input/parsers/meshgenerator/elements/2D/triangle3.cpp"
#include "input/parsers/meshgenerator/elements/2D/triangle6.cpp"
#undef private
#undef protected
#include "common.h"
using namespace espreso;
namespace espreso { Element Mesh::edata[(int)Element::CODE::SIZE]; }
// out: count, then per item: type, size, nodes...
static int list(int *out, serializededata<int, int> *l, serializededata<int, Element*> *p)
{
    int n = 1, i = 0;
    for (auto f = l->cbegin(); f != l->cend(); ++f, ++i) {
        int at = n++; int sz = n++;
        out[at] = p ? (int)(p->datatarray()[i] - Mesh::edata) : -1; out[sz] = 0;
        for (auto v = f->begin(); v != f->end(); ++v) { out[n++] = *v; out[sz]++; }
    }
    out[0] = i;
    return n;
}
// every item of the list is found under every rotation and direction of its corners; an item with a foreign corner is not found
static inline void index(Element &e, const int *nodes, int other, serializededata<int, int> *l, serializededata<int, Element*> *p, int *res)
{
    int i = 0;
    for (auto f = l->cbegin(); f != l->cend(); ++f, ++i) {
        int m = p->datatarray()[i]->coarseNodes;
        for (int k = 0; k < m; ++k) {
            for (int dir = -1; dir <= 1; dir += 2) {
                int sub[4];
                for (int j = 0; j < m; ++j) { sub[(k + m + dir * j) % m] = nodes[f->at(j)]; }
                edata<esint> a((esint*)nodes, (esint*)nodes + e.nodes), b(sub, sub + m);
                if (e.getIndex(a, l, p, b) != i) { ++res[0]; }
            }
            int sub[4];
            for (int j = 0; j < m; ++j) { sub[j] = j == k ? other : nodes[f->at(j)]; }
            edata<esint> a((esint*)nodes, (esint*)nodes + e.nodes), b(sub, sub + m);
            if (e.getIndex(a, l, p, b) != -1) { ++res[1]; }
        }
    }
}
#define T(C_) \
V void v_faces_##C_(int *out) { Element e; e.init<Element::CODE::C_>(); list(out, e.faceList, e.facepointers); } \
V void v_edges_##C_(int *out) { Element e; e.init<Element::CODE::C_>(); list(out, e.edgeList, e.edgepointers); } \
V void v_info_##C_(int *out) { Element e; e.init<Element::CODE::C_>(); out[0] = (int)e.type; out[1] = (int)e.code; out[2] = e.nodes; out[3] = e.edges; out[4] = e.faces; out[5] = e.coarseNodes; out[6] = e.dimension; } \
V void v_index_##C_(const int *nodes, int other, int *res) { Mesh::edata[2].init<Element::CODE::TRIANGLE3>(); Mesh::edata[9].init<Element::CODE::TRIANGLE6>(); Mesh::edata[3].init<Element::CODE::SQUARE4>(); Mesh::edata[10].init<Element::CODE::SQUARE8>(); Mesh::edata[1].init<Element::CODE::LINE2>(); Mesh::edata[8].init<Element::CODE::LINE3>(); Element e; e.init<Element::CODE::C_>(); index(e, nodes, other, e.faceList, e.facepointers, res); index(e, nodes, other, e.edgeList, e.edgepointers, res + 2); }
#define P(C_) \
V void v_tri_##C_(int *out) { Element e; e.init<Element::CODE::C_>(); list(out, e.triangles, nullptr); } \
V void v_poly_##C_(int *out) { Element e; e.init<Element::CODE::C_>(); out[0] = (int)e.polygon->size(); for (size_t i = 0; i < e.polygon->size(); ++i) out[i + 1] = (*e.polygon)[i]; }
T(TRIANGLE3) T(TRIANGLE6) T(SQUARE4) T(SQUARE8) T(TETRA4) T(TETRA10) T(PYRAMID5) T(PYRAMID13) T(PRISMA6) T(PRISMA15) T(HEXA8) T(HEXA20)
P(TRIANGLE3) P(TRIANGLE6) P(SQUARE4) P(SQUARE8)
V void v_info_LINE2(int *out) { Element e; e.init<Element::CODE::LINE2>(); out[0] = (int)e.type; out[1] = (int)e.code; out[2] = e.nodes; out[3] = e.edges; out[4] = e.faces; out[5] = e.coarseNodes; out[6] = e.dimension; }
V void v_info_LINE3(int *out) { Element e; e.init<Element::CODE::LINE3>(); out[0] = (int)e.type; out[1] = (int)e.code; out[2] = e.nodes; out[3] = e.edges; out[4] = e.faces; out[5] = e.coarseNodes; out[6] = e.dimension; }
V void v_info_POINT1(int *out) { Element e; e.init<Element::CODE::POINT1>(); out[0] = (int)e.type; out[1] = (int)e.code; out[2] = e.nodes; out[3] = e.edges; out[4] = e.faces; out[5] = e.coarseNodes; out[6] = e.dimension; }
#define G(GEN) \
V void v_gen_##GEN(const int *idx, int n, int *out) { GEN##Generator g; std::vector<esint> i(idx, idx + n), e; g.pushElements(e, i); out[0] = g.subelements; out[1] = g.subnodes[0]; out[2] = g.subnodes[1]; out[3] = g.subnodes[2]; out[4] = g.enodes; out[5] = (int)g.code; out[6] = e.size(); for (size_t k = 0; k < e.size(); ++k) out[7 + k] = e[k]; } \
V void v_gface_##GEN(const int *idx, int n, int face, int *out, int *el) { GEN##Generator g; std::vector<esint> i(idx, idx + n), ee, e, es; std::vector<int> et; g.pushElements(ee, i); el[0] = ee.size(); for (size_t k = 0; k < ee.size(); ++k) el[1 + k] = ee[k]; g.pushFace(e, es, et, i, (CubeFace)face); out[0] = es.size(); out[1] = et.size(); out[2] = e.size(); for (size_t k = 0; k < es.size(); ++k) out[3 + k] = es[k]; for (size_t k = 0; k < et.size(); ++k) out[7 + k] = et[k]; for (size_t k = 0; k < e.size(); ++k) out[11 + k] = e[k]; } \
V void v_gedge_##GEN(const int *idx, int n, int edge, int *out, int *el) { GEN##Generator g; std::vector<esint> i(idx, idx + n), ee, e, es; std::vector<int> et; g.pushElements(ee, i); el[0] = ee.size(); for (size_t k = 0; k < ee.size(); ++k) el[1 + k] = ee[k]; g.pushEdge(e, es, et, i, (CubeEdge)edge); out[0] = es.size(); out[1] = et.size(); out[2] = e.size(); for (size_t k = 0; k < es.size(); ++k) out[3 + k] = es[k]; for (size_t k = 0; k < et.size(); ++k) out[7 + k] = et[k]; for (size_t k = 0; k < e.size(); ++k) out[11 + k] = e[k]; } \
V void v_gnface_##GEN(const int *idx, int n, int face, int *out, int *el) { GEN##Generator g; std::vector<esint> i(idx, idx + n), ee, e; g.pushElements(ee, i); el[0] = ee.size(); for (size_t k = 0; k < ee.size(); ++k) el[1 + k] = ee[k]; g.pushNodes(e, i, (CubeFace)face); out[0] = e.size(); for (size_t k = 0; k < e.size(); ++k) out[1 + k] = e[k]; } \
V void v_gnedge_##GEN(const int *idx, int n, int edge, int *out, int *el) { GEN##Generator g; std::vector<esint> i(idx, idx + n), ee, e; g.pushElements(ee, i); el[0] = ee.size(); for (size_t k = 0; k < ee.size(); ++k) el[1 + k] = ee[k]; g.pushNodes(e, i, (CubeEdge)edge); out[0] = e.size(); for (size_t k = 0; k < e.size(); ++k) out[1 + k] = e[k]; }
G(Triangle3) G(Triangle6) G(Square4) G(Square8) G(Tetrahedron4) G(Tetrahedron10) G(Pyramid5) G(Pyramid13) G(Prisma6) G(Prisma15) G(Hexahedron8) G(Hexahedron20)
