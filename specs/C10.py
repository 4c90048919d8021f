"""Topology tables of the elements and of the block mesh generator."""
from dsl import Contract
from fractions import Fraction as Fr
import itertools
CONTRACTS = []
H = "topo.cpp"
CODE = dict(POINT1=0, LINE2=1, TRIANGLE3=2, SQUARE4=3, TETRA4=4, PYRAMID5=5, PRISMA6=6, HEXA8=7, LINE3=8, TRIANGLE6=9, SQUARE8=10, TETRA10=11, PYRAMID13=12, PRISMA15=13, HEXA20=14)
# reference elements: corner coordinates, the pair of corners of every mid node, number of (faces, edges)
_sq = [(-1, -1), (1, -1), (1, 1), (-1, 1)]; _tr = [(0, 0), (1, 0), (0, 1)]
REF = dict(
    TRIANGLE=(_tr, [(0, 1), (1, 2), (2, 0)]),
    SQUARE=(_sq, [(0, 1), (1, 2), (2, 3), (3, 0)]),
    TETRA=([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]),
    PYRAMID=([p + (-1,) for p in _sq] + [(0, 0, 1)], [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4), (2, 4), (3, 4)]),
    PRISMA=([p + (-1,) for p in _tr] + [p + (1,) for p in _tr], [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)]),
    HEXA=([p + (-1,) for p in _sq] + [p + (1,) for p in _sq], [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]))
NAMES = [n for n in CODE if n not in ('POINT1', 'LINE2', 'LINE3')]
def fam(name): return name.rstrip('0123456789')
def nn(name): return int(name[len(fam(name)):])
def quad(name): return nn(name) > len(REF[fam(name)][0])
def sub(a, b): return tuple(x - y for x, y in zip(a, b))
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def mid(a, b): return tuple(Fr(x + y, 2) for x, y in zip(a, b))
def coords(name):
    co, ed = REF[fam(name)]
    return [tuple(map(Fr, p)) for p in co] + ([mid(co[a], co[b]) for a, b in ed] if quad(name) else [])
def facets3(pts):
    """facets (as frozensets of corner numbers) of the convex hull of the corners"""
    out = set()
    for t in itertools.combinations(range(len(pts)), 3):
        n = cross(sub(pts[t[1]], pts[t[0]]), sub(pts[t[2]], pts[t[0]]))
        if n == (0, 0, 0): continue
        s = [dot(n, sub(p, pts[t[0]])) for p in pts]
        if all(x <= 0 for x in s) or all(x >= 0 for x in s): out.add(frozenset(i for i, x in enumerate(s) if x == 0))
    return out
def outward(P, f, rest):
    """corners f (points) form a convex polygon seen counterclockwise from outside; rest lies inside"""
    if len(P) and len(f[0]) == 2:
        a, b = f; d = sub(b, a)
        return all(d[0] * (p[1] - a[1]) - d[1] * (p[0] - a[0]) > 0 for p in rest)
    n = cross(sub(f[1], f[0]), sub(f[2], f[0]))
    if n == (0, 0, 0): return False
    k = len(f)
    if any(dot(n, sub(p, f[0])) != 0 for p in f): return False
    if any(dot(n, cross(sub(f[(i + 1) % k], f[i]), sub(f[(i + 2) % k], f[(i + 1) % k]))) <= 0 for i in range(k)): return False
    return all(dot(n, sub(p, f[0])) < 0 for p in rest)
def items(c, total):
    o = c['out']; get = lambda i: int(o[i]) if not hasattr(o[i], 'as_long') else o[i].as_long()
    n = 1; L = []
    for _ in range(get(0)):
        t, s = get(n), get(n + 1); L.append((t, [get(n + 2 + k) for k in range(s)])); n += 2 + s
    return L
FTYPE = {(2, 0): 'LINE2', (3, 1): 'LINE3', (3, 0): 'TRIANGLE3', (6, 1): 'TRIANGLE6', (4, 0): 'SQUARE4', (8, 1): 'SQUARE8'}
def ftype(size, q, dim): return {(2, False): 'LINE2', (3, True): 'LINE3'}[(size, q)] if dim == 2 else {(3, False): 'TRIANGLE3', (6, True): 'TRIANGLE6', (4, False): 'SQUARE4', (8, True): 'SQUARE8'}[(size, q)]
def faces(name):
    X = coords(name); nc = len(REF[fam(name)][0]); dim = len(X[0]); q = quad(name)
    want = facets3(X[:nc]) if dim == 3 else {frozenset(p) for p in REF[fam(name)][1]}
    def pre(c): c.arr('out', 'i32', 120, out=True)
    def post(c):
        L = items(c, 120)
        c.ensure("every face of the element is listed once", len(L) == len(want) and {frozenset(v[:len(v) // 2 if q and dim == 3 else 2 if dim == 2 else len(v)]) for _, v in L} == want)
        for k, (t, v) in enumerate(L):
            m = len(v) // 2 if q and dim == 3 else 2 if dim == 2 else len(v)
            c.ensure(f"face {k}: nodes exist", all(0 <= i < len(X) for i in v) and all(i < nc for i in v[:m]))
            c.ensure(f"face {k}: type matches its nodes", (len(v), q) in ([(2, False), (3, True)] if dim == 2 else [(3, False), (6, True), (4, False), (8, True)]) and t == CODE[ftype(len(v), q, dim)])
            c.ensure(f"face {k}: oriented outwards", outward(X, [X[i] for i in v[:m]], [X[i] for i in range(nc) if i not in v[:m]]))
            if q: c.ensure(f"face {k}: mid nodes follow the corners", [X[i] for i in v[m:]] == ([mid(X[v[j]], X[v[(j + 1) % m]]) for j in range(m)] if dim == 3 else [mid(X[v[0]], X[v[1]])]))
    CONTRACTS.append(Contract(f"faces of {name}", H, f"v_faces_{name}", pre, post, mode='smt', under=[f"Element::init<{name}>"]))
def edges(name):
    X = coords(name); q = quad(name); want = {frozenset(p) for p in REF[fam(name)][1]}
    def pre(c): c.arr('out', 'i32', 120, out=True)
    def post(c):
        L = items(c, 120)
        c.ensure("every edge of the element is listed once", len(L) == len(want) and {frozenset(v[:2]) for _, v in L} == want)
        for k, (t, v) in enumerate(L):
            c.ensure(f"edge {k}: type", t == CODE['LINE3' if q else 'LINE2'] and len(v) == (3 if q else 2))
            if q: c.ensure(f"edge {k}: mid node", X[v[2]] == mid(X[v[0]], X[v[1]]))
    CONTRACTS.append(Contract(f"edges of {name}", H, f"v_edges_{name}", pre, post, mode='smt', under=[f"Element::init<{name}>"]))
def info(name):
    n = dict(POINT1=1, LINE2=2, LINE3=3).get(name) or nn(name)
    d = dict(POINT1=0, LINE2=1, LINE3=1).get(name)
    if d is None: d = len(REF[fam(name)][0][0])
    def pre(c): c.arr('out', 'i32', 7, out=True)
    def post(c):
        o = c['out']
        c.ensure("type", o[0] == d); c.ensure("code", o[1] == CODE[name]); c.ensure("nodes", o[2] == n); c.ensure("dimension", o[6] == d)
        c.ensure("coarse nodes", o[5] == (len(REF[fam(name)][0]) if name in NAMES else min(n, 2)))
        if d == 3: c.ensure("edges", o[3] == len(REF[fam(name)][1])); c.ensure("faces", o[4] == len(facets3([tuple(map(Fr, p)) for p in REF[fam(name)][0]])))
        if d == 2: c.ensure("faces", o[4] == len(REF[fam(name)][1]))
    CONTRACTS.append(Contract(f"sizes of {name}", H, f"v_info_{name}", pre, post, mode='smt', under=[f"Element::init<{name}>"]))
def tri(name):
    X = coords(name); nc = len(REF[fam(name)][0]); q = quad(name)
    def ring(): return [v for a, b in REF[fam(name)][1] for v in ((a, nc + a) if q else (a,))]
    def pre(c): c.arr('out', 'i32', 120, out=True)
    def post(c):
        L = [v for _, v in items(c, 120)]
        c.ensure("triangles have three nodes of the element", all(len(v) == 3 and all(0 <= i < len(X) for i in v) for v in L))
        area = lambda v: (X[v[1]][0] - X[v[0]][0]) * (X[v[2]][1] - X[v[0]][1]) - (X[v[1]][1] - X[v[0]][1]) * (X[v[2]][0] - X[v[0]][0])
        c.ensure("triangles are positively oriented", all(area(v) > 0 for v in L))
        d = [(v[i], v[(i + 1) % 3]) for v in L for i in range(3)]; r = ring()
        c.ensure("triangles do not overlap", len(d) == len(set(d)))
        c.ensure("triangles cover the element", {e for e in d if (e[1], e[0]) not in d} == {(r[i], r[(i + 1) % len(r)]) for i in range(len(r))})
    CONTRACTS.append(Contract(f"triangulation of {name}", H, f"v_tri_{name}", pre, post, mode='smt', under=[f"Element::init<{name}>"]))
    def post2(c):
        o = [int(c['out'][i]) for i in range(int(c['out'][0]) + 1)][1:]; r = ring()
        c.ensure("boundary polygon visits all nodes in order", len(o) == len(r) and o in [r[i:] + r[:i] for i in range(len(r))])
    CONTRACTS.append(Contract(f"polygon of {name}", H, f"v_poly_{name}", pre, post2, mode='smt', under=[f"Element::init<{name}>"]))
for name in NAMES: faces(name); edges(name); info(name)
for name in ('POINT1', 'LINE2', 'LINE3'): info(name)
for name in ('TRIANGLE3', 'TRIANGLE6', 'SQUARE4', 'SQUARE8'): tri(name)

# ---------------------------------------------------------------- block generator
GEN = dict(Triangle3=('TRIANGLE3', 2), Triangle6=('TRIANGLE6', 3), Square4=('SQUARE4', 2), Square8=('SQUARE8', 3), Tetrahedron4=('TETRA4', 2), Tetrahedron10=('TETRA10', 3), Pyramid5=('PYRAMID5', 3), Pyramid13=('PYRAMID13', 5),
           Prisma6=('PRISMA6', 2), Prisma15=('PRISMA15', 3), Hexahedron8=('HEXA8', 2), Hexahedron20=('HEXA20', 3))
def lattice(k, s, dim): return tuple(Fr(x) for x in ((k % s, k // s % s, k // s // s) if dim == 3 else (k % s, k // s)))
def which(c, v):
    """position of the lattice node whose number v is"""
    idx = c['idx']; n = c.nidx
    if not c.symbolic: return next((k for k in range(n) if idx[k] == v), None)
    return next((k for k in range(n) if hasattr(v, 'eq') and v.eq(idx[k])), None)
def facetlist(code):
    X = coords(code); nc = len(REF[fam(code)][0]); dim = len(X[0])
    if dim == 2: return [tuple(p) for p in REF[fam(code)][1]]
    out = []
    for f in facets3(X[:nc]):
        for o in itertools.permutations(sorted(f)):
            if o[0] == min(f) and outward(X, [X[i] for i in o], [X[i] for i in range(nc) if i not in f]): out.append(o); break
    return out
def volume(code, P):
    """signed measure of a straight element with corners P"""
    o = P[0]
    if len(o) == 2: return sum(P[i][0] * P[(i + 1) % len(P)][1] - P[i][1] * P[(i + 1) % len(P)][0] for i in range(len(P))) / 2
    v = Fr(0)
    for f in facetlist(code):
        for i in range(1, len(f) - 1): v += dot(sub(P[f[0]], o), cross(sub(P[f[i]], o), sub(P[f[i + 1]], o)))
    return v / 6
def parse(c, code, s, dim):
    n = nn(code); cnt = int(c['out'][6]); E = [[which(c, c['out'][7 + e * n + i]) for i in range(n)] for e in range(cnt // n)]
    return cnt, E
def sides(dim): return [(d, v) for d in range(dim) for v in (0, 1)]          # X_0, X_1, Y_0, ...
def bfacets(code, E, s, dim):
    """boundary facets per side: {side: {frozenset(all lattice nodes): ordered corners}}; inner ones are counted"""
    inner = {}; B = {x: {} for x in sides(dim)}
    nc = len(REF[fam(code)][0]); mids = REF[fam(code)][1]
    for e in E:
        for f in facetlist(code):
            no = [e[i] for i in f]
            m = [e[nc + k] for k, p in enumerate(mids) if quad(code) and set(p) <= set(f) and any({f[i], f[(i + 1) % len(f)]} == set(p) for i in range(len(f)))] if dim == 3 else ([e[nc + k] for k, p in enumerate(mids) if set(p) == set(f)] if quad(code) else [])
            key = frozenset(no + m); pts = [lattice(k, s, dim) for k in key]
            sd = [x for x in sides(dim) if all(p[x[0]] == x[1] * (s - 1) for p in pts)]
            if sd: B[sd[0]][key] = no
            else: inner[key] = inner.get(key, 0) + 1
    return inner, B
def gen_pre(n):
    def pre(c):
        c.nidx = n
        c.arr('idx', 'i32', n, ro=True, gen=lambda rng, k, cc: rng.sample(range(10000), k))
        c.cint('n', n)
    return pre
def gelem(gen, code, s):
    X = coords(code); dim = len(X[0]); n = s ** dim
    def pre(c): gen_pre(n)(c); c.arr('out', 'i32', 7 + 200, out=True)
    def post(c):
        o = c['out']
        cnt, E = parse(c, code, s, dim); sube = int(o[0])
        c.ensure("generator description", (int(o[1]), int(o[2]), int(o[3]), int(o[4]), int(o[5])) == (s, s, s if dim == 3 else 1, nn(code), CODE[code]))
        c.ensure("number of nodes", cnt == sube * nn(code))
        c.ensure("all nodes are nodes of the cell", all(k is not None for e in E for k in e))
        if not all(k is not None for e in E for k in e): return
        nc = len(REF[fam(code)][0]); vol = Fr(0)
        for i, e in enumerate(E):
            P = [lattice(k, s, dim) for k in e]
            v = volume(code, P[:nc]); vol += v
            c.ensure(f"element {i}: positive volume and convex", v > 0 and all(outward(P, [P[j] for j in f], [P[j] for j in range(nc) if j not in f]) for f in facetlist(code)))
            if quad(code): c.ensure(f"element {i}: mid nodes lie between their corners", P[nc:] == [mid(P[a], P[b]) for a, b in REF[fam(code)][1]])
        c.ensure("the elements fill the cell", vol == (s - 1) ** dim)
        inner, B = bfacets(code, E, s, dim)
        c.ensure("inner faces are shared by two elements", all(v == 2 for v in inner.values()))
        for d in range(dim):
            shift = (s - 1) * s ** d
            c.ensure(f"opposite sides match in direction {'xyz'[d]}", {frozenset(k + shift for k in f) for f in B[(d, 0)]} == set(B[(d, 1)]))
    CONTRACTS.append(Contract(f"generated elements {gen}", H, f"v_gen_{gen}", pre, post, mode='smt', under=[f"{gen}Generator::pushElements"]))
def gsides(gen, code, s):
    X = coords(code); dim = len(X[0]); n = s ** dim; nc = len(REF[fam(code)][0])
    for si, sd in enumerate(sides(dim)):
        # 3D: CubeFace X_0..Z_1; 2D: the cube edges X_0_Z_0, X_1_Z_0, Y_0_Z_0, Y_1_Z_0
        arg = si if dim == 3 else {(0, 0): 4, (0, 1): 6, (1, 0): 8, (1, 1): 10}[sd]
        nm = 'xyz'[sd[0]] + ('-' if sd[1] == 0 else '+')
        def pre(c, arg=arg):
            gen_pre(n)(c); c.cint('side', arg); c.arr('out', 'i32', 11 + 40, out=True); c.arr('el', 'i32', 1 + 200, out=True)
        def onside(k, sd=sd): return k is not None and lattice(k, s, dim)[sd[0]] == sd[1] * (s - 1)
        def post(c, sd=sd, onside=onside):
            o = c['out']; fs = [int(o[3 + k]) for k in range(int(o[0]))]; ft = [int(o[7 + k]) for k in range(int(o[1]))]; cnt = int(o[2])
            nodes = [which(c, o[11 + k]) for k in range(cnt)]
            c.ensure("sizes, types and nodes agree", len(fs) == len(ft) and sum(fs) == cnt and all(k is not None for k in nodes))
            if not all(k is not None for k in nodes): return
            F = []; p = 0
            for z in fs: F.append(nodes[p:p + z]); p += z
            q = quad(code)
            area = Fr(0)
            for i, f in enumerate(F):
                m = (len(f) // 2 if q else len(f)) if dim == 3 else 2
                P = [lattice(k, s, dim) for k in f]
                c.ensure(f"face {i}: type", ft[i] == CODE[ftype(len(f), q, dim)] if (len(f), q) in ((2, False), (3, True), (3, False), (6, True), (4, False), (8, True)) else False)
                c.ensure(f"face {i}: lies on the side", all(onside(k) for k in f))
                c.ensure(f"face {i}: oriented outwards", outward(P, P[:m], [tuple(Fr(s - 1, 2) for _ in range(dim))]))
                if q: c.ensure(f"face {i}: mid nodes follow the corners", P[m:] == ([mid(P[j], P[(j + 1) % m]) for j in range(m)] if dim == 3 else [mid(P[0], P[1])]))
            want = side_sets(c, gen, code, s, dim)[sd]
            c.ensure("the faces are the faces of the generated elements on this side", sorted(map(sorted, F)) == sorted(map(sorted, want)))
        CONTRACTS.append(Contract(f"generated side {nm} of {gen}", H, f"v_g{'face' if dim == 3 else 'edge'}_{gen}", pre, post, mode='smt', under=[f"{gen}Generator::push{'Face' if dim == 3 else 'Edge'}"]))
        def postn(c, sd=sd):
            o = c['out']; nodes = [which(c, o[1 + k]) for k in range(int(o[0]))]
            want = set().union(*side_sets(c, gen, code, s, dim)[sd])
            c.ensure("the nodes are the nodes of the generated elements on this side", None not in nodes and set(nodes) == want)
        CONTRACTS.append(Contract(f"generated nodes {nm} of {gen}", H, f"v_gn{'face' if dim == 3 else 'edge'}_{gen}", pre, postn, mode='smt', under=[f"{gen}Generator::pushNodes"]))
def side_sets(c, gen, code, s, dim):
    n = nn(code); E = [[which(c, c['el'][1 + e * n + i]) for i in range(n)] for e in range(int(c['el'][0]) // n)]
    return {k: [set(f) for f in v] for k, v in bfacets(code, E, s, dim)[1].items()}
for gen, (code, s) in GEN.items(): gelem(gen, code, s); gsides(gen, code, s)

def index(name):
    n = nn(name)
    def pre(c):
        if c.symbolic:
            a = c.arr('nodes', 'i32', n, ro=True); o = c.int('other', 0, 1 << 24); c.arr('res', 'i32', 4, gen=lambda r, k, cc: [0] * 4)
            c.distinct([a[i] for i in range(n)] + [o])
            for i in range(4): c.require(c['res'][i] == 0)
        else:
            v = c.rng.sample(range(1000), n + 1) if 'nodes' not in c.preset else None
            c.arr('nodes', 'i32', n, ro=True, gen=lambda r, k, cc: v[:n]); c.int('other', 0, 1 << 24, gen=lambda r, cc: v[n]); c.arr('res', 'i32', 4, gen=lambda r, k, cc: [0] * 4)
    def post(c):
        c.eq("every face is found in any rotation and direction", c['res'][0], 0); c.eq("a face with a foreign node is not found", c['res'][1], 0)
        c.eq("every edge is found in any direction", c['res'][2], 0); c.eq("an edge with a foreign node is not found", c['res'][3], 0)
    CONTRACTS.append(Contract(f"getIndex in {name}", H, f"v_index_{name}", pre, post, mode='smt', opts=dict(unroll=10 ** 6, limit=200), under=["Element::getIndex"]))
for name in NAMES: index(name)

# ---------------------------------------------------------------- cells and intervals of a block
HB = "block.cpp"
def cell(sx, sy, sz):
    n = sx * sy * sz
    def pre(c):
        c.cint('sx', sx); c.cint('sy', sy); c.cint('sz', sz)
        for k in ('dx', 'dy', 'dz', 'ex', 'ey', 'ez'): c.int(k, 1, 200, w=64, gen=lambda r, cc: r.randint(1, 4))
        for k in 'xyz': c.int('b' + k, 0, 40000, w=64, gen=lambda r, cc, k=k: r.randrange(cc['d' + k] * cc['e' + k]))
        for k, s in zip('xyz', (sx, sy, sz)): c.require(c['b' + k] < c['d' + k] * c['e' + k])
        c.require((c['dx'] * c['ex'] * (sx - 1) + 1) * (c['dy'] * c['ey'] * (sy - 1) + 1) * (c['dz'] * c['ez'] * (sz - 1) + 1) < 2 ** 31)
        c.arr('out', 'i32', n + 1, out=True)
    def post(c):
        X, Y = c['dx'] * c['ex'] * (sx - 1) + 1, c['dy'] * c['ey'] * (sy - 1) + 1
        c.eq("one cell", c['out'][0], 1)
        k = 1
        for z in range(sz):
            for y in range(sy):
                for x in range(sx):
                    c.eq(f"number of node {x}{y}{z}", c['out'][k], (c['bx'] * (sx - 1) + x) + X * (c['by'] * (sy - 1) + y) + X * Y * (c['bz'] * (sz - 1) + z)); k += 1
    CONTRACTS.append(Contract(f"node numbers of a cell {sx}x{sy}x{sz}", HB, "v_cell", pre, post, mode='smt', opts=dict(unroll=1000), under=["BlockGenerator::forEachElement"]))
for s in ((2, 2, 2), (3, 3, 3), (2, 2, 1), (3, 3, 1)): cell(*s)
C24 = 1 << 30
def box(c, n, lo=-5, hi=5):
    return c.arr(n, 'i32', 3, ro=True, gen=lambda r, k, cc: [r.randint(lo, hi) for _ in range(3)])
def border_pre(excl):
    def pre(c):
        s, e = box(c, 's'), box(c, 'e')
        if excl:
            xs, xe = box(c, 'xs', 0, 1), box(c, 'xe', 0, 1)
            for a in (xs, xe):
                for i in range(3): c.require(c.And(a[i] >= 0, a[i] <= 1))
        return s, e
    return pre
def inter():
    def pre(c):
        s, e = border_pre(True)(c); bs = box(c, 'bs'); be = c.arr('be', 'i32', 3, ro=True, gen=lambda r, k, cc: [cc['bs'][i] + r.randint(0, 4) for i in range(3)])
        for i in range(3): c.require(c.And(s[i] <= e[i], bs[i] <= be[i]))
        c.arr('out', 'i32', 12, out=True)
    def post(c):
        s, e, xs, xe, bs, be, o = (c[k] for k in ('s', 'e', 'xs', 'xe', 'bs', 'be', 'out'))
        for i in range(3):
            nm = 'xyz'[i]
            lo = c.ite(s[i] < bs[i], bs[i], s[i]); hi = c.ite(e[i] > be[i], be[i], e[i])
            empty = hi < lo
            c.eq(f"start {nm}", o[i], lo); c.eq(f"end {nm}", o[3 + i], c.ite(empty, lo, hi))
            c.eq(f"open start {nm}", o[6 + i], c.ite(empty, 1, c.ite(s[i] < bs[i], 0, xs[i]))); c.eq(f"open end {nm}", o[9 + i], c.ite(e[i] > be[i], 0, xe[i]))
    CONTRACTS.append(Contract("intersection of an interval with a block", HB, "v_border", pre, post, mode='smt', opts=dict(maxpaths=20000), under=["BlockBorder::intersect"]))
inter()
def dimension():
    def pre(c): border_pre(True)(c)
    def post(c):
        s, e, xs, xe = (c[k] for k in ('s', 'e', 'xs', 'xe'))
        bad = c.Or(*[c.And(s[i] == e[i], c.Or(xs[i] == 1, xe[i] == 1)) for i in range(3)])
        d = 3
        for i in range(3): d = d - c.ite(s[i] == e[i], 1, 0)
        c.eq("dimension of the interval", c.ret, c.ite(bad, -1, d))
    CONTRACTS.append(Contract("dimension of an interval", HB, "v_dimension", pre, post, mode='smt', ret='i64', under=["BlockBorder::dimension"]))
dimension()
def which_side(fn, edge):
    def pre(c):
        s = box(c, 's', -2, 2); e = c.arr('e', 'i32', 3, ro=True, gen=lambda r, k, cc: [cc['s'][i] + r.choice([0, 0, 0, 1, 2]) for i in range(3)])
        bs = c.arr('bs', 'i32', 3, ro=True, gen=lambda r, k, cc: [cc['s'][i] - r.choice([0, 0, 0, 1, 2]) for i in range(3)])
        be = c.arr('be', 'i32', 3, ro=True, gen=lambda r, k, cc: [r.choice([cc['bs'][i] + 1, max(cc['bs'][i] + 1, cc['e'][i]), max(cc['bs'][i] + 1, cc['e'][i]), cc['e'][i] + 2]) for i in range(3)])
        for i in range(3): c.require(bs[i] < be[i])
    def post(c):
        s, e, bs, be = (c[k] for k in ('s', 'e', 'bs', 'be'))
        fix = [s[i] == e[i] for i in range(3)]; lo = [c.And(fix[i], s[i] == bs[i]) for i in range(3)]; hi = [c.And(fix[i], e[i] == be[i]) for i in range(3)]
        if not edge:
            one = [c.And(fix[i], *[c.Not(fix[j]) for j in range(3) if j != i]) for i in range(3)]
            w = 6
            for i in range(3): w = c.ite(c.And(one[i], lo[i]), 2 * i, c.ite(c.And(one[i], hi[i]), 2 * i + 1, w))
            c.eq("side of the block", c.ret, w)
        else:
            # CubeEdge: X_0_Y_0, X_0_Y_1, X_1_Y_0, X_1_Y_1, X_0_Z_0, ..., Y_1_Z_1, NONE
            two = {(0, 1): 0, (0, 2): 4, (1, 2): 8}
            for (i, j), base in two.items():
                k = 3 - i - j
                for a, A in ((0, lo), (1, hi)):
                    for b, Bb in ((0, lo), (1, hi)):
                        c.ensure(f"edge {'xyz'[i]}{a} {'xyz'[j]}{b}", c.implies(c.And(A[i], Bb[j], c.Not(fix[k])), c.ret == base + 2 * a + b))
            c.ensure("not an edge", c.implies(c.Or(*[c.And(c.Not(fix[i]), c.Not(fix[j])) for i, j in two]), c.ret == 12))
    CONTRACTS.append(Contract("edge of a block selected by an interval" if edge else "side of a block selected by an interval", HB, fn, pre, post, mode='smt', ret='i32', opts=dict(maxpaths=20000), under=["BlockBorder::getEdge" if edge else "BlockBorder::getFace"]))
which_side("v_getface", False); which_side("v_getedge", True)
