"""Isoparametric geometry: Jacobians, measures, normals, global derivatives."""
from dsl import Contract
L = 2
CONTRACTS = []
def lanes(c, name, n, **k): return c.arr(name, 'f64', n * L, **k)
def X(a, i, l): return a[i * L + l]
def gen(n, d, seed=7):
    # generic integer values, all different
    v, x = [], seed
    for i in range(2 * n * d):
        x = (x * 1103515245 + 12345) % 2147483648
        v.append(float((x >> 16) % 61 - 30) or 31.0)
    return v
def dN_in(c, n, d, symbolic):
    if symbolic: c.arr('dN', 'f64', 2 * n * d, ro=True)
    else: c.consts('dN', 'f64', gen(n, d))
def det(J, d):
    if d == 2: return J[0][0] * J[1][1] - J[0][1] * J[1][0]
    s = 0
    for j in range(3): s = s + J[0][j] * (J[1][(j + 1) % 3] * J[2][(j + 2) % 3] - J[1][(j + 2) % 3] * J[2][(j + 1) % 3])
    return s

def vol(kind, n, d, symbolic):
    def pre(c):
        if kind == 'disp' and n > 8: c.consts('x', 'f64', gen(n, d, 11)[:n * d * L])
        else: lanes(c, 'x', n * d, ro=True)
        if kind == 'disp': lanes(c, 'u', n * d, ro=True)
        if kind == 'nodes': c.arr('dN', 'f64', 2 * n * d, ro=True)
        else: dN_in(c, n, d, symbolic)
        if kind == 'nodes':
            if symbolic: c.arr('dNN', 'f64', n * d, ro=True)
            else: c.consts('dNN', 'f64', gen(n, d)[:n * d])
        lanes(c, 'det', 1, out=True); lanes(c, 'inv', d * d, out=True); lanes(c, 'dND', n * d, out=True)
    def post(c):
        dn = (lambda k, e: c['dNN'][k * d + e]) if kind == 'nodes' else (lambda k, e: c['dN'][(n + k) * d + e])
        for l in range(L):
            pos = lambda k, i: X(c['x'], k * d + i, l) + (X(c['u'], k * d + i, l) if kind == 'disp' else 0)
            J = [[sum((dn(k, e) * pos(k, i) for k in range(n)), 0 * pos(0, 0)) for e in range(d)] for i in range(d)]   # dx_i / dxi_e
            D = det(J, d)
            if not c.symbolic and abs(D) < 1e-2: continue
            c.eq(f"det is the Jacobian determinant, lane {l}", X(c['det'], 0, l), D)
            for i in range(d):
                for j in range(d):
                    c.eq(f"(invJ J)[{i},{j}], lane {l}", sum((X(c['inv'], i * d + k, l) * J[k][j] for k in range(d)), 0 * D), 1.0 if i == j else 0.0)
            for k in range(n):
                for e in range(d):
                    c.eq(f"chain rule: sum_i dN[{k}]/dx_i dx_i/dxi_{e} = dN[{k}]/dxi_{e}, lane {l}", sum((X(c['dND'], k * d + i, l) * J[i][e] for i in range(d)), 0 * D), dn(k, e))
    CONTRACTS.append(Contract(f"Integration<{n},{d},{d}>::{kind}" + ("" if symbolic else " (generic fixed dN)"), "geom.cpp", f"v_vol_{kind}_{n}_{d}", pre, post, tol=1e-6,
                              under=[f"espreso::IntegrationKernel<{n},{d},{d}>::{dict(coords='coords', disp='displacement', nodes='coordsInNodes')[kind]}"]))
for kind in ('coords', 'disp', 'nodes'):
    for n, d in [(3, 2), (4, 2), (6, 2), (8, 2), (4, 3), (5, 3), (6, 3), (8, 3), (10, 3), (13, 3), (15, 3), (20, 3)]:
        vol(kind, n, d, n * d <= (12 if kind == 'disp' else 18))

def bnd(n, nd, ed, fn, normal=True, symbolic=True):
    def pre(c):
        lanes(c, 'x', n * nd, ro=True); dN_in(c, n, ed, symbolic)
        lanes(c, 'det', 1, out=True)
        if normal: lanes(c, 'normal', nd, out=True)
    def post(c):
        for l in range(L):
            t = [[sum((c['dN'][(n + k) * ed + e] * X(c['x'], k * nd + i, l) for k in range(n)), 0 * X(c['x'], 0, l)) for i in range(nd)] for e in range(ed)]
            if ed == 1 and nd == 2: v = [-t[0][1], t[0][0]]
            elif ed == 1: v = t[0]
            else: v = [t[0][(i + 1) % 3] * t[1][(i + 2) % 3] - t[0][(i + 2) % 3] * t[1][(i + 1) % 3] for i in range(3)]
            sq = sum((a * a for a in v), 0 * v[0])
            if not c.symbolic and sq < 1e-4: continue
            c.eq(f"measure lane {l}", X(c['det'], 0, l), c.sqrt(sq))
            if normal:
                for i in range(nd): c.eq(f"normal[{i}] * measure lane {l}", X(c['normal'], i, l) * X(c['det'], 0, l), v[i])
                c.eq(f"normal is a unit vector, lane {l}", sum((X(c['normal'], i, l) * X(c['normal'], i, l) for i in range(nd)), 0 * sq), 1.0)
    CONTRACTS.append(Contract(f"Integration<{n},{nd},{ed}>" + ("" if symbolic else " (generic fixed dN)"), "geom.cpp", fn, pre, post, tol=1e-6, under=[f"espreso::IntegrationKernel<{n},{nd},{ed}>::coords"]))
for n in (3, 4, 6, 8): bnd(n, 3, 2, f"v_bnd_{n}_3_2", symbolic=n <= 4)
for n in (2, 3): bnd(n, 2, 1, f"v_bnd_{n}_2_1")
for n in (2, 3): bnd(n, 3, 1, f"v_edge_{n}", normal=False)
