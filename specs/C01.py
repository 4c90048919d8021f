"""Shape functions and quadrature tables of every element type."""
from dsl import Contract
import shape as S
import itertools
CONTRACTS = []
# (code, nodes, gps, edim, shape functions, moments, exactness degree: (max per variable?, degree))
def tens(order, base): return base, S.cube, ('each', 2 * order - 1)
T = {
    ('LINE2', 2, 2, 1): tens(2, S.line2), ('LINE3', 3, 3, 1): tens(3, S.line3), ('LINE3', 3, 4, 1): tens(4, S.line3),
    ('LINE2', 2, 1, 1): tens(1, S.line2), ('LINE2', 2, 5, 1): tens(5, S.line2), ('LINE2', 2, 6, 1): tens(6, S.line2), ('LINE2', 2, 7, 1): tens(7, S.line2),
    ('LINE2', 2, 8, 1): tens(8, S.line2),
    ('TRIANGLE3', 3, 4, 2): tens(2, S.deg['TRIANGLE3']), ('TRIANGLE3', 3, 1, 2): tens(1, S.deg['TRIANGLE3']),
    ('SQUARE4', 4, 4, 2): tens(2, S.square4), ('SQUARE4', 4, 1, 2): tens(1, S.square4), ('SQUARE8', 8, 9, 2): tens(3, S.square8), ('SQUARE8', 8, 16, 2): tens(4, S.square8),
    ('TETRA4', 4, 8, 3): tens(2, S.deg['TETRA4']), ('PYRAMID5', 5, 8, 3): tens(2, S.deg['PYRAMID5']), ('PRISMA6', 6, 8, 3): tens(2, S.deg['PRISMA6']),
    ('HEXA8', 8, 8, 3): tens(2, S.hexa8), ('PYRAMID13', 13, 27, 3): tens(3, S.deg['PYRAMID13']), ('HEXA20', 20, 27, 3): tens(3, S.hexa20),
    ('TRIANGLE3', 3, 6, 2): (S.triangle3, S.tri, ('total', 4)), ('TRIANGLE6', 6, 6, 2): (S.triangle6, S.tri, ('total', 4)),
    ('TETRA4', 4, 4, 3): (S.tetra4, S.tet, ('total', 2)), ('TETRA10', 10, 15, 3): (S.tetra10, S.tet, ('total', 5)),
    ('PYRAMID13', 13, 14, 3): (S.pyramid13, S.cube, ('total', 5)),
    ('PRISMA6', 6, 9, 3): (S.prisma6, S.prism, ('prism', 2, 5)), ('PRISMA15', 15, 9, 3): (S.prisma15, S.prism, ('prism', 2, 5)),
}
def monomials(edim, deg):
    if deg[0] == 'each': return list(itertools.product(range(deg[1] + 1), repeat=edim))
    if deg[0] == 'total': return [e for e in itertools.product(range(deg[1] + 1), repeat=edim) if sum(e) <= deg[1]]
    return [e for e in itertools.product(range(deg[1] + 1), range(deg[1] + 1), range(deg[2] + 1)) if e[0] + e[1] <= deg[1]]

def points(code, nodes, gps, edim, base, N):
    """the reference point each row of N was evaluated at, recovered from the values"""
    import numpy as np
    f = [[float(v) for v in row] for row in N]
    out = []
    for row in f:
        # Gauss-Newton from several starts (the shape functions determine the point)
        best = None
        for start in itertools.product([-.7, 0.1, .7], repeat=edim):
            x = np.array(start, dtype=float)
            for _ in range(30):
                F = np.array([p(*map(float, x)) for p in base]) - row
                J = np.array([[float(q(*map(float, x))) for q in dd] for dd in grads(base, edim)])
                dx = np.linalg.lstsq(J, -F, rcond=None)[0]
                x = x + dx
                if np.abs(dx).max() < 1e-15: break
            e = np.abs(np.array([float(p(*map(float, x))) for p in base]) - row).max()
            if np.isfinite(e) and np.abs(x).max() < 1.5 and (best is None or e < best[0]): best = (e, x)
            if best and best[0] < 1e-12: break
        out.append(best)
    return out
_g = {}
def grads(base, edim):
    k = id(base)
    if k not in _g: _g[k] = [[p.diff(d) for d in range(edim)] for p in base]
    return _g[k]

def table(code, nodes, gps, edim, base, mom, deg):
    TOL = 1e-9
    def pre(c):
        c.arr('w', 'f64', gps, out=True); c.arr('N', 'f64', gps * nodes, out=True); c.arr('dN', 'f64', gps * nodes * edim, out=True)
        c.arr('NN', 'f64', nodes * nodes, out=True); c.arr('dNN', 'f64', nodes * nodes * edim, out=True)
    def post(c):
        w = [c.const(c['w'][g]) for g in range(gps)]
        N = [[c.const(c['N'][g * nodes + n]) for n in range(nodes)] for g in range(gps)]
        dN = [[[c.const(c['dN'][(g * nodes + n) * edim + d]) for d in range(edim)] for n in range(nodes)] for g in range(gps)]
        NN = [[c.const(c['NN'][g * nodes + n]) for n in range(nodes)] for g in range(nodes)]
        dNN = [[[c.const(c['dNN'][(g * nodes + n) * edim + d]) for d in range(edim)] for n in range(nodes)] for g in range(nodes)]
        pts = points(code, nodes, gps, edim, base, N)
        G = grads(base, edim)
        for g, p in enumerate(pts):
            c.near(f"point {g}: N are the shape functions of {code} at some reference point", p[0] if p else 1, 0, TOL)
            x = list(map(float, p[1])) if p else [0.0] * edim
            c.near(f"point {g}: sum of N is 1", sum(N[g]), 1, TOL)
            for d in range(edim):
                c.near(f"point {g}: sum of dN/d{d} is 0", sum(dN[g][n][d] for n in range(nodes)), 0, TOL)
                for n in range(nodes): c.near(f"point {g}: dN[{n}]/d{d} is the derivative of N[{n}]", dN[g][n][d], float(G[n][d](*x)), 1e-8)
        for e in monomials(edim, deg):
            q = 0
            for g, p in enumerate(pts):
                v = float(w[g])
                for d in range(edim): v *= float(p[1][d]) ** e[d] if p else 0
                q += v
            c.near(f"quadrature integrates the monomial {e} exactly", q, float(mom(*e)), 1e-9)
        for m in range(nodes):
            on = [n for n in range(nodes) if abs(NN[m][n] - 1) < TOL]
            c.ensure(f"nodal row {m} is a unit vector", len(on) == 1 and all(abs(NN[m][n]) < TOL for n in range(nodes) if n not in on))
        c.ensure("nodal rows visit every node once", sorted(max(range(nodes), key=lambda n: NN[m][n]) for m in range(nodes)) == list(range(nodes)))
        # derivatives in nodes: gradient of the shape functions at a point with the same N
        import numpy as np
        for m in range(nodes):
            ok = False
            for x in itertools.product([-1.0, 0.0, 0.5, 1.0], repeat=edim):
                if all(abs(float(base[n](*x)) - NN[m][n]) < TOL for n in range(nodes)) and all(abs(float(G[n][d](*x)) - dNN[m][n][d]) < 1e-8 for n in range(nodes) for d in range(edim)): ok = True; break
            c.ensure(f"nodal derivatives {m} are the derivatives at that node", ok)
    CONTRACTS.append(Contract(f"BaseFunctions<{code},{gps}>", "basef.cpp", f"v_tab_{code}_{gps}", pre, post, under=[f"espreso::BaseFunctions<{code},{gps}>::simd"], opts=dict(once=True)))
for k, v in T.items(): table(*k, *v)

def setc(code, nodes, gps, edim, base):
    def pre(c):
        c.arr('N', 'f64', nodes, out=True); c.arr('dN', 'f64', nodes * edim, out=True)
        for d in range(edim): c.real('rst'[d])
    def post(c):
        x = [c['rst'[d]] for d in range(edim)]
        if (code, gps) in [('TETRA4', 4), ('TETRA10', 15)]: x = [x[0], x[2], x[1]]
        for n in range(nodes):
            c.eq(f"N[{n}](x) is the shape function", c['N'][n], base[n](*x))
            for d in range(edim): c.eq(f"dN[{n}]/d{d}(x) is its derivative", c['dN'][n * edim + d], base[n].diff(d)(*x))
    CONTRACTS.append(Contract(f"set<{code},{gps}>", "basefset.cpp", f"v_set_{code}_{gps}", pre, post, under=[f"espreso::BaseFunctions<{code},{gps}>::set"]))
for (code, nodes, gps, edim), (base, m, d) in T.items():
    if (code, gps) in [('LINE3', 4), ('LINE2', 1), ('LINE2', 5), ('LINE2', 6), ('LINE2', 7), ('LINE2', 8), ('TRIANGLE3', 1), ('SQUARE4', 1), ('SQUARE8', 16)]: continue
    setc(code, nodes, gps, edim, base)
