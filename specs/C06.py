"""Structural mechanics: material laws, element matrices and load vectors."""
import math
from dsl import Contract
L = 2
CONTRACTS = []
H = "struct.cpp"
def lanes(c, name, n, **k): return c.arr(name, 'f64', n * L, **k)
def X(a, i, l): return a[i * L + l]
def O(a, i, l): return a.old[i * L + l]
N2, N3 = [3, 4, 6, 8], [4, 5, 6, 8, 10, 13, 15, 20]
BEH = {'PLANE_STRAIN': 0, 'AXISYMMETRIC': 1, 'PLANE_STRESS': 2, 'PLANE_STRESS_WITH_THICKNESS': 3}
VOIGT = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]}
def gen(k, seed):
    v, x = [], seed
    for i in range(k):
        x = (x * 1103515245 + 12345) % 2147483648
        v.append(float((x >> 16) % 61 - 30) or 31.0)
    return v
def addto(c, name, got, old, new): c.eq(name, got, old + new)

def elasticity(n, d, beh, nonlinear):
    V = VOIGT[d]; nv = len(V); fixed = n > 8
    def pre(c):
        lanes(c, 'K', n * n * d * d); lanes(c, 'nf', n * d)
        if fixed: c.consts('dND', 'f64', gen(n * d * L, 5))
        else: lanes(c, 'dND', n * d, ro=True)
        lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True); lanes(c, 'C', nv * nv, ro=True)
        lanes(c, 'F', d * d, ro=True); lanes(c, 'S', nv, ro=True); lanes(c, 'th', 1, ro=True); c.cint('beh', BEH[beh]); c.cint('nonlinear', int(nonlinear))
    def post(c):
        for l in range(L):
            dn = lambda k, i: X(c['dND'], k * d + i, l)
            F = (lambda i, j: X(c['F'], i * d + j, l)) if nonlinear else (lambda i, j: 1 if i == j else 0)
            s = X(c['det'], 0, l) * c['w'][0]
            if d == 2 and nonlinear: s = s * X(c['th'], 0, l)
            S = lambda i, j: X(c['S'], V.index((min(i, j), max(i, j))), l)
            B = [[(F(j, p) * dn(k, p) if p == q else F(j, p) * dn(k, q) + F(j, q) * dn(k, p)) for j in range(d) for k in range(n)] for p, q in V]
            CB = [[sum((X(c['C'], a * nv + b, l) * B[b][j] for b in range(nv)), 0 * s) for j in range(n * d)] for a in range(nv)]
            for i in range(n * d):
                for j in range(n * d):
                    v = sum((B[a][i] * CB[a][j] for a in range(nv)), 0 * s)
                    if nonlinear and i // n == j // n: v = v + sum((dn(i % n, p) * S(p, q) * dn(j % n, q) for p in range(d) for q in range(d)), 0 * s)
                    addto(c, f"K[{i},{j}] += scale * (B^T C B{' + geometric' if nonlinear else ''}), lane {l}", X(c['K'], i * n * d + j, l), O(c['K'], i * n * d + j, l), s * v)
                v = sum((B[a][i] * X(c['S'], a, l) for a in range(nv)), 0 * s) if nonlinear else 0 * s
                addto(c, f"internal force[{i}], lane {l}", X(c['nf'], i, l), O(c['nf'], i, l), s * v)
    CONTRACTS.append(Contract(f"MatrixElasticity<{n},{d}> {beh if d == 2 else ''} {'nonlinear' if nonlinear else 'linear'}" + (" (generic fixed dN)" if fixed else ""), H, f"v_el_{n}_{d}", pre, post, under=[f"espreso::MatrixElasticityKernel<{n},{d}>::simd"]))
for n in N2:
    for beh in BEH:
        if beh != 'AXISYMMETRIC':
            for nl in (False, True): elasticity(n, 2, beh, nl)
for n in N3:
    for nl in (False, True): elasticity(n, 3, 'PLANE_STRAIN', nl)

def axi(n):
    def pre(c):
        lanes(c, 'K', n * n * 4); lanes(c, 'dND', n * 2, ro=True); c.arr('N', 'f64', n, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True); lanes(c, 'C', 16, ro=True)
        lanes(c, 'r', 1, ro=True, gen=lambda rng, k, cc: [rng.uniform(.3, 2) for _ in range(k)])
    def post(c):
        for l in range(L):
            dn = lambda k, i: X(c['dND'], k * 2 + i, l); r = X(c['r'], 0, l); z = 0 * r
            s = X(c['det'], 0, l) * c['w'][0] * (2 * math.pi) * r
            B = [[dn(k, 0) for k in range(n)] + [z] * n, [z] * n + [dn(k, 1) for k in range(n)], [c['N'][k] / r for k in range(n)] + [z] * n, [dn(k, 1) for k in range(n)] + [dn(k, 0) for k in range(n)]]
            CB = [[sum((X(c['C'], a * 4 + b, l) * B[b][j] for b in range(4)), 0 * s) for j in range(n * 2)] for a in range(4)]
            for i in range(2 * n):
                for j in range(2 * n):
                    addto(c, f"K[{i},{j}], lane {l}", X(c['K'], i * n * 2 + j, l), O(c['K'], i * n * 2 + j, l), s * sum((B[a][i] * CB[a][j] for a in range(4)), 0 * s))
    CONTRACTS.append(Contract(f"MatrixElasticity<{n},2> AXISYMMETRIC linear", H, f"v_ax_{n}", pre, post, under=[f"espreso::MatrixElasticityKernel<{n},2>::simd"]))
for n in N2: axi(n)

def mass(n, d):
    def pre(c): lanes(c, 'M', n * n * d * d); c.arr('N', 'f64', n, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True); lanes(c, 'rho', 1, ro=True)
    def post(c):
        for l in range(L):
            s = X(c['det'], 0, l) * c['w'][0] * X(c['rho'], 0, l)
            for i in range(n * d):
                for j in range(n * d):
                    addto(c, f"M[{i},{j}], lane {l}", X(c['M'], i * n * d + j, l), O(c['M'], i * n * d + j, l), s * c['N'][i % n] * c['N'][j % n] if i // n == j // n else 0 * s)
    CONTRACTS.append(Contract(f"MatrixMass<{n},{d}>", H, f"v_M_{n}_{d}", pre, post, under=[f"espreso::MatrixMassKernel<{n},{d}>::simd"]))
def body(n, d, kind, beh):
    def pre(c):
        lanes(c, 'f', n * d); c.arr('N', 'f64', n, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True); lanes(c, 'rho', 1, ro=True); lanes(c, 'th', 1, ro=True)
        lanes(c, 'x', d, ro=True); lanes(c, 'a', d if kind == 'acc' else 3, ro=True); c.cint('beh', BEH[beh])
    def post(c):
        for l in range(L):
            s = X(c['det'], 0, l) * c['w'][0] * X(c['rho'], 0, l); a = [X(c['a'], i, l) for i in range(d if kind == 'acc' else 3)]; x = [X(c['x'], i, l) for i in range(d)]
            if d == 2: s = s * (2 * math.pi) * x[0] if beh == 'AXISYMMETRIC' else s * X(c['th'], 0, l)
            if kind == 'acc': g = a if not (d == 2 and beh == 'AXISYMMETRIC') else [0 * s, a[1]]
            elif d == 2: g = [a[1] * a[1] * x[0], 0 * s] if beh == 'AXISYMMETRIC' else [a[2] * a[2] * x[i] for i in range(2)]
            else: g = [sum((a[j] * a[j] for j in range(3) if j != i), 0 * s) * x[i] for i in range(3)]
            for i in range(d):
                for k in range(n): addto(c, f"f[{i},{k}], lane {l}", X(c['f'], i * n + k, l), O(c['f'], i * n + k, l), s * c['N'][k] * g[i])
    nm = 'Acceleration' if kind == 'acc' else 'AngularVelocity'
    CONTRACTS.append(Contract(f"{nm}<{n},{d}> {beh if d == 2 else ''}", H, f"v_{kind}_{n}_{d}", pre, post, under=[f"espreso::{nm}Kernel<{n},{d}>::simd"]))
for d, NN in ((2, N2), (3, N3)):
    for n in NN:
        mass(n, d)
        for kind in ('acc', 'ang'):
            for beh in (BEH if d == 2 else ['PLANE_STRAIN']): body(n, d, kind, beh)

def pressure(n, d, kind, beh):
    def pre(c):
        lanes(c, 'f', n * d); c.arr('N', 'f64', n, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True); lanes(c, 'x', d, ro=True); lanes(c, 'p', 1, ro=True); lanes(c, 'dir', d, ro=True); c.cint('beh', BEH[beh])
    def post(c):
        for l in range(L):
            s = X(c['det'], 0, l) * c['w'][0] * X(c['p'], 0, l)
            if d == 2 and beh == 'AXISYMMETRIC': s = s * (2 * math.pi) * X(c['x'], 0, l)
            if d == 3 and kind == 'np': s = 0 - s
            for i in range(d):
                for k in range(n): addto(c, f"f[{i},{k}], lane {l}", X(c['f'], i * n + k, l), O(c['f'], i * n + k, l), s * c['N'][k] * X(c['dir'], i, l))
    nm = 'Pressure' if kind == 'pr' else 'NormalPressure'
    CONTRACTS.append(Contract(f"{nm}<{n},{d}> {beh if d == 2 else ''}", H, f"v_{kind}_{n}_{d}", pre, post, under=[f"espreso::{nm}Kernel<{n},{d}>::simd"]))
def force(n, d, fn):
    def pre(c): lanes(c, 'f', n * d); lanes(c, 'p', d, ro=True)
    def post(c):
        for l in range(L):
            for i in range(d):
                for k in range(n): addto(c, f"f[{i},{k}], lane {l}", X(c['f'], i * n + k, l), O(c['f'], i * n + k, l), X(c['p'], i, l))
    CONTRACTS.append(Contract(f"Force<{n},{d}>", H, fn, pre, post, under=[f"espreso::ForceKernel<{n},{d}>::simd"]))
for n, d in [(2, 2), (3, 2), (3, 3), (4, 3), (6, 3), (8, 3)]:
    for kind in ('pr', 'np'):
        for beh in (BEH if d == 2 else ['PLANE_STRAIN']): pressure(n, d, kind, beh)
    force(n, d, f"v_fo_{n}_{d}")
for d in (2, 3): force(1, d, f"v_nf_{d}")
def harmonic(d, beh):
    def pre(c): lanes(c, 'f', d); lanes(c, 'g', d); lanes(c, 'm', d, ro=True); lanes(c, 'cs', d, ro=True); lanes(c, 'sn', d, ro=True); c.cint('beh', BEH[beh])
    def post(c):
        for l in range(L):
            for i in range(d):
                on = not (d == 2 and beh == 'AXISYMMETRIC' and i == 0); m = X(c['m'], i, l)
                addto(c, f"re[{i}]", X(c['f'], i, l), O(c['f'], i, l), m * X(c['cs'], i, l) if on else 0 * m)
                addto(c, f"im[{i}]", X(c['g'], i, l), O(c['g'], i, l), m * X(c['sn'], i, l) if on else 0 * m)
    CONTRACTS.append(Contract(f"HarmonicForce<{d}> {beh if d == 2 else ''}", H, f"v_hf_{d}", pre, post, under=[f"espreso::HarmonicForceKernel<{d}>::simd"]))
for beh in BEH: harmonic(2, beh)
harmonic(3, 'PLANE_STRAIN')

def tet_dn(d, n):
    """node k carries the k-th unit derivative and u makes the deformation gradient upper
    triangular: F^T F then ranges over all symmetric positive definite matrices"""
    v = []
    for k in range(n):
        for i in range(d): v += [1.0 if i == k else 0.0] * L
    return v
def material(n, d, model, beh, unit):
    V = VOIGT[d]; nv = len(V)
    def pre(c):
        lanes(c, 'F', d * d, out=True); lanes(c, 'C2', d * d, out=True); lanes(c, 'C4', 16 if d == 2 else 36, out=True); lanes(c, 'S', nv, out=True)
        if unit: c.consts('dND', 'f64', tet_dn(d, n))
        else: lanes(c, 'dND', n * d, ro=True)
        lanes(c, 'u', n * d, ro=True, gen=(lambda rng, k, cc: [rng.uniform(.5, 1.5) for _ in range(k)]) if unit else None,
              map=(lambda i, v: 0 if i // L // d >= d or i // L % d > i // L // d else v - 1 if i // L // d == i // L % d else v) if unit else None); lanes(c, 'E', 1, ro=True); lanes(c, 'nu', 1, ro=True, gen=lambda rng, k, cc: [rng.uniform(0, .4) for _ in range(k)])
        c.cint('model', model); c.cint('beh', BEH[beh])
    def post(c):
        for l in range(L):
            E, nu = X(c['E'], 0, l), X(c['nu'], 0, l); z = 0 * E; I = lambda i, j: 1 if i == j else 0
            F = [[sum((X(c['u'], k * d + i, l) * X(c['dND'], k * d + j, l) for k in range(n)), z) + I(i, j) for j in range(d)] for i in range(d)]
            C = [[sum((F[k][i] * F[k][j] for k in range(d)), z) for j in range(d)] for i in range(d)]
            for i in range(d):
                for j in range(d):
                    c.eq(f"deformation gradient [{i},{j}], lane {l}", X(c['F'], i * d + j, l), F[i][j])
                    c.eq(f"right Cauchy-Green tensor [{i},{j}], lane {l}", X(c['C2'], i * d + j, l), C[i][j])
            lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
            if beh == 'AXISYMMETRIC' and d == 2:
                for a in range(4):
                    for b in range(4):
                        v = (lam + 2 * mu if a == b else lam) if a < 3 and b < 3 else mu if a == b else z
                        c.eq(f"axisymmetric elasticity [{a},{b}], lane {l}", X(c['C4'], a * 4 + b, l), v)
                continue
            if model == 0:
                if d == 2 and beh.startswith('PLANE_STRESS'): lam = E * nu / ((1 + nu) * (1 - nu))    # effective plane-stress constant
                D = [[((lam + 2 * mu if a == b else lam) if a < d and b < d else mu if a == b else z) for b in range(nv)] for a in range(nv)]
                tr = sum((C[i][i] for i in range(d)), z)
                for a, (p, q) in enumerate(V):
                    for b in range(nv): c.eq(f"elasticity tensor [{a},{b}], lane {l}", X(c['C4'], a * nv + b, l), D[a][b])
                    e = (C[p][q] - I(p, q)) * 0.5
                    c.eq(f"second Piola-Kirchhoff stress [{p},{q}], lane {l}", X(c['S'], a, l), 2 * mu * e + (lam * (tr - d) * 0.5 if p == q else z))
            else:
                adj = lambda i, j: C[(j + 1) % 3][(i + 1) % 3] * C[(j + 2) % 3][(i + 2) % 3] - C[(j + 1) % 3][(i + 2) % 3] * C[(j + 2) % 3][(i + 1) % 3]
                J2 = sum((C[0][j] * adj(j, 0) for j in range(3)), z)
                Ci = [[adj(i, j) / J2 for j in range(3)] for i in range(3)]
                lg = c.uf('log', J2)
                for a, (p, q) in enumerate(V):
                    c.eq(f"second Piola-Kirchhoff stress [{p},{q}], lane {l}", X(c['S'], a, l), mu * (I(p, q) - Ci[p][q]) + lam * lg * 0.5 * Ci[p][q])
                    for b, (r, t) in enumerate(V):
                        c.eq(f"tangent [{a},{b}], lane {l}", X(c['C4'], a * nv + b, l), lam * Ci[p][q] * Ci[r][t] + (2 * mu - lam * lg) * 0.5 * (Ci[p][r] * Ci[q][t] + Ci[p][t] * Ci[q][r]))
    mn = ['KIRCHHOFF', 'NEO_HOOKEAN_CMP'][model]
    CONTRACTS.append(Contract(f"Material<{n},{d}> {mn} {beh if d == 2 else ''}" + (" (all Cauchy-Green tensors)" if unit else ""), H, f"v_mat_{n}_{d}", pre, post, tol=1e-6, under=[f"espreso::MaterialStructuralMechanicsKernel<{n},2,{d}>::simd"]))
for n in (3, 4):
    for beh in BEH: material(n, 2, 0, beh, False)
material(4, 3, 0, 'PLANE_STRAIN', False)
material(4, 3, 1, 'PLANE_STRAIN', True)
def apply(n):
    def pre(c): lanes(c, 'o', n); lanes(c, 'A', n * n, ro=True); lanes(c, 'x', n, ro=True); c.real('s')
    def post(c):
        for l in range(L):
            for i in range(n): addto(c, f"out[{i}], lane {l}", X(c['o'], i, l), O(c['o'], i, l), c['s'] * sum((X(c['A'], i * n + j, l) * X(c['x'], j, l) for j in range(n)), 0 * c['s']))
    CONTRACTS.append(Contract(f"MatrixApply<{n}>", H, f"v_apply_{n}", pre, post, under=[f"espreso::MatrixApplyKernel<{n}>::simd"]))
for n in (4, 8, 12): apply(n)
