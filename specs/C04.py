"""Material coordinate systems and the rotation of the conductivity tensor."""
import math
from dsl import Contract
L = 2
CONTRACTS = []
H = "cond.cpp"
def lanes(c, name, n, **k): return c.arr(name, 'f64', n * L, **k)
def X(a, i, l): return a[i * L + l]
MODELS = {'ISOTROPIC': 0, 'DIAGONAL': 1, 'SYMMETRIC': 2, 'ANISOTROPIC': 3}
TYPES = {'CARTESIAN': 0, 'CYLINDRICAL': 1, 'SPHERICAL': 2}
def atan2(c, y, x): return c.uf('atan2', y, x) if c.symbolic else math.atan2(y, x)
def angles(c, d, typ, l):
    """rotation angles about (x, y, z) of the local axes"""
    ce = [X(c['center'], i, l) for i in range(d)]; x = [X(c['x'], i, l) for i in range(d)]
    if typ == 'CARTESIAN': return [a * (math.pi / 180) for a in ce]
    r = [x[i] - ce[i] for i in range(d)]; az = atan2(c, r[1], r[0])
    if d == 2: return [az]
    if typ == 'CYLINDRICAL': return [None, None, az]
    rho = c.sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2])
    el = 0 * az if c.sign('lt', rho - 1e-15) else atan2(c, c.sqrt(r[2] * r[2] + r[0] * r[0]), r[1])
    return [None, el, az]
def cs(c, a, m=1):
    if a is None: return 1.0, 0.0
    return c.cos(m * a), c.sin(m * a)
def inputs(c, d, n, typ):
    lanes(c, 'x', d, ro=True); lanes(c, 'center', d, ro=True, gen=(lambda rng, k, cc: [rng.uniform(-180, 180) for _ in range(k)]) if typ == 'CARTESIAN' else None)

def system(d, m, typ, isconst):
    def pre(c): lanes(c, 'cs', 2 * d * m); inputs(c, d, m, typ); c.cint('type', TYPES[typ]); c.cint('isconst', int(isconst))
    def post(c):
        for l in range(L):
            keep = (typ == 'CARTESIAN' and isconst) or (d == 2 and typ == 'SPHERICAL')
            if keep: want = [c['cs'].old[i * L + l] for i in range(2 * d * m)]
            else:
                an = angles(c, d, typ, l); want = []
                for k in range(1, m + 1):
                    v = [cs(c, a, k) for a in (an[:1] if d == 2 else an)]
                    want += [v[0][0], v[0][1]] if d == 2 else [q[0] for q in v] + [q[1] for q in v]
            for i, w in enumerate(want): c.eq(f"cos/sin[{i}], lane {l}", X(c['cs'], i, l), w, tol=1e-12)
    CONTRACTS.append(Contract(f"CoordinateSystem<{d},{m}> {typ}{' const' if isconst else ''}", H, f"v_cs_{d}_{m}", pre, post, under=[f"espreso::CoordinateSystem<{d},{m}>::simd"] + [f"espreso::CoordinateSystem{dict(CARTESIAN=f'Cartesian<{d},{m}>', CYLINDRICAL=f'Cylindric<{d},{m}>', SPHERICAL=f'Spherical<{m}>')[typ]}::simd"]))
for d in (2, 3):
    for m in (1, 2):
        for typ in TYPES:
            for k in (False, True): system(d, m, typ, k)

def rot(d, cc, ss):
    if d == 2: return [[cc[0], -1 * ss[0]], [ss[0], cc[0]]]
    one = lambda i, j: 1.0 if i == j else 0.0
    def ax(k):
        i, j = (k + 1) % 3, (k + 2) % 3
        R = [[one(a, b) for b in range(3)] for a in range(3)]
        R[i][i] = cc[k]; R[i][j] = -1 * ss[k]; R[j][i] = ss[k]; R[j][j] = cc[k]
        return R
    mul = lambda A, B: [[sum((A[i][k] * B[k][j] for k in range(3)), 0) for j in range(3)] for i in range(3)]
    return mul(ax(2), mul(ax(1), ax(0)))              # Rz Ry Rx
def conductivity(d, model, typ, how):
    """how: given (angles already evaluated), gp (evaluated in each point), whole (element-constant), none (not rotated)"""
    def pre(c):
        lanes(c, 'C', d * d); lanes(c, 'cs', 2 * d); lanes(c, 'raw', d * d, ro=True); inputs(c, d, 1, typ)
        c.cint('model', MODELS[model]); c.cint('type', TYPES[typ]); c.cint('rot', int(how != 'none')); c.cint('crot', int(how == 'given')); c.cint('whole', int(how == 'whole'))
    def post(c):
        for l in range(L):
            raw = lambda i, j: X(c['raw'], i * d + j, l)
            if how == 'none' or model == 'ISOTROPIC':
                for i in range(d * d): c.eq(f"C[{i}], lane {l}", X(c['C'], i, l), X(c['raw'] if how == 'none' else c['C'].old, i, l))
                continue
            T = {'DIAGONAL': lambda i, j: raw(i, i) if i == j else 0, 'SYMMETRIC': lambda i, j: raw(min(i, j), max(i, j)), 'ANISOTROPIC': raw}[model]
            if how == 'given' and typ == 'CARTESIAN' or (d == 2 and typ == 'SPHERICAL'):
                v = [c['cs'].old[i * L + l] for i in range(2 * d)]; cc, ss = ([v[0]], [v[1]]) if d == 2 else (v[:3], v[3:])
            else:
                q = [cs(c, a) for a in (angles(c, d, typ, l)[:1] if d == 2 else angles(c, d, typ, l))]; cc, ss = [a[0] for a in q], [a[1] for a in q]
            R = rot(d, cc, ss)
            for i in range(d):
                for j in range(d):
                    if model != 'ANISOTROPIC' and j < i: continue
                    c.eq(f"(R C R^T)[{i},{j}], lane {l}", X(c['C'], i * d + j, l), sum((R[i][p] * T(p, q) * R[j][q] for p in range(d) for q in range(d)), 0 * raw(0, 0)), tol=1e-12)
    CONTRACTS.append(Contract(f"Conductivity<{d}> {model} {typ} {how}", H, f"v_cond_{d}", pre, post, under=[f"espreso::ConductivityKernel<{d}>::simd"]))
for d in (2, 3):
    for model in MODELS:
        conductivity(d, model, 'CARTESIAN', 'none')
        for typ in TYPES:
            for how in ('given', 'gp', 'whole'): conductivity(d, model, typ, how)
