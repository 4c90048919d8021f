"""Element matrices and load vectors of the heat transfer physics."""
from dsl import Contract
L = 2
CONTRACTS = []
def lanes(c, name, n, **k): return c.arr(name, 'f64', n * L, **k)
def X(a, i, l): return a[i * L + l]
MODELS = {'ISOTROPIC': 0, 'DIAGONAL': 1, 'SYMMETRIC': 2, 'ANISOTROPIC': 3}
N2, N3 = [3, 4, 6, 8], [4, 5, 6, 8, 10, 13, 15, 20]
H = "heat.cpp"
def cond(c, d, model, i, j, l):
    """the conductivity tensor the model stands for (row-major storage)"""
    C = c['C']
    if model == 'ISOTROPIC': return X(C, 0, l) if i == j else 0
    if model == 'DIAGONAL': return X(C, i * d + i, l) if i == j else 0
    if model == 'SYMMETRIC': return X(C, min(i, j) * d + max(i, j), l)
    return X(C, i * d + j, l)

def stiffness(n, d, model, const):
    def pre(c):
        lanes(c, 'K', n * n)
        lanes(c, 'dND', n * d, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True)
        if model == 'SYMMETRIC': c.arr('C', 'f64', d * d * L, ro=True, tie=lambda k: (min(k // L // d, k // L % d) * d + max(k // L // d, k // L % d)) * L + k % L)
        else: lanes(c, 'C', d * d, ro=True)
        lanes(c, 'th', 1, ro=True); c.cint('model', MODELS[model])
    def post(c):
        for l in range(L):
            s = X(c['det'], 0, l) * c['w'][0] * (X(c['th'], 0, l) if d == 2 else 1)
            G = [[sum((cond(c, d, model, i, j, l) * X(c['dND'], m * d + j, l) for j in range(d)), 0 * s) for i in range(d)] for m in range(n)]
            for a in range(n):
                for b in range(n):
                    v = sum((X(c['dND'], a * d + i, l) * G[b][i] for i in range(d)), 0 * s)
                    c.eq(f"K[{a},{b}] += scale * grad N_{a} . C grad N_{b}, lane {l}", X(c['K'], a * n + b, l), c['K'].old[(a * n + b) * L + l] + s * v)
    CONTRACTS.append(Contract(f"MatrixConductivity<{n},{d}> {model}", H, f"v_K_{n}_{d}", pre, post, under=[f"espreso::MatrixConductivityKernel<{n},{d}>::simd"]))
for n in N2:
    for m in MODELS: stiffness(n, 2, m, False)
for n in N3:
    for m in MODELS: stiffness(n, 3, m, n > 8)

def grad(n, d):
    def pre(c): lanes(c, 'g', d); lanes(c, 'dND', n * d, ro=True); lanes(c, 'T', n, ro=True)
    def post(c):
        for l in range(L):
            for i in range(d): c.eq(f"gradient[{i}] lane {l}", X(c['g'], i, l), c['g'].old[i * L + l] + sum((X(c['dND'], k * d + i, l) * X(c['T'], k, l) for k in range(n)), 0 * X(c['T'], 0, l)))
    CONTRACTS.append(Contract(f"TemperatureGradient<{n},{d}>", H, f"v_grad_{n}_{d}", pre, post, under=["espreso::TemperatureGradientKernel::simd"]))
def flux(n, d, model):
    def pre(c):
        lanes(c, 'q', d); lanes(c, 'dND', n * d, ro=True); lanes(c, 'T', n, ro=True)
        if model == 'SYMMETRIC': c.arr('C', 'f64', d * d * L, ro=True, tie=lambda k: (min(k // L // d, k // L % d) * d + max(k // L // d, k // L % d)) * L + k % L)
        else: lanes(c, 'C', d * d, ro=True)
        c.cint('model', MODELS[model])
    def post(c):
        for l in range(L):
            g = [sum((X(c['dND'], k * d + i, l) * X(c['T'], k, l) for k in range(n)), 0 * X(c['T'], 0, l)) for i in range(d)]
            for i in range(d): c.eq(f"flux[{i}] += (C grad T)[{i}] lane {l}", X(c['q'], i, l), c['q'].old[i * L + l] + sum((cond(c, d, model, i, j, l) * g[j] for j in range(d)), 0 * g[0]))
    CONTRACTS.append(Contract(f"TemperatureFlux<{n},{d}> {model}", H, f"v_flux_{n}_{d}", pre, post, under=["espreso::TemperatureFluxKernel::simd"]))
for n, d in [(n, 2) for n in N2] + [(n, 3) for n in N3]:
    grad(n, d)
    for m in MODELS: flux(n, d, m)

def mass(n):
    def pre(c): lanes(c, 'M', n * n); c.arr('N', 'f64', n, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True); lanes(c, 'rho', 1, ro=True)
    def post(c):
        for l in range(L):
            for a in range(n):
                for b in range(n): c.eq(f"M[{a},{b}] lane {l}", X(c['M'], a * n + b, l), c['M'].old[(a * n + b) * L + l] + X(c['det'], 0, l) * c['w'][0] * X(c['rho'], 0, l) * c['N'][a] * c['N'][b])
    CONTRACTS.append(Contract(f"MatrixMass<{n},1>", H, f"v_M1_{n}", pre, post, under=["espreso::MatrixMassKernel<n,1>::simd"]))
    def pre(c): lanes(c, 'f', n); c.arr('N', 'f64', n, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True); lanes(c, 'q', 1, ro=True)
    def post(c):
        for l in range(L):
            for a in range(n): c.eq(f"f[{a}] lane {l}", X(c['f'], a, l), c['f'].old[a * L + l] + X(c['q'], 0, l) * X(c['det'], 0, l) * c['w'][0] * c['N'][a])
    CONTRACTS.append(Contract(f"HeatSource<{n}>", H, f"v_src_{n}", pre, post, under=["espreso::HeatSourceKernel::simd"]))
def interp(name, fn, n, dim):
    def pre(c): lanes(c, 'g', dim); c.arr('N', 'f64', n, ro=True); lanes(c, 'v', n * dim, ro=True)
    def post(c):
        for l in range(L):
            for i in range(dim): c.eq(f"value[{i}] = sum N_n v_n, lane {l}", X(c['g'], i, l), sum((c['N'][k] * X(c['v'], k * dim + i, l) for k in range(n)), 0 * X(c['v'], 0, l)))
    CONTRACTS.append(Contract(f"{name}<{n}>", H, fn, pre, post, under=[f"espreso::{name}Kernel::simd"]))
for n in [3, 4, 5, 6, 8, 10, 13, 15, 20]:
    mass(n); interp("TemperatureToGPs", f"v_tgp_{n}", n, 1); interp("CoordinatesToGPs3D", f"v_xgp_{n}", n, 3)
for n in N2: interp("ThicknessToGp", f"v_thgp_{n}", n, 1); interp("CoordinatesToGPs2D", f"v_x2gp_{n}", n, 2)

def ext(n, nd):
    def pre(c):
        lanes(c, 'f', n); c.arr('N', 'f64', n, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True)
        for x in ('th', 'flow', 'flux', 'htc', 'ext'): lanes(c, x, 1, ro=True)
        c.real('area', gen=lambda r, c: r.uniform(.5, 3))
    def post(c):
        for l in range(L):
            q = X(c['flow'], 0, l) / c['area'] + X(c['flux'], 0, l) + X(c['htc'], 0, l) * X(c['ext'], 0, l)
            for a in range(n): c.eq(f"f[{a}] += (flow/area + flux + htc*T_ext) N_{a}, lane {l}", X(c['f'], a, l), c['f'].old[a * L + l] + q * X(c['th'], 0, l) * X(c['det'], 0, l) * c['w'][0] * c['N'][a])
    CONTRACTS.append(Contract(f"ExternalHeat<{n},{nd}>", H, f"v_ext_{n}_{nd}", pre, post, under=["espreso::ExternalHeatKernel::simd"]))
for n, nd in [(2, 2), (3, 2), (3, 3), (4, 3), (6, 3), (8, 3)]: ext(n, nd)

def adv(n, d):
    # SUPG advection: u = rho c v, h = 2|u|/|u.grad N|, Pe, tau = max(0, 1 - 2 k / (h |u|))
    def pre(c):
        lanes(c, 'K', n * n); lanes(c, 'C', d * d); lanes(c, 'dND', n * d, ro=True); c.arr('N', 'f64', n, ro=True); lanes(c, 'det', 1, ro=True); c.arr('w', 'f64', 1, ro=True)
        lanes(c, 'u', d, ro=True); lanes(c, 'rho', 1, ro=True); lanes(c, 'cp', 1, ro=True); c.real('sigma')
    def post(c):
        for l in range(L):
            u = [X(c['u'], i, l) * X(c['rho'], 0, l) * X(c['cp'], 0, l) for i in range(d)]
            z = 0 * u[0]
            be = [sum((u[i] * X(c['dND'], k * d + i, l) for i in range(d)), z) for k in range(n)]
            usq, bsq = sum((x * x for x in u), z), sum((x * x for x in be), z)
            un, bn = c.sqrt(usq), c.sqrt(bsq)
            ur, br = c.guarded_recip(un), c.guarded_recip(bn)
            h = 2 * un * br
            k0 = c['C'].old[l]
            tau = c.max0(1 - k0 * bn * ur * ur)
            a = tau * h * ur / 2
            for i in range(d):
                for j in range(d):
                    c.eq(f"C[{i},{j}] lane {l}: crosswind stabilisation on the diagonal", X(c['C'], i * d + j, l), c['C'].old[(i * d + j) * L + l] + (c['sigma'] * h * un if i == j else 0))
            for p in range(n):
                for q in range(n):
                    c.eq(f"K[{p},{q}] lane {l}: Petrov-Galerkin advection", X(c['K'], p * n + q, l), c['K'].old[(p * n + q) * L + l] + X(c['det'], 0, l) * c['w'][0] * (c['N'][p] + a * be[p]) * be[q])
    CONTRACTS.append(Contract(f"Advection<{n},{d}>", H, f"v_adv_{n}_{d}", pre, post, under=["espreso::AdvectionKernel::simd"]))
for n, d in [(3, 2), (4, 2), (4, 3), (8, 3)]: adv(n, d)
