"""Gather and scatter between global arrays and element lanes."""
from dsl import Contract
CONTRACTS = []
H = "gather.cpp"
BIG = 1 << 22
def L(c, name, e):
    if c.symbolic: c.args.append(c._lin(e)); c.v[name] = e
    else: c.cint(name, e)
def elements(c, N, U):
    """list of n elements with N nodes each; the kernel stands at element e of the interval that ends at e2"""
    n = c['n']; e, e2 = c['e'], c['e2']
    c.arr('dist', 'i32', n + 1, ro=True, gen=lambda rng, k, cc: [N * i for i in range(k)])
    L(c, 'n_', n)
    c.arr('nodes', 'i32', n * N, ro=True, gen=lambda rng, k, cc: [rng.randrange(cc['m']) for _ in range(k)])
    L(c, 'e_', e); L(c, 'e2_', e2)
    d, v = c['dist'], c['nodes']
    c.require(c.forall(0, n + 1, lambda i: d[i] == N * i)); c.require(c.forall(0, n * N, lambda i: c.And(v[i] >= 0, v[i] < c['m'])))
    c.arr('pos', 'i32', 2, out=True)
def start(c):
    m = c.int('m', 1, BIG, arg=False)                     # mesh nodes
    n = c.int('n', 1, BIG, arg=False)                     # elements in the list
    e = c.int('e', 0, BIG, arg=False, gen=lambda r, cc: r.randrange(cc['n'])); e2 = c.int('e2', 0, BIG, arg=False, gen=lambda r, cc: r.randint(cc['e'] + 1, min(cc['n'], cc['e'] + 3)))
    c.require(c.And(e < e2, e2 <= n))                     # a chunk starts inside the interval
def moved(c, N):
    e, e2 = c['e'], c['e2']
    k = c.ite(e2 - e >= 2, 2, 1)
    c.eq("the kernel moves to the next chunk", c['pos'][0], (e + k) * N); c.eq("the element list moves with the data", c['pos'][1], (e + k) * N)
    return k
def gather(fn, N, D, U, what, coords=False):
    def pre(c):
        start(c)
        c.arr('x', 'f64', N * D * 2)
        if coords: c.arr('cnt', 'i32', 1)
        c.arr('src', 'f64', c['m'] * (3 if coords else D), ro=True)
        elements(c, N, U)
    def post(c):
        x, s, v, e, e2 = c['x'], c['src'], c['nodes'], c['e'], c['e2']
        k = moved(c, N)
        if coords: c.eq("number of active lanes", c['cnt'][0], k)
        st = 3 if coords else D
        for l in range(2):
            for n in range(N):
                for d in range(D):
                    i = (n * D + d) * 2 + l
                    if c.symbolic:
                        w = s[st * v[(e + l) * N + n] + d]
                        if l == 1:
                            import z3
                            c.eq(f"lane {l} node {n}.{d}", x[i], z3.If(e + l < e2, w, z3.RealVal(0) if coords else x.old[i]))
                        else: c.eq(f"lane {l} node {n}.{d}", x[i], w)
                    else: c.eq(f"lane {l} node {n}.{d}", x[i], s[st * v[(e + l) * N + n] + d] if e + l < e2 else (0.0 if coords else x.old[i]))
    CONTRACTS.append(Contract(f"{what} {N} nodes {D}D{' uniform list' if U else ''}", H, fn, pre, post, mode='smt', opts=dict(unroll=400), under=[what]))
def scatter(fn, N, D, U, what):
    def pre(c):
        start(c)
        c.arr('x', 'f64', N * D * 2, ro=True); c.arr('dst', 'f64', c['m'] * D)
        elements(c, N, U)
    def post(c):
        x, s, v, e, e2, m = c['x'], c['dst'], c['nodes'], c['e'], c['e2'], c['m']
        moved(c, N)
        # every node of an active lane holds the value of the last lane/node that refers to it; all others keep theirs
        if not c.symbolic:
            want = list(s.old)
            for l in range(min(2, e2 - e)):
                for n in range(N):
                    for d in range(D): want[v[(e + l) * N + n] * D + d] = x[(n * D + d) * 2 + l]
            for i in range(m * D): c.eq(f"dst[{i}]", s[i], want[i])
            return
        import z3
        q = z3.Int("q!"); 
        for d in range(D):
            w = s.old[q * D + d]
            for l in range(2):
                for n in range(N):
                    w = z3.If(z3.And(e + l < e2, v[(e + l) * N + n] == q), x[(n * D + d) * 2 + l], w)
            c.ensure(f"component {d} of every node", c.implies(c.And(q >= 0, q < m), s[q * D + d] == w))
    CONTRACTS.append(Contract(f"{what} {N} nodes {D}D{' uniform list' if U else ''}", H, fn, pre, post, mode='smt', opts=dict(unroll=400), under=[what]))
for N, D, U in [(2, 2, 0), (2, 3, 0), (3, 2, 1), (4, 3, 0), (8, 3, 0)]:
    gather(f"v_coo_{N}_{D}_{U}", N, D, U, "CoordinatesKernel", True); gather(f"v_disp_{N}_{D}_{U}", N, D, U, "DisplacementKernel"); scatter(f"v_vel_{N}_{D}_{U}", N, D, U, "InitialVelocityKernel")
for N, U in [(2, 0), (3, 0), (4, 1), (8, 0)]:
    gather(f"v_temp_{N}_{U}", N, 1, U, "TemperatureKernel"); gather(f"v_thf_{N}_{U}", N, 1, U, "ThicknessFromNodes"); scatter(f"v_tini_{N}_{U}", N, 1, U, "InitialTemperatureKernel"); scatter(f"v_tht_{N}_{U}", N, 1, U, "ThicknessToNodes")

# assembly
def entries(size, shape): return [(r, k) for r in range(size) for k in range(size) if shape == 2 or (shape == 1 and k >= r) or (shape == 0 and k <= r)]
def fill(fn, size, what, cells, per, zero, extra=(), width=1, setter=False):
    """cells: for lane 0 and 1 the order of source entries; per: positions per element"""
    def pre(c):
        el = c.int('el', 0, BIG, w=64, arg=False); m = c.int('m', 1, BIG, arg=False)
        c.arr('x', 'f64', size * 2, ro=not zero); c.arr('out', 'f64', m * width)
        c.arr('p', 'i32', el * per, ro=True, gen=lambda rng, k, cc: [rng.randrange(cc['m']) for _ in range(k)])
        L(c, 'el_', el)
        for nm, v in extra: L(c, nm, v if not callable(v) else v(c))
        c.arr('res', 'i64', 2, out=True)
        p = c['p']
        c.require(c.forall(0, el * per, lambda i: c.And(p[i] >= 0, p[i] < m)))
    def post(c):
        x, out, p, el, m = c['x'], c['out'], c['p'], c['el'], c['m']
        k = c.ite(el >= 2, 2, el)
        c.eq("position moves past the processed elements", c['res'][0], k * per); c.eq("remaining elements", c['res'][1], el - k)
        if zero:
            for i in range(size * 2): c.eq(f"the element buffer is cleared [{i}]", x[i], 0.0 if not c.symbolic else 0 * x.old[0])
        if not c.symbolic:
            want = list(out.old)
            for l in range(min(2, el)):
                for i, src in enumerate(cells):
                    for w in range(width):
                        j = p[l * per + i] + w * m; v = x.old[(src + w * size // width) * 2 + l]
                        want[j] = v if setter else want[j] + v
            for i in range(m * width): c.eq(f"out[{i}]", out[i], want[i])
            return
        import z3
        q = z3.Int("q!")
        for w in range(width):
            t = out.old[q + w * m]
            for l in range(2):
                for i, src in enumerate(cells):
                    v = x.old[(src + w * size // width) * 2 + l]
                    t = z3.If(z3.And(el > l, p[l * per + i] == q), v, t) if setter else t + z3.If(z3.And(el > l, p[l * per + i] == q), v, z3.RealVal(0))
            c.ensure("every position holds the sum of its contributions" if not setter else "every position holds its value", c.implies(c.And(q >= 0, q < m), (out[q + w * m] if setter else out.acc(q + w * m)) == t))
    CONTRACTS.append(Contract(what, H, fn, pre, post, mode='smt', opts=dict(unroll=400), under=[what.split()[0]]))
for N, D in [(2, 1), (2, 2), (3, 1), (1, 3), (4, 1), (3, 2), (8, 1), (4, 3)]:
    S = N * D
    for shape, nm in ((2, 'full'), (1, 'upper'), (0, 'lower')):
        ce = [r * S + k for r, k in entries(S, shape)]
        fill(f"v_mat_{N}_{D}", S * S, f"MatrixFillerKernel {N} nodes {D} dofs {nm}", ce, len(ce), True, [('shape', shape)])
    fill(f"v_rhs_{N}_{D}", S, f"RHSFillerKernel {N} nodes {D} dofs", list(range(S)), S, True)
    fill(f"v_nrhs_{N}_{D}", 2 * S, f"RHSFillerKernel two right-hand sides {N} nodes {D} dofs", list(range(S)), S, False, [('size', lambda c: c['m'])], width=2)
for flt in range(1, 8):
    ce = [n * 3 + d for d in range(3) if flt >> d & 1 for n in range(2)]
    fill("v_set", 6, f"VectorSetterKernel dofs {flt:03b}", ce, len(ce), False, [('filter', flt)], setter=True)
# element results
def result(fld, D):
    def pre(c):
        n = c.int('n', 1, BIG, arg=False)
        b = c.int('b', 0, BIG, arg=False, gen=lambda r, cc: r.randrange(cc['n'])); e = c.int('e', 0, BIG, arg=False, gen=lambda r, cc: r.randint(cc['b'] + 1, cc['n'])); k = c.int('k', 0, BIG, arg=False, w=64, gen=lambda r, cc: 2 * r.randrange((cc['e'] - cc['b'] + 1) // 2))
        c.require(c.And(b + k < e, e <= n))
        c.arr('x', 'f64', 2 * D, ro=True); c.arr('data', 'f64', n * D)
        L(c, 'b_', b); L(c, 'e_', e); L(c, 'k_', k)
        if c.symbolic:
            c.arr('res', 'i64', 3); c.require(c['res'][2] == n)
        else: c.arr('res', 'i64', 3, gen=lambda r, q, cc: [0, 0, cc['n']])
    def post(c):
        x, data, b, e, k, n = c['x'], c['data'], c['b'], c['e'], c['k'], c['n']
        c.eq("the output moves to the next chunk", c['res'][0], D * (b + k + c.ite(e - b - k >= 2, 2, 1))); c.eq("the accumulators are cleared", c['res'][1], 1)
        if not c.symbolic:
            want = list(data.old)
            for l in range(min(2, e - b - k)):
                for d in range(D): want[(b + k + l) * D + d] = x[2 * d + l] / 8
            for i in range(n * D): c.eq(f"data[{i}]", data[i], want[i])
            return
        import z3
        q = z3.Int("q!")
        for d in range(D):
            c.ensure(f"component {d}: the elements of the chunk get their averaged value, all others keep theirs",
                     c.implies(c.And(q >= 0, q < n), data[q * D + d] == z3.If(q == b + k, x[2 * d] / 8, z3.If(z3.And(q == b + k + 1, q < e), x[2 * d + 1] / 8, data.old[q * D + d]))))
    CONTRACTS.append(Contract(f"store {fld} {D}D", H, f"v_{fld}_{D}", pre, post, mode='smt', opts=dict(unroll=400), under=[f"Temperature{fld.capitalize()}Kernel::store"]))
for fld in ('gradient', 'flux'):
    for D in (2, 3): result(fld, D)
