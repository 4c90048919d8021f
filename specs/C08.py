"""Selections: strided slices of vectors and matrices."""
from dsl import Contract
CONTRACTS = []
H = "slice.cpp"
BIG = 1 << 24
def MP(*a):
    import z3
    return z3.MultiPattern(*a)
def sel(c, r, off, size, step): return step * c.div(r, size) + off + c.mod(r, size)
def dense(op, big, off, size, step):
    """big = True: x is the large vector; the slice of the large one corresponds to the small one"""
    def pre(c):
        m = c.int('m', 0, BIG, arg=False)                      # number of blocks
        n_small, n_big = m * size, m * step
        c.require(n_small < n_big if big else c.And(n_small <= n_big, n_small >= 0))
        nx, ny = (n_big, n_small) if big else (n_small, n_big)
        c.arr('x', 'f64', nx); c.cint('nx', nx) if not c.symbolic else c.args.append(c._lin(nx))
        c.arr('y', 'f64', ny, ro=True); c.cint('ny', ny) if not c.symbolic else c.args.append(c._lin(ny))
        c.cint('off', off); c.cint('size', size); c.cint('step', step)
        if op == 'add': c.real('a')
        c.v['nx'], c.v['ny'] = nx, ny
        c.bterm('nx', nx); c.bterm('ny', ny)
    def new(c, old, v): return v if op == 'copy' else old + c['a'] * v
    def inv(c, r):
        x, y = c['x'], c['y']
        if big: return c.And(c.forall(0, r, lambda k: x[sel(c, k, off, size, step)] == new(c, x.old[sel(c, k, off, size, step)], y[k])))
        return c.And(c.forall(0, r, lambda k: x[k] == new(c, x.old[k], y[sel(c, k, off, size, step)])))
    def rest(c, r):
        x = c['x']
        if big:
            # untouched: positions outside the slice, and positions of the slice not reached yet
            return c.forall(0, c['nx'], lambda k: c.Or(x[k] == x.old[k], c.And(c.mod(k, step) >= off, c.mod(k, step) < off + size, size * c.div(k, step) + c.mod(k, step) - off < r)))
        return c.forall(0, c['nx'], lambda k: c.Or(k < r, x[k] == x.old[k]))
    def post(c):
        if not c.symbolic:
            x, y = c['x'], c['y']; nx = c['nx']
            want = list(x.old)
            for r in range(min(c['nx'], c['ny'])):
                t = sel(c, r, off, size, step)
                if big: want[t] = new(c, x.old[t], y[r])
                else: want[r] = new(c, x.old[r], y[t])
            for i in range(nx): c.eq(f"x[{i}]", x[i], want[i])
            return
        n = c['ny'] if big else c['nx']
        c.ensure("every selected entry gets its partner's value", inv(c, n))
        c.ensure("entries outside the selection are unchanged", rest(c, n))
    T = [("done", "i", inv), ("rest", "i", rest)]
    CONTRACTS.append(Contract(f"{op}(dense{' slice' if big else ''}, dense{'' if big else ' slice'}) {off}:{size}:{step}", H, f"v_dd_{op}", pre, post, mode='smt', templates=T, under=[f"espreso::math::{op}(Vector_Dense, Vector_Dense, Selection)"]))
for op in ('copy', 'add'):
    for big in (True, False):
        for s in [(0, 1, 2), (1, 1, 2), (1, 2, 3), (2, 1, 3), (3, 3, 6), (0, 2, 4), (2, 2, 4), (0, 3, 4), (1, 3, 4), (4, 1, 5), (5, 2, 8)]: dense(op, big, *s)

def L(c, name, e):
    """pass an integer expression as an argument"""
    if c.symbolic: c.args.append(c._lin(e)); c.v[name] = e
    else: c.cint(name, e)
def sparse(op, big, off, size, step):
    def pre(c):
        m = c.int('m', 0, BIG, arg=False)
        ns, nb = m * size, m * step
        nx, ny = (nb, ns) if big else (ns, nb)
        if not big: c.require(c.Or(ns < nb))
        c.arr('x', 'f64', nx); L(c, 'nx', nx); c.arr('y', 'f64', ny, ro=True); L(c, 'ny', ny)
        c.cint('off', off); c.cint('size', size); c.cint('step', step)
        if op == 'add': c.real('a')
        c.bterm('m', m)
    new = lambda c, old, v: v if op == 'copy' else old + c['a'] * v
    def upto(c, i, j):
        """blocks < i complete, block i up to entry j"""
        x, y = c['x'], c['y']
        f = lambda k: k * step + off; g = lambda k: k * size
        if not big: f, g = g, f
        return c.And(*[c.forall(0, i + (1 if e < 0 else 0), lambda k, e=e: x[f(k) + e] == new(c, x.old[f(k) + e], y[g(k) + e])) for e in range(size)],
                     *[c.implies(j > e, x[f(i) + e] == new(c, x.old[f(i) + e], y[g(i) + e])) for e in range(size)])
    def rest(c, i, j):
        x = c['x']
        st, of = (step, off) if big else (size, 0)
        return c.forall(0, c['nx'], lambda k: c.Or(x[k] == x.old[k], c.And(c.mod(k, st) >= of, c.mod(k, st) < of + size, c.Or(c.div(k, st) < i, c.And(c.div(k, st) == i, c.mod(k, st) - of < j)))))
    def post(c):
        m = c['m']
        if c.symbolic:
            c.ensure("every selected entry gets its partner's value", upto(c, m, 0)); c.ensure("entries outside the selection are unchanged", rest(c, m, 0)); return
        x, y = c['x'], c['y']; want = list(x.old)
        for i in range(m):
            for j in range(size):
                p, q = i * step + off + j, i * size + j
                if not big: p, q = q, p
                want[p] = new(c, x.old[p], y[q])
        for i in range(c['nx']): c.eq(f"x[{i}]", x[i], want[i])
    T = [("done", "ii", upto), ("done0", "i", lambda c, i: upto(c, i, 0)), ("rest", "ii", rest), ("rest0", "i", lambda c, i: rest(c, i, 0))]
    CONTRACTS.append(Contract(f"{op}(sparse{' slice' if big else ''}, sparse{'' if big else ' slice'}) {off}:{size}:{step}", H, f"v_ss_{op}", pre, post, mode='smt', templates=T, under=[f"espreso::math::{op}(Vector_Sparse, Vector_Sparse, Selection)"]))
for op in ('copy', 'add'):
    for big in (True, False):
        for s in [(0, 1, 2), (1, 2, 3), (3, 3, 6), (1, 1, 2), (0, 2, 4), (2, 2, 4), (1, 3, 4), (4, 1, 5)]: sparse(op, big, *s)

def mixed(op, todense):
    """dense <-> sparse through the index list (distinct indices)"""
    def pre(c):
        n, k = (c.int('n', 0, BIG, arg=False), c.int('k', 0, BIG, arg=False))
        def idx(): return c.arr('i', 'i32', k, ro=True, gen=lambda rng, m, cc: rng.sample(range(cc['n']), m) if m <= cc['n'] else [0] * (m + 1))
        if todense: c.arr('x', 'f64', n); L(c, 'nx', n); c.arr('y', 'f64', k, ro=True); idx(); L(c, 'ny', k)
        else: c.arr('x', 'f64', k); idx(); L(c, 'nx', k); c.arr('y', 'f64', n, ro=True); L(c, 'ny', n)
        if op == 'add': c.real('a')
        i = c['i']
        c.require(c.forall(0, k, lambda j: c.And(i[j] >= 0, i[j] < n)))
        if todense: c.require(c.forall2(0, k, lambda a: 0, lambda a: k, lambda a, b: c.implies(a != b, i[a] != i[b])))
    new = lambda c, old, v: v if op == 'copy' else old + c['a'] * v
    def done(c, r):
        x, y, i = c['x'], c['y'], c['i']
        if todense: return c.forall(0, r, lambda k: x[i[k]] == new(c, x.old[i[k]], y[k]))
        return c.forall(0, r, lambda k: x[k] == new(c, x.old[k], y[i[k]]))
    def pend(c, r):
        x, i = c['x'], c['i']
        if todense: return c.forall(r, c['k'], lambda k: x[i[k]] == x.old[i[k]])
        return c.forall(r, c['k'], lambda k: x[k] == x.old[k])
    def rest(c, r):
        x, i = c['x'], c['i']
        if not todense: return True
        return c.forall(0, c['n'], lambda p: c.implies(c.forall(0, c['k'], lambda j: i[j] != p), x[p] == x.old[p]))
    def post(c):
        c.ensure("every indexed entry gets its partner's value", done(c, c['k']))
        c.ensure("entries that are not indexed are unchanged", rest(c, c['k']))
    CONTRACTS.append(Contract(f"{op}({'dense, sparse' if todense else 'sparse, dense'})", H, f"v_{'ds' if todense else 'sd'}_{op}", pre, post, mode='smt', templates=[("done", "i", done), ("pend", "i", pend), ("rest", "i", rest)], under=[f"espreso::math::{op}({'Vector_Dense, Vector_Sparse' if todense else 'Vector_Sparse, Vector_Dense'})"]))
for op in ('copy', 'add'):
    for t in (True, False): mixed(op, t)

def csr(op, big, R, C, base, noproof=None):
    """matrix blocks: row r / entry c of the small matrix is row tr(r) / entry tc(c) of the large one"""
    gh = R[1] > 1 or C[1] > 1
    B = dict(x=base, y=base) if isinstance(base, int) else dict(zip("xy", base)); sb = B["y" if big else "x"]; bb = B["x" if big else "y"]
    tr = lambda c, r: c['tr'](r) if gh else sel(c, r, *R)
    tc = lambda c, k: c['tc'](k) if gh else sel(c, k, *C)
    def pre(c):
        m = c.int('m', 1, BIG, arg=False, bound=False); bn, sn = m * R[2], m * R[1]
        k = lambda: c.arr('k', 'i32', sn, arg=False, ro=True, gen=lambda rng, n, cc: [rng.randint(0, 3) for _ in range(n)])
        def rowsof(cc, n, step, small):
            v, p = [sb if small else bb], 0
            for r in range(n):
                if small: l = C[1] * cc['k'][r]
                else:
                    b, e = r // R[2], r % R[2] - R[0]
                    l = C[2] * cc['k'][b * R[1] + e] if 0 <= e < R[1] else cc.rng.randint(0, 3)
                v.append(v[-1] + l)
            return v
        k()
        def mat(nm, small):
            n = sn if small else bn
            rows = nm + 'r'
            if c.symbolic: nz = c.int(nm + 'nnz', 0, BIG, arg=False, bound=False)
            else: nz = 0
            if not c.symbolic:
                a = c.preset.get(rows) or rowsof(c, n, 0, small); nz = a[-1] - a[0] if a else 0
            pos = len(c.args)
            c.arr(nm, 'f64', nz, ro=(nm == 'y')); c.arr(rows, 'i32', n + 1, ro=True, gen=(lambda rng, q, cc: a) if not c.symbolic else None)
            L(c, nm + 'n', n); L(c, nm + 'nz', nz)
            r = c[rows]
            c.require(r[0] == B[nm]); c.require(r[n] == B[nm] + nz)
            if c.symbolic: c.require(c.forall2(0, n + 1, lambda i: 0, lambda i: n + 1, lambda i, j: c.implies(i <= j, r[i] <= r[j]), pat=lambda i, j: MP(r[i], r[j])))
            else: c.require(all(r[i] <= r[i + 1] for i in range(n)))
        mat('x', not big); mat('y', big)
        for q in R + C: c.cint(f"s{len(c.args)}", q)
        c.real('a')
        s, b = ('y', 'x') if big else ('x', 'y')
        kk, sr, br = c['k'], c[s + 'r'], c[b + 'r']
        for nm, q in (('tr', R), ('tc', C)) if gh else ():
            t = c.ghost(nm, 1, concrete=lambda cc, r, q=q: sel(cc, r, *q))
            inv = lambda cc, p, q=q: cc.ite(cc.And(cc.mod(p, q[2]) >= q[0], cc.mod(p, q[2]) < q[0] + q[1]), q[1] * cc.div(p, q[2]) + cc.mod(p, q[2]) - q[0], -1)
            u = c.ghost('u' + nm, 1, concrete=inv)
            if c.symbolic:
                import z3
                r, p = z3.Ints(f"r_{nm} p_{nm}")
                c.axiom(z3.ForAll([r], z3.Implies(r >= 0, z3.And(t(r) == sel(c, r, *q), u(t(r)) == r, t(r) >= 0)), patterns=[t(r)]))
                c.axiom(z3.ForAll([p], z3.Implies(p >= 0, z3.And(u(p) == inv(c, p), z3.Implies(u(p) >= 0, t(u(p)) == p))), patterns=[u(p)]))
        c.require(c.forall(0, sn, lambda r: c.And(kk[r] >= 0, kk[r] <= BIG, sr[r + 1] - sr[r] == C[1] * kk[r], br[tr(c, r) + 1] - br[tr(c, r)] == C[2] * kk[r]), pat=lambda r: sr[r]))
        c.v['sn'], c.v['bn'] = sn, bn
        c.bterm('sn', sn)
    new = lambda c, old, v: v if op == 'copy' else old + c['a'] * v
    def cell(c, r, p):
        """entry p (a position in the small matrix) of row r"""
        s, b = ('y', 'x') if big else ('x', 'y')
        pb = c[b + 'r'][tr(c, r)] - bb + tc(c, p - c[s + 'r'][r] + sb)
        x, y = c['x'], c['y']; px, py = (pb, p) if big else (p, pb)
        return x[px] == new(c, x.old[px], y[py])
    def sv(c): return c['y'] if big else c['x']
    def row(c, r, k):
        sr = c['yr' if big else 'xr']
        return c.forall(sr[r] - sb, sr[r] - sb + k, lambda p: cell(c, r, p), pat=lambda p: sv(c)[p])
    def rows(c, r):
        sr = c['yr' if big else 'xr']
        return c.forall2(0, r, lambda i: sr[i] - sb, lambda i: sr[i + 1] - sb, lambda i, p: cell(c, i, p), pat=lambda i, p: MP(sr[i], sv(c)[p]))
    def rest(c, r, k):
        x, xr = c['x'], c['xr']; n = c['bn'] if big else c['sn']
        def touched(q, p):
            j = p - xr[q] + B['x']
            if not big: return c.Or(q < r, c.And(q == r, j < k))
            if gh:
                rs, cs = c['utr'](q), c['utc'](j)
                return c.And(rs >= 0, cs >= 0, c.Or(rs < r, c.And(rs == r, cs < k)))
            rs = R[1] * c.div(q, R[2]) + c.mod(q, R[2]) - R[0]; cs = C[1] * c.div(j, C[2]) + c.mod(j, C[2]) - C[0]
            return c.And(c.mod(q, R[2]) >= R[0], c.mod(q, R[2]) < R[0] + R[1], c.mod(j, C[2]) >= C[0], c.mod(j, C[2]) < C[0] + C[1], c.Or(rs < r, c.And(rs == r, cs < k)))
        return c.forall2(0, n, lambda q: xr[q] - B['x'], lambda q: xr[q + 1] - B['x'], lambda q, p: c.Or(touched(q, p), x[p] == x.old[p]), pat=lambda q, p: MP(xr[q], x[p]))
    def post(c):
        if c.symbolic:
            c.ensure("every selected entry gets its partner's value", rows(c, c['sn'])); c.ensure("entries outside the selection are unchanged", rest(c, c['sn'], 0)); return
        x, y, xr, yr = c['x'], c['y'], c['xr'], c['yr']; want = list(x.old)
        for r in range(c['sn']):
            sr = yr if big else xr
            for k in range(sr[r + 1] - sr[r]):
                ps = sr[r] - sb + k; pb = (xr if big else yr)[sel(c, r, *R)] - bb + sel(c, k, *C)
                px, py = (pb, ps) if big else (ps, pb)
                want[px] = new(c, x.old[px], y[py])
        for i in range(len(want)): c.eq(f"x.vals[{i}]", x[i], want[i])
    T = [("rows", "i", rows), ("row", "ii", lambda c, r, k: c.And(rows(c, r), row(c, r, k))), ("rest", "ii", rest), ("rest0", "i", lambda c, r: rest(c, r, 0))]
    CONTRACTS.append(Contract(f"{op}(CSR{' block' if big else ''}, CSR{'' if big else ' block'}) rows {R} cols {C} base {base}", H, f"v_csr_{op}", pre, post, mode='smt', templates=T, under=[f"espreso::math::{op}(Matrix_CSR, Matrix_CSR, Selection, Selection)"], opts=dict(cost=9, limit=400, **(dict(noproof=noproof) if noproof else dict(houdini_ms=60000, nombqi=True) if gh else dict(houdini_ms=5000)), **({'noproof': 'invariant of the column-pair scatter-add exceeds the solver'} if (op, big, C[1]) == ('add', True, 2) and not noproof else {'slow': 'column-pair scatter takes minutes'} if (op, big, C[1]) == ('copy', True, 2) else {}))))
for op in ('copy', 'add'):
    for big in (True, False):
        csr(op, big, (0, 1, 2), (0, 1, 2), 1); csr(op, big, (1, 2, 3), (1, 1, 3), 1); csr(op, big, (2, 1, 3), (1, 2, 3), 1); csr(op, big, (1, 1, 2), (0, 1, 2), (0, 1)); csr(op, big, (1, 1, 2), (0, 1, 2), (1, 0), 'bounded: generated matrices of this selection')
        for R, C in [((0, 2, 4), (2, 2, 4)), ((2, 2, 4), (0, 2, 4)), ((3, 3, 6), (0, 3, 6)), ((0, 3, 6), (3, 3, 6)), ((1, 1, 4), (0, 3, 4)), ((0, 1, 3), (2, 1, 3))]: csr(op, big, R, C, 1, 'bounded: generated matrices of this selection')
