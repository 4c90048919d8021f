"""Index utilities: offsets, permutations, distributions, duplicates, rounding."""
from dsl import Contract
from C09 import L
CONTRACTS = []
H = "util.cpp"
BIG = 1 << 22
def MP(*a):
    import z3
    return z3.MultiPattern(*a)
def K(name, fn, pre, post, T=(), under=(), ret=None, **kw):
    CONTRACTS.append(Contract(name, H, fn, pre, post, mode='smt', ret=ret, templates=T, under=under, **kw))
SMALL = lambda rng, n, cc: [rng.randint(0, 5) for _ in range(n)]
# ---- running offsets: ghost prefix sums P(0) = offset, P(i+1) = P(i) + size_i
def psum(c, name, x, n, off, lim):
    """ghost prefix sum of the old x"""
    P = c.ghost(name, 1, concrete=lambda cc, i: off(cc) + sum(x(cc).old[k] for k in range(i)))
    if c.symbolic:
        c.require(P(0) == off(c)); a = x(c)
        c.require(c.forall(0, n, lambda i: c.And(P(i + 1) == P(i) + a.old[i], a.old[i] >= 0, a.old[i] <= 1 << 30, P(i) >= 0, P(i) <= lim), pat=lambda i: P(i + 1)))
        c.require(c.forall(0, n, lambda i: c.And(P(i + 1) == P(i) + a.old[i], a.old[i] >= 0, P(i + 1) <= lim), pat=lambda i: a.old[i]))
        c.require(c.forall(0, n, lambda i: c.And(P(i + 1) == P(i) + a.old[i], P(i + 1) >= 0, P(i + 1) <= lim), pat=lambda i: P(i)))
    return P
def s2o(fn, kind, name, hasoff=True):
    lim = (1 << 31) - 1 if kind == 'i32' else 1 << 46
    w = 32 if kind == 'i32' else 64
    def pre(c):
        n = c.int('n', 0, BIG, w=w, arg=False); off = c.int('off', 0, 1000, w=w, arg=False) if hasoff else 0
        if not hasoff: c.v['off'] = 0
        c.arr('x', kind, n, gen=SMALL); L(c, 'n_', n)
        if hasoff: L(c, 'off_', off)
        if c.symbolic: c.st0 = c.st0 or c.st
        psum(c, 'P', lambda cc: cc['x'], n, lambda cc: cc['off'], lim)
    def inv(c, i):
        x, P = c['x'], c['P']
        return c.And(c.forall(0, i, lambda k: x[k] == P(k), pat=lambda k: x[k]), c.forall(i, c['n'], lambda k: x[k] == x.old[k], pat=lambda k: x[k]))
    def post(c):
        x, P, n = c['x'], c['P'], c['n']
        c.ensure("entry k is the offset plus the sizes before k", c.forall(0, n, lambda k: x[k] == P(k))); c.eq("the sum is returned", c.ret, P(n))
    K(name, fn, pre, post, [("done", "i", inv), ("sum", "ii", lambda c, i, s: s == c['P'](i))], ["espreso::utils::sizesToOffsets"], ret=kind)
s2o("v_s2o_i32", 'i32', "sizesToOffsets int"); s2o("v_s2o_i64", 'i64', "sizesToOffsets size_t"); s2o("v_s2o_vec", 'i32', "sizesToOffsets vector", False)
def rup(fn, kind, name, down):
    w = 32 if kind == 'i32' else 64
    hi = 1 << 30 if w == 32 else 1 << 46
    def pre(c):
        c.int('n', 0 if down or w == 32 else 1, hi, w=w); c.int('a', 1, hi, w=w)
    def post(c):
        n, a, r = c['n'], c['a'], c.ret
        c.eq("a multiple of the alignment", c.mod(r, a), 0)
        if down: c.ensure("largest one not above the number", c.And(r <= n, n < r + a))
        else: c.ensure("smallest one not below the number", c.And(n <= r, r < n + a))
    K(name, fn, pre, post, under=[f"espreso::utils::round_{'down' if down else 'up'}"], ret=kind)
rup("v_up_i32", 'i32', "round_up int", False); rup("v_up_u64", 'i64', "round_up size_t", False); rup("v_down_i32", 'i32', "round_down int", True); rup("v_down_u64", 'i64', "round_down size_t", True)
def up0(al):
    """unsigned zero wraps around: the result is still zero for power-of-two alignments"""
    def pre(c): c.cint('n', 0); c.cint('a', al)
    def post(c): c.eq("zero stays zero", c.ret, 0)
    K(f"round_up size_t of 0 to {al}", "v_up_u64", pre, post, under=["espreso::utils::round_up"], ret='i64')
for al in (1, 2, 8, 16, 64, 256, 4096): up0(al)
def dist(T, chunk):
    def pre(c):
        c.arr('d', 'i64', T + 1, out=True); c.cint('T', T); c.int('size', 0, 1 << 40, w=64)
        if chunk: c.int('chunk', 0, 1 << 20, w=64)
    def post(c):
        d, s = c['d'], c['size']
        c.eq("starts at zero", d[0], 0) if T else None; c.eq("ends at the size", d[T], s)
        for t in range(T): c.ensure(f"part {t} is a range", d[t] <= d[t + 1])
        if chunk:
            for t in range(T - 1): c.ensure(f"part {t} is not smaller than the smallest chunk unless the rest is empty", c.Or(d[t + 1] - d[t] >= c['chunk'], d[t + 1] == s))
        else:
            for t in range(1, T - 1): c.ensure(f"part {t} is not larger than the first", d[t + 1] - d[t] <= d[1] - d[0])
    K(f"tarray::distribute over {T} threads{' with a smallest chunk' if chunk else ''}", "v_dist_min" if chunk else "v_dist_u64", pre, post, under=["espreso::tarray::distribute"])
for T in (0, 1, 2, 3, 4, 5, 8, 12): dist(T, False)
for T in (1, 2, 3, 6): dist(T, True)

# ---- permutation of blocks of es entries
def perm(fn, kind, es):
    P = 'D' if kind == 'f64' else 'A'
    def pre(c):
        m = c.int('m', 0, BIG, arg=False)
        c.arr('x', kind, m * es); L(c, 'n_', m * es)
        c.arr('p', 'i32', m, ro=True, gen=lambda rng, k, cc: [rng.randrange(k) for _ in range(k)]); L(c, 'k_', m); c.cint('es', es)
        p = c['p']; c.require(c.forall(0, m, lambda i: c.And(p[i] >= 0, p[i] < m), pat=lambda i: p[i])); c.bterm('m', m); c.bterm('n', m * es)
    def done(c, A, i, e):
        """entries < e of every block, entry e of blocks < i"""
        x, p, m = c['x'].old, c['p'], c['m']
        if es == 1: return c.forall(0, m, lambda k: c.implies(c.Or(e > 0, k < i), A[k] == x[p[k]]), pat=lambda k: A[k])
        return c.forall(0, m * es, lambda j: c.implies(c.Or(c.mod(j, es) < e, c.And(c.mod(j, es) == e, c.div(j, es) < i)), A[j] == x[es * p[c.div(j, es)] + c.mod(j, es)]), pat=lambda j: A[j])
    T = [(f"done{q}", P + "i", lambda c, A, i, q=q: done(c, A, i, q)) for q in range(es)] + [("keep", P, lambda c, A: c.forall(0, es * c['m'], lambda k: A[k] == c['x'].old[k], pat=lambda k: A[k]))]
    def post(c):
        x, p, m = c['x'], c['p'], c['m']
        c.ensure(f"block i is block p[i] of the old data", c.forall(0, m * es, lambda j: x[j] == x.old[es * p[c.div(j, es)] + c.mod(j, es)]))
    K(f"permute {kind} blocks of {es}", fn, pre, post, T, ["espreso::utils::permute"])
for kind, es in (('i32', 1), ('f64', 1), ('f64', 2), ('f64', 3)): perm(f"v_perm_{kind}", kind, es)
# ---- first occurrences of consecutive values
def uniq():
    def pre(c):
        n = c.int('n', 0, BIG, w=64, arg=False); b = c.int('b', 0, BIG, w=64, arg=False, gen=lambda r, cc: r.randint(0, cc['n']))
        c.require(b <= n)
        c.arr('x', 'i32', n, gen=lambda rng, k, cc: [rng.randint(0, 2) for _ in range(k)]); L(c, 'n_', n); L(c, 'b_', b); c.bterm('n-1', n - 1)
        x = c['x']
        # ghost: R(i) = b + number of changes in (b, i]: the place of old[i] in the result
        R = c.ghost('R', 1)
        if c.symbolic:
            c.require(R(b) == b)
            o = x
            c.require(c.forall(b, n, lambda i: c.implies(i + 1 < n, R(i + 1) == R(i) + c.ite(o[i + 1] != o[i], 1, 0)), pat=lambda i: R(i + 1)))
            c.require(c.forall(b, n, lambda i: c.implies(i + 1 < n, R(i + 1) == R(i) + c.ite(o[i + 1] != o[i], 1, 0)), pat=lambda i: R(i)))
    def inv(c, u, d):
        x, R, b = c['x'], c['R'], c['b']
        return c.And(u == R(d - 1), d > b, u >= b, u < d, x[u] == x.old[d - 1], c.forall(b, d, lambda k: c.And(R(k) <= u, R(k) >= b, x[R(k)] == x.old[k]), pat=lambda k: R(k)), c.forall(d, c['n'], lambda k: x[k] == x.old[k], pat=lambda k: x[k]), c.forall(0, b, lambda k: x[k] == x.old[k], pat=lambda k: x[k]))
    def post(c):
        x, R, b, n = c['x'], c['R'], c['b'], c['n']
        if not c.symbolic:
            o = x.old; want = list(o[:b])
            for i in range(b, n):
                if i == b or o[i] != o[i - 1]: want.append(o[i])
            c.eq("size", c.ret, len(want)); [c.eq(f"x[{i}]", x[i], want[i]) for i in range(len(want))]; return
        c.eq("size: one entry for each run of equal values", c.ret, c.ite(n == b, b, R(n - 1) + 1))
        c.ensure("the value of each run is kept in order", c.forall(b, n, lambda k: c.And(R(k) < c.ret, x[R(k)] == x.old[k]), pat=lambda k: R(k)))
        c.ensure("entries before the start are kept", c.forall(0, b, lambda k: x[k] == x.old[k]))
    K("removeDuplicates", "v_uniq_i32", pre, post, [("runs", "ii", inv)], ["espreso::utils::removeDuplicates"], ret='i64')
uniq()
# ---- offsets over threads
def vv(T, use, N=None):
    def pre(c):
        n = c.int('n', 0 if use else 2, BIG, arg=False) if N is None else N
        c.v['n'] = n; small = lambda rng, k, cc: [rng.randint(0, 9) for _ in range(k)]
        for t in range(3): c.arr('abc'[t], 'i32', n if t < T else 1, gen=small)
        L(c, 'n_', n); c.arr('off', 'i32', n, gen=small); c.cint('use', use)
        c.require(c.forall(0, n, lambda k: c.And(*[c.And(c[x][k] >= 0, c[x][k] < 1 << 28) for x in 'abc'[:T] + ('off' if 0 else '')], c['off'][k] >= 0, c['off'][k] < 1 << 28)))
    def val(c, t, k): return sum([c['abc'[s]].old[k] for s in range(t)], c['off'].old[k] if use else 0)
    def inv(c, A, i):
        return c.And(*[c.forall(0, i, lambda k, t=t: c['abc'[t]][k] == val(c, t, k), pat=lambda k, t=t: c['abc'[t]][k]) for t in range(T)], *[c.forall(i, c['n'], lambda k, t=t: c['abc'[t]][k] == c['abc'[t]].old[k], pat=lambda k, t=t: c['abc'[t]][k]) for t in range(T)],
                     c.forall(0, i, lambda k: A[k] == val(c, T, k), pat=lambda k: A[k]), c.forall(i, c['n'], lambda k: A[k] == (c['off'].old[k] if use else 0), pat=lambda k: A[k]))
    def post(c):
        for t in range(T): c.ensure(f"thread {t} starts after the threads before it", c.forall(0, c['n'], lambda k: c['abc'[t]][k] == val(c, t, k)))
        c.ensure("the sums are returned", c.forall(0, c['n'], lambda k: c['off'][k] == val(c, T, k)))
    K(f"sizesToOffsets of {T} threads{' with offsets' if use else ''}{'' if N is None else f' length {N}'}", f"v_s2o_vv_{T}", pre, post, [("sums", "Ai", inv), ("zero", "Ai", lambda c, A, i: c.forall(0, i, lambda k: A[k] == 0, pat=lambda k: A[k]))], ["espreso::utils::sizesToOffsets(vector of vectors)"])
for T in (1, 2, 3):
    for use in (0, 1): vv(T, use)
    vv(T, 0, 0); vv(T, 0, 1)
def tdvv(T):
    def pre(c):
        for t in range(3):
            n = c.int(f'n{t}', 0, BIG, w=64, arg=False) if t < T else 1
            c.v[f'n{t}'] = n
            x = c.arr('abc'[t], 'i32', n, gen=lambda rng, k, cc: sorted(rng.randint(0, 9) for _ in range(k))); L(c, f'm{t}', n)
            if t < T: c.require(c.forall(0, n, lambda k: c.And(x[k] >= 0, x[k] < 1 << 28), pat=lambda k: x[k]))
    def off(c, t):
        r = 0
        for s in range(t):
            n = c[f'n{s}']; a = c['abc'[s]].old
            r = r + (c.ite(n > 0, a[n - 1], 0) if c.symbolic else a[n - 1] if n else 0)
        return r
    def inv(c, i, t):
        x = c['abc'[t]]; o = off(c, t)
        sh = lambda s, lo, hi, by: c.forall(lo, hi, lambda k: c['abc'[s]][k] == c['abc'[s]].old[k] + by, pat=lambda k: c['abc'[s]][k])
        return c.And(sh(t, 0, i, o), sh(t, i, c[f'n{t}'], 0), *[sh(s, 0, c[f'n{s}'], off(c, s)) for s in range(t)], *[sh(s, 0, c[f'n{s}'], 0) for s in range(t + 1, T)])
    def post(c):
        for t in range(T):
            x = c['abc'[t]]; c.ensure(f"part {t} is shifted by the last entries of the parts before it", c.forall(0, c[f'n{t}'], lambda k: x[k] == x.old[k] + off(c, t)))
    K(f"threadDistributionToFullDistribution of {T} parts", f"v_td_vv_{T}", pre, post, [(f"part{t}", "i", lambda c, i, t=t: inv(c, i, t)) for t in range(T)], ["espreso::utils::threadDistributionToFullDistribution(vector of vectors)"])
    def pre2(c):
        n = c.int('n', 1, BIG, w=64, arg=False); d = [0]
        for t in range(1, 4):
            if t < T: v = c.int(f'd{t}', 0, BIG, w=64, arg=False, gen=lambda r, cc, p=d[-1]: r.randint(p if isinstance(p, int) else 0, cc['n'] - 1)); c.require(c.And(v >= d[-1], v <= n - 1))
            else: v = n - 1
            d.append(v)
        c.arr('x', 'i32', n, gen=lambda rng, k, cc: [rng.randint(0, 9) for _ in range(k)]); L(c, 'n_', n)
        for t in range(1, 4): L(c, f'e{t}', d[t])
        c.v['d'] = d; x = c['x']
        c.require(c.forall(0, n, lambda k: c.And(x[k] >= 0, x[k] < 1 << 28), pat=lambda k: x[k]))
        for t in range(1, 4): c.bterm(f'd{t}', d[t])
    def off2(c, t):
        d, x = c['d'], c['x'].old; r = 0
        for s in range(t): r = r + (c.ite(d[s] != d[s + 1], x[d[s + 1]], 0) if c.symbolic else (x[d[s + 1]] if d[s] != d[s + 1] else 0))
        return r
    def inv2(c, i, t):
        x, d = c['x'], c['d']
        return c.And(*[c.forall(d[s] + 1, d[s + 1] + 1, lambda k, s=s: x[k] == x.old[k] + off2(c, s), pat=lambda k: x[k]) for s in range(t)], c.forall(d[t] + 1, i, lambda k: x[k] == x.old[k] + off2(c, t), pat=lambda k: x[k]), c.forall(i, c['n'], lambda k: x[k] == x.old[k], pat=lambda k: x[k]), x[0] == x.old[0], i >= d[t] + 1)
    def post2(c):
        x, d = c['x'], c['d']
        for t in range(T): c.ensure(f"part {t} is shifted by the last entries of the parts before it", c.forall(d[t] + 1, d[t + 1] + 1, lambda k: x[k] == x.old[k] + off2(c, t)))
        c.eq("the first entry is kept", x[0], x.old[0])
    K(f"threadDistributionToFullDistribution of {T} ranges", f"v_td_flat_{T}", pre2, post2, [(f"part{t}", "i", lambda c, i, t=t: inv2(c, i, t)) for t in range(T)], ["espreso::utils::threadDistributionToFullDistribution"])
for T in (1, 2, 3): tdvv(T)
# ---- packing: what is unpacked is what was packed, and the announced size is used exactly
HP = "pack.cpp"
SZ = dict(int=4, double=8, ulong=8); KD = dict(int='i32', double='f64', ulong='i64')
def KP(name, fn, pre, post, under, **kw): CONTRACTS.append(Contract(name, HP, fn, pre, post, mode='smt', under=under, **kw))
PK = ["espreso::utils::packedSize", "espreso::utils::pack", "espreso::utils::unpack"]
def sizes(c, want):
    c.eq("announced size", c['res'][0], want); c.eq("bytes written", c['res'][1], want); c.eq("bytes read", c['res'][2], want)
def same(c, n):
    for i in range(n): c.eq(f"value {i}", c['y'][i], c['x'][i])
def num(T):
    k = KD[T]
    def pre(c): c.arr('x', k, 1, ro=True); c.arr('y', k, 1); c.arr('res', 'i64', 3, out=True)
    def post(c): same(c, 1); sizes(c, SZ[T])
    KP(f"pack {T}", f"v_pack_{T}", pre, post, PK)
    for n in (0, 1, 2, 5):
        for old in (0, 3):
            def pre(c, n=n, old=old): c.arr('x', k, n, ro=True); c.cint('n', n); c.arr('y', k, max(n, 1)); c.arr('ny', 'i64', 1, out=True); c.arr('res', 'i64', 3, out=True); c.cint('old', old)
            def post(c, n=n): c.eq("length", c['ny'][0], n); same(c, n); sizes(c, 8 + n * SZ[T])
            KP(f"pack vector of {n} {T} over {old}", f"v_pack_vec_{T}", pre, post, PK)
    for n0, n1, old in ((0, 2, 0), (3, 1, 2), (2, 0, 3), (0, 0, 1)):
        def pre(c, n0=n0, n1=n1, old=old): c.arr('x', k, n0 + n1, ro=True); c.cint('n0', n0); c.cint('n1', n1); c.arr('y', k, n0 + n1 + 1); c.arr('ny', 'i64', 3, out=True); c.arr('res', 'i64', 3, out=True); c.cint('old', old)
        def post(c, n0=n0, n1=n1): c.eq("parts", c['ny'][0], 2); c.eq("length 0", c['ny'][1], n0); c.eq("length 1", c['ny'][2], n1); same(c, n0 + n1); sizes(c, 24 + (n0 + n1) * SZ[T])
        KP(f"pack vectors of {n0} and {n1} {T} over {old}", f"v_pack_vv_{T}", pre, post, PK)
for T in SZ: num(T)
for n in (0, 1, 5, 15):
    def pre(c, n=n): c.arr('x', 'i8', n, ro=True); c.cint('n', n); c.arr('y', 'i8', n + 1); c.arr('ny', 'i64', 1, out=True); c.arr('res', 'i64', 3, out=True)
    def post(c, n=n): c.eq("length", c['ny'][0], n); same(c, n); sizes(c, 8 + n)
    KP(f"pack string of {n}", "v_pack_string", pre, post, PK)
for n0, n1, old in ((0, 2, 0), (3, 4, 2), (2, 0, 3)):
    def pre(c, n0=n0, n1=n1, old=old): c.arr('x', 'i8', n0 + n1, ro=True); c.cint('n0', n0); c.cint('n1', n1); c.arr('y', 'i8', n0 + n1 + 1); c.arr('ny', 'i64', 3, out=True); c.arr('res', 'i64', 3, out=True); c.cint('old', old)
    def post(c, n0=n0, n1=n1): c.eq("parts", c['ny'][0], 2); c.eq("length 0", c['ny'][1], n0); c.eq("length 1", c['ny'][2], n1); same(c, n0 + n1); sizes(c, 24 + n0 + n1)
    KP(f"pack strings of {n0} and {n1} over {old}", "v_pack_strings", pre, post, PK)
for old in (0, 2):
    def pre(c, old=old): c.arr('ny', 'i64', 1, out=True); c.arr('res', 'i64', 3, out=True); c.cint('old', old)
    def post(c): c.eq("no strings", c['ny'][0], 0); sizes(c, 8)
    KP(f"pack no strings over {old}", "v_pack_nostrings", pre, post, PK)
for n, m in ((0, 0), (2, 3), (3, 0)):
    def pre(c, n=n, m=m): c.arr('i', 'i32', 1); c.arr('d', 'f64', 1); c.arr('v', 'i32', n); c.cint('n', n); c.arr('w', 'f64', m); c.cint('m', m); c.arr('res', 'i64', 3, out=True)
    def post(c, n=n, m=m):
        c.eq("size", c['res'][0], 4 + 8 + 8 + 4 * n + 8 + 8 * m); c.eq("length of v", c['res'][1], n); c.eq("length of w", c['res'][2], m)
        c.eq("i", c['i'][0], c['i'].old[0]); c.eq("d", c['d'][0], c['d'].old[0])
        for k in range(n): c.eq(f"v[{k}]", c['v'][k], c['v'].old[k])
        for k in range(m): c.eq(f"w[{k}]", c['w'][k], c['w'].old[k])
    KP(f"Packer with vectors of {n} and {m}", "v_packer", pre, post, ["espreso::Packer"])
for T in ('int', 'double'):
    for n, th, al, rs in ((0, 1, 0, 0), (3, 1, 0, 0), (5, 2, 0, 0), (4, 3, 64, 0), (4, 3, 64, 16), (4, 3, 64, 32), (4, 3, 64, 48), (3, 2, 32, 16), (3, 2, 32, 0)):
        def pre(c, n=n, th=th, al=al, k=KD[T]):
            c.arr('x', k, n, ro=True); c.cint('n', n); c.arr('y', k, n + 2); c.arr('ny', 'i64', 1, out=True); c.arr('dist', 'i64', th + 2, out=True); c.arr('res', 'i64', 3, out=True); c.cint('threads', th); c.cint('align', al)
        def post(c, n=n, th=th, s=SZ[T]):
            c.eq("length", c['ny'][0], n); same(c, n); sizes(c, 16 + 8 * (th + 1) + n * s)
            c.eq("parts", c['dist'][0], th + 1); c.eq("first part", c['dist'][1], 0); c.eq("end of the last part", c['dist'][th + 1], n)
        KP(f"pack tarray of {n} {T} on {th} threads alignment {al}{f' block at {rs} mod 64' if al else ''}", f"v_pack_tarray_{T}", pre, post, ["espreso::tarray::pack", "espreso::tarray::unpack"], opts=dict(residue=rs))
