"""Dense and sparse matrix operations: every entry of the result is the named function of the inputs, everything else stays."""
from dsl import Contract
CONTRACTS = []
H = "dnops.cpp"
BIG = 1 << 20
def MP(*a):
    import z3
    return z3.MultiPattern(*a)
def K(name, fn, pre, post, T=(), under=(), ret=None, opts=None, **kw):
    o = dict(noerror=True, cost=3, nombqi=True); o.update(opts or {})
    CONTRACTS.append(Contract(name, H, fn, pre, post, mode='smt', ret=ret, templates=T, under=["espreso::math::operations::" + u for u in under], opts=o, **kw))
def L(c, name, e):
    if c.symbolic: c.args.append(c._lin(e)); c.v[name] = e
    else: c.cint(name, e)
small = lambda lo, hi: (lambda rng, cc: rng.randint(lo, hi))
def dims(c, square=False):
    c.v['r'] = c.int('r', 1, BIG, w=64, arg=False, gen=small(1, 6))
    c.v['c'] = c['r'] if square else c.int('c', 1, BIG, w=64, arg=False, gen=small(1, 6))
def ldim(c, name, sec):
    c.stride(name, 1, BIG, arg=False) if c.symbolic else c.int(name, 1, BIG, w=64, arg=False, gen=lambda rng, cc: sec + rng.randint(0, 3))
    c.require(c[name] >= sec)
def dense(c, name, ld, pri, ro=False):
    """pri lines of ld values"""
    c.arr(name, 'f64', c.mul(pri, ld), ro=ro)
def seg(u, o):
    """stored part of line q: [start, end)"""
    ms = (u, o) in (('U', 'R'), ('L', 'C')); me = (u, o) in (('L', 'R'), ('U', 'C'))
    return (lambda c, q, sec: q if ms else 0), (lambda c, q, sec: q + 1 if me else sec)
class Lines:
    """target x of pri lines with stride ld; value(c, q, j) is the required new value of entry j of line q, inside [start, end)"""
    def __init__(s, x, ld, pri, sec, value, start=lambda c, q, n: 0, end=lambda c, q, n: n): s.x, s.ld, s.pri, s.sec, s.value, s.start, s.end = x, ld, pri, sec, value, start, end
    def line(s, c, q, lo, hi):
        x = c[s.x]; b = c.mul(q, s.ld)
        return c.forall(b + lo, b + hi, lambda p: x[p] == s.value(c, q, p - b), pat=lambda p: x[p])
    def done(s, c, i):
        x = c[s.x]; n = c[s.sec]; f = lambda q: c.mul(q, s.ld)
        return c.forall2(0, i, lambda q: f(q) + s.start(c, q, n), lambda q: f(q) + s.end(c, q, n), lambda q, p: x[p] == s.value(c, q, p - f(q)), pat=lambda q, p: MP(f(q), x[p]))
    def rest(s, c, i, j):
        """outside of what has been written when line i is written up to entry j"""
        x = c[s.x]; n = c[s.sec]; f = lambda q: c.mul(q, s.ld)
        def touched(q, p): return c.And(p - f(q) >= s.start(c, q, n), p - f(q) < s.end(c, q, n), c.Or(q < i, c.And(q == i, p - f(q) < j)))
        return c.forall2(0, c[s.pri], lambda q: f(q), lambda q: f(q) + c[s.ld], lambda q, p: c.Or(touched(q, p), x[p] == x.old[p]), pat=lambda q, p: MP(f(q), x[p]))
    def templates(s):
        st = lambda c, i: s.start(c, i, c[s.sec]); en = lambda c, i: s.end(c, i, c[s.sec])
        fl = lambda c, i: c.mul(i, s.ld)
        ln = lambda c, i, j: c.And(s.done(c, i), s.line(c, i, st(c, i), j))
        return [("done", "n", lambda c, i: s.done(c, i)), ("rest0", "n", lambda c, i: s.rest(c, i, 0)),
                ("inp", "np", lambda c, i, p: c.And(p >= fl(c, i) + st(c, i), p <= fl(c, i) + en(c, i))), ("inn", "nn", lambda c, i, j: c.And(j >= st(c, i), j <= en(c, i))),
                ("line", "nn", ln), ("lines", "nn", lambda c, i, j: ln(c, i, st(c, i) + j)),
                ("rest", "nn", lambda c, i, j: s.rest(c, i, j)), ("rests", "nn", lambda c, i, j: s.rest(c, i, j + st(c, i))),
                ("linep", "np", lambda c, i, p: ln(c, i, p - fl(c, i))), ("restp", "np", lambda c, i, p: s.rest(c, i, p - fl(c, i)))]
    def post(s, c):
        if c.symbolic:
            c.ensure("every stored entry has its value", s.done(c, c[s.pri])); c.ensure("everything else is unchanged", s.rest(c, c[s.pri], 0)); return
        x = c[s.x]; ld = c[s.ld]; n = c[s.sec]
        for q in range(c[s.pri]):
            for j in range(ld):
                p = q * ld + j
                c.eq(f"line {q} entry {j}", x[p], s.value(c, q, j) if s.start(c, q, n) <= j < s.end(c, q, n) else x.old[p])
PS = {'R': ('r', 'c'), 'C': ('c', 'r')}
for o in "RC":
    pri, sec = PS[o]
    for u in "FUL":
        st, en = seg(u, o)
        def pre(c, o=o, u=u, pri=pri, sec=sec):
            dims(c, u != 'F'); ldim(c, 'ld', c[sec]); dense(c, 'm', 'ld', c[pri]); L(c, 'r_', c['r']); L(c, 'c_', c['c']); L(c, 'ld_', c['ld']); c.cint('o', ord(o)); c.cint('u', ord(u)); c.real('v')
        t = Lines('m', 'ld', pri, sec, lambda c, q, j: c['v'], st, en)
        K(f"fill order {o} part {u}", "v_fill", pre, t.post, t.templates(), ["fill_dnx<double>"])
        def pre(c, o=o, u=u, pri=pri, sec=sec):
            dims(c, u != 'F'); ldim(c, 'lds', c[sec]); ldim(c, 'ldd', c[sec]); dense(c, 's', 'lds', c[pri], True); dense(c, 'd', 'ldd', c[pri])
            for k in ('r', 'c', 'lds', 'ldd'): L(c, k + '_', c[k])
            c.cint('o', ord(o)); c.cint('us', ord(u)); c.cint('ud', ord('_' if u == 'F' else u))
        t = Lines('d', 'ldd', pri, sec, lambda c, q, j: c['s'][c.mul(q, 'lds') + j], st, en)
        K(f"copy order {o} part {u}", "v_copy", pre, t.post, t.templates(), ["copy_dnx<double>"])
def args(c, *names):
    for k in names: L(c, k + '_', c[k])
# ---- linear combinations X = alpha A + beta B
for o in "RC":
    pri, sec = PS[o]
    for u in "FUL":
        st, en = seg(u, o)
        for alias in ("", "A", "B"):
            if alias and u != 'F': continue
            def pre(c, o=o, u=u, pri=pri, sec=sec, alias=alias):
                dims(c, u != 'F')
                for k in ('ldx', 'lda', 'ldb'):
                    if alias and k == 'ld' + alias.lower(): c.v[k] = c['ldx']; continue
                    ldim(c, k, c[sec])
                dense(c, 'x', 'ldx', c[pri])
                for n in 'ab':
                    if alias == n.upper():
                        c.v[n] = c['x']
                        if c.symbolic: c.args.append(c.addr('x'))
                        else: c.args.append(c['x']); c.argt.append(c.argt[0])
                    else: dense(c, n, 'ld' + n, c[pri], True)
                args(c, 'r', 'c', 'ldx', 'lda', 'ldb'); c.cint('o', ord(o)); c.cint('u', ord(u))
                g = lambda rng, cc: rng.choice([0.0, 1.0, rng.uniform(-2, 2)])
                c.real('al', gen=g); c.real('be', gen=g)
            def val(c, q, j, alias=alias):
                A = (c['x'].old if alias == 'A' else c['a'])[c.mul(q, 'ldx' if alias == 'A' else 'lda') + j]
                B = (c['x'].old if alias == 'B' else c['b'])[c.mul(q, 'ldx' if alias == 'B' else 'ldb') + j]
                return c['al'] * A + c['be'] * B
            t = Lines('x', 'ldx', pri, sec, val, st, en)
            K(f"lincomb order {o} part {u}" + (f" in place of {alias}" if alias else ""), "v_lin", pre, t.post, t.templates(), ["lincomb_matrix_dnx<double>"])
# ---- permutations, submatrices, supermatrices
def imap(c, name, n, hi, on, inj=False):
    """index map of n entries into [0, hi)"""
    if not on:
        if c.symbolic:
            import symex; c.args.append(symex.Ptr(0, 0))
        else: c.cint(name, 0)
        return
    def gen(rng, m, cc):
        h = hi
        return rng.sample(range(h), m) if inj and m <= h else [rng.randrange(h) for _ in range(m)]
    a = c.arr(name, 'i32', n, ro=True, gen=gen)
    c.require(c.forall(0, n, lambda k: c.And(a[k] >= 0, a[k] < hi), pat=lambda k: a[k]))
    if inj:
        if c.symbolic: c.require(c.forall2(0, n, lambda k: 0, lambda k: n, lambda k, l: c.implies(k != l, a[k] != a[l]), pat=lambda k, l: MP(a[k], a[l])))
        else: c.require(len(set(a.old)) == len(a.old))
for o in "RC":
    pri, sec = PS[o]
    for mr in (0, 1):
        for mc in (0, 1):
            mp, ms = (mr, mc) if o == 'R' else (mc, mr)
            np_, ns_ = ('pr', 'pc') if o == 'R' else ('pc', 'pr')
            def pre(c, o=o, mr=mr, mc=mc, pri=pri, sec=sec):
                dims(c); ldim(c, 'lds', c[sec]); ldim(c, 'ldd', c[sec]); dense(c, 's', 'lds', c[pri], True); dense(c, 'd', 'ldd', c[pri]); args(c, 'r', 'c', 'lds', 'ldd'); c.cint('o', ord(o))
                imap(c, 'pr', c['r'], c['r'], mr); imap(c, 'pc', c['c'], c['c'], mc); c.cint('inpl', 0)
            t = Lines('d', 'ldd', pri, sec, lambda c, q, j, mp=mp, ms=ms, np_=np_, ns_=ns_: c['s'][c.mul(c[np_][q] if mp else q, 'lds') + (c[ns_][j] if ms else j)])
            K(f"permute order {o} rows {mr} cols {mc}", "v_perm", pre, t.post, t.templates(), ["permute_dnx_dnx<double,int>"])
            def pre(c, o=o, mr=mr, mc=mc, pri=pri, sec=sec):
                dims(c)
                for k, m in (('r', mr), ('c', mc)): c.v[k + 's'] = c.int(k + 's', 1, BIG, w=64, arg=False, gen=small(1, 6)) if m else c[k]
                ldim(c, 'lds', c[sec + 's']); ldim(c, 'ldd', c[sec]); dense(c, 's', 'lds', c[pri + 's'], True); dense(c, 'd', 'ldd', c[pri]); args(c, 'rs', 'cs', 'r', 'c', 'lds', 'ldd'); c.cint('o', ord(o))
                imap(c, 'pr', c['r'], c['rs'], mr); imap(c, 'pc', c['c'], c['cs'], mc)
            K(f"submatrix order {o} rows {mr} cols {mc}", "v_sub", pre, t.post, t.templates(), ["submatrix_dnx_dnx_noncontig<double,int>"])
# ---- scattering operations: state of the whole target as a function of what has been processed
class Scatter:
    """value(c, Q, j): final value of entry j of target line Q; base(c, Q, j): before it is reached; when(c, Q, j, *slots): reached already"""
    def __init__(s, x, ld, pri, sec, value, base, when): s.x, s.ld, s.pri, s.sec, s.value, s.base, s.when = x, ld, pri, sec, value, base, when
    def state(s, c, when):
        x = c[s.x]; f = lambda q: c.mul(q, s.ld); n = c[s.sec]
        def val(q, p):
            j = p - f(q)
            return x[p] == c.ite(j < n, c.ite(when(q, j), s.value(c, q, j), s.base(c, q, j)), x.old[p])
        return c.forall2(0, c[s.pri], lambda q: f(q), lambda q: f(q) + c[s.ld], val, pat=lambda q, p: MP(f(q), x[p]))
    def post(s, c):
        if c.symbolic:
            c.ensure("every entry has its value, the padding is unchanged", s.state(c, lambda q, j: s.when(c, q, j, None))); return
        x = c[s.x]; ld = c[s.ld]; n = c[s.sec]
        for q in range(c[s.pri]):
            for j in range(ld):
                p = q * ld + j
                c.eq(f"line {q} entry {j}", x[p], (s.value(c, q, j) if s.when(c, q, j, None) else s.base(c, q, j)) if j < n else x.old[p])
def inverse(c, name, a, n, on):
    """ghost inverse of the injective map a; identity when there is no map"""
    def conc(cc, R):
        if not on: return R
        return list(cc[a].old).index(R) if R in list(cc[a].old) else -1
    g = c.ghost(name, 1, concrete=conc)
    if not c.symbolic: return
    if not on:
        import z3
        k = z3.Int("k_" + name); c.axiom(z3.ForAll([k], g(k) == k, patterns=[g(k)])); return
    m = c[a]
    c.require(c.forall(0, n, lambda k: g(m[k]) == k, pat=lambda k: m[k]))
    import z3
    R = z3.Int("R_" + name)
    c.require(z3.ForAll([R], z3.Or(g(R) == -1, z3.And(g(R) >= 0, g(R) < n, m[g(R)] == R)), patterns=[g(R)]))
for o in "RC":
    pri, sec = PS[o]
    for mode in (0, 1):
        for mr in (0, 1):
            for mc in (0, 1):
                mp, ms = (mr, mc) if o == 'R' else (mc, mr)
                np_, ns_ = ('pr', 'pc') if o == 'R' else ('pc', 'pr')
                def pre(c, o=o, mr=mr, mc=mc, pri=pri, sec=sec, mode=mode, mp=mp, ms=ms, np_=np_, ns_=ns_):
                    dims(c)
                    for k, m in (('r', mr), ('c', mc)): c.v[k + 'd'] = c.int(k + 'd', 1, BIG, w=64, arg=False, gen=lambda rng, cc, k=k: cc[k] + rng.randint(0, 3)) if m else c[k]
                    ldim(c, 'lds', c[sec]); ldim(c, 'ldd', c[sec + 'd']); dense(c, 's', 'lds', c[pri], True); dense(c, 'd', 'ldd', c[pri + 'd']); args(c, 'rd', 'cd', 'r', 'c', 'lds', 'ldd'); c.cint('o', ord(o))
                    imap(c, 'pr', c['r'], c['rd'], mr, True); imap(c, 'pc', c['c'], c['cd'], mc, True); c.cint('mode', mode)
                    inverse(c, 'ip', np_, c[pri], mp); inverse(c, 'is', ns_, c[sec], ms)
                def val(c, Q, j, mode=mode):
                    v = c['s'][c.mul(c['ip'](Q), 'lds') + c['is'](j)]
                    return c['d'].old[c.mul(Q, 'ldd') + j] + v if mode else v
                t = Scatter('d', 'ldd', pri + 'd', sec + 'd', val, lambda c, Q, j: c['d'].old[c.mul(Q, 'ldd') + j], lambda c, Q, j, _, pri=pri, sec=sec: c.And(c['ip'](Q) >= 0, c['is'](j) >= 0, c['ip'](Q) < c[pri], c['is'](j) < c[sec]))
                def T1(c, i, t=t): return t.state(c, lambda Q, j: c.And(t.when(c, Q, j, None), c['ip'](Q) < i))
                def T2(c, i, k, t=t): return t.state(c, lambda Q, j: c.And(t.when(c, Q, j, None), c.Or(c['ip'](Q) < i, c.And(c['ip'](Q) == i, c['is'](j) < k))))
                K(f"supermatrix {'add' if mode else 'assign'} order {o} rows {mr} cols {mc}", "v_sup", pre, t.post, [("st1", "n", T1), ("st2", "nn", T2)], ["supermatrix_dnx_dnx_noncontig<double,int>"])
# ---- compressed matrices: ghost position at(line, index) of an entry, -1 if not stored
def csx(c, names, P, Sx, order=None, part=None, sort=False):
    """compressed lines: ptrs, idxs, vals, nnz; indices of a line distinct (and ascending)"""
    pn, xn, vn, zn = names; npri, nsec = c[P], c[Sx]
    if c.symbolic: nnz = c.int(zn, 0, BIG, w=64, arg=False)
    else:
        if pn in c.preset: rows = None
        else:
            rows = []
            for q in range(npri):
                cols = [j for j in range(nsec) if part is None or part(q, j)]
                rows.append(sorted(c.rng.sample(cols, c.rng.randint(0, len(cols)))))
        nnz = c.preset[pn][-1] if rows is None else sum(map(len, rows))
        c.v[zn] = nnz; c.inputs[zn] = nnz
    gp = None if c.symbolic or rows is None else (lambda rng, n, cc: [sum(map(len, rows[:q])) for q in range(n)])
    gx = None if c.symbolic or rows is None else (lambda rng, n, cc: [j for r in rows for j in r])
    ptr = c.arr(pn, 'i32', npri + 1, ro=True, gen=gp); idx = c.arr(xn, 'i32', nnz, ro=True, gen=gx); c.arr(vn, 'f64', nnz, ro=True); L(c, zn + '_', nnz)
    c.require(c.And(ptr[0] == 0, ptr[npri] == nnz))
    def conc(cc, q, j):
        for k in range(cc[pn].old[q], cc[pn].old[q + 1]):
            if cc[xn].old[k] == j: return k
        return -1
    at = c.ghost('at', 2, concrete=conc)
    if not c.symbolic:
        c.require(all(ptr.old[q] <= ptr.old[q + 1] for q in range(npri)))
        c.require(all(0 <= idx.old[k] < nsec and (k == ptr.old[q] or idx.old[k - 1] < idx.old[k]) and (part is None or part(q, idx.old[k])) for q in range(npri) for k in range(ptr.old[q], ptr.old[q + 1])))
        return
    import z3
    c.require(c.forall2(0, npri + 1, lambda i: 0, lambda i: npri + 1, lambda i, j: c.implies(i <= j, ptr[i] <= ptr[j]), pat=lambda i, j: MP(ptr[i], ptr[j])))
    c.require(c.forall(0, npri + 1, lambda i: c.And(ptr[i] >= 0, ptr[i] <= nnz), pat=lambda i: ptr[i]))
    c.require(c.forall(0, nnz, lambda k: c.And(idx[k] >= 0, idx[k] < nsec), pat=lambda k: idx[k]))
    # q+1 is a term of its own wherever q's line is looked at
    c.require(c.forall2(0, npri, lambda q: ptr[q], lambda q: ptr[q + 1], lambda q, k: c.And(at(q, idx[k]) == k, *([part(q, idx[k])] if part else [])), pat=lambda q, k: MP(ptr[q], idx[k])))
    if sort:
        q, k, l = z3.Ints('q_so k_so l_so')
        c.require(z3.ForAll([q, k, l], z3.Implies(z3.And(q >= 0, q < npri, k >= ptr[q], k < l, l < ptr[q + 1]), idx[k] < idx[l]), patterns=[MP(ptr[q], idx[k], idx[l])]))
    q, j = z3.Ints("q_at j_at")
    c.require(z3.ForAll([q, j], z3.Implies(z3.And(q >= 0, q < npri), z3.Or(at(q, j) == -1, z3.And(at(q, j) >= ptr[q], at(q, j) < ptr[q + 1], idx[at(q, j)] == j))), patterns=[at(q, j)]))
for os_ in "RC":
    for od in "RC":
        for u in "FUL":
            P, Sx = PS[os_]; pri, sec = PS[od]
            st, en = seg(u, od)
            def part(q, j, u=u, os_=os_):
                r, k = (q, j) if os_ == 'R' else (j, q)
                return r <= k if u == 'U' else r >= k
            def pre(c, os_=os_, od=od, u=u, P=P, Sx=Sx, pri=pri, sec=sec, part=part):
                dims(c, u != 'F'); csx(c, ('p', 'x', 'v', 'nnz'), P, Sx, part=part if u != 'F' else None)
                ldim(c, 'ldd', c[sec]); dense(c, 'd', 'ldd', c[pri]); args(c, 'r', 'c', 'ldd'); c.cint('os', ord(os_)); c.cint('od', ord(od)); c.cint('u', ord(u))
            A = lambda c, Q, j, os_=os_, od=od: c['at'](Q, j) if os_ == od else c['at'](j, Q)
            def base(c, Q, j, st=st, en=en, sec=sec): return c.ite(c.And(j >= st(c, Q, c[sec]), j < en(c, Q, c[sec])), 0.0 if not c.symbolic else 0, c['d'].old[c.mul(Q, 'ldd') + j])
            t = Scatter('d', 'ldd', pri, sec, lambda c, Q, j, A=A: c['v'][A(c, Q, j)], base, lambda c, Q, j, _, A=A: A(c, Q, j) >= 0)
            z = Lines('d', 'ldd', pri, sec, lambda c, Q, j: 0, st, en)
            def T1(c, i, t=t, A=A): return t.state(c, lambda Q, j: c.And(A(c, Q, j) >= 0, A(c, Q, j) < c['p'][i]))
            def T2(c, k, t=t, A=A): return t.state(c, lambda Q, j: c.And(A(c, Q, j) >= 0, A(c, Q, j) < k))
            K(f"sparse {os_} to dense {od} part {u}", "v_c2d", pre, t.post, [("rng", "nn", lambda c, i, k, P=P: c.And(k >= c["p"][i], k <= c["p"][i + 1], i >= 0, i < c[P])), ("st1", "n", T1), ("st2", "n", T2)] + z.templates(), ["convert_csx_dny<double,int>"])
# ---- vector combination
def pre(c):
    c.int('n', 0, BIG, w=64, arg=False); c.arr('x', 'f64', c['n']); c.arr('a', 'f64', c['n'], ro=True); c.arr('b', 'f64', c['n'], ro=True); args(c, 'n')
    g = lambda rng, cc: rng.choice([0.0, 1.0, rng.uniform(-2, 2)])
    c.real('al', gen=g); c.real('be', gen=g)
def upto(c, i): return c.forall(0, i, lambda p: c['x'][p] == c['al'] * c['a'][p] + c['be'] * c['b'][p], pat=lambda p: c['x'][p])
def post(c):
    if c.symbolic: c.ensure("every entry is the combination", upto(c, c['n'])); return
    for p in range(c['n']): c.eq(f"x[{p}]", c['x'][p], c['al'] * c['a'][p] + c['be'] * c['b'][p])
K("lincomb of vectors", "v_linv", pre, post, [("upto", "i", upto)], ["lincomb_vector<double>"])
# ---- window of a sparse matrix into a dense one
rngT = lambda P: ("rng", "nn", lambda c, i, k: c.And(k >= c["p"][i], k <= c["p"][i + 1], i >= 0, i < c[P]))
for os_ in "RC":
    for od in "RC":
        P, Sx = ('rs', 'cs') if os_ == 'R' else ('cs', 'rs'); pri, sec = PS[od]
        p0, s0, s1 = ('r0', 'c0', 'c1') if os_ == 'R' else ('c0', 'r0', 'r1')
        def pre(c, os_=os_, od=od, P=P, Sx=Sx, pri=pri, sec=sec, p0=p0, s0=s0):
            for k in ('rs', 'cs'): c.v[k] = c.int(k, 1, BIG, w=64, arg=False, gen=small(1, 6))
            for k, n in (('r', 'rs'), ('c', 'cs')):
                c.int(k + '0', 0, BIG, w=64, arg=False, gen=lambda rng, cc, n=n: rng.randint(0, cc[n])); c.int(k + '1', 0, BIG, w=64, arg=False, gen=lambda rng, cc, n=n, k=k: rng.randint(cc[k + '0'], cc[n]))
                c.require(c.And(c[k + '0'] <= c[k + '1'], c[k + '1'] <= c[n])); c.v[k] = c[k + '1'] - c[k + '0']
            csx(c, ('p', 'x', 'v', 'nnz'), P, Sx, sort=True); args(c, 'rs', 'cs')
            ldim(c, 'ldd', c[sec]); dense(c, 'd', 'ldd', c[pri]); args(c, 'r0', 'r1', 'c0', 'c1', 'ldd'); c.cint('os', ord(os_)); c.cint('od', ord(od))
            if c.symbolic:      # (x - o) ld = x ld - o ld
                o = c[p0] if os_ == od else c[s0]
                if os_ == od: c.require(c.forall(0, c[P] + 1, lambda q: c.mul(q - o, 'ldd') == c.mul(q, 'ldd') - c.mul(o, 'ldd'), pat=lambda q: c['p'][q]))
                else: c.require(c.forall(0, c['nnz'], lambda k: c.mul(c['x'][k] - o, 'ldd') == c.mul(c['x'][k], 'ldd') - c.mul(o, 'ldd'), pat=lambda k: c['x'][k]))
        A = lambda c, Q, j, os_=os_, od=od, p0=p0, s0=s0: c['at'](Q + c[p0], j + c[s0]) if os_ == od else c['at'](j + c[p0], Q + c[s0])
        t = Scatter('d', 'ldd', pri, sec, lambda c, Q, j, A=A: c['v'][A(c, Q, j)], lambda c, Q, j: 0, lambda c, Q, j, _, A=A: A(c, Q, j) >= 0)
        z = Lines('d', 'ldd', pri, sec, lambda c, Q, j: 0)
        def T1(c, i, t=t, A=A): return t.state(c, lambda Q, j: c.And(A(c, Q, j) >= 0, A(c, Q, j) < c['p'][i]))
        def T2(c, k, t=t, A=A): return t.state(c, lambda Q, j: c.And(A(c, Q, j) >= 0, A(c, Q, j) < k))
        def skipped(c, i, k, s0=s0): return c.forall(c['p'][i], k, lambda l: c['x'][l] < c[s0], pat=lambda l: c['x'][l])
        def below(c, i, k, s0=s0): return c.forall(k, c['p'][i + 1], lambda l: c['x'][l] >= c[s0], pat=lambda l: c['x'][l])
        K(f"window of sparse {os_} in dense {od}", "v_subc", pre, t.post, [rngT(P), ("st1", "n", T1), ("st2", "n", T2), ("skip", "nn", skipped), ("below", "nn", below)] + z.templates(), ["submatrix_csx_dny<double,int>"])
# ---- X = alpha A + beta B, B sparse
for ox in "RC":
    for ob in "RC":
        P, Sx = PS[ob]; pri, sec = PS[ox]
        for alias in (0, 1):
            def pre(c, ox=ox, ob=ob, P=P, Sx=Sx, pri=pri, sec=sec, alias=alias):
                dims(c); ldim(c, 'ldx', c[sec])
                if alias: c.v['lda'] = c['ldx']
                else: ldim(c, 'lda', c[sec])
                dense(c, 'd', 'ldx', c[pri])
                if alias:
                    c.v['a'] = c['d']
                    if c.symbolic: c.args.append(c.addr('d'))
                    else: c.args.append(c['d']); c.argt.append(c.argt[0])
                else: dense(c, 'a', 'lda', c[pri], True)
                args(c, 'r', 'c', 'ldx', 'lda'); csx(c, ('p', 'x', 'v', 'nnz'), P, Sx); c.cint('ox', ord(ox)); c.cint('ob', ord(ob))
                g = lambda rng, cc: rng.choice([0.0, 1.0, rng.uniform(-2, 2)])
                c.real('al', gen=g); c.real('be', gen=g)
            A = lambda c, Q, j, ox=ox, ob=ob: c['at'](Q, j) if ox == ob else c['at'](j, Q)
            base = lambda c, Q, j, alias=alias: c['al'] * (c['d'].old if alias else c['a'])[c.mul(Q, 'lda' if not alias else 'ldx') + j]
            t = Scatter('d', 'ldx', pri, sec, lambda c, Q, j, A=A, base=base: base(c, Q, j) + c['be'] * c['v'][A(c, Q, j)], base, lambda c, Q, j, _, A=A: A(c, Q, j) >= 0)
            z = Lines('d', 'ldx', pri, sec, base)
            def T1(c, i, t=t, A=A): return t.state(c, lambda Q, j: c.And(A(c, Q, j) >= 0, A(c, Q, j) < c['p'][i]))
            def T2(c, k, t=t, A=A): return t.state(c, lambda Q, j: c.And(A(c, Q, j) >= 0, A(c, Q, j) < k))
            K(f"lincomb dense {ox} sparse {ob}{' in place' if alias else ''}", "v_linc", pre, t.post, [rngT(P), ("st1", "n", T1), ("st2", "n", T2)] + z.templates(), ["lincomb_dnx_csy<double,int>"])
# ---- y = alpha A x + beta y
for o in "RC":
    P, Sx = PS[o]
    def pre(c, o=o, P=P, Sx=Sx):
        dims(c); csx(c, ('p', 'i', 'v', 'nnz'), P, Sx); args(c, 'r', 'c'); c.cint('o', ord(o)); c.arr('x', 'f64', c['c'], ro=True); c.arr('y', 'f64', c['r'])
        g = lambda rng, cc: rng.choice([0.0, 1.0, rng.uniform(-2, 2)])
        c.real('al', gen=g); c.real('be', gen=g)
        if not c.symbolic: return
        import z3
        p, i, v, x = c['p'], c['i'], c['v'], c['x']; nnz = c['nnz']
        if o == 'R':
            S = c.ghost('S', 1, real=True)      # S(k): sum of v[l] x[i[l]] over l < k
            c.require(c.forall(0, nnz, lambda k: S(k + 1) == S(k) + v[k] * x[i[k]], pat=lambda k: v[k]))
        else:
            T = c.ghost('T', 2, real=True); ln = c.ghost('line', 1)     # T(q, k): sum of (alpha v[l]) x[line(l)] over l < k with i[l] = q
            c.require(c.forall2(0, c['c'], lambda q: p[q], lambda q: p[q + 1], lambda q, k: ln(k) == q, pat=lambda q, k: MP(p[q], v[k])))
            q, k = z3.Ints('q_T k_T')
            c.require(z3.ForAll([q], T(q, 0) == 0, patterns=[T(q, 0)]))
            c.require(z3.ForAll([q, k], z3.Implies(z3.And(k >= 0, k < nnz), T(q, k + 1) == T(q, k) + z3.If(i[k] == q, c['al'] * v[k] * x[ln(k)], 0)), patterns=[MP(T(q, k), v[k])]))
    def val(c, q, o=o): return c['al'] * (c['S'](c['p'][q + 1]) - c['S'](c['p'][q])) + c['be'] * c['y'].old[q]
    def st(c, f): return c.forall(0, c['r'], lambda q: c['y'][q] == f(q), pat=lambda q: c['y'][q])
    if o == 'R':
        T = [rngT(P), ("part", "nn", lambda c, i, k: True), ("acc", "nnr", lambda c, i, k, a: a == c['S'](k) - c['S'](c['p'][i])), ("rows", "n", lambda c, i: st(c, lambda q: c.ite(q < i, val(c, q), c['be'] * c['y'].old[q] if False else c['y'].old[q]))),
             ("zrows", "n", lambda c, i: c.implies(c['be'] == 0, st(c, lambda q: c.ite(q < i, val(c, q), 0)))), ("orows", "n", lambda c, i: c.implies(c['be'] != 0, st(c, lambda q: c.ite(q < i, val(c, q), c['y'].old[q])))), ("zero", "i", lambda c, i: c.forall(0, i, lambda q: c['y'][q] == 0, pat=lambda q: c['y'][q]))]
    else:
        T = [rngT(P), ("scaled", "i", lambda c, i: st(c, lambda q: c.ite(q < i, c['be'] * c['y'].old[q], c['y'].old[q]))), ("zero", "i", lambda c, i: c.forall(0, i, lambda q: c['y'][q] == 0, pat=lambda q: c['y'][q])),
             ("sum1", "n", lambda c, i: st(c, lambda q: c['y'][q] == c['be'] * c['y'].old[q] + c['T'](q, c['p'][i])) if False else c.forall(0, c['r'], lambda q: c['y'][q] == c['be'] * c['y'].old[q] + c['T'](q, c['p'][i]), pat=lambda q: c['y'][q])),
             ("sum2", "n", lambda c, k: c.forall(0, c['r'], lambda q: c['y'][q] == c['be'] * c['y'].old[q] + c['T'](q, k), pat=lambda q: c['y'][q]))]
    def post(c, o=o):
        if c.symbolic:
            c.ensure("every entry is the product", st(c, (lambda q: val(c, q)) if o == 'R' else (lambda q: c['be'] * c['y'].old[q] + c['T'](q, c['nnz'])))); return
        p, i, v, x, y = (list(c[k].old) for k in ('p', 'i', 'v', 'x', 'y'))
        for q in range(c['r']):
            s = sum(v[k] * x[i[k] if o == 'R' else l] for l in range(len(p) - 1) for k in range(p[l], p[l + 1]) if (l if o == 'R' else i[k]) == q)
            c.eq(f"y[{q}]", c['y'][q], c['al'] * s + c['be'] * y[q])
    K(f"sparse {o} times vector", "v_gemv", pre, post, T, ["gemv_csx<double,int>"])
# ---- complex and reordering operations: fixed sizes, every value
ELT = lambda o, ld, r, c: r * ld + c if o == 'R' else c * ld + r
def ZK(name, fn, pre, post, under, z=2):
    CONTRACTS.append(Contract(name, H, fn, pre, post, mode='poly', under=["espreso::math::operations::" + u for u in under], opts=dict(noerror=True, cost=1)))
def zcheck(c, r, cc, o, ld, val, z=2):
    """val(i, j) -> (re, im) of the entry, None: unchanged"""
    d = c['d']; n = len_(o, r, cc)
    seen = set()
    for i in range(r):
        for j in range(cc):
            p = ELT(o, ld, i, j); v = val(i, j); seen.add(p)
            for k in range(z): c.eq(f"entry {i},{j} {'re im'.split()[k]}", d[z * p + k], v[k] if v is not None else d.old[z * p + k])
    for p in range(n * ld):
        if p not in seen:
            for k in range(z): c.eq(f"padding {p}", d[z * p + k], d.old[z * p + k])
def len_(o, r, c): return r if o == 'R' else c
def stored(u, i, j): return u == 'F' or (i <= j if u == 'U' else i >= j)
def zat(c, nm, o, ld, i, j, cj=False, z=2, old=False):
    a = c[nm].old if old else c[nm]; p = ELT(o, ld, i, j)
    if z == 1: return (a[p],)
    return (a[2 * p], -a[2 * p + 1] if cj else a[2 * p + 1])
SEC = lambda o, r, c: c if o == 'R' else r
for o in "RC":
    for cj in (0, 1):
        for u in "FUL":
            r, cc = (3, 3) if u != 'F' else (2, 3); lds, ldd = SEC(o, r, cc) + 1, SEC(o, r, cc) + 2
            def pre(c, r=r, cc=cc, lds=lds, ldd=ldd, o=o, u=u, cj=cj):
                c.arr('s', 'f64', 2 * lds * len_(o, r, cc), ro=True); c.arr('d', 'f64', 2 * ldd * len_(o, r, cc))
                for k, v in dict(r=r, c=cc, lds=lds, ldd=ldd, o=ord(o), u=ord(u), cj=cj).items(): c.cint(k, v)
            def post(c, r=r, cc=cc, lds=lds, ldd=ldd, o=o, u=u, cj=cj): zcheck(c, r, cc, o, ldd, lambda i, j: zat(c, 's', o, lds, i, j, cj) if stored(u, i, j) else None)
            ZK(f"complex copy {o}{u} conjugate {cj}", "v_zcopy", pre, post, ["copy_dnx<complex>"])
        for r, cc in ((2, 3), (3, 2), (67, 2), (2, 67)):
            lds, ldd = SEC(o, r, cc) + 1, SEC(o, cc, r) + 2
            def pre(c, r=r, cc=cc, lds=lds, ldd=ldd, o=o, cj=cj):
                c.arr('s', 'f64', 2 * lds * len_(o, r, cc), ro=True); c.arr('d', 'f64', 2 * ldd * len_(o, cc, r))
                for k, v in dict(r=r, c=cc, lds=lds, ldd=ldd, o=ord(o), cj=cj).items(): c.cint(k, v)
            def post(c, r=r, cc=cc, lds=lds, ldd=ldd, o=o, cj=cj): zcheck(c, cc, r, o, ldd, lambda i, j: zat(c, 's', o, lds, j, i, cj))
            ZK(f"transpose {o} {r}x{cc} conjugate {cj}", "v_ztr", pre, post, ["transpose_dnx_dnx<complex>", "blas::transpose (BLAS wrapper)"])
        for r in (3, 66):
            if r == 66 and cj: continue
            def pre(c, r=r, o=o, cj=cj):
                c.arr('d', 'f64', 2 * (r + 1) * r)
                for k, v in dict(r=r, ldd=r + 1, o=ord(o), cj=cj).items(): c.cint(k, v)
            def post(c, r=r, o=o, cj=cj): zcheck(c, r, r, o, r + 1, lambda i, j: zat(c, 'd', o, r + 1, j, i, cj, old=True))
            ZK(f"transpose in place {o} {r} conjugate {cj}", "v_ztri", pre, post, ["transpose_dnx_dnx<complex>", "blas::transpose_inplace (BLAS wrapper)"])
        for u in "UL":
            def pre(c, o=o, u=u, cj=cj):
                c.arr('s', 'f64', 2 * 4 * 3, ro=True); c.arr('d', 'f64', 2 * 5 * 3)
                for k, v in dict(r=3, lds=4, ldd=5, o=ord(o), u=ord(u), cj=cj).items(): c.cint(k, v)
            def post(c, o=o, u=u, cj=cj): zcheck(c, 3, 3, o, 5, lambda i, j: zat(c, 's', o, 4, i, j) if stored(u, i, j) else zat(c, 's', o, 4, j, i, cj))
            ZK(f"complete {o}{u} conjugate {cj}", "v_zcpl", pre, post, ["complete_dnx_dnx<complex>"])
    for od in "RC":
        for r, cc in ((2, 3), (3, 2)):
            lds, ldd = SEC(o, r, cc) + 1, SEC(od, r, cc) + 2
            def pre(c, o=o, od=od, lds=lds, ldd=ldd, r=r, cc=cc):
                c.arr('s', 'f64', 2 * lds * len_(o, r, cc), ro=True); c.arr('d', 'f64', 2 * ldd * len_(od, r, cc))
                for k, v in dict(r=r, c=cc, lds=lds, ldd=ldd, os=ord(o), od=ord(od), us=ord('F'), ud=ord('F'), sy=0).items(): c.cint(k, v)
            def post(c, o=o, od=od, lds=lds, ldd=ldd, r=r, cc=cc): zcheck(c, r, cc, od, ldd, lambda i, j: zat(c, 's', o, lds, i, j))
            ZK(f"reorder {o} to {od} {r}x{cc}", "v_zcvt", pre, post, ["convert_dnx<complex>", "convert_dnx_dny<complex>"])
        for sy in (1, 2):
            for us in "FUL":
                for ud in "FUL":
                    def pre(c, o=o, od=od, us=us, ud=ud, sy=sy):
                        c.arr('s', 'f64', 2 * 4 * 3, ro=True); c.arr('d', 'f64', 2 * 5 * 3)
                        for k, v in dict(r=3, c=3, lds=4, ldd=5, os=ord(o), od=ord(od), us=ord(us), ud=ord(ud), sy=sy).items(): c.cint(k, v)
                    def post(c, o=o, od=od, us=us, ud=ud, sy=sy):
                        h = sy == 2
                        def val(i, j):
                            """the entry of the represented matrix: stored, or mirrored from the stored triangle"""
                            if i == j and h: return (zat(c, 's', o, 4, i, j)[0], 0)
                            if stored('U' if us == 'F' else us, i, j): return zat(c, 's', o, 4, i, j)
                            return zat(c, 's', o, 4, j, i, h)
                        for i in range(3):
                            for j in range(3):
                                p = ELT(od, 5, i, j)
                                for k in (0, 1):
                                    if not stored(ud, i, j): c.eq(f"entry {i},{j} outside the triangle", c['d'][2 * p + k], c['d'].old[2 * p + k]); continue
                                    c.eq(f"entry {i},{j} {k}", c['d'][2 * p + k], val(i, j)[k])
                        for q in range(3):
                            for j in range(3, 5):
                                for k in (0, 1): c.eq(f"padding {q},{j}", c['d'][2 * (q * 5 + j) + k], c['d'].old[2 * (q * 5 + j) + k])
                    ZK(f"convert {'hermitian' if sy == 2 else 'symmetric'} {o}{us} to {od}{ud}", "v_zcvt", pre, post, ["convert_dnx<complex>"])
