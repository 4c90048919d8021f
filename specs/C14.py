"""FETI: gluing of subdomains, application of the constraint matrix, Dirichlet constraints, kernels and regularization."""
import random
from dsl import Contract
CONTRACTS = []
H = "feti.cpp"
BIG = 1 << 24
def MP(*a):
    import z3
    return z3.MultiPattern(*a)
def L(c, name, e):
    if c.symbolic: c.args.append(c._lin(e)); c.v[name] = e
    else: c.cint(name, e)
def split(rng, n, nnz):
    return [0] + sorted(rng.randint(0, nnz) for _ in range(n - 1)) + [nnz] if n else [0]
def gluing(c, K, ncols, nl, arg=True):
    """the constraint matrix of a domain: nrows lines, columns < ncols, line r is multiplier d2c[r] < nl"""
    n = c.int(f'nrows{K}', 0, BIG, arg=False); nnz = c.int(f'nnz{K}', 0, BIG, arg=False, gen=lambda rng, cc: 0 if not n or not cc[ncols] else rng.randint(0, 12))
    if not c.symbolic and n and not c[nl]: from dsl import Reject; raise Reject()
    rows = c.arr(f'rows{K}', 'i32', n + 1, ro=True, gen=lambda rng, k, cc: split(rng, n, nnz)); cols = c.arr(f'cols{K}', 'i32', nnz, ro=True, gen=lambda rng, k, cc: [rng.randint(0, c[ncols] - 1) for _ in range(k)]); vals = c.arr(f'vals{K}', 'f64', nnz, ro=True)
    L(c, f'nr{K}', n); d2c = c.arr(f'd2c{K}', 'i32', n, ro=True, gen=lambda rng, k, cc: [rng.randint(0, c[nl] - 1) for _ in range(k)])
    if not c.symbolic: return
    import z3
    q, t = z3.Ints('q_b t_b')
    c.require(c.And(rows[0] == 0, rows[n] == nnz))
    c.require(z3.ForAll([q, t], z3.Implies(z3.And(q >= 0, q <= t, t <= n), z3.And(rows[q] <= rows[t], rows[q] >= 0, rows[t] <= nnz)), patterns=[MP(rows[q], rows[t])]))
    c.require(c.forall(0, nnz, lambda k: c.And(cols[k] >= 0, cols[k] < c[ncols]), pat=lambda k: cols[k])); c.require(c.forall(0, n, lambda r: c.And(d2c[r] >= 0, d2c[r] < c[nl]), pat=lambda r: d2c[r]))
def partial(c, name, K, place, term):
    """name(j, k): sum of term(r, l) over the entries l < k with place(r, l) == j (l in line r)"""
    import z3
    S = c.ghost(name, 2, real=True); j, r, k = z3.Ints('j_s r_s k_s'); rows, n = c[f'rows{K}'], c[f'nrows{K}']
    c.require(z3.ForAll([j], S(j, 0) == 0, patterns=[S(j, 0)]))
    c.require(z3.ForAll([j, r, k], z3.Implies(z3.And(r >= 0, r < n, k >= rows[r], k < rows[r + 1]), S(j, k + 1) == S(j, k) + z3.If(place(r, k) == j, term(r, k), z3.RealVal(0))), patterns=[MP(S(j, k), rows[r], c[f'cols{K}'][k])]))
    return S
def tmpl(n, K, base=None):
    """out[j] is base(j) + the partial sums of domain K"""
    b = base or (lambda c, j: 0); nm = f'S{K}'; out = lambda c: c['out']
    rng = lambda c, a, k: c.And(k >= c[f'rows{K}'][a], k <= c[f'rows{K}'][a + 1], a >= 0, a < c[f'nrows{K}'])
    al = lambda c, k: c.forall(0, c[n], lambda j: out(c)[j] == b(c, j) + c[nm](j, k), pat=lambda j: out(c)[j])
    return [(f"zero", "i", lambda c, a: c.forall(0, a, lambda j: out(c)[j] == 0, pat=lambda j: out(c)[j])), (f"rng{K}", "ii", rng), (f"lines{K}", "i", lambda c, a: al(c, c[f'rows{K}'][a])), (f"entries{K}", "i", al)]
A = "espreso::"
U = dict(under=None)
def pre(c):
    nin = c.int('nin', 0, BIG, arg=False); nout = c.int('nout', 0, BIG, arg=False)
    gluing(c, 1, 'nout', 'nin'); c.arr('in', 'f64', nin, ro=True); L(c, 'nin_', nin); c.arr('out', 'f64', nout); L(c, 'nout_', nout); c.real('a')
    if c.symbolic: partial(c, 'S1', 1, lambda r, k: c['cols1'][k], lambda r, k: c['a'] * c['vals1'][k] * c['in'][c['d2c1'][r]])
def post(c):
    if c.symbolic: return c.ensure("every entry is the sum of its multipliers", c.forall(0, c['nout'], lambda j: c['out'][j] == c['S1'](j, c['nnz1']), pat=lambda j: c['out'][j]))
    w = [0.] * c['nout']
    for r in range(c['nrows1']):
        for k in range(c['rows1'].old[r], c['rows1'].old[r + 1]): w[c['cols1'].old[k]] += c['a'] * c['vals1'].old[k] * c['in'].old[c['d2c1'].old[r]]
    for j, x in enumerate(w): c.eq(f"out[{j}]", c['out'][j], x)
O = dict(noerror=True, cost=5, nombqi=True, limit=200, houdini_ms=5000)
CONTRACTS.append(Contract("Bt x of a domain, any size", H, "v_bt", pre, post, mode='smt', templates=tmpl('nout', 1), under=[A + "applyBt"], opts=O))
def two(c):
    """two domains and the sums of their contributions to the multipliers"""
    nout = c.int('nout', 0, BIG, arg=False); n0 = c.int('n0', 0, BIG, arg=False); n1 = c.int('n1', 0, BIG, arg=False)
    gluing(c, 0, 'n0', 'nout'); gluing(c, 1, 'n1', 'nout')
    for d in (0, 1): c.arr(f'x{d}', 'f64', c[f'n{d}'], ro=True); L(c, f'n{d}_', c[f'n{d}'])
    c.arr('out', 'f64', nout); L(c, 'nout_', nout)
    if not c.symbolic: return
    for d in (0, 1): partial(c, f'S{d}', d, lambda r, k, d=d: c[f'd2c{d}'][r], lambda r, k, d=d: c[f'vals{d}'][k] * c[f'x{d}'][c[f'cols{d}'][k]])
def tmpl2(order=(0, 1)):
    """out[j] during the pass through the domains"""
    def al(c, p, k):
        return c.forall(0, c['nout'], lambda j: c['out'][j] == sum([c[f'S{q}'](j, c[f'nnz{q}']) for q in order[:p]], c[f'S{order[p]}'](j, k)), pat=lambda j: c['out'][j])
    R = lambda c, p: c[f'rows{order[p]}']; T = [("zero", "i", lambda c, a: c.forall(0, a, lambda j: c['out'][j] == 0, pat=lambda j: c['out'][j]))]
    for p in range(len(order)):
        T += [(f"rng{p}", "ii", lambda c, a, k, p=p: c.And(k >= R(c, p)[a], k <= R(c, p)[a + 1], a >= 0, a < c[f'nrows{order[p]}'])),
              (f"lines{p}", "i", lambda c, a, p=p: al(c, p, R(c, p)[a])), (f"entries{p}", "i", lambda c, k, p=p: al(c, p, k))]
    return T
def post2(c, doms=(0, 1), weight=True):
    if c.symbolic: return c.ensure("every multiplier is the sum of the contributions of the domains", c.forall(0, c['nout'], lambda j: c['out'][j] == sum([c[f'S{q}'](j, c[f'nnz{q}']) for q in doms[1:]], c[f'S{doms[0]}'](j, c[f'nnz{doms[0]}'])), pat=lambda j: c['out'][j]))
    w = [0.] * c['nout']
    for d in doms:
        for r in range(c[f'nrows{d}']):
            for k in range(c[f'rows{d}'].old[r], c[f'rows{d}'].old[r + 1]): w[c[f'd2c{d}'].old[r]] += c[f'vals{d}'].old[k] * c[f'x{d}'].old[c[f'cols{d}'].old[k]]
    for j, x in enumerate(w): c.eq(f"out[{j}]", c['out'][j], x)
CONTRACTS.append(Contract("B x of two domains, any size", H, "v_b", two, post2, mode='smt', templates=tmpl2(), under=[A + "applyB"], opts=O))
CONTRACTS.append(Contract("B x of two domains by threads, any size", H, "v_bthr", two, post2, mode='smt', templates=tmpl2(), under=[A + "applyB_threaded"], opts=O))
for fil in ([0, 1], [1, 0], [1], [0]):
    def pre(c, fil=fil): two(c); c.consts('fil', 'i32', fil); c.cint('nf', len(fil))
    CONTRACTS.append(Contract(f"B x of the domains {fil} of two, any size", H, "v_bfil", pre, lambda c, fil=fil: post2(c, fil), mode='smt', templates=tmpl2(tuple(fil)), under=[A + "applyB"], opts=O))
# ---- values of the multipliers of a domain
def lines_only(c, K, nl):
    n = c.int(f'nrows{K}', 0, BIG, arg=False); c.arr(f'rows{K}', 'i32', n + 1, ro=True); c.arr(f'cols{K}', 'i32', 1, ro=True); c.arr(f'vals{K}', 'f64', 1, ro=True); L(c, f'nr{K}', n)
    if not c.symbolic and n and not c[nl]: from dsl import Reject; raise Reject()
    d = c.arr(f'd2c{K}', 'i32', n, ro=True, gen=lambda rng, k, cc: [rng.randint(0, c[nl] - 1) for _ in range(k)])
    if c.symbolic: c.require(c.forall(0, n, lambda r: c.And(d[r] >= 0, d[r] < c[nl]), pat=lambda r: d[r]))
def pre(c):
    nin = c.int('nin', 0, BIG, arg=False); lines_only(c, 1, 'nin'); more = c.int('more', 0, BIG, arg=False); n = c['nrows1'] + more
    c.arr('in', 'f64', nin, ro=True); L(c, 'nin_', nin); c.arr('out', 'f64', n); L(c, 'nout', n); c.bterm('nout', n)
def part(c, a): return c.And(c.forall(0, a, lambda r: c['out'][r] == c['in'][c['d2c1'][r]], pat=lambda r: c['out'][r]), c.forall(a, c['nout'], lambda r: c['out'][r] == 0, pat=lambda r: c['out'][r]))
CONTRACTS.append(Contract("multipliers of a domain, any size", H, "v_ext", pre, lambda c: c.ensure("the domain gets the values of its multipliers, zeros behind them", part(c, c['nrows1'])), mode='smt',
    templates=[("zero", "i", lambda c, a: c.forall(0, a, lambda j: c['out'][j] == 0, pat=lambda j: c['out'][j])), ("part", "i", part)], under=[A + "extractDomain"], opts=O))
def pre(c):
    nout = c.int('nout', 0, BIG, arg=False)
    for d in (0, 1): lines_only(c, d, 'nout')
    for d in (0, 1): c.arr(f'x{d}', 'f64', c[f'nrows{d}'], ro=True); L(c, f'n{d}_', c[f'nrows{d}'])
    c.arr('out', 'f64', nout); L(c, 'nout_', nout)
    if not c.symbolic: return
    import z3
    j, k = z3.Ints('j_s k_s')
    for d in (0, 1):
        S = c.ghost(f'S{d}', 2, real=True); c.require(z3.ForAll([j], S(j, 0) == 0, patterns=[S(j, 0)])); D, X = c[f'd2c{d}'], c[f'x{d}']
        c.require(z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k < c[f'nrows{d}']), S(j, k + 1) == S(j, k) + z3.If(D[k] == j, X[k], z3.RealVal(0))), patterns=[MP(S(j, k), D[k])]))
def ins(c, p, k): return c.forall(0, c['nout'], lambda j: c['out'][j] == (c['S0'](j, c['nrows0']) if p else 0) + c[f'S{p}'](j, k), pat=lambda j: c['out'][j])
def post(c):
    if c.symbolic: return c.ensure("every multiplier is the sum of the values of the domains", ins(c, 1, c['nrows1']))
    w = [0.] * c['nout']
    for d in (0, 1):
        for r in range(c[f'nrows{d}']): w[c[f'd2c{d}'].old[r]] += c[f'x{d}'].old[r]
    for j, x in enumerate(w): c.eq(f"out[{j}]", c['out'][j], x)
CONTRACTS.append(Contract("sum of the multipliers of two domains, any size", H, "v_ins", pre, post, mode='smt',
    templates=[("zero", "i", lambda c, a: c.forall(0, a, lambda j: c['out'][j] == 0, pat=lambda j: c['out'][j]))] + [(f"sum{p}", "i", lambda c, k, p=p: ins(c, p, k)) for p in (0, 1)], under=[A + "insertDomains"], opts=O))
# ---- gluing and Dirichlet constraints
class Topo:
    """dofs: list of [(domain, index)] sorted by domains; mine: (dbegin, dend)"""
    def __init__(s, maps, fixed, mine):
        s.maps, s.fixed, s.b, s.e = maps, sorted(fixed), *mine; s.n = s.e - s.b; s.my = lambda d: s.b <= d < s.e
        s.size = [max([i + 1 for m in maps for d, i in m if d == s.b + k], default=0) for k in range(s.n)]
        glue = []
        for dof, m in enumerate(maps):
            if dof in fixed: continue
            for k in range(2, len(m) + 1):
                if any(s.my(d) for d, _ in m[:k]): glue.append(([d for d, _ in m[:k]], dof))
        s.glue = sorted(glue, key=lambda g: (g[0], g[1]))
        s.dir = [[(dof, i) for dof in s.fixed for d, i in maps[dof] if d == s.b + k] for k in range(s.n)]
        s.lam = [(dl, [(d, i) for d, i in maps[dof][:len(dl)]], None) for dl, dof in s.glue] + [([s.b + k], [(s.b + k, i)], dof) for k in range(s.n) for dof, i in s.dir[k]]
        s.dirdof = {len(s.glue) + q: x for q, x in enumerate([dof for k in range(s.n) for dof, i in s.dir[k]])}
def topo(rng, nd, ndof, mine, pfix, shared=.6):
    cnt = [0] * nd; maps = []
    for q in range(ndof):
        m = 1 if rng.random() > shared else rng.randint(1, nd); ds = sorted(rng.sample(range(nd), m))
        if not any(mine[0] <= d < mine[1] for d in ds): ds = sorted(set(ds[:m - 1] + [rng.randint(mine[0], mine[1] - 1)]))
        mp = []
        for d in ds: mp.append((d, cnt[d])); cnt[d] += 1
        maps.append(mp)
    # the indices of a domain need not follow the order of the dofs
    for d in range(nd):
        p = list(range(cnt[d])); rng.shuffle(p); maps = [[(a, p[i]) if a == d else (a, i) for a, i in m] for m in maps]
    return Topo(maps, [q for q in range(ndof) if rng.random() < pfix], mine)
def eqpre(c, T):
    dist = [0]
    for m in T.maps: dist.append(dist[-1] + len(m))
    c.consts('dist', 'i32', dist); c.cint('ndof', len(T.maps)); c.consts('pairs', 'i32', [x for m in T.maps for p in m for x in p] or [0]); c.cint('dbegin', T.b); c.cint('ndom', T.n); c.consts('ksize', 'i32', T.size)
    c.v['T'] = T
def eqall(c, T):
    eqpre(c, T); c.consts('fix', 'i32', T.fixed or [0]); c.cint('nfix', len(T.fixed)); c.arr('fv', 'f64', len(T.fixed), ro=True); st = len(T.lam) + 4; c.v['st'] = st
    c.arr('inf', 'i32', 7 + 4 * T.n, out=True); c.cint('stride', st)
    for k, t in (('rows', 'i32'), ('cols', 'i32'), ('vals', 'f64'), ('d2c', 'i32')): c.arr(k, t, st * T.n, out=True)
    c.arr('cmap', 'i32', sum(2 + len(l[0]) for l in T.lam) + 8, out=True); c.arr('c', 'f64', len(T.lam), out=True); c.cint('nc', len(T.lam)); n = sum(T.size); c.arr('x', 'f64', n, out=True); c.arr('x0', 'f64', n, ro=True)
def eqpost(c):
    T = c['T']; inf = c['inf']; n = len(T.lam); st = c['st']
    c.eq("number of multipliers", inf[0], n); c.eq("number of equalities", inf[1], n); c.eq("intervals", inf[2], 1)
    halo = sum(1 for l in T.lam if l[0][0] < T.b); c.eq("halo", inf[3], halo); c.eq("own multipliers", inf[4], n - halo); c.eq("size of the right-hand side", inf[6], n)
    # the lists of domains of the multipliers
    k = 0; lists = []
    groups = []
    for l in T.lam:
        key = (l[0], l[2] is None)
        if groups and groups[-1][0] == key: groups[-1][1] += 1
        else: groups.append([key, 1])
    want = [x for (dl, _), q in groups for x in [q, len(dl)] + dl]
    c.eq("length of the map of the multipliers", inf[5], len(want))
    for i, x in enumerate(want): c.eq(f"map of the multipliers {i}", c['cmap'][i], x)
    for d in range(T.n):
        mine = [(q, l) for q, l in enumerate(T.lam) if T.b + d in l[0]]; m = len(mine)
        for i, (nm, v) in enumerate((("lines", m), ("entries", m), ("columns", T.size[d]), ("multipliers", m))): c.eq(f"domain {d}: number of {nm}", inf[7 + 4 * d + i], v)
        for r in range(m + 1): c.eq(f"domain {d}: row {r}", c['rows'][d * st + r], r)
        for r, (q, (dl, ent, dof)) in enumerate(mine):
            i = [i for a, i in ent if a == T.b + d][0]
            c.eq(f"domain {d}: line {r} multiplier", c['d2c'][d * st + r], q); c.eq(f"domain {d}: line {r} column", c['cols'][d * st + r], i)
            s = len(dl)
            v = c_(c, 1) if s == 1 else c.sqrt(c_(c, s * (s - 1))) * c_(c, -(s - 1) if dl[-1] == T.b + d else 1) / (s * (s - 1))
            c.eq(f"domain {d}: line {r} value", c['vals'][d * st + r], v)
    for q in range(n): c.eq(f"right-hand side {q}", c['c'][q], c['fv'][T.fixed.index(T.dirdof[q])] if q in T.dirdof else c_(c, 0))
    o = 0
    for d in range(T.n):
        at = {i: dof for dof, m in enumerate(T.maps) for a, i in m if a == T.b + d}
        for i in range(T.size[d]): c.eq(f"domain {d}: solution {i}", c['x'][o], c['fv'][T.fixed.index(at[i])] if at[i] in T.fixed else c['x0'][o]); o += 1
def c_(c, x):
    if not c.symbolic: return float(x)
    from poly import Rat
    return Rat.const(x)
UQ = [A + "EqualityConstrains<double>::set", A + "EqualityConstrains<double>::update", A + "EqualityConstrains<double>::enforce"]
def chain(nd, fixed=(), mine=None):
    """a line of domains of two elements each: the ends of neighbors are shared"""
    maps = []
    for d in range(nd):
        if d == 0: maps.append([(0, 0)])
        maps.append([(d, 1)]); maps.append([(d, 2)] + ([(d + 1, 0)] if d + 1 < nd else []))
    return Topo(maps, list(fixed), mine or (0, nd))
def cube():
    """the corner shared by eight domains, an edge shared by four and a face shared by two"""
    return Topo([[(d, 0) for d in range(8)], [(0, 1), (1, 1), (2, 1), (3, 1)], [(4, 1), (5, 1), (6, 1), (7, 1)], [(0, 2), (1, 2)], [(6, 2)]], [], (0, 8))
TOPOS = [("one domain", Topo([[(0, 0)], [(0, 1)]], [1], (0, 1))), ("chain of two", chain(2, [0])), ("chain of four", chain(4, [0, 2, 8])), ("chain of four without Dirichlet", chain(4)), ("corner of a cube", cube()),
         ("middle of a chain of five", chain(5, [3], (1, 4))), ("end of a chain of three", chain(3, [4, 6], (2, 3)))]
for k in range(14):
    rng = random.Random(4711 + k); nd = rng.choice((2, 3, 4, 5)); b = rng.choice((0, 0, rng.randint(0, nd - 1))); e = rng.choice((nd, nd, rng.randint(b + 1, nd)))
    TOPOS.append((f"topology {k}", topo(rng, nd, rng.randint(3, 9), (b, e), (.0, .2, .5)[k % 3])))
for nm, T in TOPOS: CONTRACTS.append(Contract(f"constraints, {nm}", H, "v_eq", lambda c, T=T: eqall(c, T), eqpost, mode='poly', under=UQ, opts=dict(noerror=True, cost=2)))
def pre(c):
    rng = random.Random(c.int('seed', 0, 1 << 40, w=64, arg=False, gen=lambda rng, cc: rng.randint(0, 1 << 40))); nd = rng.randint(1, 6); b = rng.choice((0, rng.randint(0, nd - 1))); e = rng.randint(b + 1, nd)
    eqall(c, topo(rng, nd, rng.randint(1, 20), (b, e), rng.choice((0., .1, .4)), rng.random()))
CONTRACTS.append(Contract("constraints, generated topologies", H, "v_eq", pre, eqpost, mode='poly', under=UQ, opts=dict(noerror=True, cost=2, noproof='bounded: generated topologies')))
# ---- kernels and regularization
def csr1(rng, n, full=.5):
    """pointers of an upper triangle with full diagonal"""
    p = [0]
    for r in range(n): p.append(p[-1] + 1 + sum(rng.random() < full for _ in range(n - 1 - r)))
    return p
def mx(c, l):
    """maximum of zero and the values"""
    m = c_(c, 0)
    for x in l: m = x if c.sign('gt', x - m) else m
    return m
def heat(n, frm):
    def pre(c):
        rng = random.Random(n); p = csr1(rng, n); c.consts('kr', 'i32', p); c.arr('kv', 'f64', p[-1], ro=True); c.cint('nr', n); c.cint('n0', 1); c.consts('kr0', 'i32', [0, 1]); c.arr('kv0', 'f64', 1, ro=True)
        for k, t, m in (('r', 'f64', n), ('inf', 'i32', 6), ('rows', 'i32', n + 1), ('cols', 'i32', 1), ('vals', 'f64', 1)): c.arr(k, t, m, out=True)
        c.cint('from', frm); c.v['p'] = p
    def post(c):
        for i, x in enumerate((1, n, n, n, 1, 1)): c.eq(f"size {i}", c['inf'][i], x)
        for i in range(n): c.eq(f"kernel {i}", c['r'][i], c_(c, 1))
        for i in range(n + 1): c.eq(f"row {i}", c['rows'][i], 0 if i == 0 else 1)
        c.eq("column", c['cols'][0], 0); c.eq("value", c['vals'][0], mx(c, [c['kv'][x] for x in c['p'][:-1]]))
    CONTRACTS.append(Contract(f"heat kernel and regularization, {n} dofs{', from assembled' if frm else ''}", H, "v_heat", pre, post, mode='poly', under=[A + "Regularization<double>::set (heat)", A + "Regularization<double>::update (heat)"], opts=dict(noerror=True, cost=2)))
for n in (1, 2, 3, 4): heat(n, n % 2)
def pre(c):
    n = c.int('nr', 0, BIG, arg=False); nnz = c.int('nnz', 0, BIG, arg=False, gen=lambda rng, cc: rng.randint(n, n + 6)); c.require(nnz >= n); p = c.arr('kr', 'i32', n + 1, ro=True, gen=lambda rng, k, cc: [0] + sorted(rng.sample(range(1, nnz), n - 1)) + [nnz] if n else [0])
    c.arr('kv', 'f64', nnz, ro=True, gen=lambda rng, k, cc: [rng.uniform(-1, .4) for _ in range(k)]); L(c, 'nr_', n); c.arr('out', 'f64', 1)
    c.require(c.forall(0, n, lambda r: c.And(p[r] >= 0, p[r] < nnz), pat=lambda r: p[r]))
first = lambda c, r: c['kv'][c['kr'][r]]
def mxinv(c, a): return c.And(c['out'][0] >= 0, c.forall(0, a, lambda r: c['out'][0] >= first(c, r), pat=lambda r: c['kr'][r]), c.Or(c['out'][0] == 0, c.exists(0, a, lambda r: c['out'][0] == first(c, r))))
CONTRACTS.append(Contract("regularization value of heat, any size", H, "v_maxfirst", pre, lambda c: c.ensure("the largest first entry of the lines", mxinv(c, c['nr'])), mode='smt', templates=[("max", "i", mxinv)], under=[A + "updateRegMat (heat)"], opts=dict(noerror=True, cost=3)))
def mech(nm, dim, T, dom, frm):
    """the maps of the dofs of a node go to the same domains"""
    def pre(c):
        eqpre(c, T); n = len(T.maps); c.cint('dim', dim); c.arr('coo', 'f64', n, ro=True); c.cint('dom', dom); nk = 3 * dim - 3; c.arr('r', 'f64', nk * T.size[dom], out=True); c.arr('inf', 'i32', 2, out=True); c.cint('from', frm)
    def post(c):
        nk = 3 * dim - 3; n = T.size[dom]; c.eq("number of modes", c['inf'][0], nk); c.eq("size", c['inf'][1], n)
        for dof, m in enumerate(T.maps):
            for d, i in m:
                if d != T.b + dom: continue
                for k, x in enumerate(modes(c, dim, dof)): c.eq(f"mode {k} of dof {i}", c['r'][k * n + i], x)
    CONTRACTS.append(Contract(f"mechanical kernel {dim}D, {nm}", H, "v_mech", pre, post, mode='poly', under=[A + "Regularization<double>::set (mechanics)", A + "Regularization<double>::update (mechanics)"], opts=dict(noerror=True, cost=2)))
def modes(c, dim, dof, sol=False):
    """translations and infinitesimal rotations at a dof"""
    a, n = dof % dim, dof // dim; x = [c['coo'][n * dim + k] + (c['sol'][n * dim + k] if sol else 0) for k in range(dim)]; o = c_(c, 0); t = [c_(c, int(a == k)) for k in range(dim)]
    if dim == 2: return t + [[0 - x[1], x[0]][a]]
    return t + [[0 - x[1], x[0], o][a], [0 - x[2], o, x[0]][a], [o, 0 - x[2], x[1]][a]]
def nodes(rng, dim, nd, nn, mine):
    T = topo(rng, nd, nn, mine, 0); maps = []
    return Topo([[(d, dim * i + a) for d, i in m] for m in T.maps for a in range(dim)], [], mine)
for k in range(8):
    rng = random.Random(99 + k); dim = 2 + k % 2; nd = rng.choice((1, 2, 3)); b = rng.randint(0, nd - 1); e = rng.randint(b + 1, nd); T = nodes(rng, dim, nd, rng.randint(3, 6), (b, e))
    for dom in range(T.n):
        if T.size[dom]: mech(f"topology {k} domain {dom}", dim, T, dom, k // 2 % 2)
def regm(nm, dim, T, dom, npts, usesol, numeric, constk=False):
    of = [q for q in range(0, len(T.maps), dim) if any(d == T.b + dom for d, _ in T.maps[q])]
    rng = random.Random(nm + str(dim)); fp = sorted(rng.sample([q // dim for q in of], min(npts, len(of)))); n = T.size[dom]; p = csr1(rng, n)
    def pre(c):
        eqpre(c, T); nn = len(T.maps); c.cint('dim', dim); co = [rng2.randint(-8, 8) / 4 + (q // dim) for q in range(nn)] if (rng2 := random.Random(7)) else 0
        (c.consts('coo', 'f64', co) if numeric else c.arr('coo', 'f64', nn, ro=True)); c.cint('dom', dom); c.consts('fp', 'i32', fp); c.cint('nfp', len(fp)); c.consts('kr', 'i32', p); (c.consts('kv', 'f64', [random.Random(q).randint(-9, 40) / 4 for q in range(p[-1])]) if constk else c.arr('kv', 'f64', p[-1], ro=True)); c.cint('nr', n)
        m = dim * len(fp); z = m * (m + 1) // 2
        for k, t, s in (('rows', 'i32', n + 1), ('cols', 'i32', z), ('vals', 'f64', z), ('inf', 'i32', 4)): c.arr(k, t, s, out=True)
        (c.consts('sol', 'f64', [rng2.randint(-4, 4) / 8 for q in range(nn)]) if numeric else c.arr('sol', 'f64', nn, ro=True)); c.cint('us', usesol)
    def post(c):
        own = {i: dof for dof, mm in enumerate(T.maps) for d, i in mm if d == T.b + dom}; fc = sorted(i for i, dof in own.items() if dof // dim in fp); m = len(fc)
        for i, x in enumerate((n, n, m * (m + 1) // 2, 1)): c.eq(f"size {i}", c['inf'][i], x)
        ptr = [0]
        for r in range(n): ptr.append(ptr[-1] + (m - fc.index(r) if r in fc else 0))
        for r in range(n + 1): c.eq(f"row {r}", c['rows'][r], ptr[r])
        for i in range(m):
            for j in range(i, m): c.eq(f"column of {i},{j}", c['cols'][ptr[fc[i]] + j - i], fc[j])
        G = {}
        for i in range(m):
            for j in range(i, m): G[i, j] = G[j, i] = c['vals'][ptr[fc[i]] + j - i]
        top = mx(c, [c['kv'][x] for x in p[:-1]]); N = [modes(c, dim, own[i], usesol) for i in fc]; nk = 3 * dim - 3
        # the projection to the rigid modes of the fix points, scaled: keeps the modes, and its range are the modes (trace = their number)
        for i in range(m):
            for k in range(nk): c.eq(f"mode {k} is kept, {i}", sum((G[i, j] * N[j][k] for j in range(m)), c_(c, 0)), top * N[i][k])
        c.eq("trace", sum((G[i, i] for i in range(m)), c_(c, 0)), nk * top)
        for i in range(m):
            for j in range(i, m): c.eq(f"projection {i},{j}", sum((G[i, l] * G[l, j] for l in range(m)), c_(c, 0)), top * G[i, j])
    CONTRACTS.append(Contract(f"mechanical regularization {dim}D, {nm}", H, "v_regm", pre, post, mode='poly', under=[A + "setRegMat (mechanics)", A + "updateRegMat (mechanics)", A + "getNtNNtN"], opts=dict(noerror=True, cost=4)))
for k in range(6):
    rng = random.Random(500 + k); dim = 2 + k % 2; nd = rng.choice((1, 2)); T = nodes(rng, dim, nd, 5 + k // 2, (0, nd)); dom = nd - 1
    regm(f"numeric {k}", dim, T, dom, 4 if dim == 2 else 3, k // 2 % 2, True, k > 0)
for k in range(2): regm(f"symbolic {k}", 2, nodes(random.Random(600 + k), 2, 1 + k, 3, (0, 1 + k)), 0, 2, k, False, True)
# ---- multipliers shared by processes
HD = "dual.cpp"
def dual(c, T, procs, me):
    """procs: first domains of the processes; the multipliers of process me"""
    own = lambda d: max(p for p in range(len(procs) - 1) if procs[p] <= d)
    neigh = sorted({own(d) for l in T.lam for d in l[0]} - {me}); shared = [[q for q, l in enumerate(T.lam) if any(own(d) == p for d in l[0])] for p in neigh]
    cm = []
    for l in T.lam:
        key = (l[0], l[2] is None)
        if cm and cm[-1][0] == key: cm[-1][1] += 1
        else: cm.append([key, 1])
    flat = [x for (dl, _), q in cm for x in [q, len(dl)] + dl]
    # both sides list the multipliers they share in the same order
    for p, s in zip(neigh, shared):
        O = Topo(T.maps, T.fixed, (procs[p], procs[p + 1])); other = [(l[0], l[1]) for l in O.lam if any(own(d) == me for d in l[0])]
        c.v['agree', p] = other == [(T.lam[q][0], T.lam[q][1]) for q in s]
    halo = sum(1 for l in T.lam if l[0][0] < T.b); n = len(T.lam); st = n + 1
    c.consts('cmap', 'i32', flat or [0]); c.cint('ncmap', len(flat)); c.cint('size', n); c.cint('halo', halo); c.consts('neigh', 'i32', neigh or [0]); c.cint('nn', len(neigh)); c.consts('ndom', 'i32', [procs[p] for p in neigh] + [T.b]); c.cint('dbegin', T.b); c.cint('dend', T.e)
    c.arr('v', 'f64', n); c.arr('w', 'f64', n, ro=True); c.arr('recv', 'f64', max(1, st * len(neigh)), ro=True); c.arr('snt', 'f64', max(1, st * len(neigh)), out=True); c.cint('stride', st); c.arr('cnt', 'i32', max(1, 2 * len(neigh)), gen=lambda rng, k, cc: [0] * k); c.arr('inf', 'i32', 8 + len(neigh), out=True); c.arr('to', 'f64', n, out=True); c.arr('dots', 'f64', 2, out=True)
    c.v['D'] = T, neigh, shared, halo, st
def dualpost(c):
    T, neigh, shared, halo, st = c['D']; n = len(T.lam)
    for i, x in enumerate((n, n, 1, halo, n, n - halo, n - halo)): c.eq(f"size {i}", c['inf'][i], x)
    c.eq("size of the vector", c['inf'][7 + len(neigh)], n)
    new = [c['v'].old[q] for q in range(n)]
    for k, s in enumerate(shared):
        c.eq(f"order of the multipliers shared with {neigh[k]}", int(c['agree', neigh[k]]), 1)
        c.eq(f"size of the message {k}", c['inf'][7 + k], len(s)); c.eq(f"sent {k}", c['cnt'][2 * k] - c['cnt'].old[2 * k], len(s)); c.eq(f"received {k}", c['cnt'][2 * k + 1] - c['cnt'].old[2 * k + 1], len(s))
        for i, q in enumerate(s): c.eq(f"message {k}[{i}]", c['snt'][k * st + i], c['v'].old[q]); new[q] = new[q] + c['recv'][k * st + i]
    for q in range(n): c.eq(f"value {q}", c['v'][q], new[q]); c.eq(f"without halo {q}", c['to'][q], new[q] if q >= halo else c_(c, 0))
    c.eq("dot", c['dots'][0], sum((new[q] * c['w'][q] for q in range(halo, n)), c_(c, 0))); c.eq("square", c['dots'][1], sum((new[q] * new[q] for q in range(halo, n)), c_(c, 0)))
UD = [A + "Dual_Map::set", A + "Vector_Dual<double>::synchronize", A + "Vector_Dual<double>::copyToWithoutHalo", A + "Vector_Dual<double>::dot"]
def procs_of(rng, nd): cut = sorted(rng.sample(range(1, nd), rng.randint(0, min(3, nd - 1)))) if nd > 1 else []; return [0] + cut + [nd]
for k in range(12):
    rng = random.Random(31415 + k); nd = rng.randint(2, 6); P = procs_of(rng, nd); me = rng.randint(0, len(P) - 2); T = topo(rng, nd, rng.randint(3, 9), (P[me], P[me + 1]), (.0, .2)[k % 2], .9)
    CONTRACTS.append(Contract(f"shared multipliers, topology {k} process {me} of {len(P) - 1}", HD, "v_dual", lambda c, T=T, P=P, me=me: dual(c, T, P, me), dualpost, mode='poly', under=UD, opts=dict(noerror=True, cost=2)))
def pre(c):
    rng = random.Random(c.int('seed', 0, 1 << 40, w=64, arg=False, gen=lambda rng, cc: rng.randint(0, 1 << 40))); nd = rng.randint(1, 8); P = procs_of(rng, nd); me = rng.randint(0, len(P) - 2)
    dual(c, topo(rng, nd, rng.randint(1, 16), (P[me], P[me + 1]), rng.choice((0., .2)), rng.random()), P, me)
CONTRACTS.append(Contract("shared multipliers, generated topologies", HD, "v_dual", pre, dualpost, mode='poly', under=UD, opts=dict(noerror=True, cost=2, noproof='bounded: generated topologies')))
