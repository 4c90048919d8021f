"""Sparse structure operations: pattern and values of the result are those of the named matrix."""
import random
from dsl import Contract
CONTRACTS = []
H = "csxops.cpp"
def pattern(r, c, bits): return [(i, j) for i in range(r) for j in range(c) if bits >> (i * c + j) & 1]
def rpattern(rng, r, c, d): return [(i, j) for i in range(r) for j in range(c) if rng.random() < d]
def compress(ent, o, r, c):
    """(ptrs, idxs, order of the entries) of the entries [(i, j, tag)] sorted by lines"""
    n = r if o == 'R' else c; key = (lambda e: (e[0], e[1])) if o == 'R' else (lambda e: (e[1], e[0]))
    es = sorted(ent, key=key); p = [0] * (n + 1)
    for e in es: p[key(e)[0] + 1] += 1
    for k in range(n): p[k + 1] += p[k]
    return p, [key(e)[1] for e in es], [e[2] for e in es]
def tagged(pat, o):
    """entries tagged with their position in the source"""
    return [(i, j, k) for k, (i, j) in enumerate(sorted(pat, key=lambda e: e if o == 'R' else (e[1], e[0])))]
class Case:
    def __init__(s, r, c, o, pat): s.r, s.c, s.o = r, c, o; s.e = tagged(pat, o); s.nnz = len(s.e); s.p, s.i, _ = compress(s.e, o, r, c)
def cases(tri=None):
    """the fixed patterns: all 2x2 ones, and some of each shape up to 4x4 with empty lines, full lines and empty matrices"""
    out = []
    rng = random.Random(20250131)
    if tri:
        for n in (2, 3, 4):
            low = [(i, j) for i in range(n) for j in range(i + 1)]
            for k in range(8 if n == 2 else 6):
                out.append((n, n, [e for q, e in enumerate(low) if k >> q & 1] if n == 2 else [e for e in low if rng.random() < (.3, .6)[k % 2]]))
        return [(n, m, [(j, i) for i, j in p] if tri == 'U' else p) for n, m, p in out]
    for b in range(16): out.append((2, 2, pattern(2, 2, b)))
    for r, c in ((1, 3), (3, 1), (3, 4), (4, 3), (4, 4), (2, 5)):
        for d in (.25, .5): out.append((r, c, rpattern(rng, r, c, d)))
    return out
def src(c, s, z=1):
    c.consts('p', 'i32', s.p); c.consts('i', 'i32', s.i); c.arr('v', 'f64', z * s.nnz, ro=True); c.cint('nnz', s.nnz); c.cint('r', s.r); c.cint('c', s.c); c.cint('o', ord(s.o)); c.v['S'] = s
def dst(c, lines, nnz, z=1): c.arr('dp', 'i32', lines + 1); c.arr('di', 'i32', nnz); c.arr('dv', 'f64', z * nnz)
def check(c, ent, o, r, cc, vals='v', p0=0, e0=0, nm=""):
    """the destination holds exactly the entries [(i, j, source position)]"""
    p, i, t = compress(ent, o, r, cc)
    for k, x in enumerate(p): c.eq(f"{nm}pointer {k}", c['dp'][p0 + k], x)
    for k, x in enumerate(i): c.eq(f"{nm}index {k}", c['di'][e0 + k], x)
    for k, x in enumerate(t): c.eq(f"{nm}value {k}", c['dv'][e0 + k], c[vals][x])
def perm(rng, n):
    d = list(range(n)); rng.shuffle(d); s = [0] * n
    for k, x in enumerate(d): s[x] = k
    return d, s
def K(name, fn, under, pre, post, tri=None, orders="RC"):
    """one contract per fixed pattern and storage order, and one for generated patterns (bounded).
    pre(c, s, rng) adds the operation's arguments behind the source; post(c, s)"""
    under = ["espreso::math::operations::" + u for u in under]
    z = 2 if fn == "v_cpl" else 1
    for o in orders:
        for q, (r, cc, pat) in enumerate(cases(tri)):
            def pr(c, o=o, r=r, cc=cc, pat=pat, q=q):
                rng = random.Random(977 * q + ord(o)); s = Case(r, cc, o, pat); src(c, s, z); pre(c, s, rng)
            CONTRACTS.append(Contract(f"{name}, {o}, pattern {q} ({r}x{cc})", H, fn, pr, lambda c: post(c, c['S']), mode='poly', under=under, opts=dict(noerror=True, cost=1)))
    def pr(c):
        seed = c.int('seed', 0, 1 << 40, w=64, arg=False, gen=lambda rng, cc: rng.randint(0, 1 << 40)); rng = random.Random(seed)
        n = rng.choice((2, 4, 9)); r = rng.randint(1, n); cc = r if tri else rng.randint(1, n); d = rng.random(); o = rng.choice(orders)
        pat = rpattern(rng, r, cc, d); s = Case(r, cc, o, [e for e in pat if e[0] == e[1] or (e[0] > e[1]) == (tri == 'L')] if tri else pat); src(c, s, z); pre(c, s, rng)
    CONTRACTS.append(Contract(f"{name}, generated patterns up to 9x9", H, fn, pr, lambda c: post(c, c['S']), mode='poly', under=under, opts=dict(noerror=True, cost=1, noproof='bounded: generated patterns')))
OT = dict(R='C', C='R')
def lines(o, r, c): return r if o == 'R' else c
def second(c, s, z=1): c.arr('w', 'f64', z * s.nnz, ro=True)
# ---- copy, conversion of the order, transposition
K("copy", "v_copy", ["copy_csx"], lambda c, s, g: dst(c, lines(s.o, s.r, s.c), s.nnz), lambda c, s: check(c, s.e, s.o, s.r, s.c))
for od in "RC":
    def pre(c, s, g, od=od): dst(c, lines(od, s.r, s.c), s.nnz); c.cint('od', ord(od))
    K(f"convert to {od}", "v_cvt", ["convert_csx_csy", "copy_csx"], pre, lambda c, s, od=od: check(c, s.e, od, s.r, s.c))
    def pre(c, s, g, od=od): dst(c, lines(od, s.r, s.c), s.nnz); c.cint('od', ord(od)); second(c, s)
    K(f"convert to {od} with map", "v_cvtm", ["convert_csx_csy_map"], pre, lambda c, s, od=od: check(c, s.e, od, s.r, s.c, 'w'))
def pre(c, s, g): dst(c, lines(s.o, s.c, s.r), s.nnz); second(c, s)
K("transpose with map", "v_trm", ["transpose_csx_csx_map"], pre, lambda c, s: check(c, [(j, i, k) for i, j, k in s.e], s.o, s.c, s.r, 'w'))
# ---- permutation
def perms(c, s, g, same=False):
    rd, rs = perm(g, s.r); cd, cs = (rd, rs) if same else perm(g, s.c)
    c.consts('rd', 'i32', rd); c.consts('rs', 'i32', rs); c.consts('cd', 'i32', cd); c.consts('cs', 'i32', cs); c.v['P'] = rs, cs
for mr in (0, 1):
    for mc in (0, 1):
        def moved(c, s, mr=mr, mc=mc):
            rs, cs = c['P']; return [(rs[i] if mr else i, cs[j] if mc else j, k) for i, j, k in s.e]
        def pre(c, s, g, mr=mr, mc=mc): dst(c, lines(s.o, s.r, s.c), s.nnz); perms(c, s, g); c.cint('mr', mr); c.cint('mc', mc)
        nm = f"permute rows {mr} cols {mc}"
        K(nm, "v_perm", ["permute_csx_csx"], pre, lambda c, s, moved=moved: check(c, moved(c, s), s.o, s.r, s.c))
        def pre2(c, s, g, pre=pre): pre(c, s, g); c.cint('u', ord('F')); second(c, s)
        K(nm + " with map", "v_permm", ["permute_csx_csx_map"], pre2, lambda c, s, moved=moved: check(c, moved(c, s), s.o, s.r, s.c, 'w'))
for u in "LU":
    # a stored triangle is permuted symmetrically: entries that leave the triangle are stored at their mirrored place
    def pre(c, s, g, u=u): dst(c, s.r, s.nnz); perms(c, s, g, True); c.cint('mr', 1); c.cint('mc', 1); c.cint('u', ord(u)); second(c, s)
    def post(c, s, u=u):
        rs, cs = c['P']; out = []
        for i, j, k in s.e:
            a, b = rs[i], rs[j]
            if (a < b) == (u == 'L') and a != b: a, b = b, a
            out.append((a, b, k))
        check(c, out, s.o, s.r, s.c, 'w')
    K(f"permute the {u} triangle symmetrically", "v_permm", ["permute_csx_csx_map"], pre, post, tri=u)
# ---- submatrices, splitting and joining
def window(g, n):
    a = g.randint(0, n); b = g.randint(a, n); return a, b
def sub(s, r0, r1, c0, c1): return [(i - r0, j - c0, k) for i, j, k in s.e if r0 <= i < r1 and c0 <= j < c1]
for od in "RC":
    def pre(c, s, g, od=od):
        W = window(g, s.r) + window(g, s.c); c.v['W'] = W; n = len(sub(s, *W)); dst(c, lines(od, W[1] - W[0], W[3] - W[2]), n); c.arr('nz', 'i64', 1, out=True); c.cint('od', ord(od))
        for k, x in zip(('r0', 'r1', 'c0', 'c1'), W): c.cint(k, x)
    def post(c, s, od=od, vals='v'):
        W = c['W']; e = sub(s, *W); c.eq("announced entries", c['nz'][0], len(e)); check(c, e, od, W[1] - W[0], W[3] - W[2], vals)
    K(f"window to {od}", "v_sub", ["submatrix_csx_csy"], pre, post)
    def pre2(c, s, g, pre=pre): pre(c, s, g); second(c, s)
    K(f"window to {od} with map", "v_subm", ["submatrix_csx_csy_map"], pre2, lambda c, s, post=post: post(c, s, vals='w'))
def blocks(s, rc, cc): return [(sub(s, *w), w[1] - w[0], w[3] - w[2]) for w in ((0, rc, 0, cc), (0, rc, cc, s.c), (rc, s.r, 0, cc), (rc, s.r, cc, s.c))]
def pre(c, s, g):
    L = max(s.r, s.c) + 1; c.arr('dp', 'i32', 4 * L); c.arr('di', 'i32', 4 * s.nnz); c.arr('dv', 'f64', 4 * s.nnz); c.arr('nz', 'i64', 4, out=True); os = [g.choice("RC") for _ in range(4)]; c.v['os'] = os
    for k in range(4): c.cint(f'o{k}', ord(os[k]))
    c.cint('rc', g.randint(0, s.r)); c.cint('cc', g.randint(0, s.c))
def post(c, s):
    L = max(s.r, s.c) + 1
    for k, (e, r, cc) in enumerate(blocks(s, c['rc'], c['cc'])): c.eq(f"block {k} announced entries", c['nz'][k], len(e)); check(c, e, c['os'][k], r, cc, 'v', k * L, k * s.nnz, f"block {k} ")
K("split into four", "v_quad", ["quadrisect_csx_csy", "submatrix_csx_csy"], pre, post)
def joinK():
    def pr(c, o, r, cc, pat, g):
        rc, ccut = g.randint(0, r), g.randint(0, cc); s = Case(r, cc, o, pat); bl = blocks(s, rc, ccut); have = [g.random() < .8 for _ in range(4)]
        if not any(have): have[g.randint(0, 3)] = True
        P, I, off, nz, od, ent = [], [], [], [], [], []; base = 0
        for k, (e, br, bc) in enumerate(bl):
            if not have[k]: off += [0, 0]; nz.append(0); od.append(0); continue
            q = g.choice("RC"); p, i, t = compress([(a, b, n) for n, (a, b, _) in enumerate(e)], q, br, bc)
            off += [len(P), len(I)]; nz.append(len(e)); od.append(ord(q)); di, dj = (0, rc)[k > 1], (0, ccut)[k % 2]
            for pos, n in enumerate(t): a, b, _ = e[n]; ent.append((a + di, b + dj, base + pos))
            base += len(e); P += p; I += i
        c.consts('p', 'i32', P); c.consts('i', 'i32', I); c.arr('v', 'f64', base, ro=True); c.consts('off', 'i32', off); c.consts('nz', 'i32', nz); c.consts('ord', 'i32', od)
        for k, v in dict(r=r, c=cc, rc=rc, cc=ccut, o=ord(o), nnz=base).items(): c.cint(k, v)
        dst(c, lines(o, r, cc), base); c.v['J'] = ent, o, r, cc
    def post(c): ent, o, r, cc = c['J']; check(c, ent, o, r, cc)
    U = ["espreso::math::operations::concat_csx", "espreso::math::operations::convert_csx_csy"]
    for o in "RC":
        for q, (r, cc, pat) in enumerate(cases()):
            CONTRACTS.append(Contract(f"join four, {o}, pattern {q} ({r}x{cc})", H, "v_cat", lambda c, o=o, r=r, cc=cc, pat=pat, q=q: pr(c, o, r, cc, pat, random.Random(31 * q + ord(o))), post, mode='poly', under=U, opts=dict(noerror=True, cost=1)))
    def pg(c):
        g = random.Random(c.int('seed', 0, 1 << 40, w=64, arg=False, gen=lambda rng, cc: rng.randint(0, 1 << 40))); r, cc = g.randint(1, 9), g.randint(1, 9); pr(c, g.choice("RC"), r, cc, rpattern(g, r, cc, g.random()), g)
    CONTRACTS.append(Contract("join four, generated patterns up to 9x9", H, "v_cat", pg, post, mode='poly', under=U, opts=dict(noerror=True, cost=1, noproof='bounded: generated patterns')))
joinK()
# ---- completion of a symmetric or Hermitian matrix from its triangle (complex values: two parts per entry)
for u in "LU":
    for od in "RC":
        for cj in (0, 1):
            def pre(c, s, g, u=u, od=od, cj=cj):
                n = 2 * s.nnz - sum(i == j for i, j, k in s.e); dst(c, s.r, n, 2); c.arr('nz', 'i64', 1, out=True); c.cint('u', ord(u)); c.cint('od', ord(od)); c.cint('cj', cj); c.cint('dnnz', n); second(c, s, 2)
            def post(c, s, u=u, od=od, cj=cj):
                ent = [(i, j, (k, 0)) for i, j, k in s.e] + [(j, i, (k, 1)) for i, j, k in s.e if i != j]
                c.eq("announced entries", c['nz'][0], len(ent)); p, i, t = compress(ent, od, s.r, s.c)
                for k, x in enumerate(p): c.eq(f"pointer {k}", c['dp'][k], x)
                for k, x in enumerate(i): c.eq(f"index {k}", c['di'][k], x)
                for k, (x, m) in enumerate(t):
                    c.eq(f"value {k} re", c['dv'][2 * k], c['w'][2 * x])
                    line = [q for q in range(s.r) if p[q] <= k < p[q + 1]][0]
                    if not (cj and line == i[k]): c.eq(f"value {k} im", c['dv'][2 * k + 1], -c['w'][2 * x + 1] if m and cj else c['w'][2 * x + 1])
            nm = f"complete the {u} triangle to {od} conjugate {cj}"
            K(nm, "v_cpl", ["complete_csx_csy_map"], pre, post, tri=u)
# ---- removal of empty rows and columns
def kept(s, pr, pc):
    R = [i for i in range(s.r) if not pr or any(e[0] == i for e in s.e)]; C = [j for j in range(s.c) if not pc or any(e[1] == j for e in s.e)]; return R, C
for pr in (0, 1):
    for pc in (0, 1):
        def outs(c, s, pr=pr, pc=pc):
            R, C = kept(s, pr, pc); c.arr('nz', 'i64', 2, out=True); c.arr('rows', 'i32', len(R)); c.arr('cols', 'i32', len(C)); c.cint('pr', pr); c.cint('pc', pc)
        def same(c, s, pr=pr, pc=pc, all=False):
            R, C = kept(s, pr, pc); c.eq("rows kept", c['nz'][0], len(R)); c.eq("columns kept", c['nz'][1], len(C))
            for k, x in enumerate(R if pr or all else ()): c.eq(f"kept row {k}", c['rows'][k], x)
            for k, x in enumerate(C if pc or all else ()): c.eq(f"kept column {k}", c['cols'][k], x)
            return R, C, [(R.index(i), C.index(j), k) for i, j, k in s.e]
        nm = f"prune rows {pr} cols {pc}"
        K(nm + ": subset", "v_prs", ["pruning_subset_csx"], lambda c, s, g, outs=outs: outs(c, s), lambda c, s, same=same: same(c, s, all=True))
        def pre(c, s, g, outs=outs, pr=pr, pc=pc): R, C = kept(s, pr, pc); dst(c, lines(s.o, len(R), len(C)), s.nnz); outs(c, s)
        def post(c, s, same=same): R, C, e = same(c, s); check(c, e, s.o, len(R), len(C))
        K(nm + ": sparse", "v_prm", ["prune_csx_matx", "pruning_subset_csx"], pre, post)
        if pr or pc:
            def pre(c, s, g, outs=outs, pr=pr, pc=pc):
                R, C = kept(s, pr, pc); n, ld = (len(R), len(C) + 1) if s.o == 'R' else (len(C), len(R) + 1); c.arr('d', 'f64', n * ld); c.cint('ld', ld); outs(c, s)
            def post(c, s, same=same):
                R, C, e = same(c, s); n, ld = (len(R), len(C) + 1) if s.o == 'R' else (len(C), len(R) + 1); w = {(i, j) if s.o == 'R' else (j, i): k for i, j, k in e}
                for a in range(n):
                    for b in range(ld): c.eq(f"line {a} entry {b}", c['d'][a * ld + b], c['d'].old[a * ld + b] if b == ld - 1 else c['v'][w[a, b]] if (a, b) in w else 0)
            K(nm + ": dense", "v_prd", ["prune_csx_matx", "pruning_subset_csx", "fill_dnx"], pre, post)
# ---- first and last entries of the lines
for rc in "RC":
    for pt in "PT":
        for comp in "NFB":
            def pre(c, s, g, rc=rc, pt=pt, comp=comp): c.arr('out', 'i32', lines(rc, s.r, s.c)); c.cint('rc', ord(rc)); c.cint('pt', ord(pt)); c.cint('comp', ord(comp))
            def post(c, s, rc=rc, pt=pt, comp=comp):
                n = lines(rc, s.r, s.c); m = lines(OT[rc], s.r, s.c); v = []
                for l in range(n):
                    q = [(j if rc == 'R' else i) for i, j, k in s.e if (i if rc == 'R' else j) == l]
                    v.append(m if not q else min(q) if pt == 'P' else max(q))
                if comp == 'F': v = [max([x for x in v[:l + 1] if x != m] + [0]) for l in range(n)]
                if comp == 'B': v = [min([x for x in v[l:] if x != m] + [m - 1]) for l in range(n)]
                for l in range(n): c.eq(f"line {l}", c['out'][l], v[l])
            K(f"{'pivots' if pt == 'P' else 'trails'} of {'rows' if rc == 'R' else 'columns'} completion {comp}", "v_piv", ["pivots_trails_csx", "convert_csx_csy"], pre, post)
# ---- sorting permutation
def srt(c, vals):
    n = len(vals); c.consts('x', 'i32', vals); c.cint('n', n); c.arr('d2s', 'i32', n); c.arr('s2d', 'i32', n); c.v['X'] = vals
def post(c):
    x = c['X']; n = len(x); d = [int(c['d2s'][k]) for k in range(n)]
    c.ensure("a permutation", c.b(sorted(d) == list(range(n))))
    if sorted(d) != list(range(n)): return
    for k in range(n - 1): c.ensure(f"ordered at {k}", c.b(x[d[k]] <= x[d[k + 1]]))
    for k in range(n): c.eq(f"inverse at {k}", c['s2d'][d[k]], k)
g0 = random.Random(5)
for q in range(24):
    n = (1, 2, 3, 4, 7, 20)[q % 6]; vals = [g0.randint(-3, 3) if q % 2 else g0.randint(-99, 99) for _ in range(n)]
    CONTRACTS.append(Contract(f"sorting permutation of vector {q} ({n})", H, "v_srt", lambda c, vals=vals: srt(c, vals), post, mode='poly', under=["espreso::math::operations::sorting_permutation", "espreso::PermutationView_new::invert"], opts=dict(noerror=True, cost=1)))
def pg(c):
    g = random.Random(c.int('seed', 0, 1 << 40, w=64, arg=False, gen=lambda rng, cc: rng.randint(0, 1 << 40))); srt(c, [g.randint(-9, 9) for _ in range(g.randint(1, 40))])
CONTRACTS.append(Contract("sorting permutation of generated vectors up to 40", H, "v_srt", pg, post, mode='poly', under=["espreso::math::operations::sorting_permutation"], opts=dict(noerror=True, cost=1, noproof='bounded: generated vectors')))
# ---- any size: conversion and transposition are a stable counting sort of the entries by their index
BIG = 1 << 20
def MP(*a):
    import z3
    return z3.MultiPattern(*a)
def L(c, name, e):
    if c.symbolic: c.args.append(c._lin(e)); c.v[name] = e
    else: c.cint(name, e)
def rows_of(c, r, cc): return [sorted(c.rng.sample(range(cc), c.rng.randint(0, cc))) for _ in range(r)]
def ssrc(c, pri='np', sec='ns'):
    """symbolic source: np lines of ns, pointers p, indices i, values v"""
    small = lambda rng, cc: rng.randint(1, 7)
    n, m = c.int(pri, 1, BIG, w=64, arg=False, gen=small), c.int(sec, 1, BIG, w=64, arg=False, gen=small)
    rows = None
    if c.symbolic: nnz = c.int('nnz', 0, BIG, w=64, arg=False)
    else:
        if 'p' not in c.preset: rows = rows_of(c, n, m)
        nnz = sum(map(len, rows)) if rows is not None else c.preset['p'][-1]; c.v['nnz'] = nnz; c.inputs['nnz'] = nnz
    p = c.arr('p', 'i32', n + 1, ro=True, gen=rows and (lambda rng, k, cc: [sum(map(len, rows[:q])) for q in range(k)]))
    i = c.arr('i', 'i32', nnz, ro=True, gen=rows and (lambda rng, k, cc: [j for r in rows for j in r])); c.arr('v', 'f64', nnz, ro=True)
    c.require(c.And(p[0] == 0, p[n] == nnz))
    if not c.symbolic:
        c.require(all(p.old[q] <= p.old[q + 1] for q in range(n))); c.require(all(0 <= i.old[k] < m for k in range(nnz))); return
    c.require(c.forall2(0, n + 1, lambda a: 0, lambda a: n + 1, lambda a, b: c.implies(a <= b, p[a] <= p[b]), pat=lambda a, b: MP(p[a], p[b])))
    c.require(c.forall(0, n + 1, lambda a: c.And(p[a] >= 0, p[a] <= nnz), pat=lambda a: p[a]))
    c.require(c.forall(0, nnz, lambda k: c.And(i[k] >= 0, i[k] < m), pat=lambda k: i[k]))
    ln = c.ghost('line', 1); c.require(c.forall2(0, n, lambda q: p[q], lambda q: p[q + 1], lambda q, k: ln(k) == q, pat=lambda q, k: MP(p[q], ln(k))))
def counting(c):
    """cnt(j, k): number of l < k with i[l] = j; start(j): sum of cnt(., nnz) below j; inv: the inverse of the place start(i[k]) + cnt(i[k], k) of entry k"""
    if not c.symbolic: return
    import z3
    i, nnz, m = c['i'], c['nnz'], c['ns']; cnt, st, inv = c.ghost('cnt', 2), c.ghost('start', 1), c.ghost('inv', 1)
    j, k, l = z3.Ints('j_c k_c l_c')
    A = c.require
    A(z3.ForAll([j], cnt(j, 0) == 0, patterns=[cnt(j, 0)]))
    A(z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k < nnz), cnt(j, k + 1) == cnt(j, k) + z3.If(i[k] == j, 1, 0)), patterns=[MP(cnt(j, k), i[k])]))
    A(z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k <= nnz), z3.And(cnt(j, k) >= 0, cnt(j, k) <= k, cnt(j, k) <= cnt(j, nnz))), patterns=[cnt(j, k)]))
    A(z3.ForAll([j, k], z3.Implies(z3.Or(j < 0, j >= m), cnt(j, k) == 0), patterns=[cnt(j, k)]))
    A(st(0) == 0); A(st(m) == nnz); A(st(m + 1) == nnz)
    A(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= m), z3.And(st(j) >= 0, st(j) <= nnz)), patterns=[st(j)]))
    A(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= m), z3.And(st(j + 1) == st(j) + cnt(j, nnz), st(j + 1) <= nnz)), patterns=[cnt(j, nnz)]))
    A(z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k < nnz, i[k] == j), z3.And(cnt(j, k) < cnt(j, nnz), st(j) + cnt(j, k) < nnz, inv(st(j) + cnt(j, k)) == k)), patterns=[MP(cnt(j, k), i[k], st(j))]))
    A(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < nnz), z3.And(inv(k) >= 0, inv(k) < nnz, st(i[inv(k)]) + cnt(i[inv(k)], inv(k)) == k)), patterns=[inv(k)]))
    c.v['pos'] = lambda k: st(i[k]) + cnt(i[k], k)
def dpall(c, f): return c.forall(0, c['ns'] + 1, lambda j: c['dp'][j] == f(j), pat=lambda j: c['dp'][j])
def stored(c, k, vals):
    """all places whose entry is below k are filled"""
    inv = c['inv']
    g = lambda q, b: c.implies(inv(q) < k, b)
    r = [c.forall(0, c['nnz'], lambda q: g(q, c['di'][q] == c['line'](inv(q))), pat=lambda q: c['di'][q])]
    if vals: r.append(c.forall(0, c['nnz'], lambda q: g(q, c['dv'][q] == c['v'][inv(q)]), pat=lambda q: c['dv'][q]))
    return c.And(*r)
def counting_templates(vals=True):
    C, S = (lambda c, j, k: c['cnt'](j, k)), (lambda c, j: c['start'](j))
    N = lambda c: c['nnz']
    return [("zero", "i", lambda c, a: c.forall(0, a, lambda j: c['dp'][j] == 0, pat=lambda j: c['dp'][j])),
            ("count", "i", lambda c, k: dpall(c, lambda j: C(c, j, k))),
            ("sum", "i", lambda c, a: dpall(c, lambda j: c.ite(j < a, S(c, j), C(c, j, N(c))))), ("curr", "ii", lambda c, a, s: s == S(c, a)),
            ("rng", "ii", lambda c, a, k: c.And(k >= c["p"][a], k <= c["p"][a + 1], a >= 0, a < c['np'])),
            ("lines", "i", lambda c, a: dpall(c, lambda j: S(c, j) + C(c, j, c['p'][a]))), ("entries", "i", lambda c, k: dpall(c, lambda j: S(c, j) + C(c, j, k))),
            ("storedl", "i", lambda c, a: stored(c, c['p'][a], vals)), ("storede", "i", lambda c, k: stored(c, k, vals)),
            ("shift", "i", lambda c, a: dpall(c, lambda j: c.ite(j < a, S(c, j), S(c, j) + C(c, j, N(c))))), ("all", "", lambda c: stored(c, N(c), vals))]
def counting_post(c, vals='v'):
    if c.symbolic:
        c.ensure("every line starts behind the entries of the lines before it", dpall(c, lambda j: c['start'](j)))
        c.ensure("every entry is stored at its place", c.forall(0, c['nnz'], lambda q: c.And(c['di'][q] == c['line'](c['inv'](q)), c['dv'][q] == c[vals][c['inv'](q)]), pat=lambda q: c['di'][q])); return
    p, i = list(c['p'].old), list(c['i'].old); ent = [(l, i[k], k) for l in range(c['np']) for k in range(p[l], p[l + 1])]
    check(c, ent, 'C', c['np'], c['ns'], vals)
for o in "RC":
    def pre(c, o=o):
        ssrc(c); L(c, 'nnz_', c['nnz'])
        a, b = (c['np'], c['ns']) if o == 'R' else (c['ns'], c['np']); L(c, 'r_', a); L(c, 'c_', b); c.cint('o', ord(o)); c.arr('dp', 'i32', c['ns'] + 1); c.arr('di', 'i32', c['nnz']); c.arr('dv', 'f64', c['nnz']); c.cint('od', ord(OT[o])); counting(c)
    CONTRACTS.append(Contract(f"convert {o} to {OT[o]}, any size", H, "v_cvt", pre, counting_post, mode='smt', templates=counting_templates(), under=["espreso::math::operations::convert_csx_csy"], opts=dict(noerror=True, cost=9, nombqi=True, limit=300, houdini_ms=30000)))
def map_templates():
    M = lambda c, A, k: c.forall(0, c['nnz'], lambda q: c.implies(c['inv'](q) < k, A[q] == c['inv'](q)), pat=lambda q: A[q])
    vals = lambda w: (f"vals_{w}", "i", lambda c, a: c.forall(0, a, lambda q: c['dv'][q] == c[w][c['inv'](q)], pat=lambda q: c['dv'][q]))
    return counting_templates(False) + [("mapl", "iH", lambda c, a, A: M(c, A, c['p'][a])), ("mape", "iH", lambda c, k, A: M(c, A, k)), vals('v'), vals('w')]
for o in "RC":
    for fn, nm, und in (("v_cvtm", f"convert {o} to {OT[o]} with map, any size", "convert_csx_csy_map"), ("v_trm", f"transpose {o} with map, any size", "transpose_csx_csx_map")):
        def pre(c, o=o, fn=fn):
            ssrc(c); L(c, 'nnz_', c['nnz']); a, b = (c['np'], c['ns']) if o == 'R' else (c['ns'], c['np']); L(c, 'r_', a); L(c, 'c_', b); c.cint('o', ord(o)); c.arr('dp', 'i32', c['ns'] + 1); c.arr('di', 'i32', c['nnz']); c.arr('dv', 'f64', c['nnz'])
            if fn == "v_cvtm": c.cint('od', ord(OT[o]))
            c.arr('w', 'f64', c['nnz'], ro=True); counting(c)
        CONTRACTS.append(Contract(nm, H, fn, pre, lambda c: counting_post(c, 'w'), mode='smt', templates=map_templates(), under=["espreso::math::operations::" + und], opts=dict(noerror=True, cost=9, nombqi=True, limit=300, houdini_ms=3000)))
# ---- any size: the destination lines are lists of pieces of source lines
def gather(c, name, n, src, length):
    """first(q): place of the first entry of destination line q; lines consist of length(q) entries"""
    import z3
    f = c.ghost(name, 1); q, t = z3.Ints('q_g t_g')
    c.require(f(0) == 0); c.require(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q + 1) == f(q) + length(q)), patterns=[f(q)] if src is None else [src(q)]))
    c.require(z3.ForAll([q, t], z3.Implies(z3.And(q >= 0, q <= t, t <= n), f(q) <= f(t)), patterns=[MP(f(q), f(t))]))
    c.require(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= n), z3.And(f(q) >= 0, f(q) <= f(n))), patterns=[f(q)]))
    c.require(z3.And(f(n) >= 0, f(n) <= BIG))
    return f
class Gather:
    """di, dv of line q hold src(q) .. of the source, indices shifted"""
    def __init__(s, N, first, lo, shift=0): s.N, s.first, s.lo, s.shift = N, first, lo, shift
    def piece(s, c, q, a, b):
        """entries a..b of the destination, part of line q"""
        sh = s.shift(c) if callable(s.shift) else s.shift; f = s.first(c)(q)
        return c.And(c.forall(a, b, lambda z: c['di'][z] == c['i'][s.lo(c, q) + z - f] - sh, pat=lambda z: c['di'][z]), c.forall(a, b, lambda z: c['dv'][z] == c['v'][s.lo(c, q) + z - f], pat=lambda z: c['dv'][z]))
    def lines(s, c, n):
        sh = s.shift(c) if callable(s.shift) else s.shift; f = s.first(c)
        return c.And(c.forall(0, n, lambda q: c['dp'][q] == f(q), pat=lambda q: c['dp'][q]),
                     c.forall2(0, n, lambda q: f(q), lambda q: f(q + 1), lambda q, z: c['di'][z] == c['i'][s.lo(c, q) + z - f(q)] - sh, pat=lambda q, z: MP(f(q), c['di'][z])),
                     c.forall2(0, n, lambda q: f(q), lambda q: f(q + 1), lambda q, z: c['dv'][z] == c['v'][s.lo(c, q) + z - f(q)], pat=lambda q, z: MP(f(q), c['dv'][z])))
    def templates(s):
        f = s.first
        return [("lines", "i", lambda c, a: s.lines(c, a)), ("at", "ii", lambda c, a, k: c.And(k == f(c)(a), a >= 0, a <= c[s.N])),
                ("piece", "ii", lambda c, a, k: c.And(s.lines(c, a), c['dp'][a] == f(c)(a), k >= f(c)(a), k <= f(c)(a + 1), s.piece(c, a, f(c)(a), k))),
                ("sync", "iii", lambda c, a, k, l: l - s.lo(c, a) == k - f(c)(a))]
    def post(s, c):
        n = c[s.N]; c.ensure("every line holds exactly its entries", s.lines(c, n)); c.ensure("the last pointer is the number of entries", c['dp'][n] == s.first(c)(n))
for o in "RC":
    def pre(c, o=o):
        ssrc(c); L(c, 'nnz_', c['nnz']); a, b = (c['np'], c['ns']) if o == 'R' else (c['ns'], c['np']); L(c, 'r_', a); L(c, 'c_', b); c.cint('o', ord(o)); c.arr('dp', 'i32', c['np'] + 1); c.arr('di', 'i32', c['nnz']); c.arr('dv', 'f64', c['nnz'])
        n = c['np']; gen = lambda rng, k, cc: rng.sample(range(k), k)
        for x, sz in (('rd', a), ('cd', b)):
            mine = (x == 'rd') == (o == 'R')
            if mine: pm = c.arr('pm', 'i32', n, ro=True, gen=gen)
            else: c.arr('x' + x, 'i32', 1, ro=True)
            c.arr('y' + x, 'i32', 1, ro=True)
        c.cint('mr', int(o == 'R')); c.cint('mc', int(o == 'C'))
        if not c.symbolic: c.require(sorted(pm.old) == list(range(n))); return
        c.require(c.forall(0, n, lambda q: c.And(pm[q] >= 0, pm[q] < n), pat=lambda q: pm[q]))
        f = gather(c, 'first', n, lambda q: pm[q], lambda q: c['p'][pm[q] + 1] - c['p'][pm[q]]); c.require(f(n) == c['nnz'])
    G = Gather('np', lambda c: c['first'], lambda c, q: c['p'][c['pm'][q]])
    def post(c, o=o, G=G):
        if c.symbolic: return G.post(c)
        p, i = list(c['p'].old), list(c['i'].old); s2d = {x: k for k, x in enumerate(c['pm'].old)}; ent = [(s2d[l], i[k], k) for l in range(c['np']) for k in range(p[l], p[l + 1])]
        check(c, ent, 'R', c['np'], c['ns'])
    CONTRACTS.append(Contract(f"permute the lines of {o}, any size", H, "v_perm", pre, post, mode='smt', templates=G.templates(), under=["espreso::math::operations::permute_csx_csx"], opts=dict(noerror=True, cost=9, nombqi=True, limit=300, houdini_ms=5000)))
def swindow(c, o):
    """source with ascending lines and a window: lines p0..p1, indices s0..s1"""
    ssrc(c); n, m, p, i = c['np'], c['ns'], c['p'], c['i']
    lo = lambda a, k: (lambda rng, cc: rng.randint(cc[a] if isinstance(a, str) else a, cc[k]))
    p1 = c.int('p1', 0, BIG, w=64, arg=False, gen=lo(0, 'np')); p0 = c.int('p0', 0, BIG, w=64, arg=False, gen=lo(0, 'p1')); s1 = c.int('s1', 0, BIG, w=64, arg=False, gen=lo(0, 'ns')); s0 = c.int('s0', 0, BIG, w=64, arg=False, gen=lo(0, 's1'))
    c.require(c.And(p0 <= p1, p1 <= n, s0 <= s1, s1 <= m))
    if not c.symbolic:
        c.require(all(i.old[k - 1] < i.old[k] for q in range(n) for k in range(p.old[q] + 1, p.old[q + 1])))
        c.v['W'] = [(q - p0, i.old[k] - s0, k) for q in range(p0, p1) for k in range(p.old[q], p.old[q + 1]) if s0 <= i.old[k] < s1]; c.v['on'] = len(c['W']); return
    import z3
    a, b = c.ghost('lo', 1), c.ghost('hi', 1); N = p1 - p0     # of the source line p0 + q
    c.require(c.forall(0, N, lambda q: c.And(p[p0 + q] <= a(q), a(q) <= b(q), b(q) <= p[p0 + q + 1]), pat=lambda q: a(q)))
    c.require(c.forall2(0, N, lambda q: p[p0 + q], lambda q: p[p0 + q + 1], lambda q, k: c.And((i[k] < s0) == (k < a(q)), (i[k] < s1) == (k < b(q))), pat=lambda q, k: MP(a(q), i[k])))
    c.v['N'] = N; f = gather(c, 'first', N, a, lambda q: b(q) - a(q)); c.v['on'] = f(N)
class Window(Gather):
    def templates(s):
        f, P = s.first, lambda c, a: a - c['p0']; lo, hi = (lambda c, a: c['lo'](a)), (lambda c, a: c['hi'](a))
        return [("lines", "i", lambda c, a: s.lines(c, P(c, a))), ("at", "ii", lambda c, a, k: c.And(k == f(c)(P(c, a)), a >= c['p0'], a <= c['p1'])),
                ("skip", "ii", lambda c, a, k: c.And(k >= c['p'][a], k <= lo(c, P(c, a)), a >= c['p0'], a < c['p1'])), ("copy", "ii", lambda c, a, k: c.And(k >= lo(c, P(c, a)), k <= hi(c, P(c, a)), a >= c['p0'], a < c['p1'])),
                ("sync", "iii", lambda c, a, k, l: l - lo(c, P(c, a)) == k - f(c)(P(c, a))),
                ("piece", "ii", lambda c, a, k: c.And(s.lines(c, P(c, a)), c['dp'][P(c, a)] == f(c)(P(c, a)), k >= f(c)(P(c, a)), k <= f(c)(P(c, a) + 1), s.piece(c, P(c, a), f(c)(P(c, a)), k)))]
for o in "RC":
    def pre(c, o=o):
        swindow(c, o); L(c, 'nnz_', c['nnz']); a, b = (c['np'], c['ns']) if o == 'R' else (c['ns'], c['np']); L(c, 'r_', a); L(c, 'c_', b); c.cint('o', ord(o))
        c.arr('dp', 'i32', c['p1'] - c['p0'] + 1); c.arr('di', 'i32', c['on']); c.arr('dv', 'f64', c['on']); c.arr('nz', 'i64', 1, out=True); c.cint('od', ord(o))
        w = [c[k] for k in (('p0', 'p1', 's0', 's1') if o == 'R' else ('s0', 's1', 'p0', 'p1'))]
        for k, x in zip(('r0', 'r1', 'c0', 'c1'), w): L(c, k, x)
    G = Window('N', lambda c: c['first'], lambda c, q: c['lo'](q), lambda c: c['s0'])
    def post(c, o=o, G=G):
        c.eq("announced entries", c['nz'][0], c['on'])
        if c.symbolic: return G.post(c)
        check(c, c['W'], 'R', c['p1'] - c['p0'], c['s1'] - c['s0'])
    CONTRACTS.append(Contract(f"window of {o} in the same order, any size", H, "v_sub", pre, post, mode='smt', templates=G.templates(), under=["espreso::math::operations::submatrix_csx_csy"], opts=dict(noerror=True, cost=9, nombqi=True, limit=300, houdini_ms=5000)))
def wcounting(c):
    """counting sort of the entries inside the window: cnt(j, k) counts selected l < k with index j + s0"""
    if not c.symbolic: return
    import z3
    i, p, nnz, on, p0, s0 = c['i'], c['p'], c['nnz'], c['on'], c['p0'], c['s0']; m = c['s1'] - s0; N = c['N']
    cnt, st, inv, ln = c.ghost('cnt', 2), c.ghost('start', 1), c.ghost('inv', 1), c['line']; A = c.require
    j, k, q = z3.Ints('j_c k_c q_c'); tot = lambda j: cnt(j, nnz); lo, hi = c['lo'], c['hi']
    sel = lambda k: z3.And(ln(k) >= p0, ln(k) < c['p1'], k >= lo(ln(k) - p0), k < hi(ln(k) - p0))
    A(z3.ForAll([j], z3.And(cnt(j, 0) == 0, cnt(j, p[p0]) == 0), patterns=[cnt(j, 0)])); A(z3.ForAll([j], cnt(j, p[p0]) == 0, patterns=[cnt(j, p[p0])]))
    A(z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k < nnz), cnt(j, k + 1) == cnt(j, k) + z3.If(z3.And(sel(k), i[k] - s0 == j), 1, 0)), patterns=[MP(cnt(j, k), i[k])]))
    A(z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k <= nnz), z3.And(cnt(j, k) >= 0, cnt(j, k) <= k, cnt(j, k) <= tot(j))), patterns=[cnt(j, k)]))
    A(z3.ForAll([j, q], z3.Implies(z3.And(q >= 0, q < N), z3.And(cnt(j, lo(q)) == cnt(j, p[p0 + q]), cnt(j, hi(q)) == cnt(j, p[p0 + q + 1]))), patterns=[MP(cnt(j, lo(q)), lo(q)), MP(cnt(j, hi(q)), hi(q)), MP(cnt(j, p[p0 + q]), lo(q))]))
    A(z3.ForAll([j], cnt(j, p[c['p1']]) == tot(j), patterns=[tot(j), cnt(j, p[c['p1']])]))
    A(z3.ForAll([j, k], z3.Implies(z3.Or(j < 0, j >= m), cnt(j, k) == 0), patterns=[cnt(j, k)]))
    A(st(0) == 0); A(st(m) == on); A(st(m + 1) == on)
    A(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= m), z3.And(st(j) >= 0, st(j) <= on)), patterns=[st(j)]))
    A(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j <= m), z3.And(st(j + 1) == st(j) + tot(j), st(j + 1) <= on)), patterns=[tot(j)]))
    A(z3.ForAll([j, k], z3.Implies(z3.And(k >= 0, k < nnz, sel(k), i[k] - s0 == j), z3.And(cnt(j, k) < tot(j), st(j) + cnt(j, k) < on, inv(st(j) + cnt(j, k)) == k)), patterns=[MP(cnt(j, k), i[k], st(j))]))
    A(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < on), z3.And(inv(k) >= 0, inv(k) < nnz, sel(inv(k)), st(i[inv(k)] - s0) + cnt(i[inv(k)] - s0, inv(k)) == k)), patterns=[inv(k)]))
def wdp(c, f): return c.forall(0, c['s1'] - c['s0'] + 1, lambda j: c['dp'][j] == f(j), pat=lambda j: c['dp'][j])
def wstored(c, k, vals):
    inv = c['inv']
    r = [c.forall(0, c['on'], lambda q: c.implies(inv(q) < k, c['di'][q] == c['line'](inv(q)) - c['p0']), pat=lambda q: c['di'][q])]
    if vals: r.append(c.forall(0, c['on'], lambda q: c.implies(inv(q) < k, c['dv'][q] == c['v'][inv(q)]), pat=lambda q: c['dv'][q]))
    return c.And(*r)
def wtemplates(vals=True):
    C, S = (lambda c, j, k: c['cnt'](j, k)), (lambda c, j: c['start'](j)); N = lambda c: c['nnz']; P = lambda c, a: a - c['p0']
    lo, hi = (lambda c, a: c['lo'](P(c, a))), (lambda c, a: c['hi'](P(c, a))); inw = lambda c, a: c.And(a >= c['p0'], a < c['p1'])
    M = lambda c, A, k: c.forall(0, c['on'], lambda q: c.implies(c['inv'](q) < k, A[q] == c['inv'](q)), pat=lambda q: A[q])
    V = lambda w: (f"vals_{w}", "i", lambda c, a: c.forall(0, a, lambda q: c['dv'][q] == c[w][c['inv'](q)], pat=lambda q: c['dv'][q]))
    return [("at", "ii", lambda c, a, k: c.And(k == c['first'](P(c, a)), a >= c['p0'], a <= c['p1'])), ("skip", "ii", lambda c, a, k: c.And(k >= c['p'][a], k <= lo(c, a), inw(c, a))), ("copy", "ii", lambda c, a, k: c.And(k >= lo(c, a), k <= hi(c, a), inw(c, a))),
            ("sync", "iii", lambda c, a, k, l: c.And(inw(c, a), l - lo(c, a) == k - c['first'](P(c, a)))),
            ("zero", "i", lambda c, a: c.forall(0, a, lambda j: c['dp'][j] == 0, pat=lambda j: c['dp'][j])),
            ("countl", "i", lambda c, a: wdp(c, lambda j: C(c, j, c['p'][a]))), ("counte", "i", lambda c, k: wdp(c, lambda j: C(c, j, k))),
            ("sum", "i", lambda c, a: wdp(c, lambda j: c.ite(j < a, S(c, j), C(c, j, N(c))))), ("curr", "ii", lambda c, a, s: s == S(c, a)),
            ("lines", "i", lambda c, a: wdp(c, lambda j: S(c, j) + C(c, j, c['p'][a]))), ("entries", "i", lambda c, k: wdp(c, lambda j: S(c, j) + C(c, j, k))),
            ("storedl", "i", lambda c, a: wstored(c, c['p'][a], vals)), ("storede", "i", lambda c, k: wstored(c, k, vals)),
            ("shift", "i", lambda c, a: wdp(c, lambda j: c.ite(j < a, S(c, j), S(c, j) + C(c, j, N(c))))), ("all", "", lambda c: wstored(c, N(c), vals))] + ([] if vals else [("mapl", "iH", lambda c, a, A: M(c, A, c['p'][a])), ("mape", "iH", lambda c, k, A: M(c, A, k)), V('v'), V('w')])
for o in "RC":
    for mp in (0, 1):
        def pre(c, o=o, mp=mp):
            swindow(c, o); L(c, 'nnz_', c['nnz']); a, b = (c['np'], c['ns']) if o == 'R' else (c['ns'], c['np']); L(c, 'r_', a); L(c, 'c_', b); c.cint('o', ord(o))
            c.arr('dp', 'i32', c['s1'] - c['s0'] + 1); c.arr('di', 'i32', c['on']); c.arr('dv', 'f64', c['on']); c.arr('nz', 'i64', 1, out=True); c.cint('od', ord(OT[o]))
            w = [c[k] for k in (('p0', 'p1', 's0', 's1') if o == 'R' else ('s0', 's1', 'p0', 'p1'))]
            for k, x in zip(('r0', 'r1', 'c0', 'c1'), w): L(c, k, x)
            if mp: c.arr('w', 'f64', c['nnz'], ro=True)
            wcounting(c)
        def post(c, o=o, vals='w' if mp else 'v'):
            c.eq("announced entries", c['nz'][0], c['on'])
            if c.symbolic:
                c.ensure("every line starts behind the entries of the lines before it", wdp(c, lambda j: c['start'](j)))
                c.ensure("every entry is stored at its place", c.forall(0, c['on'], lambda q: c.And(c['di'][q] == c['line'](c['inv'](q)) - c['p0'], c['dv'][q] == c[vals][c['inv'](q)]), pat=lambda q: c['di'][q])); return
            check(c, c['W'], 'C', c['p1'] - c['p0'], c['s1'] - c['s0'], vals)
        CONTRACTS.append(Contract(f"window of {o} in the other order{' with map' if mp else ''}, any size", H, "v_subm" if mp else "v_sub", pre, post, mode='smt', templates=wtemplates(not mp), under=["espreso::math::operations::submatrix_csx_csy" + ("_map" if mp else "")], opts=dict(noerror=True, cost=9, nombqi=True, limit=900 if mp else 280, houdini_ms=5000, thorough=bool(mp))))
