"""Linear systems: patterns and positions of the entries, Dirichlet conditions, exchange between the decomposition and the cluster."""
import random
from dsl import Contract
CONTRACTS = []
H = "pattern.cpp"; A = "espreso::"
def world(c, rank=0, nprocs=1, neigh=(), ndof=None, msgs=(), caps=(1, 1, 1)):
    """the other processes; msgs: (source, kind, length, integers) in the order of arrival, doubles are symbolic"""
    c.cint('rank', rank); c.cint('nprocs', nprocs); c.consts('neigh', 'i32', list(neigh) or [0]); c.cint('nn', len(neigh)); c.consts('ndof', 'i32', list(ndof or [0] * (len(neigh) + 1)))
    c.cint('nmsg', len(msgs)); c.consts('src', 'i32', [m[0] for m in msgs] or [0]); c.consts('ln', 'i32', [m[2] for m in msgs] or [0]); c.consts('kd', 'i32', [m[1] for m in msgs] or [0])
    c.consts('gi', 'i32', [x for m in msgs for x in m[3]] or [0]); c.arr('gd', 'f64', sum(m[2] for m in msgs if m[1]), ro=True)
    c.arr('dst', 'i32', 2 * caps[0], out=True); c.arr('si', 'i32', caps[1], out=True); c.arr('sd', 'f64', caps[2], out=True); c.arr('nsent', 'i32', 3, out=True)
def sent(c, what):
    """what: (target, kind, length, integers, doubles)"""
    c.eq("messages sent", c['nsent'][0], len(what)); i = d = 0
    for k, (t, kd, n, ints, dbl) in enumerate(what):
        c.eq(f"target of message {k}", c['dst'][2 * k], t); c.eq(f"length of message {k}", c['dst'][2 * k + 1], n)
        for x in ints: c.eq(f"index {i} sent", c['si'][i], x); i += 1
        for x in dbl: c.eq(f"value {d} sent", c['sd'][d], x); d += 1
    c.eq("indices sent", c['nsent'][1], i); c.eq("values sent", c['nsent'][2], d)
# ---- Dirichlet conditions of the direct solvers
class Sys:
    """local lines of a structurally symmetric matrix: halo dofs (of preceding processes), then mine, columns are process-wide dofs"""
    def __init__(s, lines, halo, begin, fixed, rank=0, nprocs=1, neigh=(), ndof=None, recv=()):
        s.lines, s.halo, s.begin, s.fixed, s.rank, s.nprocs, s.neigh, s.ndof, s.recv = lines, halo, begin, sorted(fixed), rank, nprocs, neigh, ndof, recv
        s.n = len(lines); s.glob = list(halo) + [begin + i for i in range(s.n - len(halo))]; s.loc = {g: i for i, g in enumerate(s.glob)}
def dirpre(c, S):
    rows = [0]
    for l in S.lines: rows.append(rows[-1] + len(l))
    c.consts('rows', 'i32', rows); c.consts('cols', 'i32', [x for l in S.lines for x in l]); c.arr('vals', 'f64', rows[-1]); c.cint('nrows', S.n); c.consts('halo', 'i32', S.halo or [0]); c.cint('nhalo', len(S.halo)); c.cint('begin', S.begin)
    c.consts('fix', 'i32', S.fixed or [0]); c.cint('nfix', len(S.fixed)); c.arr('g', 'f64', len(S.fixed), ro=True); c.arr('b', 'f64', S.n)
    low = [p for p in S.neigh if p < S.rank]
    world(c, S.rank, S.nprocs, S.neigh, S.ndof, S.recv, (len(low) + 1, 2 * rows[-1] + 2, rows[-1] + 2))
def dirpost(c, S):
    A = {}; k = 0
    for r, l in enumerate(S.lines):
        for x in l: A[r, x] = c['vals'].old[k]; k += 1
    b = [c['b'].old[r] for r in range(S.n)]; W = dict(A); send = []
    for q, d in enumerate(S.fixed):
        g = c['g'].old[q]
        for r in range(S.n):
            if r in S.fixed or (r, S.glob[d]) not in A: continue
            if S.glob[r] not in S.lines[d]: continue
            b[r] = b[r] - A[r, S.glob[d]] * g; W[r, S.glob[d]] = 0
            if r < len(S.halo): send.append((S.glob[r], S.glob[d], A[r, S.glob[d]] * g))
        b[d] = g
        for x in S.lines[d]: W[d, x] = 1 if x == S.glob[d] else 0
    # contributions of the succeeding processes for columns which are not here
    di = 0
    for s, kd, n, ints in S.recv:
        for i in range(n):
            r, x = ints[2 * i], ints[2 * i + 1]
            if x not in S.loc: b[S.loc[r]] = b[S.loc[r]] - c['gd'].old[di + i]; W[S.loc[r], x] = 0
        di += n
    k = 0
    for r, l in enumerate(S.lines):
        for x in l: c.eq(f"A[{r}, {x}]", c['vals'][k], W[r, x]); k += 1
    for r in range(S.n): c.eq(f"b[{r}]", c['b'][r], b[r])
    out = []
    for n, p in enumerate(S.neigh):
        if p < S.rank:
            m = sorted([x for x in send if S.ndof[n] <= x[0] < S.ndof[n + 1]], key=lambda x: x[:2]); out.append((p, 2, len(m), [y for x in m for y in x[:2]], [x[2] for x in m]))
    sent(c, out)
def mesh_lines(rng, n, ne, size):
    """lines of the matrix of a mesh of ne elements with up to size of n dofs"""
    L = [{i} for i in range(n)]
    for _ in range(ne):
        e = rng.sample(range(n), rng.randint(1, min(size, n)))
        for i in e: L[i] |= set(e)
    return [sorted(l) for l in L]
R = random.Random(3)
SYS = [Sys([[0, 1], [0, 1]], [], 0, []), Sys([[0, 1], [0, 1]], [], 0, [0]), Sys([[0, 1], [0, 1]], [], 0, [0, 1]), Sys([[0]], [], 0, [0])]
for k in range(14):
    n = R.randint(3, 8); SYS.append(Sys(mesh_lines(R, n, R.randint(2, 6), 4), [], 0, [i for i in range(n) if R.random() < .35]))
def part(rng, n, nproc, fixed, maxe):
    """process `rank` of a distributed mesh: dofs are owned in consecutive ranges; its elements touch dofs of preceding processes (halo), its own and those of succeeding ones"""
    cut = sorted(rng.sample(range(1, n), nproc - 1)); own = [0] + cut + [n]; rank = rng.randint(0, nproc - 1)
    E = [rng.sample(range(n), rng.randint(2, min(4, n))) for _ in range(maxe)]
    owner = lambda d: max(p for p in range(nproc) if own[p] <= d)
    return own, rank, E, owner
def distributed(rng):
    while True:
        nproc = rng.randint(2, 3); n = rng.randint(nproc + 2, 10); cut = sorted(rng.sample(range(1, n), nproc - 1)); own = [0] + cut + [n]; rank = rng.randint(0, nproc - 1)
        owner = lambda d: max(p for p in range(nproc) if own[p] <= d)
        # elements are on processes: every dof belongs to the lowest process with an element of it
        E = [(p, rng.sample(range(n), rng.randint(1, min(4, n)))) for p in range(nproc) for _ in range(rng.randint(1, 4))]
        has = {d: sorted({p for p, e in E if d in e} | {owner(d)}) for d in range(n)}
        if any(has[d][0] != owner(d) for d in range(n)): continue
        L = [{i} for i in range(n)]
        for p, e in E:
            for i in e: L[i] |= set(e)
        mine = [d for d in range(n) if owner(d) == rank]; halo = [d for d in range(n) if rank in has[d] and owner(d) < rank]
        neigh = sorted({p for d in range(n) if rank in has[d] for p in has[d]} - {rank})
        if not neigh: continue
        fixed = [d for d in range(n) if rng.random() < .35]; loc = halo + mine
        recv = []
        ups = [p for p in neigh if p > rank]; rng.shuffle(ups)
        for p in ups:
            here = [d for d in range(n) if p in has[d]]; m = []
            for d in fixed:
                if d not in here: continue
                for r in L[d]:
                    if r != d and r in here and r not in fixed and owner(r) == rank: m.append((r, d))
            m.sort(); recv.append((p, 2, len(m), [y for x in m for y in x]))
        return Sys([sorted(L[d]) for d in loc], halo, own[rank], [i for i, d in enumerate(loc) if d in fixed], rank, nproc, neigh, [own[p] for p in neigh] + [own[rank]], recv)
for k in range(16): SYS.append(distributed(R))
O = dict(cost=6)
for k, S in enumerate(SYS):
    CONTRACTS.append(Contract(f"Dirichlet conditions of a direct system, {'process %d of %d' % (S.rank, S.nprocs) if S.nprocs > 1 else 'one process'}, {k}", H, "v_dir", lambda c, S=S: dirpre(c, S), lambda c, S=S: dirpost(c, S), under=[A + "DirectLinearSystemSolver::setDirichlet"], opts=O))
# ---- lines of the halo are added to their owners, owners give their values to the halos of the others
class World:
    """dofs 0..n-1 owned in consecutive ranges by processes, each by the lowest process that has it; `has[d]`: processes with the dof; `lines[d]`: columns"""
    def __init__(s, rng, nproc=None, maxn=10):
        while True:
            s.nproc = nproc or rng.randint(2, 4); n = s.n = rng.randint(s.nproc + 2, max(maxn, s.nproc + 3)); s.own = [0] + sorted(rng.sample(range(1, n), s.nproc - 1)) + [n]
            s.owner = lambda d: max(p for p in range(s.nproc) if s.own[p] <= d)
            s.E = [(p, rng.sample(range(n), rng.randint(1, min(4, n)))) for p in range(s.nproc) for _ in range(rng.randint(1, 4))]
            s.has = {d: sorted({p for p, e in s.E if d in e} | {s.owner(d)}) for d in range(n)}
            if any(s.has[d][0] != s.owner(d) for d in range(n)): continue
            s.lines = [{i} for i in range(n)]
            for p, e in s.E:
                for i in e: s.lines[i] |= set(e)
            s.lines = [sorted(l) for l in s.lines]
            # processes without a neighbor are not interesting
            if all(s.neigh(p) for p in range(s.nproc)): break
    def neigh(s, p): return sorted({q for d in range(s.n) if p in s.has[d] for q in s.has[d]} - {p})
    def halo(s, p): return [d for d in range(s.n) if p in s.has[d] and s.owner(d) < p]
    def mine(s, p): return list(range(s.own[p], s.own[p + 1]))
    def shared(s, p, q): return [d for d in range(s.n) if p in s.has[d] and q in s.has[d]]
    def ndof(s, p): return [s.own[q] for q in s.neigh(p)] + [s.own[p]]
def shuffled(rng, l): l = list(l); rng.shuffle(l); return l
def recvup(W, p, size, ints, rng):
    """a message of every succeeding neighbor: its halo owned here"""
    return [(q, size(q), [d for d in W.halo(q) if W.owner(d) == p]) for q in shuffled(rng, [q for q in W.neigh(p) if q > p])]
def base(c, W, p, msgs, caps):
    h = W.halo(p); c.consts('halo', 'i32', h or [0]); c.cint('nhalo', len(h)); c.cint('begin', W.own[p]); return lambda: world(c, p, W.nproc, W.neigh(p), W.ndof(p), msgs, caps)
def syncpre(c, W, p, rng, twice=0):
    loc = W.halo(p) + W.mine(p); rows = [0]
    for d in loc: rows.append(rows[-1] + len(W.lines[d]))
    c.consts('rows', 'i32', rows); c.consts('cols', 'i32', [x for d in loc for x in W.lines[d]]); c.arr('vals', 'f64', rows[-1]); c.cint('nrows', len(loc))
    up = [(q, [d for d in W.halo(q) if W.owner(d) == p]) for q in shuffled(rng, [q for q in W.neigh(p) if q > p])]
    m = []
    for q, ds in up: l = [x for d in ds for x in [d, len(W.lines[d])] + W.lines[d]]; m.append((q, 0, len(l), l))
    up = shuffled(rng, up); m += [(q, 1, sum(len(W.lines[d]) for d in ds), []) for q, ds in up]; c.up = up
    w = base(c, W, p, m, (2 * len(W.neigh(p)) + 1, 3 * rows[-1] + 9, rows[-1] + 2)); c.cint('twice', twice); w()
def syncpost(c, W, p):
    h, mine = W.halo(p), W.mine(p); loc = h + mine; add = {}; k = 0
    for q, ds in c.up:
        for d in ds:
            for x in W.lines[d]: add.setdefault((d, x), []).append(c['gd'].old[k]); k += 1
    k = 0
    for d in loc:
        for x in W.lines[d]:
            v = c['vals'].old[k]
            for a in add.get((d, x), []) if d in mine else []: v = v + a
            c.eq(f"A[{d}, {x}]", c['vals'][k], v); k += 1
    low = [q for q in W.neigh(p) if q < p]; pat = []; val = []; k = 0
    for q in low:
        ds = [d for d in h if W.owner(d) == q]; l = [x for d in ds for x in [d, len(W.lines[d])] + W.lines[d]]; n = sum(len(W.lines[d]) for d in ds)
        pat.append((q, 0, len(l), l, [])); val.append((q, 1, n, [], [c['vals'].old[k + i] for i in range(n)])); k += n
    sent(c, pat + val)
R = random.Random(11); O = dict(cost=4)
for k in range(10):
    W = World(R)
    for p in range(W.nproc): CONTRACTS.append(Contract(f"sum of the shared lines of a matrix, world {k} process {p} of {W.nproc}", H, "v_sync", lambda c, W=W, p=p, k=k: syncpre(c, W, p, random.Random(k), k % 3 == 0), lambda c, W=W, p=p: syncpost(c, W, p), under=[A + "MatrixUniformDirect::Sync::init", A + "MatrixUniformDirect::Sync::gatherFromUpper"], opts=O))
def vecmsgs(W, p, rng, gather, scatter, c):
    up = [(q, [d for d in W.halo(q) if W.owner(d) == p]) for q in shuffled(rng, [q for q in W.neigh(p) if q > p])]; m = [(q, 0, len(ds), ds) for q, ds in up]
    c.up = c.down = []
    if gather: c.up = shuffled(rng, up); m += [(q, 1, len(ds), []) for q, ds in c.up]
    if scatter: c.down = [(q, [d for d in W.halo(p) if W.owner(d) == q]) for q in W.neigh(p) if q < p]; m += [(q, 1, len(ds), []) for q, ds in c.down]
    return m
def vsyncpre(c, W, p, rng, op):
    loc = W.halo(p) + W.mine(p); c.arr('vals', 'f64', len(loc)); c.cint('nrows', len(loc)); m = vecmsgs(W, p, rng, op & 5, op & 14, c); n = len(W.neigh(p)); w = base(c, W, p, m, (3 * n + 1, n * len(loc) + 4, 2 * n * len(loc) + 4)); c.cint('op', op); w()
def vecsync(c, W, p, v, op, k=0):
    """values after the exchange and the messages"""
    h, mine = W.halo(p), W.mine(p); loc = h + mine; at = {d: i for i, d in enumerate(loc)}; v = list(v); low = [q for q in W.neigh(p) if q < p]
    own = lambda q: [d for d in h if W.owner(d) == q]
    out = [(q, 0, len(own(q)), own(q), []) for q in low]
    if op & 5:
        out += [(q, 1, len(own(q)), [], [v[at[d]] for d in own(q)]) for q in low]
        for q, ds in c.up:
            for d in ds: v[at[d]] = v[at[d]] + c['gd'].old[k]; k += 1
    if op & 14:
        for q in W.neigh(p):
            ds = [d for d in W.halo(q) if W.owner(d) == p]
            if q > p: out.append((q, 1, len(ds), [], [v[at[d]] for d in ds]))
        for q, ds in c.down:
            for d in ds: v[at[d]] = c['gd'].old[k]; k += 1
    return v, out
def vsyncpost(c, W, p, op):
    loc = W.halo(p) + W.mine(p); v, out = vecsync(c, W, p, [c['vals'].old[i] for i in range(len(loc))], op)
    for i, d in enumerate(loc): c.eq(f"x[{d}]", c['vals'][i], v[i])
    sent(c, out)
for fn, what, cl in (("v_vsync", "vector", "SyncVector"), ("v_msync", "matrix with one right-hand side", "SyncMatrix")):
    R = random.Random(fn)
    for k in range(6):
        W = World(R); op = (4, 1, 2, 8, 4, 4)[k]; nm = {4: "synchronize", 1: "gather", 2: "scatter", 8: "scatter of the vector"}[op]
        for p in range(W.nproc): CONTRACTS.append(Contract(f"{nm} {what}, world {k} process {p} of {W.nproc}", H, fn, lambda c, W=W, p=p, k=k, op=op: vsyncpre(c, W, p, random.Random(k), op), lambda c, W=W, p=p, op=op: vsyncpost(c, W, p, op), under=[A + f"VectorUniformDense::{cl}::{f}" for f in ("init", "gatherFromUpper", "scatterToUpper")], opts=O))
# ---- y = alpha * A * x + beta * y
def applypre(c, W, p, rng):
    h = W.halo(p); loc = h + W.mine(p); rows = [0]
    for d in loc: rows.append(rows[-1] + len(W.lines[d]))
    c.consts('rows', 'i32', rows); c.consts('cols', 'i32', [x for d in loc for x in W.lines[d]]); c.arr('vals', 'f64', rows[-1], ro=True); c.cint('nrows', len(loc)); n = len(W.neigh(p))
    # the vector is synchronized first, then neighbors of neighbors, then the values of the vector
    m = vecmsgs(W, p, rng, 0, 0, c)
    for q in shuffled(rng, W.neigh(p)): m.append((q, 3, len(W.neigh(q)), [y for r in W.neigh(q) for y in (r, W.own[r])]))
    nn = sorted({r for q in W.neigh(p) for r in W.neigh(q)} | set(W.neigh(p))); nn = [q for q in nn if q != p]; c.ext = []
    for q in nn: ds = sorted({d for d in W.mine(q) if any(d in W.lines[r] for r in W.mine(p))}); c.ext.append((q, ds)); m.append((q, 1, len(ds), []))
    c.down = [(q, [d for d in h if W.owner(d) == q]) for q in W.neigh(p) if q < p]; m += [(q, 1, len(ds), []) for q, ds in c.down]
    w = base(c, W, p, m, (4 * (n + len(nn)) + 4, 4 * W.n * (n + 1) * (n + 1), 2 * (n + len(nn)) * len(loc) + 4)); c.arr('x', 'f64', len(loc), ro=True); c.arr('y', 'f64', len(loc)); c.real('alpha'); c.real('beta'); w()
def applypost(c, W, p):
    h, mine = W.halo(p), W.mine(p); loc = h + mine; at = {d: i for i, d in enumerate(loc)}; x = {d: c['x'].old[at[d]] for d in mine}; k = 0
    for q, ds in c.ext:
        for d in ds: x[d] = c['gd'].old[k]; k += 1
    y = [c['y'].old[i] for i in range(len(loc))]; e = 0
    for d in loc:
        s = 0
        for col in W.lines[d]:
            if d in mine: s = s + c['vals'].old[e] * x[col]
            e += 1
        if d in mine: y[at[d]] = c['alpha'] * s + c['beta'] * y[at[d]]
    for q, ds in c.down:
        for d in ds: y[at[d]] = c['gd'].old[k]; k += 1
    for i, d in enumerate(loc): c.eq(f"y[{d}]", c['y'][i], y[i])
    own = lambda q: [d for d in h if W.owner(d) == q]
    out = [(q, 0, len(own(q)), own(q), []) for q in W.neigh(p) if q < p]; nb = [y for q in W.neigh(p) for y in (q, W.own[q])]; out += [(q, 3, len(W.neigh(p)), nb, []) for q in W.neigh(p)]
    for q, _ in c.ext: ds = [d for d in mine if any(d in W.lines[r] for r in W.mine(q))]; out.append((q, 1, len(ds), [], [c['x'].old[at[d]] for d in ds]))
    for q in W.neigh(p):
        if q > p: ds = [d for d in W.halo(q) if W.owner(d) == p]; out.append((q, 1, len(ds), [], [y[at[d]] for d in ds]))
    sent(c, out)
R = random.Random(23)
for k in range(8):
    W = World(R)
    for p in range(W.nproc): CONTRACTS.append(Contract(f"product of a distributed matrix, world {k} process {p} of {W.nproc}", H, "v_apply", lambda c, W=W, p=p, k=k: applypre(c, W, p, random.Random(k)), lambda c, W=W, p=p: applypost(c, W, p), under=[A + "MatrixUniformDirect::Apply::init", A + "MatrixUniformDirect::Apply::apply"], opts=O))
# ---- vectors of the domains and of the process
class Domains:
    """a world whose processes have domains; `map`: per local dof the domains (of all processes) with the indices of mine"""
    def __init__(s, rng, W, p):
        s.W, s.p = W, p; nd = [rng.randint(1, 3) for _ in range(W.nproc)]; off = [sum(nd[:q]) for q in range(W.nproc + 1)]; s.b, s.n = off[p], nd[p]; s.loc = W.halo(p) + W.mine(p); s.map = []; size = [0] * s.n
        for d in s.loc:
            ds = sorted(x for q in W.has[d] for x in rng.sample(range(off[q], off[q + 1]), rng.randint(1, nd[q]))); l = []
            for x in ds:
                if s.b <= x < s.b + s.n: l.append((x, size[x - s.b])); size[x - s.b] += 1
                else: l.append((x, -1))
            s.map.append(l)
        s.size = size; s.off = [sum(size[:i]) for i in range(s.n + 1)]
    def at(s, x, i): return s.off[x - s.b] + i
def dompre(c, D, pre=()):
    dist = [0]
    for l in D.map: dist.append(dist[-1] + len(l))
    c.consts('dist', 'i32', dist); c.cint('nrows', len(D.map)); c.consts('mp', 'i32', [y for l in D.map for x in l for y in x]); c.cint('dbegin', D.b); c.cint('ndom', D.n); c.consts('dsize', 'i32', D.size)
OPS = ["distribute to the domains", "split to the domains", "copy from the domains", "add from the domains", "sum of the domains", "average of the domains", "dot product of the domains", "store the domains", "set the domains"]
def fvpre(c, D, op, rng):
    c.cint('op', op); dompre(c, D); c.arr('f', 'f64', D.off[-1]); c.arr('x', 'f64', len(D.loc)); c.real('alpha'); W, p = D.W, D.p; n = len(W.neigh(p)); nl = len(D.loc)
    base(c, W, p, vecmsgs(W, p, rng, op in (4, 5), op in (4, 5), c), (3 * n + 1, n * nl + 4, 2 * n * nl + 4))()
def fvpost(c, D, op):
    W, p = D.W, D.p; f = [c['f'].old[i] for i in range(D.off[-1])]; x = [c['x'].old[i] for i in range(len(D.loc))]; out = None; dot = 0
    my = [[D.at(*y) for y in l if y[1] >= 0] for l in D.map]
    for i, l in enumerate(D.map):
        if op in (0, 8):
            for a in my[i]: f[a] = x[i]
        if op == 1:
            for a in my[i]: f[a] = x[i] / len(l)
        if op in (2, 7): x[i] = f[my[i][0]]
        if op == 3: x[i] = x[i] + c['alpha'] * f[my[i][0]]
        if op in (4, 5): x[i] = sum((f[a] for a in my[i][1:]), f[my[i][0]])
        if op == 6 and l[0][1] >= 0: dot = dot + f[D.at(*l[0])] * f[D.at(*l[0])]
    if op in (4, 5): x, out = vecsync(c, W, p, x, 4)
    else: x, out = vecsync(c, W, p, x, 0)
    if op == 5: x = [v / len(l) for v, l in zip(x, D.map)]
    for i in range(len(f)): c.eq(f"value {i} of the domains", c['f'][i], f[i])
    for i, d in enumerate(D.loc): c.eq(f"x[{d}]", c['x'][i], x[i])
    if op == 6: c.eq("dot product", c.ret, dot)
    sent(c, out)
R = random.Random(5)
for op in range(9):
    for k in range(5):
        W = World(R); p = R.randint(0, W.nproc - 1); D = Domains(R, W, p)
        fn = ["Vector_Distributed::copyTo", "Vector_Distributed::spliteTo", "Vector_FETI::copyTo", "Vector_FETI::addTo", "Vector_FETI::sumTo", "Vector_FETI::averageTo", "Vector_FETI::_dot", "Vector_FETI::storeTo", "Vector_FETI::setFrom"][op]
        CONTRACTS.append(Contract(f"{OPS[op]}, world {k} process {p} of {W.nproc}", H, "v_fvec", lambda c, D=D, op=op, k=k: fvpre(c, D, op, random.Random(k)), lambda c, D=D, op=op: fvpost(c, D, op), under=[A + fn], ret='f64', opts=O))
def fsppre(c, D, fix):
    dompre(c, D); c.arr('f', 'f64', D.off[-1], ro=True); c.consts('fix', 'i32', fix or [0]); c.cint('nfix', len(fix)); c.arr('x', 'f64', len(fix)); c.real('alpha')
def fsppost(c, D, fix):
    for i, r in enumerate(fix): c.eq(f"value {i}", c['x'][i], c['x'].old[i] + c['alpha'] * c['f'].old[D.at(*[y for y in D.map[r] if y[1] >= 0][0])])
for k in range(5):
    W = World(R); p = R.randint(0, W.nproc - 1); D = Domains(R, W, p); fix = sorted(R.sample(range(len(D.loc)), R.randint(0, len(D.loc))))
    CONTRACTS.append(Contract(f"add from the domains to the fixed dofs, world {k}", H, "v_fsp", lambda c, D=D, fix=fix: fsppre(c, D, fix), lambda c, D=D, fix=fix: fsppost(c, D, fix), under=[A + "Vector_FETI::addTo"], opts=O))
def fappre(c, D, pats, rng):
    dompre(c, D); rows = []; cols = []
    for P in pats:
        rows.append(0); k = 0
        for l in P: k += len(l); rows.append(k); cols += l
    c.consts('rows', 'i32', rows); c.consts('cols', 'i32', cols or [0]); c.arr('vals', 'f64', len(cols), ro=True); W, p = D.W, D.p; n = len(W.neigh(p)); nl = len(D.loc)
    c.arr('x', 'f64', nl, ro=True); c.arr('y', 'f64', nl); c.real('alpha'); c.real('beta'); base(c, W, p, vecmsgs(W, p, rng, True, True, c), (3 * n + 1, n * nl + 4, 2 * n * nl + 4))()
def fappost(c, D, pats):
    W, p = D.W, D.p; y = []; x = [c['x'].old[i] for i in range(len(D.loc))]; at = {a: i for i, l in enumerate(D.map) for a in l if a[1] >= 0}; r = [0] * len(D.loc); k = 0
    for d, P in enumerate(pats):
        for i, l in enumerate(P):
            s = 0
            for j in l: s = s + c['vals'].old[k] * x[at[D.b + d, j]]; k += 1
            r[at[D.b + d, i]] = r[at[D.b + d, i]] + c['alpha'] * s
    v, out = vecsync(c, W, p, r, 4)
    for i, d in enumerate(D.loc): c.eq(f"y[{d}]", c['y'][i], v[i] + c['beta'] * c['y'].old[i])
    sent(c, out)
for k in range(8):
    W = World(R, maxn=7); p = R.randint(0, W.nproc - 1); D = Domains(R, W, p); pats = [mesh_lines(R, n, R.randint(1, 3), 3) if n else [] for n in D.size]
    CONTRACTS.append(Contract(f"product of the matrices of the domains, world {k} process {p} of {W.nproc}", H, "v_fapply", lambda c, D=D, pats=pats, k=k: fappre(c, D, pats, random.Random(k)), lambda c, D=D, pats=pats: fappost(c, D, pats), under=[A + "MatrixUniformFETI::Apply::init", A + "MatrixUniformFETI::Apply::apply"], opts=O))
# ---- patterns of generated meshes (bounded: the meshes are generated, the code runs as it is)
def enc(l): return [len(l)] + list(l)
def encl(ls): return [len(ls)] + [y for l in ls for y in enc(l)]
class MeshOf:
    """the part of process p: its nodes (halo first), elements by intervals, domains, regions of the boundary"""
    def __init__(s, rng, W, p, nd=1):
        s.W, s.p = W, p; s.loc = W.halo(p) + W.mine(p); s.at = {d: i for i, d in enumerate(s.loc)}; s.els = [e for q, e in W.E if q == p]; s.nd = nd
        cut = sorted(rng.randint(0, len(s.els)) for _ in range(nd - 1)) if nd > 1 else []; s.dom = [0] + cut + [len(s.els)]; s.iv = []; s.ivd = [0]
        for d in range(nd):
            b, e = s.dom[d], s.dom[d + 1]; k = sorted({b, e} | {rng.randint(b, e)})
            s.iv += list(zip(k, k[1:])); s.ivd.append(len(s.iv))
        s.off = [q * nd for q in range(W.nproc + 1)]; s.regions = [(0, [], [], [], [0])]
        for r in range(rng.randint(0, 3)):
            dim = rng.randint(0, 2); E = [rng.sample(e, rng.randint(1, len(e))) for e in s.els if rng.random() < .5] if dim else []; k = sorted({0, len(E), rng.randint(0, len(E))}); nodes = rng.sample(range(len(s.loc)), rng.randint(0, len(s.loc))); t = sorted([0, len(nodes), rng.randint(0, len(nodes))])
            s.regions.append((dim, E, list(zip(k, k[1:])), nodes, t))
        # domains of the nodes: those with an element of the node, one of each other process that has it
        s.doms = []
        for d in s.loc:
            l = [x for q in W.has[d] if q != p for x in rng.sample(range(s.off[q], s.off[q + 1]), rng.randint(1, nd))]; l += [s.off[p] + x for x in range(nd) if any(d in e for e in s.els[s.dom[x]:s.dom[x + 1]])]; s.doms.append(sorted(l))
    def flat(s, dim=3):
        W, p, A = s.W, s.p, lambda e: [s.at[d] for d in e]; h = len(W.halo(p))
        f = enc([h, W.own[p], len(W.mine(p)), W.n, dim]) + enc(s.loc) + encl([W.has[d] for d in s.loc]) + encl(s.doms) + encl([A(e) for e in s.els]) + enc([y for x in s.iv for y in x]) + enc(s.ivd) + enc([s.off[p], s.nd, s.off[-1]]) + enc(s.dom) + [len(s.regions)]
        for dim, E, iv, nodes, t in s.regions: f += [dim] + encl([A(e) for e in E]) + enc([y for x in iv for y in x]) + enc(nodes) + enc(t)
        return f
def isolated(W): return any(W.owner(d) == p and not any(q == p and d in e for q, e in W.E) for p in range(W.nproc) for d in range(W.n))
def genmesh(rng, nproc=None, nd=1):
    while True:
        W = World(rng, nproc, 12) if (nproc or 2) > 1 else single(rng)
        if isolated(W): continue
        for _ in range(20):
            m = MeshOf(rng, W, rng.randint(0, W.nproc - 1), nd)
            if all(b < e for b, e in zip(m.dom, m.dom[1:])): return m
def single(rng):
    W = World.__new__(World); W.nproc = 1; n = W.n = rng.randint(1, 12); W.own = [0, n]; W.owner = lambda d: 0; W.E = []
    while True:
        W.E.append((0, rng.sample(range(n), rng.randint(1, min(5, n)))))
        if len({d for _, e in W.E for d in e}) == n: break
    W.has = {d: [0] for d in range(n)}; W.lines = [{i} for i in range(n)]
    for p, e in W.E:
        for i in e: W.lines[i] |= set(e)
    W.lines = [sorted(l) for l in W.lines]; return W
class Out:
    def __init__(s, a): s.a, s.i = a, 0
    def n(s): s.i += 1; return s.a[s.i - 1]
    def list(s): return [s.n() for _ in range(s.n())]
def dpre(c, kind):
    rng = random.Random(c.int('seed', 0, 1 << 40, w=64, arg=False, gen=lambda rng, cc: rng.randint(0, 1 << 40))); c.rng = rng; m = c.m = genmesh(rng, rng.choice((1, 1, 2, 2, 3, 4)) if kind != 'v' else rng.choice((1, 2)), rng.randint(1, 2) if kind == 'f' else 1); W, p = m.W, m.p; c.dofs = rng.randint(1, 3)
    c.consts('mesh', 'i32', m.flat(rng.choice((2, 3)))); c.cint('dofs', c.dofs); msgs = []; N = W.neigh(p)
    if kind == 'f': c.full = rng.randint(0, 1); c.cint('full', c.full); c.consts('dd', 'i32', m.off)
    if kind == 'd':
        E = lambda q: [e for r, e in W.E if r == q]
        for q in shuffled(rng, N): l = [sum(len(e) - 1 for e in E(q) if d in e) for d in W.shared(p, q)]; msgs.append((q, 0, len(l), l))
        for q in shuffled(rng, N): l = [x for d in W.shared(p, q) for e in E(q) if d in e for x in e if x != d]; msgs.append((q, 0, len(l), l))
    if kind != 'v': msgs += [(q, 0, 1, [W.own[q] * c.dofs]) for q in N]
    c.arr('out', 'i32', 12000, out=True); world(c, p, W.nproc, N, None, msgs, (4 * len(N) + 1, 2000, 1))
def regs(c, what, o, want):
    off, perm = o.list(), o.list(); woff, wperm = [], []
    for iv in want: woff.append(len(wperm)); wperm += iv
    c.eq(f"{what}: number of intervals", len(off), len(woff)); c.eq(f"{what}: number of positions", len(perm), len(wperm))
    for i, (a, b) in enumerate(zip(off, woff)): c.eq(f"{what}: beginning of interval {i}", a, b)
    for i, (a, b) in enumerate(zip(perm, wperm)): c.eq(f"{what}: position {i}", a, b)
def same(c, what, got, want):
    c.eq(f"{what}: size", len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)): c.eq(f"{what} {i}", a, b)
def dpost(c):
    m = c.m; W, p, k = m.W, m.p, c.dofs; o = Out(c['out']); h = W.halo(p); rows = [0]; cols = []
    for d in m.loc:
        for r in range(k): cols += [x * k + y for x in W.lines[d] for y in range(k)]; rows.append(len(cols))
    c.eq("rows", o.n(), k * len(m.loc)); c.eq("columns", o.n(), k * W.n); same(c, "row", o.list(), rows); same(c, "column", o.list(), cols)
    pos = {(i, x): a for i in range(len(rows) - 1) for a, x in enumerate(cols[rows[i]:rows[i + 1]], rows[i])}
    P = lambda e: [pos[m.at[i] * k + r, j * k + y] for r in range(k) for i in e for y in range(k) for j in e]
    regs(c, "elements", o, [[x for e in m.els[b:e_] for x in P(e)] for b, e_ in m.iv]); c.eq("regions", o.n(), len(m.regions))
    for r, (dim, E, iv, nodes, t) in enumerate(m.regions): regs(c, f"boundary {r}", o, [[x for e in E[b:e_] for x in P(e)] for b, e_ in iv] if dim and r else [])
    c.eq("first dof", o.n(), k * W.own[p]); c.eq("last dof", o.n(), k * W.own[p + 1]); c.eq("dofs", o.n(), k * W.n); same(c, "halo", o.list(), [d * k + r for d in h for r in range(k)]); same(c, "first dof of a neighbor", o.list(), [W.own[q] * k for q in W.neigh(p)] + [W.own[p] * k]); same(c, "neighbor", o.list(), W.neigh(p))
    # what the neighbors get determines the lines of the shared nodes: counts, then the columns of my elements
    N = W.neigh(p); msg = []; i = 0
    c.eq("messages", c['nsent'][0], 3 * len(N))
    for a in range(c['nsent'][0]): n = c['dst'][2 * a + 1]; msg.append((c['dst'][2 * a], [c['si'][i + b] for b in range(n)])); i += n
    for q in N:
        l = [x for t, x in msg if t == q]; c.eq(f"messages to {q}", len(l), 3); S = W.shared(p, q)
        if len(l) == 3:
            c.eq(f"counts to {q}", len(l[0]), len(S)); c.eq(f"columns to {q}", len(l[1]), sum(l[0])); a = 0
            for d, n in zip(S, l[0]): same(c, f"columns of node {d} to {q}", sorted(set(l[1][a:a + n]) | {d}), sorted({x for r, e in W.E if r == p and d in e for x in e} | {d})); a += n
            same(c, f"offset to {q}", l[2], [W.own[p] * k])
def vpost(c):
    m = c.m; k = c.dofs; o = Out(c['out']); P = lambda e: [m.at[i] * k + r for r in range(k) for i in e]
    regs(c, "elements", o, [[x for e in m.els[b:e_] for x in P(e)] for b, e_ in m.iv]); c.eq("regions", o.n(), len(m.regions))
    for r, (dim, E, iv, nodes, t) in enumerate(m.regions):
        w = [[x for e in E[b:e_] for x in P(e)] for b, e_ in iv] if dim else []; w += [[n * k + d for n in nodes[b:e_] for d in range(k)] for b, e_ in zip(t, t[1:])]
        regs(c, f"boundary {r}", o, w if r else [])
def fpost(c):
    m = c.m; W, p, k = m.W, m.p, c.dofs; o = Out(c['out']); b = m.off[p]; idx = [{} for _ in range(m.nd)]
    for i, l in enumerate(m.doms):
        for r in range(k):
            for x in l:
                if b <= x < b + m.nd: idx[x - b][i * k + r] = len(idx[x - b])
    same(c, "size of a domain", o.list(), [len(x) for x in idx]); same(c, "halo", o.list(), [d * k + r for d in W.halo(p) for r in range(k)]); same(c, "first domain of a neighbor", o.list(), [m.off[q] for q in W.neigh(p)] + [b])
    c.eq("first dof", o.n(), k * W.own[p]); c.eq("last dof", o.n(), k * W.own[p + 1]); c.eq("dofs", o.n(), k * W.n); c.eq("domains", o.n(), m.off[-1])
    for i, l in enumerate(m.doms):
        for r in range(k):
            c.eq(f"domains of dof {i * k + r}", o.n(), len(l))
            for x in l: c.eq(f"domain of dof {i * k + r}", o.n(), x); c.eq(f"index of dof {i * k + r} in domain {x}", o.n(), idx[x - b][i * k + r] if b <= x < b + m.nd else -1)
    pos = []
    for d in range(m.nd):
        n = len(idx[d]); L = [set() for _ in range(n)]
        for e in m.els[m.dom[d]:m.dom[d + 1]]:
            v = [idx[d][m.at[i] * k + r] for i in e for r in range(k)]
            for x in v: L[x] |= {y for y in v if c.full or x <= y}
        rows = [0]; cols = []; q = {}
        for x in range(n):
            for y in sorted(L[x]): q[x, y] = len(cols); cols.append(y)
            rows.append(len(cols))
        pos.append(q); c.eq(f"domain {d}: rows", o.n(), n); c.eq(f"domain {d}: entries", o.n(), len(cols)); o.n(); same(c, f"domain {d}: row", o.list(), rows); same(c, f"domain {d}: column", o.list(), cols)
    maps = []
    for d in range(m.nd):
        w = []
        for t in range(m.ivd[d], m.ivd[d + 1]):
            l = []
            for e in m.els[m.iv[t][0]:m.iv[t][1]]:
                v = [idx[d][m.at[i] * k + r] for r in range(k) for i in e]
                l += [pos[d][x, y] for x in v for y in v] if c.full else [pos[d][min(x, y), max(x, y)] for a, x in enumerate(v) for y in v[a:]]
            w.append(l); maps.append(sum(len(z) for z in w[:-1]))
        regs(c, f"domain {d}: elements", o, w)
    c.eq("intervals of the mapping", o.n(), len(maps))
    for i, x in enumerate(maps): c.eq(f"mapping {i}: data of the domain", o.n(), 1); c.eq(f"mapping {i}: position", o.n(), x)
def spre(c):
    rng = random.Random(c.int('seed', 0, 1 << 40, w=64, arg=False, gen=lambda rng, cc: rng.randint(0, 1 << 40))); n = rng.randint(1, 20); s = [int(rng.random() < .4) for _ in range(n)]; on = [i for i in range(n) if s[i]]; P = [rng.sample(on, rng.randint(0, len(on))) for _ in range(rng.randint(1, 4))]; c.s, c.on, c.P = s, on, P
    c.consts('set', 'i32', s); c.cint('nset', n); c.consts('perm', 'i32', [x for l in P for x in l] or [0]); c.consts('len', 'i32', [len(l) for l in P]); c.cint('n', len(P)); c.arr('out', 'i32', 400, out=True)
def spost(c):
    o = Out(c['out']); same(c, "fixed dof", o.list(), c.on)
    for r, l in enumerate(c.P): same(c, f"region {r}: position", o.list(), [c.on.index(x) for x in l])
B = dict(noerror=True, cost=2, noproof='bounded: generated meshes')
CONTRACTS.append(Contract("pattern and positions of a distributed matrix, generated meshes", H, "v_dpat", lambda c: dpre(c, 'd'), dpost, mode='poly', under=[A + "MatrixUniformDirect::buildPattern", A + "DecompositionDirect::update"], opts=B))
CONTRACTS.append(Contract("positions of a vector, generated meshes", H, "v_vpat", lambda c: dpre(c, 'v'), vpost, mode='poly', under=[A + "VectorUniformDense::buildPattern"], opts=B))
CONTRACTS.append(Contract("pattern and positions of the matrices of the domains, generated meshes", H, "v_fpat", lambda c: dpre(c, 'f'), fpost, mode='poly', under=[A + "MatrixUniformFETI::fillDecomposition", A + "MatrixUniformFETI::buildPattern", A + "MatrixUniformFETI::set", A + "MatrixUniformFETI::map", A + "DecompositionFETI::update"], opts=B))
CONTRACTS.append(Contract("positions of the fixed dofs, generated regions", H, "v_spat", spre, spost, mode='poly', under=[A + "VectorUniformSparse::buildPattern"], opts=B))
