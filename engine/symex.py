"""Verification-condition generation by symbolic execution of LLVM IR.

Integers: mathematical, signed-canonical, wrap-around encoded when the range
cannot be established.  Reals: exact rational functions (mode 'poly') or SMT
reals (mode 'smt').  Loops with symbolic trip counts: inductive invariants
found by Houdini among the templates of the contract; all other loops are
executed completely."""
import sys, time, itertools
from fractions import Fraction
import z3
import llvmir as ir
import poly
from poly import Rat

sys.setrecursionlimit(20000)

import os
DEBUG = bool(os.environ.get('VERIF_DEBUG'))
class Unsupported(Exception): pass
class NeedInv(Exception):
    def __init__(s, key): s.key = key
class Budget(Exception): pass

class _Undef:
    def __repr__(s): return "UNDEF"
UNDEF = _Undef()

# ---------------------------------------------------------------- integers
ATOMS = {}; BOUNDS = {}
class Lin:
    __slots__ = ("t", "c")
    def __init__(s, t, c): s.t, s.c = t, c
    def __repr__(s): return str(z(s))

def mk(t, c):
    t = {k: v for k, v in t.items() if v}
    return Lin(t, c) if t else c

def latom(e, lo=None, hi=None):
    k = e.get_id()
    ATOMS[k] = e
    if lo is not None or hi is not None:
        o = BOUNDS.get(k, (None, None))
        l = lo if o[0] is None else (o[0] if lo is None else max(lo, o[0]))
        h = hi if o[1] is None else (o[1] if hi is None else min(hi, o[1]))
        BOUNDS[k] = (l, h)
    return Lin({k: 1}, 0)

_zc = {}
def z(v):
    """to z3"""
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Lin):
        ts = []
        for k, c in v.t.items():
            e = ATOMS[k]
            ts.append(e if c == 1 else c * e)
        r = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return r + v.c if v.c else r
    if isinstance(v, Fraction): return z3.RealVal(str(v))
    if isinstance(v, z3.ExprRef): return v
    raise Unsupported(f"no smt form for {type(v).__name__}")

def ladd(a, b, s=1):
    if isinstance(a, int) and isinstance(b, int): return a + s * b
    t = dict(a.t) if isinstance(a, Lin) else {}
    c = a.c if isinstance(a, Lin) else a
    if isinstance(b, Lin):
        for k, v in b.t.items(): t[k] = t.get(k, 0) + s * v
        c += s * b.c
    else: c += s * b
    return mk(t, c)
def lscale(a, k):
    if isinstance(a, int): return a * k
    return mk({x: v * k for x, v in a.t.items()}, a.c * k)
# atoms whose multiples are kept as an uninterpreted function of the other factor (axioms in dsl.stride)
STRIDES = {}
def lmul(a, b):
    if isinstance(a, int): return lscale(b, a) if not isinstance(b, int) else a * b
    if isinstance(b, int): return lscale(a, b)
    # distribute over terms: products of atoms are atoms
    t = {}; c = a.c * b.c
    for k, v in a.t.items():
        if b.c: t[k] = t.get(k, 0) + v * b.c
    for k, v in b.t.items():
        if a.c: t[k] = t.get(k, 0) + v * a.c
    for k1, v1 in a.t.items():
        for k2, v2 in b.t.items():
            e1, e2 = ATOMS[k1], ATOMS[k2]
            if k1 in STRIDES: p = STRIDES[k1](e2)
            elif k2 in STRIDES: p = STRIDES[k2](e1)
            else:
                if str(e1) > str(e2): e1, e2 = e2, e1
                p = e1 * e2
            pk = p.get_id()
            if pk not in ATOMS:
                b1, b2 = BOUNDS.get(k1, (None, None)), BOUNDS.get(k2, (None, None))
                if None not in b1 and None not in b2:
                    xs = [x * y for x in b1 for y in b2]
                    latom(p, min(xs), max(xs))
                else: latom(p)
            t[pk] = t.get(pk, 0) + v1 * v2
    return mk(t, c)
def interval(v):
    if isinstance(v, int): return v, v
    lo = hi = v.c
    for k, c in v.t.items():
        l, h = BOUNDS.get(k, (None, None))
        if c < 0: l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi
def fromz(e, lo=None, hi=None):
    if z3.is_int_value(e): return e.as_long()
    return latom(e, lo, hi)
def sx(v, w):
    m = 1 << w
    v &= m - 1
    return v - m if v >> (w - 1) else v

# ---------------------------------------------------------------- memory
class Ptr:
    __slots__ = ("r", "o")
    def __init__(s, r, o): s.r, s.o = r, o
    def __repr__(s): return f"&{s.r}+{s.o}"
NULLP = Ptr(0, 0)

_fresh = itertools.count()
def fresh(name): return f"{name}!{next(_fresh)}"

class Cells:
    kind = 'cells'
    def __init__(s, name, size=None, fill=None):
        s.name, s.size, s.fill = name, size, fill   # fill: None | 'zero'
        s.c = {}; s.owner = None; s.ro = False; s.heap = False
    def copy(s):
        n = Cells(s.name, s.size, s.fill); n.c = dict(s.c); n.ro = s.ro; n.heap = s.heap
        return n
    def inb(s, off, size):
        if off < 0 or (isinstance(s.size, int) and off + size > s.size):
            raise OOB(f"{s.name}: offset {off} size {size} outside {s.size}")
    def load(s, off, size, ty):
        s.inb(off, size)
        e = s.c.get(off)
        if e is not None and e[0] == size: return e[1]
        # pieces
        pieces = []
        o = off
        while o < off + size:
            e = s.c.get(o)
            if e is None:
                for back in range(1, 16):
                    p = s.c.get(o - back)
                    if p is not None and p[0] > back:
                        if isinstance(p[1], int) and not isinstance(p[1], bool):
                            pieces.append((1, (p[1] >> (8 * back)) & 255)); o += 1
                        elif isinstance(p[1], bytes): raise Unsupported("partial")
                        else: raise Unsupported(f"partial load in {s.name}+{off}")
                        break
                else:
                    if s.fill == 'zero': pieces.append((1, 0)); o += 1
                    else:
                        return UNDEF
                continue
            n, v = e
            if isinstance(v, bool): v = int(v)
            if isinstance(v, Fraction) and v == 0: v = 0
            if isinstance(v, Ptr) and v.r == 0 and isinstance(v.o, int): v = v.o
            if isinstance(v, Rat) and v.iszero(): v = 0
            if o + n > off + size:
                if isinstance(v, int): pieces.append((off + size - o, v & ((1 << 8 * (off + size - o)) - 1))); o = off + size; continue
                raise Unsupported(f"partial load in {s.name}+{off}")
            if not isinstance(v, int):
                if v is UNDEF: return UNDEF
                raise Unsupported(f"mixed load in {s.name}+{off}")
            pieces.append((n, v & ((1 << 8 * n) - 1))); o += n
        v = 0; sh = 0
        for n, p in pieces: v |= p << sh; sh += 8 * n
        if ty.k == 'int': return bool(v & 1) if ty.w == 1 else sx(v, size * 8)
        if v == 0: return NULLP if ty.k == 'ptr' else Fraction(0)
        if ty.k == 'ptr': return Ptr(0, v)
        if ty.k == 'double':
            import struct
            return Fraction(struct.unpack('<d', v.to_bytes(8, 'little'))[0])
        raise Unsupported("type-punned load")
    def store(s, off, size, v):
        s.inb(off, size)
        c = s.c
        e = c.get(off)
        if e is None or e[0] != size:
            for o in range(off - 15, off + size):
                e = c.get(o)
                if e is None or o + e[0] <= off: continue
                del c[o]
                n, ov = e
                if o < off or o + n > off + size:
                    if isinstance(ov, (int, bool)):
                        for b in range(n):
                            if not off <= o + b < off + size: c[o + b] = (1, (int(ov) >> 8 * b) & 255)
                    elif ov is UNDEF: pass
                    elif (isinstance(ov, (Fraction, Rat)) and ov == 0) or (isinstance(ov, Ptr) and ov.r == 0 and ov.o == 0):
                        for b in range(n):
                            if not off <= o + b < off + size: c[o + b] = (1, 0)
                    else: raise Unsupported(f"partial overwrite in {s.name}+{off}")
        c[off] = (size, v)

class OOB(Exception): pass

class Arr:
    """array of symbolic length: stride es, fields {offset: [kind, size, smt array]}"""
    kind = 'arr'
    def __init__(s, name, es, n, fields):
        s.name, s.es, s.n, s.f = name, es, n, fields
        s.owner = None; s.ro = False; s.heap = False
    def copy(s):
        a = Arr(s.name, s.es, s.n, {k: list(v) for k, v in s.f.items()}); a.ro = s.ro; a.heap = s.heap
        return a

class Lazy:
    """heap block of symbolic byte size, typed by its first access"""
    kind = 'lazy'
    def __init__(s, name, bytes_, zero=False):
        s.name, s.bytes, s.zero = name, bytes_, zero
        s.owner = None; s.ro = False; s.heap = True
    def copy(s): return Lazy(s.name, s.bytes, s.zero)

SORT = {'i8': z3.IntSort(), 'i16': z3.IntSort(), 'i32': z3.IntSort(), 'i64': z3.IntSort(), 'f64': z3.RealSort(), 'f32': z3.RealSort(), 'i1': z3.IntSort()}
KSIZE = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f64': 8, 'f32': 4}
def kind_of(ty):
    if ty.k == 'int': return f"i{ty.w if ty.w > 1 else 8}"
    if ty.k == 'double': return 'f64'
    if ty.k == 'float': return 'f32'
    return None

def sel(a, i):
    i = z3.simplify(i) if z3.is_expr(i) else i
    while z3.is_store(a):
        j = a.arg(1)
        if j.eq(i): return a.arg(2)
        sj = z3.simplify(j - i)
        if z3.is_int_value(sj):
            if sj.as_long() == 0: return a.arg(2)
            a = a.arg(0); continue
        break
    if z3.is_K(a): return a.arg(0)
    return z3.Select(a, i)

class Frame:
    __slots__ = ("fn", "blk", "idx", "regs", "ret", "prev", "allocas")
    def copy(s):
        f = Frame(); f.fn, f.blk, f.idx, f.ret, f.prev = s.fn, s.blk, s.idx, s.ret, s.prev
        f.regs = dict(s.regs); f.allocas = list(s.allocas)
        return f

class State:
    __slots__ = ("frames", "mem", "pc", "rc", "tok", "ret", "wl", "ghost", "floor", "br")
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.rc = []; s.tok = object(); s.ret = None; s.wl = None; s.ghost = {}; s.floor = None; s.br = 0
    def fork(s):
        n = State(); n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.pc = list(s.pc); n.rc = list(s.rc)
        n.ret = s.ret; n.ghost = dict(s.ghost); n.wl = s.wl; n.floor = s.floor; n.br = s.br
        s.tok = object()
        return n
    def w(s, rid):
        r = s.mem[rid]
        if r.owner is not s.tok:
            r = r.copy(); r.owner = s.tok; s.mem[rid] = r
        return r

class Obl:
    __slots__ = ("name", "pc", "goal", "kind")
    def __init__(s, name, pc, goal, kind): s.name, s.pc, s.goal, s.kind = name, pc, goal, kind

class Engine:
    distinct = frozenset()
    def __init__(self, module, mode='smt', opts=None):
        self.m = module; self.mode = mode
        self.outer = []; self.pslots = set()
        o = dict(maxsteps=3_000_000, feas_ms=1000, prove_ms=20000, houdini_ms=3000, maxpaths=2000, check_nsw=False, unroll=0, deadline=None)
        o.update(opts or {}); self.o = o
        self.obls = []; self.inv = set(); self.handlers = {}; self.steps = 0; self.nq = 0; self.tq = 0.0
        self.templates = []; self.ctxobj = None; self.loopinfo = {}; self.assumptions = set(); self.called = set()
        self.background = []; self.droplog = {}; self.unkdrop = set(); self.lastr = None
        import contracts_lib
        contracts_lib.install(self)

    # ------------------------------------------------------------ solver
    outer = None
    def solve(self, pc, goal, ms):
        t = time.time()
        ng = z3.Not(goal) if goal is not None else z3.BoolVal(True)
        r = z3.unknown
        # two configurations of the solver: the plain SMT core first, then the default tactic
        nomb = self.o.get('nombqi')
        for mk_, fr in ((z3.SimpleSolver, .6), (z3.Solver, .4)) if not nomb else ((z3.SimpleSolver, 1),):
            s = mk_(); s.set("timeout", max(50, int(ms * fr)))
            if nomb: s.set("mbqi", False)
            for p in self.background: s.add(p)
            for p in pc:
                if os.environ.get('VERIF_PC'): print('ADD', str(p)[:1500], flush=True)
                s.add(p)
            s.add(ng)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r != z3.unknown: break
        self.nq += 1; self.tq += time.time() - t
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
        return 'unknown', None
    def valid(self, st, goal, ms=None):
        if isinstance(goal, bool): return goal
        self.lastr = self.solve(st.pc, goal, ms or self.o['feas_ms'])[0]
        return self.lastr == 'unsat'
    def feasible(self, st, cond):
        if isinstance(cond, bool): return cond
        return self.solve(st.pc + [cond], None, self.o['feas_ms'])[0] != 'unsat'
    def assume(self, st, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        st.pc.append(c)
    def oblige(self, st, name, goal, kind):
        if goal is True: goal = z3.BoolVal(True)
        if goal is False: goal = z3.BoolVal(False)
        self.obls.append(Obl(name, list(st.pc), goal, kind))

    # ------------------------------------------------------------ int helpers
    def bound(self, st, v, w):
        """interval facts of fresh atoms are background facts: assert them lazily"""
        return v
    def inrange(self, st, v, lo, hi):
        a, b = interval(v)
        if a is not None and b is not None and a >= lo and b <= hi: return True
        e = z(v)
        return self.valid(st, z3.And(e >= lo, e <= hi))
    def wrap(self, st, v, w, nsw=False):
        if isinstance(v, int): return sx(v, w)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        a, b = interval(v)
        if a is not None and b is not None and a >= lo and b <= hi: return v
        if nsw:
            if self.o['check_nsw']:
                self.oblige(st, "no signed overflow", z3.And(z(v) >= lo, z(v) <= hi), 'overflow')
            self.assumptions.add("signed integer arithmetic does not overflow (nsw taken as mathematical)")
            return v
        if self.inrange(st, v, lo, hi): return v
        m = 1 << w
        return fromz((z(v) + (m >> 1)) % m - (m >> 1), lo, hi)
    def uns(self, st, v, w):
        if isinstance(v, int): return v % (1 << w)
        a, _ = interval(v)
        if a is not None and a >= 0: return v
        if self.valid(st, z(v) >= 0): return v
        e = z(v)
        return fromz(z3.If(e < 0, e + (1 << w), e), 0, (1 << w) - 1)

    def newint(self, st, name, w, lo=None, hi=None):
        lo = -(1 << (w - 1)) if lo is None else lo
        hi = (1 << (w - 1)) - 1 if hi is None else hi
        e = z3.Int(name)
        st.pc.append(z3.And(e >= lo, e <= hi))
        return latom(e, lo, hi)

    # ------------------------------------------------------------ real helpers
    def rl(self, v):
        if isinstance(v, int) and v == 0: return Fraction(0)
        return v
    def fop(self, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        a, b = self.rl(a), self.rl(b)
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0: raise Unsupported("division by zero constant")
                return a / b
        if isinstance(a, float) or isinstance(b, float): raise Unsupported("non-finite constant")
        if isinstance(a, (Rat, Fraction)) and isinstance(b, (Rat, Fraction)):
            a, b = poly.rat(a), poly.rat(b)
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b.iszero(): raise Unsupported("division by zero")
                return a / b
        a, b = z(a), z(b)
        if op == 'fadd': return a + b
        if op == 'fsub': return a - b
        if op == 'fmul': return a * b
        if op == 'fdiv': return a / b
        raise Unsupported(op)
    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if pred == 'ord': return True
        if pred == 'uno': return False
        a, b = self.rl(a), self.rl(b)
        p = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne', 'ogt': 'gt', 'ugt': 'gt', 'oge': 'ge', 'uge': 'ge', 'olt': 'lt', 'ult': 'lt', 'ole': 'le', 'ule': 'le'}[pred]
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (float, Fraction)) and isinstance(b, (float, Fraction)):
                a, b = float(a), float(b)
            elif isinstance(b, float):
                import math
                if math.isinf(b): return {'eq': False, 'ne': True, 'gt': b < 0, 'ge': b < 0, 'lt': b > 0, 'le': b > 0}[p]
                raise Unsupported("nan compare")
            else: raise Unsupported("non-finite compare")
        if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
        if isinstance(a, Rat) or isinstance(b, Rat):
            d = poly.rat(a) - poly.rat(b)
            if d.isconst():
                v = d.value()
                return {'eq': v == 0, 'ne': v != 0, 'gt': v > 0, 'ge': v >= 0, 'lt': v < 0, 'le': v <= 0}[p]
            return RC(p, d)
        a, b = z(a), z(b)
        return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]

    # ------------------------------------------------------------ operands
    def cval(self, st, c):
        if isinstance(c, (bool, int)): return c
        if isinstance(c, ir.CFloat):
            import math
            if math.isinf(c.v) or math.isnan(c.v): return c.v
            return Fraction(c.v)
        if isinstance(c, ir.CNull): return NULLP
        if isinstance(c, ir.CUndef): return self.undef(c.ty)
        if isinstance(c, ir.CZero): return self.zero(c.ty)
        if isinstance(c, ir.CAgg): return tuple(self.cval(st, e) for e in c.els)
        if isinstance(c, ir.CGlobal):
            if c.kind == 'fn': return Ptr("fn:" + c.name, 0)
            return Ptr(self.gregion(st, c.name), 0)
        if isinstance(c, ir.CExpr):
            if c.op == 'gep': return self.gep(st, self.cval(st, c.ops[0]), c.x, [self.cval(st, o) for o in c.ops[1:]])
            if c.op in ('bitcast', 'addrspacecast'): return self.cval(st, c.ops[0])
            if c.op == 'ptrtoint': return self.p2i(st, self.cval(st, c.ops[0]))
            if c.op == 'inttoptr': return self.i2p(self.cval(st, c.ops[0]))
            if c.op in ('sub', 'add', 'trunc'):
                a = [self.cval(st, o) for o in c.ops]
                if c.op == 'trunc': return self.wrap(st, a[0], c.ty.w)
                return self.wrap(st, ladd(a[0], a[1], 1 if c.op == 'add' else -1), c.ty.w)
            if c.op == 'icmp' and c.x in ('eq', 'ne'):
                a, b = [self.cval(st, o) for o in c.ops]
                if isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.o, int) and isinstance(b.o, int):
                    return ((a.r, a.o) == (b.r, b.o)) == (c.x == "eq")
            raise Unsupported("constant expression " + c.op)
        raise Unsupported("constant " + type(c).__name__)
    def undef(self, ty):
        if ty.k in ('vec', 'arr'): return tuple(self.undef(ty.e) for _ in range(ty.n))
        if ty.k == 'struct': return tuple(self.undef(e) for e in ty.els)
        return UNDEF
    def zero(self, ty):
        if ty.k in ('vec', 'arr'): return tuple(self.zero(ty.e) for _ in range(ty.n))
        if ty.k == 'struct': return tuple(self.zero(e) for e in ty.els)
        if ty.k == 'int': return False if ty.w == 1 else 0
        if ty.k == 'ptr': return NULLP
        return Fraction(0)
    def gregion(self, st, name):
        rid = "g:" + name
        if rid in st.mem: return rid
        g = self.m.glob(name)
        if g is None: raise Unsupported("global " + name)
        ty, ini, const = g
        r = Cells(name, ty.size, None); r.ro = const
        st.mem[rid] = r
        if ini is not None:
            if isinstance(ini, ir.CZero): r.fill = 'zero'
            else: self.put(r, 0, ty, self.cval(st, ini))
        r.owner = st.tok
        return rid
    def put(self, r, off, ty, v):
        if ty.k in ('vec', 'arr'):
            for i in range(ty.n): self.put(r, off + i * ty.e.size, ty.e, v[i])
        elif ty.k == 'struct':
            for o, e, x in zip(ty.offs, ty.els, v): self.put(r, off + o, e, x)
        else: r.store(off, ty.store, v)
    def val(self, st, o):
        if o[0] == 'r': return st.frames[-1].regs[o[1]]
        if o[0] == 'c': return self.cval(st, o[1])
        return None

    # ------------------------------------------------------------ pointers
    def gep(self, st, p, ty, idx):
        if p is UNDEF: return UNDEF
        if isinstance(p, tuple):
            return tuple(self.gep(st, q, ty, idx) for q in p)
        off = p.o
        first = True
        for i in idx:
            if i is UNDEF: return UNDEF
            if first:
                off = ladd(off, lscale(i, ty.size)); first = False
            elif ty.k == 'struct':
                off = ladd(off, ty.offs[i]); ty = ty.els[i]
            else:
                ty = ty.e
                off = ladd(off, lscale(i, ty.size))
        return Ptr(p.r, off)
    def p2i(self, st, p):
        if p is UNDEF: return UNDEF
        if p.r == 0: return p.o
        # address of the block: 64 * Q + residue (a contract that depends on the alignment of blocks is stated for each residue)
        res = self.o.get('residue', 0) if str(p.r).startswith("heap:") else 0
        e = z3.Int(f"base({p.r})")
        k = e.get_id()
        if k not in ATOMS:
            latom(e, 64, 1 << 41)
            self.background.append(z3.And(e >= 64, e <= 1 << 41))
        self.basemap = getattr(self, 'basemap', {}); self.basemap[k] = (p.r, res)
        return ladd(mk({k: 64}, res), p.o)
    def i2p(self, v):
        if isinstance(v, int): return Ptr(0, v)
        for k, c in v.t.items():
            if c == 64 and k in getattr(self, 'basemap', {}):
                t = dict(v.t); del t[k]
                rid, res = self.basemap[k]
                return Ptr(rid, mk(t, v.c - res))
        raise Unsupported("inttoptr")

    def arr_index(self, r, off):
        """byte offset -> (element index, field offset)"""
        if isinstance(off, int): return off // r.es, off % r.es
        if any(c % r.es for c in off.t.values()): return None
        fo = off.c % r.es
        return mk({k: c // r.es for k, c in off.t.items()}, (off.c - fo) // r.es), fo
    def resolve_lazy(self, st, rid, ty):
        r = st.mem[rid]
        k = kind_of(ty)
        if k is None: raise Unsupported(f"untyped heap access {ty}")
        es = KSIZE[k]
        by = r.bytes
        if isinstance(by, Lin) and all(c % es == 0 for c in by.t.values()) and by.c % es == 0:
            n = mk({x: c // es for x, c in by.t.items()}, by.c // es)
        elif isinstance(by, int): n = by // es
        else: n = fromz(z(by) / es)
        a = z3.K(z3.IntSort(), z3.IntVal(0) if SORT[k] == z3.IntSort() else z3.RealVal(0)) if r.zero else z3.Array(fresh(r.name), z3.IntSort(), SORT[k])
        A = Arr(r.name, es, n, {0: [k, es, a]}); A.heap = True; A.owner = st.tok
        st.mem[rid] = A; self.loopinfo[('lazyty', rid)] = ty
        return A
    def access(self, st, p, ty, what):
        """bounds obligation; returns region"""
        if p is UNDEF: raise Unsupported("access through undefined pointer")
        if p.r == 0:
            self.oblige(st, f"{what}: pointer is not null", False, 'safety'); raise DeadPath()
        if isinstance(p.r, str) and p.r.startswith("fn:"): raise Unsupported("data access to function")
        r = st.mem.get(p.r)
        if r is None or r.kind == 'freed':
            self.oblige(st, f"{what}: memory is live", False, 'safety'); raise DeadPath()
        if r.kind == 'lazy': r = self.resolve_lazy(st, p.r, ty)
        return r
    def load(self, st, p, ty):
        if ty.k in ('vec', 'arr'):
            return tuple(self.load(st, Ptr(p.r, ladd(p.o, i * ty.e.size)), ty.e) for i in range(ty.n))
        if ty.k == 'struct':
            return tuple(self.load(st, Ptr(p.r, ladd(p.o, o)), e) for o, e in zip(ty.offs, ty.els))
        r = self.access(st, p, ty, "load")
        if r.kind == 'cells':
            off = p.o
            if not isinstance(off, int):
                return self.sym_cells(st, p, ty, None)
            try: v = r.load(off, ty.store, ty)
            except OOB as e:
                self.oblige(st, f"load in bounds of {r.name}", False, 'safety'); raise DeadPath()
            if ty.k == 'int' and ty.w == 1:
                if isinstance(v, int): return bool(v & 1)
                if isinstance(v, Lin): return z(v) != 0
            if ty.k == 'int' and isinstance(v, bool): return int(v)
            if ty.k == 'int' and isinstance(v, z3.BoolRef): return fromz(z3.If(v, 1, 0), 0, 1)
            if ty.k in ('double', 'float') and isinstance(v, int): return Fraction(0) if v == 0 else v
            if ty.k == 'ptr' and isinstance(v, int) and v == 0: return NULLP
            return v
        # typed array
        ix = self.arr_index(r, p.o)
        if ix is None:
            # constrain the index through an auxiliary variable
            q = z3.Int(fresh("ix")); st.pc.append(z(p.o) == r.es * q)
            ix = (latom(q), 0)
        i, fo = ix
        f = r.f.get(fo)
        if f is None or f[1] != ty.store: raise Unsupported(f"load of {ty} at field {fo} of {r.name}")
        self.oblige(st, f"load of {r.name}[] stays inside the array", z3.And(z(i) >= 0, z(i) < z(r.n)), 'safety')
        e = sel(f[2], z(i))
        if f[0][0] == 'i':
            if z3.is_int_value(e): v = e.as_long()
            else:
                w = int(f[0][1:]); lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if e.get_id() not in BOUNDS:
                    st.pc.append(z3.And(e >= lo, e <= hi))
                    v = latom(e, lo, hi)
                else:
                    v = latom(e); l, h = BOUNDS[e.get_id()]; st.pc.append(z3.And(*( [e >= l] if l is not None else []), *([e <= h] if h is not None else [])))
            if ty.k == 'int' and ty.w == 1: return v != 0 if isinstance(v, int) else z(v) != 0
            if ty.k == 'ptr': raise Unsupported("pointer in integer array")
            return v
        return e
    def sym_cells(self, st, p, ty, v):
        """symbolic index into concrete cells: case split by enumeration of candidate offsets"""
        r = st.mem[p.r]
        st_size = ty.store
        step = 0
        for c in p.o.t.values():
            import math
            step = math.gcd(step, c)
        if not isinstance(r.size, int) or step == 0: raise Unsupported(f"symbolic offset into {r.name}")
        cands = [o for o in range(p.o.c % step, r.size - st_size + 1, step)]
        if len(cands) > 512: raise Unsupported(f"symbolic offset into large {r.name}")
        e = z(p.o)
        self.oblige(st, f"access to {r.name} in bounds", z3.And(e >= 0, e <= r.size - st_size), 'safety')
        if v is None:
            vals = []
            for o in cands:
                if not self.feasible(st, e == o): continue
                vals.append((o, r.load(o, st_size, ty)))
            if not vals: raise DeadPath()
            if any(isinstance(x, (Ptr, Rat)) or x is UNDEF for _, x in vals):
                if len(vals) == 1: return vals[0][1]
                raise Unsupported(f"symbolic load from {r.name}")
            acc = z(vals[-1][1])
            for o, x in reversed(vals[:-1]): acc = z3.If(e == o, z(x), acc)
            if ty.k == 'int':
                w = ty.w; return fromz(acc, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return acc
        r = st.w(p.r)
        for o in cands:
            if not self.feasible(st, e == o): continue
            old = r.load(o, st_size, ty)
            nv = z3.If(e == o, z(v), z(old) if old is not UNDEF else z(v))
            self.wlog(st, p.r, o, st_size)
            r.store(o, st_size, fromz(nv) if ty.k == 'int' else nv)
    def store(self, st, p, ty, v):
        if ty.k in ('vec', 'arr'):
            for i in range(ty.n): self.store(st, Ptr(p.r, ladd(p.o, i * ty.e.size)), ty.e, v[i])
            return
        if ty.k == 'struct':
            for o, e, x in zip(ty.offs, ty.els, v): self.store(st, Ptr(p.r, ladd(p.o, o)), e, x)
            return
        r = self.access(st, p, ty, "store")
        if r.kind == 'cells':
            if r.ro:
                self.oblige(st, f"no write to read-only {r.name}", False, 'frame'); raise DeadPath()
            if not isinstance(p.o, int): return self.sym_cells(st, p, ty, v)
            r = st.w(p.r)
            self.wlog(st, p.r, p.o, ty.store)
            try: r.store(p.o, ty.store, v)
            except OOB:
                self.oblige(st, f"store in bounds of {r.name}", False, 'safety'); raise DeadPath()
            return
        ix = self.arr_index(r, p.o)
        if ix is None:
            q = z3.Int(fresh("ix")); st.pc.append(z(p.o) == r.es * q); ix = (latom(q), 0)
        i, fo = ix
        f = r.f.get(fo)
        if f is None or f[1] != ty.store: raise Unsupported(f"store of {ty} at field {fo} of {r.name}")
        if r.ro:
            self.oblige(st, f"no write to read-only {r.name}", False, 'frame'); raise DeadPath()
        self.oblige(st, f"store to {r.name}[] stays inside the array", z3.And(z(i) >= 0, z(i) < z(r.n)), 'safety')
        if v is UNDEF:
            v = z3.Const(fresh("undef"), SORT[f[0]])
        r = st.w(p.r); f = r.f[fo]
        self.wlog(st, p.r, ('f', fo), None)
        if isinstance(v, z3.BoolRef): v = z3.If(v, 1, 0)
        if isinstance(v, bool): v = int(v)
        e = z(v)
        if isinstance(v, int) and f[0][0] == 'f':
            if v == 0: e = z3.RealVal(0)
            else: raise Unsupported("integer bits stored as real")
        if e.sort() != SORT[f[0]]: raise Unsupported(f"sort mismatch storing into {r.name}")
        f[2] = z3.Store(f[2], z(i), e)
    def wlog(self, st, rid, off, size):
        if st.wl is not None: st.wl.add((rid, off, size))

    # ------------------------------------------------------------ execution
    def key(self, st, hdr):
        return (tuple(f.fn.name for f in st.frames), hdr)
    def call(self, st, fname, args, ret):
        F = self.m.fn(fname)
        if F is None: raise Unsupported("call to external " + fname)
        self.called.add(fname)
        f = Frame(); f.fn = F; f.blk = F.blocks[0]; f.idx = 0; f.prev = None; f.ret = ret; f.allocas = []
        f.regs = dict(zip(F.params, args))
        st.frames.append(f)
        if len(st.frames) > 200: raise Unsupported("recursion depth")
    def run(self, st, fname, args):
        """returns list of final states"""
        base = st
        while True:
            try:
                self.obls = []; self.steps = 0
                s = base.fork()
                self.call(s, fname, args, None)
                out = self.explore(s, None)
                return [x for k, x, *_ in out if k == 'ret']
            except NeedInv as e:
                if e.key in self.inv: raise Unsupported("loop structure")
                self.inv.add(e.key)
    def explore(self, st, stop):
        work = [st]; out = []
        paths = 0
        while work:
            s = work.pop()
            try:
                r = self.step_until(s, stop)
            except DeadPath:
                if os.environ.get('VERIF_DEAD'):
                    import traceback; traceback.print_exc(limit=-4); print([f.fn.name for f in s.frames], [(o.name, o.kind) for o in self.obls if o.goal is False], file=sys.stderr)
                continue
            for k in r:
                if k[0] == 'go': work.append(k[1])
                else:
                    out.append(k); paths += 1
                    if paths > self.o['maxpaths']: raise Budget("too many paths")
        return out
    def edge(self, st, src, dst, stop):
        """transfer control along an edge of the current frame; returns list of results"""
        f = st.frames[-1]
        st.br = hash((st.br, src.id, dst.id))
        if stop is not None and len(st.frames) == stop[0] and src.id in stop[2]:
            if dst.id == stop[1]:
                self.phis(st, src, dst)
                return [('back', st)]
            if dst.id not in stop[2]:
                return [('exit', st, src, dst)]
        F = f.fn
        if dst.id in F.loops and src.id not in F.loops[dst.id]:
            if self.key(st, dst.id) in self.inv:
                res = []
                for s2, a, b in self.loop(st, src, dst):
                    res += self.edge(s2, a, b, stop)
                return res
        self.phis(st, src, dst)
        return [('go', st)]
    def phis(self, st, src, dst):
        f = st.frames[-1]
        vals = [(p.id, self.val(st, p.x[src.id])) for p in dst.phis]
        for i, v in vals: f.regs[i] = v
        f.prev = src; f.blk = dst; f.idx = len(dst.phis)
    def step_until(self, st, stop):
        o = self.o
        while True:
            self.steps += 1
            if self.steps > o['maxsteps']: raise Budget("step limit")
            if o['deadline'] and (self.steps & 1023) == 0 and time.time() > o['deadline']: raise Budget("time limit")
            f = st.frames[-1]
            I = f.blk.insts[f.idx]
            op = I.op
            if op == 'br':
                if not I.ops:
                    r = self.edge(st, f.blk, I.x[0], stop)
                    if len(r) == 1 and r[0][0] == 'go' and r[0][1] is st: continue
                    return r
                c = self.val(st, I.ops[0])
                if c is UNDEF: raise Unsupported(f"branch on undefined value in {f.fn.name}")
                if isinstance(c, RC):
                    # inconsistent repeats of the same real condition are pruned
                    k = c.known(st.rc)
                    if k is not None: c = k
                    else:
                        s2 = st.fork()
                        st.rc.append((c, True)); s2.rc.append((c, False))
                        b = f.blk
                        return self.edge(st, b, I.x[0], stop) + self.edge(s2, b, I.x[1], stop)
                if isinstance(c, z3.BoolRef):
                    cs = z3.simplify(c)
                    if z3.is_true(cs): c = True
                    elif z3.is_false(cs): c = False
                if isinstance(c, bool):
                    r = self.edge(st, f.blk, I.x[0] if c else I.x[1], stop)
                    if len(r) == 1 and r[0][0] == 'go' and r[0][1] is st: continue
                    return r
                t_ok = self.feasible(st, c); f_ok = self.feasible(st, z3.Not(c))
                b = f.blk
                if t_ok and f_ok:
                    self.exitcheck(st, b, I.x)
                    s2 = st.fork()
                    st.pc.append(c); s2.pc.append(z3.Not(c))
                    res = []
                    for s, d in ((st, I.x[0]), (s2, I.x[1])):
                        try: res += self.edge(s, b, d, stop)
                        except DeadPath: pass
                    return res
                if not t_ok and not f_ok: raise DeadPath()
                self.exitcheck(st, b, I.x, decided=True)
                st.pc.append(c if t_ok else z3.Not(c))
                r = self.edge(st, b, I.x[0] if t_ok else I.x[1], stop)
                if len(r) == 1 and r[0][0] == 'go' and r[0][1] is st: continue
                return r
            if op == 'switch':
                c = self.val(st, I.ops[0])
                if c is UNDEF: raise Unsupported("switch on undefined value")
                b = f.blk
                if isinstance(c, int):
                    d = I.x[1]
                    for v, t in I.x[0]:
                        if int(v) == int(c): d = t
                    r = self.edge(st, b, d, stop)
                    if len(r) == 1 and r[0][0] == 'go' and r[0][1] is st: continue
                    return r
                res = []; e = z(c)
                if isinstance(e, z3.BoolRef): e = z3.If(e, 1, 0)
                for v, t in I.x[0]:
                    if self.feasible(st, e == int(v)):
                        s2 = st.fork(); s2.pc.append(e == int(v)); res += self.edge(s2, b, t, stop)
                d = z3.And(*[e != int(v) for v, _ in I.x[0]])
                if self.feasible(st, d):
                    s2 = st.fork(); s2.pc.append(d); res += self.edge(s2, b, I.x[1], stop)
                return res
            if op == 'ret':
                v = self.val(st, I.ops[0]) if I.ops else None
                for a in f.allocas: st.mem.pop(a, None)
                st.frames.pop()
                if not st.frames or (st.floor is not None and len(st.frames) == st.floor):
                    st.ret = v
                    return [('ret', st)]
                if f.ret is not None: st.frames[-1].regs[f.ret] = v
                g = st.frames[-1]
                inv = g.blk.insts[g.idx]
                if inv.op == 'invoke':
                    r = self.edge(st, g.blk, inv.x['normal'], stop)
                    if len(r) == 1 and r[0][0] == 'go' and r[0][1] is st: continue
                    return r
                g.idx += 1
                continue
            if op == 'unreachable':
                raise DeadPath()
            try:
                if op not in ('call', 'invoke'):
                    f.regs[I.id] = self.ex(st, f, I, op)
                    f.idx += 1
                    continue
                r = self.docall(st, f, I)
            except NeedSplit as e:
                # a pure instruction depends on an undecided real condition: both cases are explored
                s2 = st.fork()
                if isinstance(e.c, z3.BoolRef): st.pc.append(e.c); s2.pc.append(z3.Not(e.c))
                else: st.rc.append((e.c, True)); s2.rc.append((e.c, False))
                return [('go', st), ('go', s2)]
            if True:
                if r is not None:
                    # handler forked
                    out = []
                    for s in r:
                        g = s.frames[-1]
                        if op == 'invoke':
                            out += self.edge(s, g.blk, I.x['normal'], stop)
                        else:
                            g.idx += 1; out.append(('go', s))
                    return out
                continue
    def exitcheck(self, st, b, succ, decided=False):
        F = st.frames[-1].fn
        best = None
        for h, body in F.loops.items():
            if b.id in body and any(s.id not in body for s in succ) and any(s.id in body for s in succ):
                if best is None or len(body) < len(F.loops[best]): best = h
        if best is not None:
            k = self.key(st, best)
            if k not in self.inv:
                if decided:
                    # a symbolic exit test that the path decides again and again: not a loop to unroll
                    cnt = self.loopinfo.setdefault(('decided', k), [0]); cnt[0] += 1
                    if self.o['unroll'] or cnt[0] <= 40: return
                    raise NeedInv(k)
                if self.o['unroll']:
                    cnt = self.loopinfo.setdefault(('unroll', k), [0]); cnt[0] += 1
                    if cnt[0] <= self.o['unroll']: return
                raise NeedInv(k)
    def docall(self, st, f, I):
        cal = I.x['callee']
        if cal[0] == 'asm':
            raise Unsupported("inline asm")
        if cal[0] == 'r':
            p = f.regs[cal[1]]
            if not isinstance(p, Ptr) or not str(p.r).startswith("fn:"): raise Unsupported("indirect call")
            name = p.r[3:]
        else:
            c = cal[1]
            if not isinstance(c, ir.CGlobal): raise Unsupported("call of constant")
            name = c.name
        args = [self.val(st, o) for o in I.ops]
        h = self.find_handler(name)
        if h is not None:
            r = h(self, st, I, args, name)
            if isinstance(r, Fork):
                for s, v in r.l:
                    if I.ty.k != 'void': s.frames[-1].regs[I.id] = v
                return [s for s, _ in r.l]
            if I.ty.k != 'void': f.regs[I.id] = r
            if I.op == 'invoke': return [st]
            f.idx += 1
            return None
        self.call(st, name, args, I.id if I.ty.k != 'void' else None)
        return None
    def find_handler(self, name):
        h = self.handlers.get(name)
        if h is not None: return h
        if name.startswith("llvm."):
            for p, hh in self.prefix:
                if name.startswith(p): return hh
            raise Unsupported("intrinsic " + name)
        for p, hh in self.prefix:
            if p[0] != 'l' and name.startswith(p): return hh
        if not self.m.has(name):
            raise Unsupported("external function " + name)
        return None
    def ex(self, st, f, I, op):
        ty = I.ty
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            if ty.k == 'vec': return tuple(self.fop(op, x, y) for x, y in zip(a, b))
            return self.fop(op, a, b)
        if op == 'load':
            return self.load(st, self.val(st, I.ops[0]), ty)
        if op == 'store':
            self.store(st, self.val(st, I.ops[1]), I.x, self.val(st, I.ops[0])); return None
        if op == 'gep':
            return self.gep(st, self.val(st, I.ops[0]), I.x[0], [self.val(st, o) for o in I.ops[1:]])
        if op == 'fneg':
            a = self.val(st, I.ops[0])
            g = lambda x: UNDEF if x is UNDEF else -self.rl(x)
            return tuple(map(g, a)) if ty.k == 'vec' else g(a)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            if ty.k == 'vec': return tuple(self.iop(st, op, x, y, ty.e.w, I) for x, y in zip(a, b))
            return self.iop(st, op, a, b, ty.w, I)
        if op == 'icmp':
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            if I.x[1].k == 'vec': return tuple(self.icmp(st, I.x[0], x, y, I.x[1].e) for x, y in zip(a, b))
            return self.icmp(st, I.x[0], a, b, I.x[1])
        if op == 'fcmp':
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            if isinstance(a, tuple): return tuple(self.fcmp(I.x, x, y) for x, y in zip(a, b))
            return self.fcmp(I.x, a, b)
        if op == 'alloca':
            n = self.val(st, I.ops[0])
            rid = fresh(f"{f.fn.name[-20:]}:{I.name}")
            if isinstance(n, int):
                r = Cells(I.name, I.x.size * n)
                st.mem[rid] = r
            else:
                r = Lazy(I.name, lscale(n, I.x.size)); st.mem[rid] = r
            r.owner = st.tok
            f.allocas.append(rid)
            return Ptr(rid, 0)
        if op == 'select':
            c, a, b = (self.val(st, o) for o in I.ops)
            if isinstance(c, tuple): return tuple(self.select(st, x, y, w) for x, y, w in zip(c, a, b))
            if isinstance(a, tuple) and isinstance(b, tuple) and not isinstance(c, bool):
                return tuple(self.select(st, c, y, w) for y, w in zip(a, b))
            return self.select(st, c, a, b)
        if op in ('zext', 'sext', 'trunc'):
            a = self.val(st, I.ops[0])
            if ty.k == 'vec': return tuple(self.cast(st, op, x, I.x.e.w, ty.e.w) for x in a)
            return self.cast(st, op, a, I.x.w, ty.w)
        if op in ('bitcast', 'freeze', 'addrspacecast', 'fpext', 'fptrunc'):
            a = self.val(st, I.ops[0])
            if op == 'bitcast' and I.x.k == 'vec' and ty.k == 'vec' and I.x.n != ty.n:
                return self.bcvec(a, I.x, ty)
            if op == 'bitcast' and I.x.k == 'vec' and ty.k != 'vec': raise Unsupported("bitcast vec->scalar")
            if op == 'bitcast' and I.x.k != 'vec' and ty.k == 'vec': raise Unsupported("bitcast scalar->vec")
            if op == 'fptrunc' : self.assumptions.add("float treated as real")
            return a
        if op in ('sitofp', 'uitofp'):
            a = self.val(st, I.ops[0])
            g = lambda x: self.i2f(st, x, op, I.x if I.x.k == 'int' else I.x.e)
            return tuple(map(g, a)) if ty.k == 'vec' else g(a)
        if op in ('fptosi', 'fptoui'):
            a = self.rl(self.val(st, I.ops[0]))
            if isinstance(a, Fraction): return int(a)
            if isinstance(a, Rat): raise Unsupported("real to int")
            e = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
            return fromz(e)
        if op == 'ptrtoint': return self.p2i(st, self.val(st, I.ops[0]))
        if op == 'inttoptr': return self.i2p(self.val(st, I.ops[0]))
        if op == 'extractelement':
            a, i = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            return a[i]
        if op == 'insertelement':
            a, v, i = (self.val(st, o) for o in I.ops)
            a = list(a); a[i] = v; return tuple(a)
        if op == 'shufflevector':
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            c = tuple(a) + tuple(b)
            return tuple(UNDEF if k < 0 else c[k] for k in I.x)
        if op == 'extractvalue':
            a = self.val(st, I.ops[0])
            for k in I.x: a = a[k]
            return a
        if op == 'insertvalue':
            a, v = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            return self.insval(a, v, I.x)
        if op == 'atomicrmw' or op == 'cmpxchg' or op == 'fence': raise Unsupported(op)
        raise Unsupported("instruction " + op)
    def insval(self, a, v, ix):
        a = list(a)
        a[ix[0]] = v if len(ix) == 1 else self.insval(a[ix[0]], v, ix[1:])
        return tuple(a)
    def bcvec(self, a, f, t):
        raise Unsupported("vector bitcast")
    def i2f(self, st, x, op, ty):
        if x is UNDEF: return UNDEF
        if isinstance(x, bool): return Fraction(int(x))
        if isinstance(x, int): return Fraction(x if op == 'sitofp' else x % (1 << ty.w))
        if op == 'uitofp': x = self.uns(st, x, ty.w)
        if self.mode == 'poly': raise Unsupported("symbolic int to real in poly mode")
        return z3.ToReal(z(x))
    def select(self, st, c, a, b):
        if c is UNDEF: return UNDEF
        if isinstance(c, bool): return a if c else b
        if isinstance(c, RC):
            k = c.known(st.rc)
            if k is not None: return a if k else b
            raise NeedSplit(c)
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                return Ptr(a.r, fromz(z3.If(c, z(a.o), z(b.o))))
            if isinstance(c, z3.BoolRef):
                if self.valid(st, c): return a
                if self.valid(st, z3.Not(c)): return b
                raise NeedSplit(c)
            raise Unsupported("select of pointers into different objects")
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if b is False and not isinstance(a, bool): return z3.And(c, a)
            if a is True: return z3.Or(c, z(b))
            return z3.If(c, z(a), z(b))
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            la, ha = interval(a); lb, hb = interval(b)
            return fromz(z3.If(c, z(a), z(b)), None if la is None or lb is None else min(la, lb), None if ha is None or hb is None else max(ha, hb))
        return z3.If(c, z(self.rl(a)), z(self.rl(b)))
    def cast(self, st, op, v, fw, tw):
        if v is UNDEF: return UNDEF
        if isinstance(v, RC):
            raise Unsupported("cast of real condition")
        if fw == 1:
            if isinstance(v, bool): return (1 if op == 'zext' else -1) if v else 0
            return fromz(z3.If(v, z3.IntVal(1 if op == 'zext' else -1), z3.IntVal(0)), 0 if op == 'zext' else -1, 1 if op == 'zext' else 0)
        if isinstance(v, Ptr) or isinstance(v, (Rat, Fraction)): raise Unsupported("cast of opaque bits")
        if op == 'zext': return self.uns(st, v, fw)
        if op == 'sext': return v
        if tw == 1:
            if isinstance(v, int): return bool(v & 1)
            return z(v) % 2 == 1
        return self.wrap(st, v, tw)
    def icmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int): a = Ptr(0, a)
            if isinstance(b, int): b = Ptr(0, b)
            if a.r == b.r:
                a, b = a.o, b.o
                w = 64
                if a == 0 and b == 0: pass
                pred = {'ugt': 'sgt', 'uge': 'sge', 'ult': 'slt', 'ule': 'sle'}.get(pred, pred)
            else:
                if pred == 'eq': return False
                if pred == 'ne': return True
                a, b = self.p2i(st, a), self.p2i(st, b); w = 64
        else: w = ty.w
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool):
                x, y = int(a), int(b)
                return {'eq': x == y, 'ne': x != y, 'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y, 'sgt': x < y, 'slt': x > y, 'sge': x <= y, 'sle': x >= y}[pred]
            a, b = [z(bool(x)) if isinstance(x, int) else z(x) for x in (a, b)]
            return {'eq': a == b, 'ne': a != b, 'ugt': z3.And(a, z3.Not(b)), 'uge': z3.Or(a, z3.Not(b)), 'ult': z3.And(b, z3.Not(a)), 'ule': z3.Or(b, z3.Not(a))}[pred]
        if isinstance(a, RC): raise Unsupported("compare of real condition")
        if isinstance(a, (Rat, Fraction)) or isinstance(b, (Rat, Fraction)): raise Unsupported("integer compare of real bits")
        if pred[0] == 'u':
            a, b = self.uns(st, a, w), self.uns(st, b, w)
            pred = 's' + pred[1:]
        d = ladd(a, b, -1)
        if pred in ('eq', 'ne') and self.distinct and isinstance(d, Lin) and d.c == 0 and len(d.t) == 2 and sum(d.t.values()) == 0 and all(k in self.distinct for k in d.t): return pred == 'ne'
        lo, hi = interval(d)
        if isinstance(d, int) or lo is not None or hi is not None:
            if pred == 'eq':
                if lo == hi and lo == 0: return True
                if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
            elif pred == 'ne':
                if lo == hi and lo == 0: return False
                if (lo is not None and lo > 0) or (hi is not None and hi < 0): return True
            elif pred == 'slt':
                if hi is not None and hi < 0: return True
                if lo is not None and lo >= 0: return False
            elif pred == 'sle':
                if hi is not None and hi <= 0: return True
                if lo is not None and lo > 0: return False
            elif pred == 'sgt':
                if lo is not None and lo > 0: return True
                if hi is not None and hi <= 0: return False
            elif pred == 'sge':
                if lo is not None and lo >= 0: return True
                if hi is not None and hi < 0: return False
        a, b = z(a), z(b)
        return {'eq': a == b, 'ne': a != b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b}[pred]
    def iop(self, st, op, a, b, w, I):
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            if isinstance(a, bool) and isinstance(b, bool):
                return {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b, 'mul': a and b}[op]
            if op == 'xor' and b is True and isinstance(a, RC): return a.neg()
            if isinstance(a, RC) or isinstance(b, RC):
                if op == 'or' and (a is True or b is True): return True
                if op == 'and' and (a is False or b is False): return False
                if isinstance(a, bool): return b
                if isinstance(b, bool): return a
                raise Unsupported("logic on real conditions")
            a, b = z(a), z(b)
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        if isinstance(a, (Rat, Fraction, z3.ArithRef)) or isinstance(b, (Rat, Fraction, z3.ArithRef)):
            # sign-bit manipulation of a double
            x, k = (a, b) if not isinstance(b, (Rat, z3.ArithRef)) else (b, a)
            if isinstance(a, Fraction): x, k = a, b
            if w == 64 and op == 'xor' and k == -(1 << 63): return -x
            if w == 64 and op == 'and' and k == (1 << 63) - 1: return self.handlers['fabs'](self, st, I, [x], 'fabs')
            raise Unsupported(f"{op} on opaque bits")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported(f"{op} on opaque bits")
        nsw = nuw = False
        if isinstance(I.x, tuple) and op in ('add', 'sub', 'mul', 'shl'): nsw, nuw = I.x
        if op == 'add': return self.wrap(st, ladd(a, b), w, nsw)
        if op == 'sub': return self.wrap(st, ladd(a, b, -1), w, nsw)
        if op == 'mul': return self.wrap(st, lmul(a, b), w, nsw)
        if op == 'shl' and isinstance(b, int): return self.wrap(st, lscale(a, 1 << b), w, nsw)
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = a % (1 << w), b % (1 << w)
            if op == 'and': return sx(ua & ub, w)
            if op == 'or': return sx(ua | ub, w)
            if op == 'xor': return sx(ua ^ ub, w)
            if op == 'lshr': return sx(ua >> ub, w)
            if op == 'ashr': return a >> ub
            if op == 'shl': return sx(ua << ub, w)
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.oblige(st, "no division by zero", False, 'safety'); raise DeadPath()
            if op == 'udiv': return sx(ua // ub, w)
            if op == 'urem': return sx(ua % ub, w)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            if op == 'sdiv': return sx(q, w)
            if op == 'srem': return a - q * b
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isinstance(b, int): self.oblige(st, "no division by zero", z(b) != 0, 'safety')
            if op[0] == 'u': a, b = self.uns(st, a, w), self.uns(st, b, w)
            else:
                na = self.inrange(st, a, 0, 1 << w); nb = self.inrange(st, b, 0, 1 << w)
                if not (na and nb):
                    if isinstance(b, int) and b > 0:
                        e = z(a); q = z3.If(e >= 0, e / b, -((-e) / b))
                        return fromz(q) if op == 'sdiv' else fromz(e - q * b)
                    raise Unsupported("signed division of possibly negative")
            if isinstance(b, int) and isinstance(a, Lin) and all(c % b == 0 for c in a.t.values()) and b > 0:
                # exact on the symbolic part
                if op.endswith('div'): return mk({k: c // b for k, c in a.t.items()}, a.c // b)
                return a.c % b
            la, ha = interval(a)
            if op.endswith('div'):
                lo = hi = None
                if isinstance(b, int) and b > 0:
                    lo = 0 if la is None else max(0, la // b); hi = None if ha is None else ha // b
                else: lo, hi = 0, ha
                return fromz(z(a) / z(b), lo, hi)
            return fromz(z(a) % z(b), 0, (b - 1) if isinstance(b, int) else (interval(b)[1] or None))
        if op in ('lshr', 'ashr') and isinstance(b, int):
            if op == 'lshr': a = self.uns(st, a, w)
            lo, hi = interval(a); d = 1 << b
            if all(c % d == 0 for c in a.t.values()): return mk({k: c // d for k, c in a.t.items()}, a.c // d)
            return fromz(z(a) / d, None if lo is None else lo // d, None if hi is None else hi // d)
        if op == 'and':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if b >= 0 and (b & (b + 1)) == 0:
                    d = b + 1
                    if all(c % d == 0 for c in a.t.values()): return a.c % d
                    return fromz(z(a) % d, 0, b)
                nb = -b
                if b < 0 and nb & (nb - 1) == 0:
                    if all(c % nb == 0 for c in a.t.values()): return ladd(a, -(a.c % nb))
                    return ladd(a, fromz(z(a) % nb, 0, nb - 1), -1)
            r = z3.Function(f"band{w}", z3.IntSort(), z3.IntSort(), z3.IntSort())(z(a), z(b))
            st.pc.append(z3.Implies(z3.And(z(a) >= 0, z(b) >= 0), z3.And(r >= 0, r <= z(a), r <= z(b))))
            return fromz(r, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if op == 'or':
            # disjoint or with constant low bits
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and b >= 0:
                d = 1 << b.bit_length()
                if all(c % d == 0 for c in a.t.values()) and a.c % d == 0: return ladd(a, b)
        if op == 'xor' and b == -1: return ladd(-1, a, -1)
        if op == 'xor':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int) and b > 0 and b & (b + 1) == 0 and self.valid(st, z3.And(z(a) >= 0, z(a) <= b)): return ladd(b, a, -1)
        if op == 'shl' and isinstance(a, int) and isinstance(b, Lin):
            p = z3.Function("pow2", z3.IntSort(), z3.IntSort())(z(b))
            st.pc.append(p >= 1)
            return self.wrap(st, lscale(fromz(p, 1, None), a), w, nsw)
        raise Unsupported(f"bit operation {op} on symbolic integers")

    # ------------------------------------------------------------ loops
    def loop(self, st, src, dst):
        """invariant-based treatment; returns exit edges [(state, src, dst)]"""
        F = st.frames[-1].fn
        body = F.loops[dst.id]
        key = self.key(st, dst.id)
        entry = st.fork()
        entry_wl = st.wl
        self.phis(entry, src, dst)
        eregs = {p.id: entry.frames[-1].regs[p.id] for p in dst.phis}
        H = self.loopinfo.setdefault(('H', key), {})
        # candidates dropped on this path in an earlier round of the enclosing loop stay dropped: its assumptions only shrink
        dropped, edropped = self.droplog.setdefault((key, st.br), (set(), set())) if self.outer else (set(), set())
        cands = None
        saved = self.obls
        rounds = 0
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported("invariant search does not converge")
            self.obls = []
            for rid, _ in H:
                if rid in entry.mem and entry.mem[rid].kind == 'lazy' and ('lazyty', rid) in self.loopinfo: self.resolve_lazy(entry, rid, self.loopinfo[('lazyty', rid)])
            s = entry.fork()
            s.wl = set()
            depth = len(s.frames)
            # havoc
            slots = []; rsl = []
            for p in dst.phis:
                v = eregs[p.id]
                nv, sl = self.havoc(s, v, p.ty, p.name or f"phi{p.id}")
                s.frames[-1].regs[p.id] = nv
                if isinstance(v, Ptr): self.pslots.add(p.id)
                if p.ty.k == 'double': rsl.append((p.name or f"phi{p.id}", nv, v, p.id))
                if sl is not None: slots.append((p.name, sl, self.slotval(entry, v, v, None) if isinstance(v, Ptr) else v, p.id))
            mslots = []
            for (rid, off), (size, hty) in sorted(H.items(), key=str):
                if rid not in entry.mem: continue
                sl = self.havoc_mem(s, entry, rid, off, size)
                ee = entry.mem[rid].c.get(off) if entry.mem[rid].kind == 'cells' and not isinstance(off, tuple) else None
                if ee is not None and isinstance(ee[1], Ptr): self.pslots.add((rid, off, size))
                if sl is not None: mslots.append((f"{entry.mem[rid].name}+{off}", sl[0], sl[1], (rid, off, size)))
            allsl = slots + mslots
            if cands is None or len(mslots) != nm:
                nm = len(mslots)
                cands = self.candidates(entry, allsl, F, dst, body, rsl)
                # entry check
                keep = []
                for i, (nm_, fn) in enumerate(cands):
                    if nm_ in dropped or nm_ in edropped: continue
                    try:
                        g = fn(entry, {a[3]: a[2] for a in allsl + rsl})
                    except NotApplicable: continue
                    if g is True or (g is not False and self.valid(entry, g, self.o['houdini_ms'])): keep.append((nm_, fn))
                    else:
                        edropped.add(nm_)
                        if '(' in nm_ and g is not False and self.lastr == 'unknown': self.unkdrop.add(nm_)
                        if DEBUG and '(' in nm_: print('entry', dst.id, nm_, self.lastr, str(g)[:600] if os.environ.get('VERIF_DEBUGG') else '')
                cands = keep
            vals = {a[3]: a[1] for a in allsl + rsl}
            live = []
            for nm_, fn in cands:
                try: g = fn(s, vals)
                except NotApplicable: continue
                self.assume(s, g); live.append((nm_, fn))
            cands = live
            self.outer.append([(nm_, v, k_) for nm_, v, _, k_ in allsl])
            try: r = self.explore_loop(s, dst, body, depth)
            finally: self.outer.pop()
            # frame
            grown = False
            for rid, off, size in self.lastwl:
                if rid in entry.mem and not self.covered(H, rid, off, size):
                    self.addH(H, rid, off, size); grown = True
                    if entry.mem[rid].kind == 'lazy' and ('lazyty', rid) in self.loopinfo: self.resolve_lazy(entry, rid, self.loopinfo[('lazyty', rid)])
            if grown:
                cands = None; edropped.clear(); self.droplog.clear()
                if self.outer: self.droplog[(key, st.br)] = (dropped, edropped)
                continue
            # preservation
            bad = set()
            for k in r:
                if k[0] != 'back': continue
                b = k[1]
                bvals = {}
                for p in dst.phis:
                    v = b.frames[-1].regs[p.id]
                    bvals[p.id] = self.slotval(b, v, eregs[p.id], s.frames[-1].regs.get(p.id))
                for a in mslots:
                    rid, off, size = a[3]
                    bvals[a[3]] = self.cellslot(b, rid, off, size, entry)
                for nm_, fn in cands:
                    if nm_ in bad: continue
                    try: g = fn(b, bvals)
                    except NotApplicable: bad.add(nm_); continue
                    if g is True: continue
                    if g is False or not self.valid(b, g, self.o['houdini_ms']):
                        bad.add(nm_)
                        if '(' in nm_ and g is not False and self.lastr == 'unknown': self.unkdrop.add(nm_)
                        if DEBUG and '(' in nm_:
                            print("drop", dst.id, nm_, self.lastr)
                            if os.environ['VERIF_DEBUG'] in nm_:
                                ss = z3.Solver()
                                for p in self.background + b.pc: ss.add(p)
                                ss.add(z3.Not(g)); open("/tmp/vc.smt2", "w").write(ss.to_smt2())
            if bad:
                dropped |= bad
                cands = [c for c in cands if c[0] not in bad]
                continue
            break
        self.loopinfo[('inv', key)] = [c[0] for c in cands]
        saved += self.obls
        self.obls = saved
        writes = self.lastwl | {(rid, off, sz) for (rid, off), (sz, _) in H.items()}
        if entry_wl is not None: entry_wl |= writes
        res = []
        for k in r:
            if k[0] == 'exit':
                k[1].wl = entry_wl
                res.append((k[1], k[2], k[3]))
            elif k[0] == 'ret': raise Unsupported("return inside loop")
        return res
    def explore_loop(self, s, dst, body, depth):
        s.wl = set(); shared = s.wl
        r = self.explore(s, (depth, dst.id, body))
        self.lastwl = shared
        return r
    def covered(self, H, rid, off, size):
        return (rid, off) in H
    def addH(self, H, rid, off, size):
        H[(rid, off)] = (size, None)
    def havoc(self, s, v, ty, name):
        if ty.k == 'int':
            if ty.w == 1:
                b = z3.Bool(fresh(name)); return b, None
            if isinstance(v, (int, Lin)):
                x = self.newint(s, fresh(name), ty.w); return x, x
            raise Unsupported(f"loop-carried opaque {name}")
        if ty.k in ('double', 'float'): return z3.Real(fresh(name)), None
        if ty.k == 'ptr':
            if not isinstance(v, Ptr): raise Unsupported(f"loop-carried pointer {name}")
            r = s.mem.get(v.r)
            es = self.region_stride(s, v.r)
            i = self.newint(s, fresh(name), 62)
            c = v.o if isinstance(v.o, int) else v.o.c
            return Ptr(v.r, ladd(lscale(i, es), c % es)), i
        raise Unsupported(f"loop-carried {ty}")
    def region_stride(self, s, rid):
        if rid == 0: return 1           # null pointer of an empty range
        r = s.mem.get(rid)
        if r is None: raise Unsupported("loop pointer region")
        if r.kind == 'arr': return r.es
        h = self.loopinfo.get(('stride', rid))
        if h: return h
        return 8 if r.kind != 'lazy' else 4
    def slotval(self, b, v, ev, hv):
        if isinstance(ev, Ptr):
            if not isinstance(v, Ptr) or v.r != ev.r: raise Unsupported("loop pointer changes object")
            es = self.region_stride(b, v.r)
            c = ev.o if isinstance(ev.o, int) else ev.o.c
            d = ladd(v.o, -(c % es))
            if isinstance(d, int):
                if d % es: raise Unsupported("loop pointer stride")
                return d // es
            if any(x % es for x in d.t.values()) or d.c % es: raise Unsupported("loop pointer stride")
            return mk({k: x // es for k, x in d.t.items()}, d.c // es)
        return v
    def havoc_mem(self, s, entry, rid, off, size):
        r = s.w(rid)
        if isinstance(off, tuple):
            f = r.f.get(off[1]) if r.kind == 'arr' else None
            if f is None: raise Unsupported("havoc of untyped region")
            f[2] = z3.Array(fresh(r.name), z3.IntSort(), SORT[f[0]])
            return None
        if r.kind != 'cells': raise Unsupported("havoc")
        e = r.c.get(off)
        v = e[1] if e is not None and e[0] == size else (0 if r.fill == 'zero' else UNDEF)
        if v is UNDEF:
            r.c.pop(off, None); return None
        if isinstance(v, Ptr):
            if v.r == 0:
                raise Unsupported("loop-carried null pointer in memory")
            es = self.region_stride(s, v.r)
            i = self.newint(s, fresh(f"{r.name}+{off}"), 62)
            c = v.o if isinstance(v.o, int) else v.o.c
            r.store(off, size, Ptr(v.r, ladd(lscale(i, es), c % es)))
            ev = self.slotval(s, v, v, None)
            return (i, ev)
        if isinstance(v, (bool, z3.BoolRef)):
            x = self.newint(s, fresh("b"), 8, 0, 1); r.store(off, size, x); return None
        if isinstance(v, (int, Lin)):
            x = self.newint(s, fresh(f"{r.name}+{off}"), size * 8); r.store(off, size, x)
            return (x, v)
        if isinstance(v, (Fraction, z3.ExprRef)):
            r.store(off, size, z3.Real(fresh(f"{r.name}+{off}"))); return None
        raise Unsupported("havoc of " + type(v).__name__)
    def cellslot(self, b, rid, off, size, entry):
        v = b.mem[rid].c.get(off)
        if v is None: raise Unsupported("cell vanished")
        v = v[1]
        if isinstance(v, Ptr):
            ev = entry.mem[rid].c[off][1]
            return self.slotval(b, v, ev, None)
        return v
    def candidates(self, entry, slots, F, dst, body, rsl=()):
        C = []
        ids = [(a[0], a[3], a[2]) for a in slots]
        # generic linear candidates
        bounds = [("0", 0)]
        for nm, v in self.bound_terms(entry): bounds.append((nm, v))
        def add(nm, f): C.append((nm, f))
        for nm, i, ev in ids:
            add(f"{nm}>=entry", (lambda i, ev: lambda s, V: zc(V[i], '>=', ev))(i, ev))
            add(f"{nm}<=entry", (lambda i, ev: lambda s, V: zc(V[i], '<=', ev))(i, ev))
            for bn, b in bounds:
                add(f"{nm}>={bn}", (lambda i, b: lambda s, V: zc(V[i], '>=', b))(i, b))
                add(f"{nm}<={bn}", (lambda i, b: lambda s, V: zc(V[i], '<=', b))(i, b))
        for (n1, i1, e1), (n2, i2, e2) in itertools.permutations(ids, 2):
            add(f"{n1}<={n2}", (lambda i1, i2: lambda s, V: zc(V[i1], '<=', V[i2]))(i1, i2))
            if str(i1) < str(i2):
                add(f"{n1}-{n2}=const", (lambda i1, i2, d: lambda s, V: zc(ladd(V[i1], V[i2], -1), '==', d))(i1, i2, ladd(e1, e2, -1)))
        # contract templates
        arrs = {}
        for rid, r in entry.mem.items():
            if r.kind == 'arr' and len(r.f) == 1:
                k = r.f[0][0] if 0 in r.f else None
                if k: arrs.setdefault('D' if k[0] == 'f' else 'A', []).append(rid)
        arrs['H'] = [rid for rid in arrs.get('A', []) if entry.mem[rid].heap]
        for tname, kinds, fn in self.templates:
            def okk(k, key, nm): return k == 'i' or (k == 'p') == (key in self.pslots)
            pools = [[('r', key, nm) for nm, _, _, key in rsl] if k == 'r' else [('i', i, nm, 0) for nm, i, _ in ids if okk(k, i, nm)] + ([('i', i, f"{nm}{h:+d}", h) for nm, i, _ in ids if okk(k, i, nm) for h in (1, -1)] if self.o.get('shifts') else []) + [('o', ('o', nm, d), nm + "^", v) for d, l in enumerate(self.outer) for nm, v, key in l if okk(k, key, nm)] if k in 'inp' else [('a', rid, entry.mem[rid].name) for rid in arrs.get(k, [])] for k in kinds]
            for combo in itertools.product(*pools):
                if len(set(c[1] for c in combo)) != len(combo): continue
                if any(k in 'inp' for k in kinds) and not any(c[0] == 'i' for c in combo): continue
                nm = f"{tname}({','.join(str(c[2]) for c in combo)})"
                def f(s, V, combo=combo, fn=fn):
                    self.ctxobj.bind(s)
                    args = [z(ladd(V[c[1]], c[3])) if c[0] == 'i' else z(V[c[1]]) if c[0] == 'r' else z(c[3]) if c[0] == 'o' else self.ctxobj.region(s, c[1]) for c in combo]
                    g = fn(self.ctxobj, *args)
                    return g
                add(nm, f)
        return C
    def bound_terms(self, st):
        return self.ctxobj.bound_terms(st) if self.ctxobj else []

def zc(a, op, b):
    d = ladd(a, b, -1) if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) else None
    if isinstance(d, int):
        return {'>=': d >= 0, '<=': d <= 0, '==': d == 0}[op]
    a, b = z(a), z(b)
    return {'>=': a >= b, '<=': a <= b, '==': a == b}[op]

class NotApplicable(Exception): pass
class DeadPath(Exception): pass
class Fork:
    def __init__(s, l): s.l = l

class NeedSplit(Exception):
    def __init__(s, c): s.c = c
class RC:
    """condition on a rational function: d p 0"""
    NEG = {'eq': 'ne', 'ne': 'eq', 'gt': 'le', 'le': 'gt', 'lt': 'ge', 'ge': 'lt'}
    SET = {'eq': {0}, 'ne': {-1, 1}, 'gt': {1}, 'ge': {0, 1}, 'lt': {-1}, 'le': {-1, 0}}
    def __init__(s, p, d):
        s.p, s.d = p, d
        if not isinstance(d, Fraction):
            r = poly.sqrt_radicand(d)          # sqrt(x) has the sign of x where it is defined
            if r is not None: s.d = r; s.nonneg = True
    nonneg = False
    def neg(s): return RC(RC.NEG[s.p], s.d)
    def known(s, rc):
        al = {0, 1} if s.nonneg else {-1, 0, 1}
        m = None
        for c, v in rc:
            S = RC.SET[c.p] if v else RC.SET[RC.NEG[c.p]]
            if c.d.equals(s.d): al = al & S
            else:
                if m is None: m = poly.rat(0) - s.d
                if c.d.equals(m): al = al & {-x for x in S}
        w = RC.SET[s.p]
        if al <= w: return True
        if not (al & w): return False
        return None
    def __repr__(s): return f"[{s.d} {s.p} 0]"
