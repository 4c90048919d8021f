"""Contracts: one text, evaluated symbolically (proof) and concretely (replay)."""
import ctypes, random, math
from fractions import Fraction
import z3
import poly
from poly import Rat
import symex as S

class Reject(Exception): pass

CT = {'i8': ctypes.c_int8, 'i16': ctypes.c_int16, 'i32': ctypes.c_int32, 'i64': ctypes.c_int64, 'f64': ctypes.c_double, 'f32': ctypes.c_float}

def has_ite(e):
    todo = [e]
    while todo:
        x = todo.pop()
        if not z3.is_expr(x): continue
        if z3.is_app_of(x, z3.Z3_OP_ITE): return True
        todo += x.children()
    return False
class Contract:
    """name, harness, fn: where the real code is reached; pre/post: the contract;
    templates: loop-invariant candidates [(name, kinds, f)]"""
    def __init__(self, name, harness, fn, pre, post, mode='poly', ret=None, templates=(), opts=None, under=(), tol=1e-7,
                 handlers=None, search=400, bounded=None, note="", mutable=True, native=True):
        self.name, self.harness, self.fn, self.pre, self.post, self.mode, self.ret = name, harness, fn, pre, post, mode, ret
        self.templates, self.opts, self.under, self.tol = list(templates), dict(opts or {}), list(under), tol
        self.handlers, self.search, self.bounded, self.note, self.native = handlers, search, bounded, note, native

# ------------------------------------------------------------------ symbolic
class SymArr:
    def __init__(s, c, rid, kind, n): s.c, s.rid, s.kind, s.n = c, rid, kind, n
    def _get(s, st, i):
        r = st.mem[s.rid]
        if r.kind == 'cells':
            es = S.KSIZE[s.kind]
            t = S.ir.Ty(); t.k = 'int' if s.kind[0] == 'i' else 'double'; t.w = es * 8; t.size = t.store = es
            v = r.load(int(i) * es, es, t)
            if v is S.UNDEF: raise S.Unsupported(f"contract reads undefined {r.name}[{i}]")
            if s.c.E.mode == 'poly' and s.kind[0] == 'f':
                if isinstance(v, Fraction) or isinstance(v, int): v = Rat.const(v)
                return v
            return S.z(v) if not isinstance(v, (int,)) else v
        return S.sel(r.f[0][2], S.z(i) if not isinstance(i, z3.ExprRef) else i)
    def __getitem__(s, i): return s._get(s.c.st, i)
    def acc(s, i):
        """s[i] with read-over-write of accumulations resolved: select(store(A,p,A[p]+x),i) = A[i] + (p=i ? x : 0)"""
        a = s.c.st.mem[s.rid].f[0][2]; terms = []
        while z3.is_store(a):
            p, v, b = a.arg(1), a.arg(2), a.arg(0)
            if not (z3.is_add(v) and v.num_args() == 2): break
            x = None
            for k in (0, 1):
                if v.arg(k).eq(S.sel(b, p)) or v.arg(k).eq(z3.Select(b, p)): x = v.arg(1 - k)
            if x is None: break
            terms.append(z3.If(p == i, x, z3.RealVal(0))); a = b
        r = S.sel(a, i)
        for t in reversed(terms): r = r + t
        return r
    @property
    def old(s): return OldArr(s)
class OldArr:
    def __init__(s, a): s.a = a
    def __getitem__(s, i): return s.a._get(s.a.c.st0, i)

class Sym:
    symbolic = True
    def __init__(self, engine):
        self.E = engine; self.v = {}; self.args = []; self.st = S.State(); self.st0 = None
        self.checks = []; self.order = []; self.bt = []; self.rng = None
        self.extra_bounds = []
    def __getitem__(self, k): return self.v[k]
    def bind(self, st): self.st = st
    def region(self, st, rid):
        r = st.mem[rid]
        return SymArr(self, rid, r.f[0][0] if r.kind == 'arr' else 'i32', None)
    # inputs
    def int(self, name, lo, hi, w=32, gen=None, arg=True, bound=True):
        x = self.E.newint(self.st, name, w, lo, hi)
        self.v[name] = S.z(x); self.order.append((name, 'int'))
        if arg: self.args.append(x)
        if bound: self.bt.append((name, x))
        return S.z(x)
    def cint(self, name, value, arg=True):
        self.v[name] = value
        if arg: self.args.append(value)
        return value
    def real(self, name, gen=None, arg=True):
        x = Rat.atom(name) if self.E.mode == 'poly' else z3.Real(name)
        self.v[name] = x; self.order.append((name, 'real'))
        if arg: self.args.append(x)
        return x
    def arr(self, name, kind, n, ro=False, gen=None, arg=True, out=False, tie=None, map=None):
        rid = "arg:" + name
        if isinstance(n, int):
            es = S.KSIZE[kind]
            r = S.Cells(name, n * es)
            for i in range(n):
                if out: break
                if kind[0] == 'f':
                    k = i if tie is None else tie(i)
                    v = Rat.atom(f"{name}[{k}]") if self.E.mode == 'poly' else z3.Real(f"{name}[{k}]")
                    if map: v = poly.rat(map(i, v))
                else:
                    v = self.E.newint(self.st, f"{name}[{i}]", es * 8)
                r.store(i * es, es, v)
        else:
            nn = n if isinstance(n, S.Lin) else S.fromz(z3.simplify(n) if not isinstance(n, int) else n)
            if isinstance(nn, S.Lin): nn = self._lin(n)
            r = S.Arr(name, S.KSIZE[kind], nn, {0: [kind, S.KSIZE[kind], z3.Array(name, z3.IntSort(), S.SORT[kind])]})
        r.ro = ro
        r.owner = self.st.tok
        self.st.mem[rid] = r
        a = SymArr(self, rid, kind, n)
        self.v[name] = a; self.order.append((name, 'arr'))
        if arg: self.args.append(S.Ptr(rid, 0))
        return a
    def _lin(self, e):
        """z3 linear expression -> Lin"""
        if isinstance(e, int): return e
        e = z3.simplify(e)
        def go(e):
            if z3.is_int_value(e): return e.as_long()
            if z3.is_add(e):
                r = 0
                for c in e.children(): r = S.ladd(r, go(c))
                return r
            if z3.is_sub(e):
                r = go(e.arg(0))
                for c in e.children()[1:]: r = S.ladd(r, go(c), -1)
                return r
            if z3.is_mul(e):
                r = 1
                for c in e.children(): r = S.lmul(r, go(c))
                return r
            return S.latom(e)
        return go(e)
    def consts(self, name, kind, values, arg=True):
        """concrete constant input array"""
        rid = "arg:" + name; es = S.KSIZE[kind]
        r = S.Cells(name, len(values) * es)
        for i, v in enumerate(values): r.store(i * es, es, Fraction(v) if kind[0] == 'f' else int(v))
        r.ro = True; r.owner = self.st.tok; self.st.mem[rid] = r
        a = SymArr(self, rid, kind, len(values)); self.v[name] = a
        if arg: self.args.append(S.Ptr(rid, 0))
        return a
    def stride(self, name, lo, hi, arg=True):
        """an integer whose products with others are linear ground: x*s is f(x), with f(0)=0, f(1)=s and
        x<y => f(x)+s <= f(y), y=x+1 => f(y)=f(x)+s (theorems of integers for s >= 0)"""
        s = self.int(name, lo, hi, w=64, arg=arg); f = z3.Function("times_" + name, z3.IntSort(), z3.IntSort())
        S.STRIDES[s.get_id()] = f; self._keep = getattr(self, '_keep', []) + [s]
        x, y = z3.Ints(f"x_{name} y_{name}")
        self.axiom(z3.ForAll([x, y], z3.And(z3.Implies(x < y, f(x) + s <= f(y)), z3.Implies(y == x + 1, f(y) == f(x) + s)), patterns=[z3.MultiPattern(f(x), f(y))]))
        self.axiom(f(z3.IntVal(0)) == 0); self.axiom(f(z3.IntVal(1)) == s); self.axiom(z3.ForAll([x], z3.And(z3.Implies(x >= 0, f(x) >= 0), z3.Implies(z3.And(x >= 0, x <= 1 << 31), f(x) <= hi << 31)), patterns=[f(x)]))
        return s
    def mul(self, x, name):
        if isinstance(x, int):
            if x == 0: return z3.IntVal(0)
            x = z3.IntVal(x)
        return S.STRIDES[self.v[name].get_id()](x)
    def addr(self, name): return S.Ptr("arg:" + name, 0)
    def require(self, b): self.E.assume(self.st, b if not isinstance(b, bool) else b)
    def distinct(self, l):
        l = [S.z(x) for x in l]
        self.require(z3.Distinct(*l)); self.E.distinct = frozenset(x.get_id() for x in l)
    def fn(self, name, *sorts):
        return z3.Function(name, *sorts)
    def ghost(self, name, nargs=1, real=False, concrete=None):
        so = z3.RealSort() if real else z3.IntSort()
        f = z3.Function(name, *([z3.IntSort()] * nargs), so)
        self.v[name] = f
        return f
    def axiom(self, a): self.E.background.append(a)
    def bound_terms(self, st): return self.bt + self.extra_bounds
    def bterm(self, name, e):
        self.extra_bounds.append((name, self._lin(e)))
    # logic
    def forall(self, lo, hi, f, pat=None):
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
            return self.And(*[f(i) for i in range(lo, hi)])
        k = z3.Int(S.fresh("k"))
        b = z3.Implies(z3.And(k >= lo, k < hi), self.b(f(k)))
        if pat is not None:
            p = pat(k)
            pl = p if isinstance(p, list) else [p]
            # a pattern with a condition in it is not a pattern: left to the solver
            if not any(has_ite(x) for x in pl): return z3.ForAll([k], b, patterns=pl)
        return z3.ForAll([k], b)
    def forall2(self, lo, hi, lo2, hi2, f, pat=None):
        k, l = z3.Int(S.fresh("k")), z3.Int(S.fresh("l"))
        b = z3.Implies(z3.And(k >= lo, k < hi, l >= lo2(k), l < hi2(k)), self.b(f(k, l)))
        if pat is not None: return z3.ForAll([k, l], b, patterns=[pat(k, l)])
        return z3.ForAll([k, l], b)
    def exists(self, lo, hi, f):
        k = z3.Int(S.fresh("k"))
        return z3.Exists([k], z3.And(k >= lo, k < hi, self.b(f(k))))
    def b(self, x): return z3.BoolVal(x) if isinstance(x, bool) else x
    def And(self, *l): return z3.And(*[self.b(x) for x in l]) if l else z3.BoolVal(True)
    def Or(self, *l): return z3.Or(*[self.b(x) for x in l])
    def Not(self, x): return z3.Not(self.b(x))
    def implies(self, a, b): return z3.Implies(self.b(a), self.b(b))
    def ite(self, a, x, y):
        if isinstance(a, bool): return x if a else y
        return z3.If(a, x, y)
    def div(self, a, b): return a / b if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef) else a // b
    def mod(self, a, b): return a % b
    # real functions
    def sqrt(self, x): return poly.sqrt(poly.rat(x))
    def sin(self, x): return poly.sin(poly.rat(x))
    def cos(self, x): return poly.cos(poly.rat(x))
    def uf(self, name, *a): return poly.func(name, *[poly.rat(x) for x in a])
    def sign(self, p, x):
        """is x p 0 (p in gt, ge, lt, le, eq, ne)?  undecided: the obligation is split"""
        x = poly.rat(x)
        if x.isconst():
            v = x.value(); return dict(gt=v > 0, ge=v >= 0, lt=v < 0, le=v <= 0, eq=v == 0, ne=v != 0)[p]
        c = S.RC(p, x); k = c.known(self.st.rc)
        if k is None: raise S.NeedSplit(c)
        return k
    def guarded_recip(self, x): return 1 / poly.rat(x) if self.sign('gt', x) else Rat.const(0)
    def max0(self, x):
        x = poly.rat(x)
        if x.isconst(): return x if x.value() > 0 else Rat.const(0)
        if S.RC('ge', x).known(self.st.rc): return x
        if S.RC('le', x).known(self.st.rc): return Rat.const(0)
        raise S.NeedSplit(S.RC('gt', x))
    def fabs(self, x):
        """|x|"""
        return self.E.handlers['fabs'](self.E, self.st, None, [poly.rat(x)], 'fabs')
    # obligations
    def ensure(self, name, goal):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        self.checks.append(('smt', name, list(self.st.pc), goal))
    def eq(self, name, a, b, tol=0):
        if self.E.mode == 'poly' and (isinstance(a, Rat) or isinstance(b, Rat) or isinstance(a, Fraction) or isinstance(a, float)):
            a, b = poly.rat(a), poly.rat(b)
            ok = a.equals(b, tol)
            if not ok and self.st.rc: ok = S.RC('eq', a - b).known(self.st.rc) is True
            self.checks.append(('poly', name, ok, (a, b)))
        else:
            if isinstance(a, (tuple, type(None))) or (isinstance(a, (int,)) and isinstance(b, int)): self.checks.append(('poly', name, a == b, (a, b)))
            else: self.ensure(name, S.z(a) == S.z(b))
    def near(self, name, a, b, tol):
        """ground comparison of exact constants"""
        d = poly.rat(a) - poly.rat(b)
        ok = d.isconst() and abs(d.value()) <= tol
        self.checks.append(('poly', name, ok, (a, b)))
    def const(self, x):
        """the value of an input-independent result"""
        x = poly.rat(x)
        if not x.isconst(): raise S.Unsupported("result is not a constant")
        return float(x.value())
    @property
    def ret(self):
        v = self.st.ret
        if isinstance(v, bool): return v
        if isinstance(v, Fraction) and self.E.mode == 'poly': return Rat.const(v)
        if isinstance(v, (S.Lin, int)): return S.z(v) if not isinstance(v, int) else v
        return v

# ------------------------------------------------------------------ concrete
class ConcArr:
    PAD = 16
    def __init__(s, kind, vals, rng):
        s.kind = kind; n = len(vals); s.n = n
        s.buf = (CT[kind] * (n + 2 * s.PAD))()
        s.canary = [ (77.25 if kind[0] == 'f' else 77)] * s.PAD
        for i in range(s.PAD):
            s.buf[i] = s.canary[i]; s.buf[n + s.PAD + i] = s.canary[i]
        for i, v in enumerate(vals): s.buf[s.PAD + i] = v
        s._old = [s.buf[s.PAD + i] for i in range(n)]
    def ptr(s): return ctypes.cast(ctypes.byref(s.buf, s.PAD * ctypes.sizeof(CT[s.kind])), ctypes.c_void_p)
    def canaries(s):
        return all(s.buf[i] == s.canary[i] and s.buf[s.n + s.PAD + i] == s.canary[i] for i in range(s.PAD))
    def __getitem__(s, i):
        if not 0 <= i < s.n: raise IndexError
        return s.buf[s.PAD + i]
    @property
    def old(s): return s._old
    def now(s): return [s.buf[s.PAD + i] for i in range(s.n)]

class Conc:
    symbolic = False
    def __init__(self, seed, tol=1e-7, preset=None, small=False):
        self.rng = random.Random(seed); self.v = {}; self.args = []; self.argt = []; self.tol = tol; self.preset = preset or {}
        self.fail = []; self.inputs = {}; self.ret = None; self.nchecks = 0; self.arrs = []; self.small = small
    def __getitem__(self, k): return self.v[k]
    def _put(self, name, v, ct, arg):
        self.v[name] = v
        if arg: self.args.append(v); self.argt.append(ct)
    def int(self, name, lo, hi, w=32, gen=None, arg=True, bound=True):
        if name in self.preset: x = self.preset[name]
        elif gen: x = gen(self.rng, self)
        else:
            m = self.rng.random()
            x = self.rng.randint(lo, min(hi, lo + (4 if m < .4 else 12 if m < .9 else 40)))
        if not lo <= x <= hi: raise Reject()
        self.inputs[name] = x
        self._put(name, x, CT[f'i{w}'], arg); return x
    def stride(self, name, lo, hi, arg=True): return self.int(name, self.lift(lo), self.lift(hi), w=64, arg=arg)
    def lift(self, x): return x
    def mul(self, x, name): return x * self.v[name]
    def cint(self, name, value, arg=True):
        self._put(name, value, ctypes.c_int64, arg); return value
    def real(self, name, gen=None, arg=True):
        x = self.preset.get(name, gen(self.rng, self) if gen else self.rng.uniform(-2, 2))
        self.inputs[name] = x
        self._put(name, x, ctypes.c_double, arg); return x
    def arr(self, name, kind, n, ro=False, gen=None, arg=True, out=False, tie=None, map=None):
        if name in self.preset: vals = list(self.preset[name])[:n]; vals += [0] * (n - len(vals))
        elif gen: vals = gen(self.rng, n, self)
        elif kind[0] == 'f': vals = [self.rng.uniform(-2, 2) for _ in range(n)]
        else: vals = [self.rng.randint(-3, 9) for _ in range(n)]
        if map and name not in self.preset: vals = [map(i, v) for i, v in enumerate(vals)]
        if tie: vals = [vals[tie(i)] for i in range(n)]
        if out: vals = [55 if kind[0] == 'i' else 55.5 for _ in range(n)]
        if len(vals) != n: raise Reject()
        if not out: self.inputs[name] = list(vals)
        a = ConcArr(kind, vals, self.rng); a.ro = ro; a.name = name
        self.arrs.append(a)
        self.v[name] = a
        if arg: self.args.append(a); self.argt.append(ctypes.c_void_p)
        return a
    def consts(self, name, kind, values, arg=True):
        a = ConcArr(kind, [v for v in values], self.rng); a.ro = True; a.name = name
        self.arrs.append(a); self.v[name] = a
        if arg: self.args.append(a); self.argt.append(ctypes.c_void_p)
        return a
    def require(self, b):
        if not b: raise Reject()
    def distinct(self, l):
        if len(set(l)) != len(l): raise Reject()
    def ghost(self, name, nargs=1, real=False, concrete=None):
        self.v[name] = lambda *a: concrete(self, *a)
        return self.v[name]
    def axiom(self, a): pass
    def const(self, x): return float(x)
    def sign(self, p, v): return dict(gt=v > 0, ge=v >= 0, lt=v < 0, le=v <= 0, eq=v == 0, ne=v != 0)[p]
    def guarded_recip(self, x): return 1 / x if x > 0 else 0.0
    def max0(self, x): return max(x, 0.0)
    def fabs(self, x): return abs(x)
    def bterm(self, name, e): pass
    def forall(self, lo, hi, f, pat=None): return all(bool(f(k)) for k in range(lo, hi))
    def forall2(self, lo, hi, lo2, hi2, f, pat=None):
        return all(bool(f(k, l)) for k in range(lo, hi) for l in range(lo2(k), hi2(k)))
    def exists(self, lo, hi, f): return any(f(k) for k in range(lo, hi))
    def b(self, x): return x
    def And(self, *l): return all(l)
    def Or(self, *l): return any(l)
    def Not(self, x): return not x
    def implies(self, a, b): return (not a) or b
    def ite(self, a, x, y): return x if a else y
    def div(self, a, b): return a // b
    def mod(self, a, b): return a % b
    def sqrt(self, x): return math.sqrt(x)
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def uf(self, name, *a): return getattr(math, name)(*a)
    def ensure(self, name, goal):
        self.nchecks += 1
        if not goal: self.fail.append((name, "contract clause is false"))
    def eq(self, name, a, b, tol=0):
        self.nchecks += 1
        if isinstance(a, float) or isinstance(b, float):
            if math.isnan(a) != math.isnan(b) or abs(a - b) > (self.tol + tol) * (1 + abs(a) + abs(b)):
                self.fail.append((name, f"got {a!r}, contract says {b!r}"))
        elif a != b: self.fail.append((name, f"got {a!r}, contract says {b!r}"))
    def near(self, name, a, b, tol):
        self.nchecks += 1
        if not abs(a - b) <= float(tol) + 1e-12: self.fail.append((name, f"got {a!r}, contract says {b!r}"))
    def run(self, lib, con):
        f = getattr(lib, con.fn)
        f.argtypes = self.argt
        f.restype = {None: None, 'i32': ctypes.c_int32, 'i64': ctypes.c_int64, 'f64': ctypes.c_double, 'bool': ctypes.c_bool}[con.ret]
        self.ret = f(*[a.ptr() if isinstance(a, ConcArr) else a for a in self.args])
        for a in self.arrs:
            if not a.canaries(): self.fail.append((f"frame of {a.name}", "memory outside the array was overwritten"))
            if a.ro and a.now() != a._old: self.fail.append((f"frame of {a.name}", "read-only input was changed"))
