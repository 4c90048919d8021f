"""Exact rational functions over named atoms (the real-arithmetic back end).

Rat = num/den, num a polynomial {monomial: int|Fraction}, den a product of
polynomial factors {frozen poly: exponent}.  Monomials are sorted tuples of
atom ids (with repetition).  Atoms may carry a square rule (sqrt, sin/cos)."""
from fractions import Fraction

ATOM = []            # id -> name
ATOMID = {}
SQ = {}              # id -> Rat equal to atom**2
INFO = {}            # id -> ('sqrt', Rat) ...

def atom_id(name):
    i = ATOMID.get(name)
    if i is None:
        i = len(ATOM); ATOM.append(name); ATOMID[name] = i
    return i

def reset():
    ATOM.clear(); ATOMID.clear(); SQ.clear(); INFO.clear()

def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    r = {}
    get = r.get
    for m1, c1 in a.items():
        if not m1:
            for m2, c2 in b.items():
                r[m2] = get(m2, 0) + c1 * c2
        else:
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2)) if m2 else m1
                r[m] = get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c)
        if v: r[m] = v
        else: r.pop(m, None)
    return r

ONE = {(): 1}
def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

class Rat:
    __slots__ = ("n", "d")
    def __init__(s, n, d=None):
        s.n = n; s.d = d or {}
    @staticmethod
    def const(c):
        c = norm(c if isinstance(c, (int, Fraction)) else Fraction(c))
        return Rat({(): c} if c else {})
    @staticmethod
    def atom(name):
        return Rat({(atom_id(name),): 1})
    def isconst(s):
        return not s.d and (not s.n or (len(s.n) == 1 and () in s.n))
    def value(s):
        return Fraction(s.n.get((), 0))
    def iszero(s):
        return not s.n
    def __add__(s, o, sg=1):
        o = rat(o)
        if o is NotImplemented: return o
        if not o.n: return s
        if not s.n: return o if sg == 1 else -o
        if s.d == o.d:
            n = padd(s.n, o.n, sg)
            return Rat(n, s.d if n else None)
        d = dict(s.d)
        for f, e in o.d.items():
            if d.get(f, 0) < e: d[f] = e
        a, b = s.n, o.n
        for f, e in d.items():
            for _ in range(e - s.d.get(f, 0)): a = pmul(a, dict(f))
            for _ in range(e - o.d.get(f, 0)): b = pmul(b, dict(f))
        n = padd(a, b, sg)
        return reduce_(Rat(n, d if n else None))
    def __radd__(s, o): return s + o
    def __sub__(s, o): return s.__add__(o, -1)
    def __rsub__(s, o): return rat(o).__add__(s, -1)
    def __neg__(s): return Rat({m: -c for m, c in s.n.items()}, s.d)
    def __mul__(s, o):
        o = rat(o)
        if o is NotImplemented: return o
        if not s.n or not o.n: return Rat({})
        n = pmul(s.n, o.n)
        d = s.d
        if o.d:
            d = dict(d)
            for f, e in o.d.items(): d[f] = d.get(f, 0) + e
        r = Rat(n, d)
        if SQ: r = sqreduce(r)
        if d: r = reduce_(r)
        return r
    def __rmul__(s, o): return s * o
    def inv(s):
        if not s.n: raise ZeroDivisionError
        n = ONE
        for f, e in s.d.items():
            for _ in range(e): n = pmul(n, dict(f))
        if len(s.n) == 1:
            (m, c), = s.n.items()
            r = Rat({k: norm(Fraction(v) / c) for k, v in n.items()})
            d = {}
            for a in m:
                f = (((a,), 1),)
                d[f] = d.get(f, 0) + 1
            r.d = d
            return r
        items = sorted(s.n.items())
        lead = items[0][1]
        f = tuple((m, norm(Fraction(c) / lead)) for m, c in items)
        return Rat({k: norm(Fraction(v) / lead) for k, v in n.items()}, {f: 1})
    def __truediv__(s, o):
        o = rat(o)
        if o.isconst():
            c = o.value()
            return Rat({m: norm(Fraction(v) / c) for m, v in s.n.items()}, s.d)
        return s * o.inv()
    def __rtruediv__(s, o): return rat(o) / s
    def __pow__(s, k):
        r = Rat({(): 1})
        for _ in range(k): r = r * s
        return r
    def equals(s, o, tol=0):
        d = s - rat(o)
        if not d.n: return True
        if SQ:
            d = sqreduce(d)
            if not d.n: return True
        if tol:
            return all(abs(c) <= tol for c in d.n.values())
        return False
    def __repr__(s):
        def p(n):
            if not n: return "0"
            t = []
            for m, c in sorted(n.items())[:12]:
                t.append(f"{float(c):.6g}" + "".join("*" + ATOM[a] for a in m))
            return " + ".join(t) + (" + ..." if len(n) > 12 else "")
        r = p(s.n)
        if s.d:
            r = f"({r}) / " + "*".join(f"({p(dict(f))})^{e}" for f, e in s.d.items())
        return r
    def evalf(s, env):
        def p(items):
            t = 0
            for m, c in items:
                v = c
                for a in m: v = v * env(a)
                t += v
            return t
        v = p(s.n.items())
        for f, e in s.d.items():
            v = v / p(f) ** e
        return v
    def atoms(s):
        r = set()
        for m in s.n: r.update(m)
        for f in s.d:
            for m, _ in f: r.update(m)
        return r

def rat(x):
    if isinstance(x, Rat): return x
    if isinstance(x, (int, Fraction)): return Rat.const(x)
    if isinstance(x, float): return Rat.const(Fraction(x))
    return NotImplemented

def reduce_(r):
    """cancel single-atom denominator factors (and whole-factor numerators)"""
    if not r.d or not r.n:
        return Rat(r.n) if not r.n else r
    n, d = r.n, r.d
    changed = False
    for f in list(d):
        if len(f) == 1:
            a = f[0][0][0]
            while d.get(f, 0) and all(a in m for m in n):
                if not changed: d = dict(d); changed = True
                nn = {}
                for m, c in n.items():
                    l = list(m); l.remove(a); nn[tuple(l)] = c
                n = nn
                d[f] -= 1
                if not d[f]: del d[f]
        else:
            # exact division of numerator by the factor when they are proportional
            while d.get(f, 0) and len(f) == len(n):
                items = sorted(n.items())
                lead = items[0][1]
                if all(m == fm and norm(Fraction(c) / lead) == fc for (m, c), (fm, fc) in zip(items, f)):
                    if not changed: d = dict(d); changed = True
                    n = {(): lead}
                    d[f] -= 1
                    if not d[f]: del d[f]
                else: break
    return Rat(n, d)

def sqreduce(r):
    while True:
        hit = None
        for m in r.n:
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and m[i] in SQ: hit = m[i]; break
            if hit is not None: break
        if hit is None: return r
        keep, quo = {}, {}
        for m, c in r.n.items():
            if m.count(hit) >= 2:
                l = list(m); l.remove(hit); l.remove(hit)
                quo[tuple(l)] = quo.get(tuple(l), 0) + c
            else: keep[m] = c
        sq = SQ[hit]
        r = Rat(keep, r.d) + Rat(pmul(quo, sq.n), _dmul(r.d, sq.d))

def _dmul(a, b):
    d = dict(a)
    for f, e in b.items(): d[f] = d.get(f, 0) + e
    return d

def key(r):
    return (tuple(sorted(r.n.items())), tuple(sorted((f, e) for f, e in r.d.items())))

def rkey(r):
    """key of an argument with coefficients rounded to 12 digits (constants such as pi/180 are
    floating-point numbers: arguments that differ by their rounding only are the same)"""
    return (tuple(sorted((m, "%.12g" % c) for m, c in r.n.items())), tuple(sorted((f, e) for f, e in r.d.items())))
def func(name, *args, sq=None):
    """an atom standing for name(args): equal arguments give the same atom"""
    k = (name,) + tuple(rkey(a) for a in args)
    nm = f"{name}#{len(ATOM)}"
    if k in ATOMID: i = ATOMID[k]
    else:
        i = len(ATOM); ATOM.append(nm); ATOMID[k] = i; INFO[i] = (name, args)
        if sq is not None:
            SQ[i] = sq
    return Rat({(i,): 1})

def sqrt(x):
    if x.isconst():
        v = x.value()
        if v >= 0:
            import math
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator: return Rat.const(Fraction(a, b))
            n = v.numerator * v.denominator
            if 0 < n < 1 << 40:
                # one name per square-free radicand
                f, k = Fraction(1, v.denominator), 2
                while k * k <= n and k < 2000:
                    while n % (k * k) == 0: n //= k * k; f *= k
                    k += 1
                return func("sqrt", Rat.const(n), sq=Rat.const(n)) * Rat.const(f)
    return func("sqrt", x, sq=x)

def cos(x):
    if x.iszero(): return Rat.const(1)
    if negative(x): x = 0 - x
    s = func("sin", x)
    return func("cos", x, sq=1 - s * s)
def sin(x):
    if x.iszero(): return Rat({})
    if negative(x): return 0 - func("sin", 0 - x)
    return func("sin", x)
def negative(x):
    """leading coefficient sign (cos is even, sin is odd)"""
    return bool(x.n) and x.n[min(x.n)] < 0
def sqrt_radicand(r):
    """x if r is a positive multiple of sqrt(x)"""
    if r.d or len(r.n) != 1: return None
    (m, c), = r.n.items()
    if len(m) == 1 and c > 0 and INFO.get(m[0], ("",))[0] == "sqrt": return INFO[m[0]][1][0]
    return None
