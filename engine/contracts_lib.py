"""Contracts assumed for compiler intrinsics and library functions."""
from fractions import Fraction
import z3
import poly
from poly import Rat

def install(E):
    import symex as S
    U = S.Unsupported
    H = E.handlers
    E.prefix = []
    def pre(p, h): E.prefix.append((p, h))
    nop = lambda e, st, I, a, n: None
    def dead(e, st, I, a, n):
        raise S.DeadPath()
    for p in ("llvm.lifetime.", "llvm.dbg.", "llvm.experimental.noalias", "llvm.assume", "llvm.stacksave", "llvm.stackrestore", "llvm.invariant", "llvm.donothing", "llvm.prefetch", "llvm.trap"):
        pre(p, nop)
    def lane1(f):
        def h(e, st, I, a, n):
            x = a[0]
            return tuple(f(e, st, y) for y in x) if isinstance(x, tuple) else f(e, st, x)
        return h
    def lane2(f):
        def h(e, st, I, a, n):
            x, y = a[0], a[1]
            return tuple(f(e, st, p, q) for p, q in zip(x, y)) if isinstance(x, tuple) else f(e, st, x, y)
        return h
    def fsqrt(e, st, x):
        if x is S.UNDEF: return x
        x = e.rl(x)
        if isinstance(x, (Fraction, Rat)):
            r = poly.sqrt(poly.rat(x))
            return r.value() if r.isconst() else r
        s = z3.Real(S.fresh("sqrt")); st.pc.append(z3.And(s >= 0, z3.Implies(S.z(x) >= 0, s * s == S.z(x))))
        return s
    def fabs(e, st, x):
        if x is S.UNDEF: return x
        x = e.rl(x)
        if isinstance(x, Fraction): return abs(x)
        if isinstance(x, Rat):
            if getattr(st, 'rc', None):
                if S.RC('ge', x).known(st.rc): return x
                if S.RC('le', x).known(st.rc): return 0 - x
            # |x| is an atom whose square is x^2; |-x| is the same atom
            k1, k2 = poly.key(x), poly.key(-x)
            y = x if k1 <= k2 else -x
            if len(y.n) == 1 and not y.d:
                (m, c), = y.n.items()
                if len(m) == 1 and poly.INFO.get(m[0], ("",))[0] in ("fabs", "sqrt"):
                    return Rat({m: abs(c)})
            return poly.func("fabs", y, sq=y * y)
        return z3.If(x >= 0, x, -x)
    pre("llvm.sqrt", lane1(fsqrt)); H["sqrt"] = lane1(fsqrt)
    pre("llvm.fabs", lane1(fabs)); H["fabs"] = lane1(fabs)
    def uf1(name):
        def f(e, st, x):
            if x is S.UNDEF: return x
            x = e.rl(x)
            if isinstance(x, (Fraction, Rat)):
                x = poly.rat(x)
                if name == 'sin': return poly.sin(x)
                if name == 'cos': return poly.cos(x)
                if name == 'exp' and x.iszero(): return Fraction(1)
                if name == 'log' and x.isconst() and x.value() == 1: return Fraction(0)
                if name == 'acos' and x.isconst() and x.value() == 1: return Fraction(0)
                return poly.func(name, x)
            return z3.Function(name, z3.RealSort(), z3.RealSort())(S.z(x))
        return lane1(f)
    for nm in ("sin", "cos", "tan", "exp", "log", "acos", "asin", "atan", "sinh", "cosh", "cbrt"):
        H[nm] = uf1(nm); pre("llvm." + nm + ".", uf1(nm))
    def fl(name):
        def f(e, st, x):
            if x is S.UNDEF: return x
            if isinstance(x, Fraction):
                import math
                return Fraction(math.floor(x) if name == 'floor' else math.ceil(x))
            if isinstance(x, Rat): return poly.func(name, x)
            return z3.ToReal(z3.ToInt(x)) if name == 'floor' else -z3.ToReal(z3.ToInt(-x))
        return lane1(f)
    for nm in ("floor", "ceil"):
        H[nm] = fl(nm); pre("llvm." + nm + ".", fl(nm))
    def uf2(name):
        def f(e, st, x, y):
            x, y = e.rl(x), e.rl(y)
            if isinstance(x, (Fraction, Rat)) and isinstance(y, (Fraction, Rat)):
                x, y = poly.rat(x), poly.rat(y)
                if name == 'pow' and y.isconst() and y.value().denominator == 1 and 0 <= y.value() <= 8: return x ** int(y.value())
                return poly.func(name, x, y)
            return z3.Function(name, z3.RealSort(), z3.RealSort(), z3.RealSort())(S.z(x), S.z(y))
        return lane2(f)
    H["pow"] = uf2("pow"); pre("llvm.pow.", uf2("pow")); H["atan2"] = uf2("atan2")
    def pwi(e, st, I, a, n):
        x, k = a
        if isinstance(k, int) and 0 <= k <= 8:
            r = Fraction(1)
            for _ in range(k): r = e.fop('fmul', r, x)
            return r
        raise U("powi")
    pre("llvm.powi", pwi)
    def fma(e, st, I, a, n):
        if isinstance(a[0], tuple): return tuple(e.fop('fadd', e.fop('fmul', x, y), w) for x, y, w in zip(*a))
        return e.fop('fadd', e.fop('fmul', a[0], a[1]), a[2])
    pre("llvm.fmuladd", fma); pre("llvm.fma.", fma); H["fma"] = fma
    def fmm(mx):
        def f(e, st, x, y):
            c = e.fcmp('ogt' if mx else 'olt', x, y)
            return e.select(st, c, x, y)
        return lane2(f)
    pre("llvm.x86.sse2.max.pd", fmm(True)); pre("llvm.x86.avx.max.pd", fmm(True)); pre("llvm.x86.avx.min.pd", fmm(False)); pre("llvm.x86.sse2.min.pd", fmm(False)); pre("llvm.maxnum", fmm(True)); pre("llvm.minnum", fmm(False)); H["fmax"] = fmm(True); H["fmin"] = fmm(False)
    def reduce_add(e, st, I, a, n):
        r = a[0]
        for x in a[1]: r = e.fop('fadd', r, x)
        return r
    pre("llvm.vector.reduce.fadd", reduce_add)
    def imm(p):
        def h(e, st, I, a, n):
            w = I.ty.w if I.ty.k == 'int' else I.ty.e.w
            t = S.ir.Ty(); t.k = 'int'; t.w = w
            def f(x, y):
                c = e.icmp(st, p, x, y, t)
                return e.select(st, c, x, y)
            return tuple(map(f, a[0], a[1])) if isinstance(a[0], tuple) else f(a[0], a[1])
        return h
    pre("llvm.smax", imm('sgt')); pre("llvm.smin", imm('slt')); pre("llvm.umax", imm('ugt')); pre("llvm.umin", imm('ult'))
    def iabs(e, st, I, a, n):
        x = a[0]
        if isinstance(x, int): return abs(x)
        return S.fromz(z3.If(S.z(x) >= 0, S.z(x), -S.z(x)), 0, None)
    pre("llvm.abs", iabs)
    def ovf(op, signed):
        def h(e, st, I, a, n):
            w = I.ty.els[0].w
            x, y = a
            if not signed: x, y = e.uns(st, x, w), e.uns(st, y, w)
            r = {'mul': S.lmul, 'add': S.ladd}[op](x, y) if op != 'sub' else S.ladd(x, y, -1)
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
            if isinstance(r, int): return (S.sx(r, w), not lo <= r <= hi)
            if e.inrange(st, r, lo, hi):
                return (e.wrap(st, r, w), False)
            return (e.wrap(st, r, w), z3.Not(z3.And(S.z(r) >= lo, S.z(r) <= hi)))
        return h
    for o in ("mul", "add", "sub"):
        pre(f"llvm.u{o}.with.overflow", ovf(o, False)); pre(f"llvm.s{o}.with.overflow", ovf(o, True))
    def usubsat(e, st, I, a, n):
        w = I.ty.w
        x, y = e.uns(st, a[0], w), e.uns(st, a[1], w)
        d = S.ladd(x, y, -1)
        if isinstance(d, int): return max(0, d)
        return e.wrap(st, S.fromz(z3.If(S.z(d) >= 0, S.z(d), 0), 0, None), w)
    pre("llvm.usub.sat", usubsat)
    pre("llvm.expect", lambda e, st, I, a, n: a[0])
    pre("llvm.is.constant", lambda e, st, I, a, n: False)
    pre("llvm.objectsize", lambda e, st, I, a, n: -1)
    pre("llvm.launder", lambda e, st, I, a, n: a[0]); pre("llvm.strip", lambda e, st, I, a, n: a[0])
    pre("llvm.ptr.annotation", lambda e, st, I, a, n: a[0])
    def ctpop(e, st, I, a, n):
        if isinstance(a[0], int): return bin(a[0] & ((1 << I.ty.w) - 1)).count("1")
        raise U("ctpop")
    pre("llvm.ctpop", ctpop)
    def ctz(e, st, I, a, n):
        w = I.ty.w
        if isinstance(a[0], int):
            x = a[0] % (1 << w)
            if n.startswith("llvm.cttz"): return w if x == 0 else (x & -x).bit_length() - 1
            return w - x.bit_length()
        raise U("ctlz")
    pre("llvm.ctlz", ctz); pre("llvm.cttz", ctz)
    def fsh(e, st, I, a, n):
        w = I.ty.w
        if all(isinstance(x, int) for x in a):
            k = a[2] % w; x, y = a[0] % (1 << w), a[1] % (1 << w)
            if n.startswith("llvm.fshl"): return S.sx(((x << k) | (y >> (w - k))) & ((1 << w) - 1), w)
            return S.sx(((y >> k) | (x << (w - k))) & ((1 << w) - 1), w)
        raise U("fsh")
    pre("llvm.fshl", fsh); pre("llvm.fshr", fsh)
    def bswap(e, st, I, a, n):
        w = I.ty.w
        if isinstance(a[0], int): return S.sx(int.from_bytes((a[0] % (1 << w)).to_bytes(w // 8, 'little'), 'big'), w)
        raise U("bswap")
    pre("llvm.bswap", bswap)

    # ---------------------------------------------------------- allocation
    def alloc(e, st, size, name, zero=False):
        rid = S.fresh("heap:" + name)
        if isinstance(size, int): r = S.Cells(name, size, 'zero' if zero else None)
        else: r = S.Lazy(name, size, zero)
        r.heap = True; r.owner = st.tok
        st.mem[rid] = r
        return S.Ptr(rid, 0)
    E.alloc = lambda st, size, name, zero=False: alloc(E, st, size, name, zero)
    def new(e, st, I, a, n):
        e.assumptions.add("memory allocation succeeds")
        sz = a[0]
        if not isinstance(sz, int):
            # allocation of an impossible size throws: not modelled, path assumed not taken
            st.pc.append(z3.And(S.z(sz) >= 0, S.z(sz) < 1 << 46))
        return alloc(e, st, sz, I.name or "new")
    for nm in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"): H[nm] = new
    def calloc(e, st, I, a, n): return alloc(e, st, S.lmul(a[0], a[1]), I.name or "calloc", True)
    H["calloc"] = calloc
    def aalloc(e, st, I, a, n): return alloc(e, st, a[1], I.name or "aligned")
    H["aligned_alloc"] = aalloc; H["memalign"] = aalloc
    def pmemalign(e, st, I, a, n):
        p = alloc(e, st, a[2], "posix_memalign")
        t = S.ir.Ty(); t.k = 'ptr'; t.size = t.store = 8
        e.store(st, a[0], t, p); return 0
    H["posix_memalign"] = pmemalign
    def free(e, st, I, a, n):
        p = a[0]
        if isinstance(p, S.Ptr) and p.r != 0 and p.r in st.mem:
            e.oblige(st, "deallocation of a block start", S.zc(p.o, '==', 0) if not isinstance(p.o, int) else p.o == 0, 'safety')
            if st.wl is None: del st.mem[p.r]
        return None
    for nm in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t"): H[nm] = free
    for p in ("_ZSt20__throw", "_ZSt17__throw", "_ZSt19__throw", "_ZSt24__throw", "_ZSt16__throw", "_ZSt18__throw", "_ZSt2", "__cxa_throw", "_ZSt9terminatev", "__cxa_rethrow", "abort", "exit", "__assert_fail", "__clang_call_terminate"):
        if p != "_ZSt2": pre(p, dead)
    def eserr(e, st, I, a, n):
        if e.o.get('noerror'): e.oblige(st, "valid input is not rejected with an error report", False, 'safety'); raise S.DeadPath()
        e.assumptions.add("a call of the error report (eslog::error) ends the run; such paths carry no postcondition")
        raise S.DeadPath()
    pre("_ZN7espreso5eslog5error", eserr); pre("_ZN7espreso5eslog13internalFailure", eserr); pre("_ZN7espreso5eslog11globalerror", eserr)
    for q in ("_ZN7espreso5eslog7warning", "_ZN7espreso5eslog4info", "_ZN7espreso5eslog5debug", "_ZN7espreso5eslog6solverI", "_ZN7espreso5eslog12linearsolver", "_ZN7espreso5eslog8duration", "_ZN7espreso5eslog9storedata"): pre(q, nop)
    H["__cxa_allocate_exception"] = lambda e, st, I, a, n: alloc(e, st, 64, "exc")
    H["__cxa_atexit"] = lambda e, st, I, a, n: 0
    H["__cxa_guard_acquire"] = lambda e, st, I, a, n: 1
    H["__cxa_guard_release"] = nop
    H["printf"] = lambda e, st, I, a, n: 0
    H["puts"] = lambda e, st, I, a, n: 0
    H["__cxa_begin_catch"] = nop; H["__cxa_end_catch"] = nop
    H["omp_get_max_threads"] = lambda e, st, I, a, n: 1
    H["omp_get_num_threads"] = lambda e, st, I, a, n: 1
    H["omp_get_thread_num"] = lambda e, st, I, a, n: 0

    # ---------------------------------------------------------- block memory
    def elems(e, r, off, ln):
        """(start index, count) of a byte range in an array region"""
        ix = e.arr_index(r, off)
        if ix is None or ix[1] != 0: raise U("unaligned block operation")
        if isinstance(ln, int):
            if ln % r.es: raise U("partial element block operation")
            return ix[0], ln // r.es
        if all(c % r.es == 0 for c in ln.t.values()) and ln.c % r.es == 0:
            return ix[0], S.mk({k: c // r.es for k, c in ln.t.items()}, ln.c // r.es)
        q = z3.Int(S.fresh("cnt"))
        return ix[0], ("div", ln, q)
    def memcpy(e, st, I, a, n):
        d, s, ln = a[0], a[1], a[2]
        rv = d
        if isinstance(ln, int) and ln == 0: return rv
        if not isinstance(ln, int) and e.valid(st, S.z(ln) == 0): return rv
        if d.r == 0 or s.r == 0:
            e.oblige(st, "memcpy: zero length for null pointer", S.z(ln) == 0, 'safety'); return rv
        R, Q = st.mem.get(d.r), st.mem.get(s.r)
        if R is None or Q is None:
            e.oblige(st, "memcpy on live memory", False, 'safety'); raise S.DeadPath()
        if Q.kind == 'lazy' and R.kind == 'arr':
            Q = _type_as(e, st, s.r, R)
        if R.kind == 'lazy' and Q.kind == 'arr':
            R = _type_as(e, st, d.r, Q)
        if R.kind == 'lazy' and Q.kind == 'cells' and isinstance(ln, int) and isinstance(s.o, int):
            for o in range(s.o, s.o + ln):
                c = Q.c.get(o)
                if c is not None:
                    t = S.ir.Ty()
                    if isinstance(c[1], (Fraction,)) or (isinstance(c[1], z3.ExprRef) and c[1].sort() == z3.RealSort()): t.k = 'double'
                    elif isinstance(c[1], (int, S.Lin)): t.k = 'int'; t.w = c[0] * 8
                    else: raise U("memcpy into untyped heap")
                    t.size = t.store = c[0]
                    R = e.resolve_lazy(st, d.r, t); break
        if R.ro:
            e.oblige(st, f"no write to read-only {R.name}", False, 'frame'); raise S.DeadPath()
        if R.kind == 'cells' and Q.kind == 'cells' and isinstance(ln, int) and isinstance(d.o, int) and isinstance(s.o, int):
            try: Q.inb(s.o, ln); R.inb(d.o, ln)
            except S.OOB:
                e.oblige(st, f"memcpy in bounds of {R.name}", False, 'safety'); raise S.DeadPath()
            R = st.w(d.r)
            items = []
            o = s.o
            ks = sorted(k for k in range(s.o, s.o + ln) if k in Q.c) if ln < 4 * len(Q.c) else sorted(k for k in Q.c if s.o <= k < s.o + ln)
            cov = 0
            for k in ks:
                sz, v = Q.c[k]
                if k + sz > s.o + ln: raise U("memcpy splits a cell")
                items.append((k - s.o + d.o, sz, v)); cov += sz
            if cov < ln:
                # uncovered source bytes: undefined or zero
                for k in range(d.o, d.o + ln):
                    cc = R.c.get(k)
                    if cc: del R.c[k]
                if Q.fill == 'zero':
                    have = set()
                    for k, sz, v in items: have.update(range(k, k + sz))
                    for k in range(d.o, d.o + ln):
                        if k not in have: items.append((k, 1, 0))
            for k, sz, v in items:
                e.wlog(st, d.r, k, sz); R.store(k, sz, v)
            return rv
        if R.kind == 'arr' and Q.kind == 'arr':
            if R.es != Q.es or set(R.f) != set(Q.f): raise U("memcpy between differently typed arrays")
            di, cnt = elems(e, R, d.o, ln); si, _ = elems(e, Q, s.o, ln)
            if isinstance(cnt, tuple):
                st.pc.append(S.z(ln) == R.es * cnt[2]); e.assumptions.add("block copy lengths are multiples of the element size"); cnt = S.latom(cnt[2])
            dz, sz_, cz = S.z(di), S.z(si), S.z(cnt)
            e.oblige(st, f"copy stays inside {R.name}", z3.Implies(cz > 0, z3.And(dz >= 0, dz + cz <= S.z(R.n))), 'safety')
            e.oblige(st, f"copy stays inside {Q.name}", z3.Implies(cz > 0, z3.And(sz_ >= 0, sz_ + cz <= S.z(Q.n))), 'safety')
            srcs = {fo: f[2] for fo, f in Q.f.items()}
            R = st.w(d.r)
            for fo, f in R.f.items():
                old = f[2]; src = srcs[fo]
                if isinstance(cnt, int) and cnt <= 4:
                    nv = old
                    for j in range(cnt): nv = z3.Store(nv, z3.simplify(dz + j), S.sel(src, sz_ + j))
                    f[2] = nv
                else:
                    nv = z3.Array(S.fresh(R.name), z3.IntSort(), old.sort().range())
                    k = z3.Int(S.fresh("k"))
                    st.pc.append(z3.ForAll([k], z3.Select(nv, k) == z3.If(z3.And(dz <= k, k < dz + cz), z3.Select(src, k - dz + sz_), z3.Select(old, k)), patterns=[z3.Select(nv, k)]))
                    f[2] = nv
                e.wlog(st, d.r, ('f', fo), None)
            return rv
        if isinstance(ln, int) and ln <= 256:
            # element-wise between cells and arrays
            A = R if R.kind == 'arr' else Q
            if A.kind != 'arr': raise U("memcpy")
            for o in range(0, ln, A.es):
                for fo, f in sorted(A.f.items()):
                    t = S.ir.Ty(); k = f[0]; t.k = 'int' if k[0] == 'i' else ('double' if k == 'f64' else 'float'); t.w = f[1] * 8; t.size = t.store = f[1]
                    v = e.load(st, S.Ptr(s.r, S.ladd(s.o, o + fo)), t)
                    e.store(st, S.Ptr(d.r, S.ladd(d.o, o + fo)), t, v)
            return rv
        raise U(f"memcpy {R.kind} <- {Q.kind}")
    def _type_as(e, st, rid, R):
        r = st.mem[rid]
        by = r.bytes
        if isinstance(by, S.Lin) and all(c % R.es == 0 for c in by.t.values()) and by.c % R.es == 0:
            cnt = S.mk({x: c // R.es for x, c in by.t.items()}, by.c // R.es)
        elif isinstance(by, int): cnt = by // R.es
        else: cnt = S.fromz(S.z(by) / R.es)
        fl = {}
        for fo, f in R.f.items():
            so = S.SORT[f[0]]
            fl[fo] = [f[0], f[1], z3.K(z3.IntSort(), z3.IntVal(0) if so == z3.IntSort() else z3.RealVal(0)) if r.zero else z3.Array(S.fresh(r.name), z3.IntSort(), so)]
        A = S.Arr(r.name, R.es, cnt, fl); A.heap = True; A.owner = st.tok
        st.mem[rid] = A
        return A
    E.memcpy_h = memcpy
    pre("llvm.memcpy", memcpy); pre("llvm.memmove", memcpy); H["memcpy"] = memcpy; H["memmove"] = memcpy
    def memset(e, st, I, a, n):
        d, v, ln = a[0], a[1], a[2]
        rv = d
        if isinstance(ln, int) and ln == 0: return rv
        if not isinstance(ln, int) and e.valid(st, S.z(ln) == 0): return rv
        if d.r == 0:
            e.oblige(st, "memset: zero length for null pointer", S.z(ln) == 0, 'safety'); return rv
        R = st.mem[d.r]
        if not isinstance(v, int): raise U("memset value")
        if R.ro:
            e.oblige(st, f"no write to read-only {R.name}", False, 'frame'); raise S.DeadPath()
        if R.kind == 'cells':
            if not (isinstance(ln, int) and isinstance(d.o, int)): raise U("symbolic memset of cells")
            try: R.inb(d.o, ln)
            except S.OOB:
                e.oblige(st, f"memset in bounds of {R.name}", False, 'safety'); raise S.DeadPath()
            R = st.w(d.r)
            vv = S.sx((v & 255) * 0x0101010101010101, 64)
            o = d.o
            # keep existing cell granularity; fill the rest by 8/4/1 byte cells
            while o < d.o + ln:
                c = R.c.get(o)
                if c is not None and o + c[0] <= d.o + ln: sz = c[0]
                else: sz = 8 if (o % 8 == 0 and o + 8 <= d.o + ln) else (4 if o % 4 == 0 and o + 4 <= d.o + ln else 1)
                e.wlog(st, d.r, o, sz); R.store(o, sz, S.sx(vv % (1 << 8 * sz), 8 * sz)); o += sz
            return rv
        if R.kind == 'lazy':
            if d.o == 0 and v == 0 and e.valid(st, S.z(ln) == S.z(R.bytes)):
                R = st.w(d.r); R.zero = True; e.wlog(st, d.r, ('f', 0), None); return rv
            raise U("memset of untyped heap")
        di, cnt = elems(e, R, d.o, ln)
        if isinstance(cnt, tuple):
            st.pc.append(S.z(ln) == R.es * cnt[2]); cnt = S.latom(cnt[2])
        dz, cz = S.z(di), S.z(cnt)
        e.oblige(st, f"memset stays inside {R.name}", z3.Implies(cz > 0, z3.And(dz >= 0, dz + cz <= S.z(R.n))), 'safety')
        R = st.w(d.r)
        for fo, f in R.f.items():
            if f[0][0] == 'f':
                if v != 0: raise U("memset of reals")
                val = z3.RealVal(0)
            else: val = z3.IntVal(S.sx(((v & 255) * 0x0101010101010101) % (1 << 8 * f[1]), 8 * f[1]))
            old = f[2]; nv = z3.Array(S.fresh(R.name), z3.IntSort(), old.sort().range()); k = z3.Int(S.fresh("k"))
            st.pc.append(z3.ForAll([k], z3.Select(nv, k) == z3.If(z3.And(dz <= k, k < dz + cz), val, z3.Select(old, k)), patterns=[z3.Select(nv, k)]))
            f[2] = nv; e.wlog(st, d.r, ('f', fo), None)
        return rv
    pre("llvm.memset", memset); H["memset"] = memset
    def memcmp(e, st, I, a, n):
        """comparison of integer memory whose values are known"""
        d, s, ln = a[0], a[1], a[2]
        if isinstance(ln, int) and ln == 0: return 0
        R, Q = st.mem.get(d.r), st.mem.get(s.r)
        if R is None or Q is None: e.oblige(st, "memcmp on live memory", False, 'safety'); raise S.DeadPath()
        if not (R.kind == Q.kind == 'cells' and all(isinstance(x, int) for x in (ln, d.o, s.o))): raise U("memcmp of symbolic memory")
        t = S.ir.Ty(); t.k = 'int'; t.w = 8; t.size = t.store = 1
        for k in range(ln):
            try: x, y = R.load(d.o + k, 1, t), Q.load(s.o + k, 1, t)
            except S.OOB: e.oblige(st, "memcmp in bounds", False, 'safety'); raise S.DeadPath()
            if not isinstance(x, int) or not isinstance(y, int): raise U("memcmp of symbolic values")
            if x & 255 != y & 255: return 1 if x & 255 > y & 255 else -1
        return 0
    H["bcmp"] = memcmp; H["memcmp"] = memcmp
