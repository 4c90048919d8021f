"""Small dense tensor kernels: products, inverses, Voigt maps."""
from dsl import Contract
L = 2
CONTRACTS = []
def lanes(c, name, n, **k): return c.arr(name, 'f64', n * L, **k)
def X(a, i, l): return a[i * L + l]

def mult(name, R, K, Cc, na, nb, nc, a, b):
    def pre(c):
        lanes(c, 'c', nc); lanes(c, 'a', na, ro=True); lanes(c, 'b', nb, ro=True); lanes(c, 's', 1, ro=True)
    def post(c):
        for l in range(L):
            for i in range(R):
                for j in range(Cc):
                    v = c['c'].old[(i * Cc + j) * L + l]
                    for k in range(K): v = v + X(c['s'], 0, l) * X(c['a'], a(i, k, R, K), l) * X(c['b'], b(k, j, K, Cc), l)
                    c.eq(f"C[{i},{j}] lane {l} = C + scale*op(A)*op(B)", X(c['c'], i * Cc + j, l), v)
    CONTRACTS.append(Contract(f"{name}<{R},{K},{Cc}>", "mathh.cpp", f"v_{name}_{R}_{K}_{Cc}", pre, post, under=[f"espreso::{name}"]))
for R, K, C in [(2,3,4),(3,3,3),(6,6,6),(3,1,2),(1,4,3),(2,2,2),(3,8,3)]:
    n = dict(na=R*K, nb=K*C, nc=R*C)
    mult("multAB", R, K, C, a=lambda i,k,R,K: i*K+k, b=lambda k,j,K,C: k*C+j, **n)
    mult("multAtB", R, K, C, a=lambda i,k,R,K: k*R+i, b=lambda k,j,K,C: k*C+j, **n)
    mult("multABt", R, K, C, a=lambda i,k,R,K: i*K+k, b=lambda k,j,K,C: j*K+k, **n)
    mult("multAtBt", R, K, C, a=lambda i,k,R,K: k*R+i, b=lambda k,j,K,C: j*K+k, **n)

def triple(name, R, C, t):
    # t: True: C(cols x cols) += A^t B A ; False: C(rows x rows) += A B A^t
    N, M = (C, R) if t else (R, C)
    A = (lambda k, i: k * C + i) if t else (lambda k, i: i * C + k)
    def pre(c):
        lanes(c, 'c', N * N); lanes(c, 'a', R * C, ro=True); lanes(c, 'b', M * M, ro=True); lanes(c, 's', 1, ro=True)
    def post(c):
        for l in range(L):
            for i in range(N):
                for j in range(N):
                    v = 0
                    for p in range(M):
                        for q in range(M): v = v + X(c['a'], A(p, i), l) * X(c['b'], p * M + q, l) * X(c['a'], A(q, j), l)
                    c.eq(f"C[{i},{j}] lane {l}", X(c['c'], i * N + j, l), c['c'].old[(i * N + j) * L + l] + X(c['s'], 0, l) * v)
    CONTRACTS.append(Contract(f"{name}<{R},{C}>", "mathh.cpp", f"v_{name}_{R}_{C}", pre, post, under=[f"espreso::{name}"]))
for R, C in [(3,2),(2,3),(6,6),(3,8)]: triple("multAtBA", R, C, True)
for R, C in [(3,2),(2,3),(6,6)]: triple("multABAt", R, C, False)

def inv(n, fn, name):
    def pre(c):
        lanes(c, 'a', n * n, ro=True); lanes(c, 'd', 1, out=True); lanes(c, 'r', n * n, out=True)
    def post(c):
        for l in range(L):
            a = lambda i, j: X(c['a'], i * n + j, l)
            det = a(0,0)*a(1,1) - a(0,1)*a(1,0) if n == 2 else sum(((1 if (j, (j+1) % 3, (j+2) % 3) else 1) * a(0, j) * (a(1, (j+1) % 3) * a(2, (j+2) % 3) - a(1, (j+2) % 3) * a(2, (j+1) % 3)) for j in range(3)), 0*a(0,0))
            if not c.symbolic and abs(det) < 1e-3: continue
            c.eq(f"determinant lane {l}", X(c['d'], 0, l), det)
            for i in range(n):
                for j in range(n):
                    c.eq(f"(A*inv(A))[{i},{j}] lane {l}", sum((a(i, k) * X(c['r'], k * n + j, l) for k in range(n)), 0*a(0,0)), 1.0 if i == j else 0.0)
                    c.eq(f"(inv(A)*A)[{i},{j}] lane {l}", sum((X(c['r'], i * n + k, l) * a(k, j) for k in range(n)), 0*a(0,0)), 1.0 if i == j else 0.0)
    CONTRACTS.append(Contract(name, "mathh.cpp", fn, pre, post, under=["espreso::inv22", "espreso::inv33", "espreso::determinant22", "espreso::determinant33"]))
inv(2, "v_inv22", "inv22(det)"); inv(3, "v_inv33", "inv33(det)"); inv(2, "v_inv22n", "inv22+determinant22"); inv(3, "v_inv33n", "inv33+determinant33")

def pre(c): lanes(c, 'c', 6); lanes(c, 'v', 1, ro=True)
def post(c):
    for l in range(L):
        for i in range(6): c.eq(f"M[{i}] lane {l}", X(c['c'], i, l), X(c['v'], 0, l))
CONTRACTS.append(Contract("set<2,3>", "mathh.cpp", "v_set", pre, post, under=["espreso::set"]))

# Voigt order: xx yy zz xy yz xz
VO = [(0,0),(1,1),(2,2),(0,1),(1,2),(0,2)]
def pre(c): lanes(c, 'a', 9, ro=True); lanes(c, 'r', 6, out=True)
def post(c):
    for l in range(L):
        for v, (i, j) in enumerate(VO): c.eq(f"voigt[{v}] lane {l}", X(c['r'], v, l), X(c['a'], 3*i+j, l))
CONTRACTS.append(Contract("matrix33ToVoigt6", "mathh.cpp", "v_m33v6", pre, post, under=["espreso::matrix33ToVoigt6"]))
def pre(c): lanes(c, 'a', 6, ro=True); lanes(c, 'r', 9, out=True)
def post(c):
    for l in range(L):
        for v, (i, j) in enumerate(VO):
            c.eq(f"A[{i},{j}] lane {l}", X(c['r'], 3*i+j, l), X(c['a'], v, l)); c.eq(f"A[{j},{i}] lane {l}", X(c['r'], 3*j+i, l), X(c['a'], v, l))
CONTRACTS.append(Contract("voigt6ToMatrix33", "mathh.cpp", "v_v6m33", pre, post, under=["espreso::voigt6ToMatrix33"]))
def pre(c): lanes(c, 'a', 3, ro=True); lanes(c, 'r', 4, out=True)
def post(c):
    for l in range(L):
        for v, (i, j) in enumerate([(0,0),(1,1),(0,1)]):
            c.eq(f"A[{i},{j}] lane {l}", X(c['r'], 2*i+j, l), X(c['a'], v, l)); c.eq(f"A[{j},{i}] lane {l}", X(c['r'], 2*j+i, l), X(c['a'], v, l))
CONTRACTS.append(Contract("voigt3ToMatrix22", "mathh.cpp", "v_v3m22", pre, post, under=["espreso::voigt3ToMatrix22"]))
def pre(c): c.arr('a36','i32',36,out=True); c.arr('a81','i32',81,out=True); c.arr('a9','i32',9,out=True); c.arr('a6','i32',6,out=True)
def post(c):
    for v, (i, j) in enumerate(VO):
        c.eq(f"voigt6ToMatrix33({v})", c['a6'][v], 3*i+j)
        c.eq(f"matrix33ToVoigh6({3*i+j})", c['a9'][3*i+j], v); c.eq(f"matrix33ToVoigh6({3*j+i})", c['a9'][3*j+i], v)
        for w, (k, l) in enumerate(VO):
            # elasticity tensors have minor and major symmetry: the maps are exact up to it
            t = c['a36'][6*v+w]
            P = lambda i, j: VO.index((min(i, j), max(i, j)))
            c.eq(f"voigt36ToMatrix3333({6*v+w})", tuple(sorted((P(t // 27 % 3, t // 9 % 3), P(t // 3 % 3, t % 3)))) if 0 <= t < 81 else None, tuple(sorted((v, w))))
            for (p, q) in {(i,j),(j,i)}:
                for (r, s) in {(k,l),(l,k)}:
                    t = c['a81'][27*p+9*q+3*r+s]
                    c.eq(f"matrix3333ToVoigh36({27*p+9*q+3*r+s})", tuple(sorted((t // 6, t % 6))) if 0 <= t < 36 else None, tuple(sorted((v, w))))
CONTRACTS.append(Contract("Voigt index maps", "mathh.cpp", "v_maps", pre, post, under=["espreso::voigt36ToMatrix3333","espreso::matrix3333ToVoigh36","espreso::matrix33ToVoigh6","espreso::voigt6ToMatrix33(int)"]))
