"""Reference shape functions, written from the finite element literature (node
orderings are the VTK ones), as polynomials in the reference coordinates."""
from fractions import Fraction as Fr
import itertools, math

class P:
    """polynomial in (r, s, t): {(i,j,k): Fraction}"""
    def __init__(s, d=None): s.d = {k: v for k, v in (d or {}).items() if v}
    @staticmethod
    def c(x): return P({(0, 0, 0): Fr(x)})
    @staticmethod
    def of(x): return x if isinstance(x, P) else P.c(x)
    def __add__(a, b):
        b = P.of(b); d = dict(a.d)
        for k, v in b.d.items(): d[k] = d.get(k, 0) + v
        return P(d)
    __radd__ = __add__
    def __neg__(a): return P({k: -v for k, v in a.d.items()})
    def __sub__(a, b): return a + (-P.of(b))
    def __rsub__(a, b): return P.of(b) - a
    def __mul__(a, b):
        b = P.of(b); d = {}
        for k, v in a.d.items():
            for l, w in b.d.items():
                m = (k[0] + l[0], k[1] + l[1], k[2] + l[2]); d[m] = d.get(m, 0) + v * w
        return P(d)
    __rmul__ = __mul__
    def diff(a, i):
        d = {}
        for k, v in a.d.items():
            if k[i]:
                m = list(k); m[i] -= 1; d[tuple(m)] = d.get(tuple(m), 0) + v * k[i]
        return P(d)
    def __call__(a, *x):
        out = 0
        for k, v in a.d.items():
            t = v if not (x and isinstance(x[0], float)) else float(v)
            for e, y in zip(k, x):
                for _ in range(e): t = t * y
            out = out + t
        return out
r, s, t = (P({tuple(1 if i == j else 0 for j in range(3)): Fr(1)}) for i in range(3))
H, Q, E8 = Fr(1, 2), Fr(1, 4), Fr(1, 8)

line2 = [H * (1 - r), H * (1 + r)]
line3 = [H * r * (r - 1), H * r * (r + 1), 1 - r * r]
C4 = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
square4 = [Q * (1 + a * r) * (1 + b * s) for a, b in C4]
square8 = [Q * (1 + a * r) * (1 + b * s) * (a * r + b * s - 1) for a, b in C4] + \
          [H * (1 - r * r) * (1 - s), H * (1 + r) * (1 - s * s), H * (1 - r * r) * (1 + s), H * (1 - r) * (1 - s * s)]
C8 = [(a, b, c) for c in (-1, 1) for a, b in C4]
hexa8 = [E8 * (1 + a * r) * (1 + b * s) * (1 + c * t) for a, b, c in C8]
hexa20 = [E8 * (1 + a * r) * (1 + b * s) * (1 + c * t) * (a * r + b * s + c * t - 2) for a, b, c in C8]
for c in (-1, 1):
    for a, b in [(0, -1), (1, 0), (0, 1), (-1, 0)]:
        hexa20.append(Q * ((1 - r * r) if a == 0 else (1 + a * r)) * ((1 - s * s) if b == 0 else (1 + b * s)) * (1 + c * t))
for a, b in C4: hexa20.append(Q * (1 + a * r) * (1 + b * s) * (1 - t * t))

L = [1 - r - s, r, s]                                  # barycentric, triangle
triangle3 = L
triangle6 = [l * (2 * l - 1) for l in L] + [4 * L[0] * L[1], 4 * L[1] * L[2], 4 * L[2] * L[0]]
# the tetrahedron tables use the reference axes (r, t, s): a right-handed frame
Lt = [r, t, s, 1 - r - s - t]
tetra4 = Lt
tetra10 = [l * (2 * l - 1) for l in Lt] + [4 * Lt[a] * Lt[b] for a, b in [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]]
prisma6 = [H * l * (1 + c * t) for c in (-1, 1) for l in L]
prisma15 = [H * l * (1 + c * t) * (2 * l + c * t - 2) for c in (-1, 1) for l in L] + \
           [2 * L[a] * L[b] * (1 + c * t) for c in (-1, 1) for a, b in [(0, 1), (1, 2), (2, 0)]] + [l * (1 - t * t) for l in L]
g = H * (1 - t)                                        # pyramid, collapsed to the apex at t = 1
pyramid13 = [Q * g * (1 + a * r) * (1 + b * s) * (-1 + g * (a * r + b * s)) for a, b in C4] + [(1 - g) * (1 - 2 * g)] + \
            [H * g * g * (1 - s) * (1 - r * r), H * g * g * (1 + r) * (1 - s * s), H * g * g * (1 + s) * (1 - r * r), H * g * g * (1 - r) * (1 - s * s)] + \
            [g * (1 - g) * (1 + a * r) * (1 + b * s) for a, b in C4]

def collapse(base, order, n):
    out = [P() for _ in range(n)]
    for f, k in zip(base, order): out[k] = out[k] + f
    return out
# degenerated quadrilaterals / hexahedra: which quad/hexa node each node of the element stands for
deg = {
    'TRIANGLE3': collapse(square4, [0, 1, 2, 2], 3),
    'TETRA4': collapse(hexa8, [0, 1, 2, 2, 3, 3, 3, 3], 4),
    'PYRAMID5': collapse(hexa8, [0, 1, 2, 3, 4, 4, 4, 4], 5),
    'PRISMA6': collapse(hexa8, [0, 1, 2, 2, 3, 4, 5, 5], 6),
    'PYRAMID13': collapse(hexa20, [0, 1, 2, 3, 4, 4, 4, 4, 5, 6, 7, 8, 4, 4, 4, 4, 9, 10, 11, 12], 13),
}
def fac(n): return math.factorial(n)
# exact moments of x^i y^j z^k over the reference domains
cube = lambda *e: math.prod(0 if i % 2 else Fr(2, i + 1) for i in e)
tri = lambda i, j: Fr(fac(i) * fac(j), fac(i + j + 2))
tet = lambda i, j, k: Fr(fac(i) * fac(j) * fac(k), fac(i + j + k + 3))
prism = lambda i, j, k: tri(i, j) * cube(k)
