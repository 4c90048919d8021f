"""Vector primitives: every operation acts on each lane like the scalar operation."""
import math
from dsl import Contract
CONTRACTS = []
def conc(f): return f
def pos(rng, k, c): return [rng.uniform(.05, 3) for _ in range(k)]
def mix(rng, k, c): return [rng.choice([0.0, -1.5, 2.5, rng.uniform(-2, 2)]) for _ in range(k)]
def fn(name, m): return lambda c, x: c.uf(name, x) if c.symbolic else m(x)
def cabs(c, x): return c.fabs(x)
UN = {
 'neg': (lambda c, x: 0 - x, mix), 'pos': (lambda c, x: x, mix), 'negate': (lambda c, x: 0 - x, mix), 'sqrt': (lambda c, x: c.sqrt(x), pos),
 'rsqrt14': (lambda c, x: 1 / c.sqrt(x) if c.sign('gt', x) else 0 * x, pos), 'log': (fn('log', math.log), pos), 'exp': (fn('exp', math.exp), mix), 'abs': (cabs, mix),
 'recip': (lambda c, x: c.guarded_recip(x), mix), 'cos': (lambda c, x: c.cos(x), mix), 'acos': (fn('acos', math.acos), lambda rng, k, c: [rng.uniform(-1, 1) for _ in range(k)]),
 'ispos': (lambda c, x: 1.0 if c.sign('gt', x) else 0.0, mix), 'zeros': (lambda c, x: 0 * x, mix), 'ones': (lambda c, x: 0 * x + 1, mix), 'def': (lambda c, x: 0 * x, mix), 'asg': (lambda c, x: x, mix), 'copy': (lambda c, x: x, mix), 'ldst': (lambda c, x: x, mix), 'load1': (None, mix)}
BI = {'add': lambda c, x, y: x + y, 'sub': lambda c, x, y: x - y, 'mul': lambda c, x, y: x * y, 'div': lambda c, x, y: x / y, 'max': lambda c, x, y: x if c.sign('ge', x - y) else y}
def unary(isa, n, op):
    f, g = UN[op]
    def pre(c): c.arr('r', 'f64', n, out=True); c.arr('a', 'f64', n, ro=True, gen=g)
    def post(c):
        for s in range(n): c.eq(f"lane {s}", c['r'][s], f(c, c['a'][s]) if f else c['a'][0])
    CONTRACTS.append(Contract(f"{isa} {op}", f"simd_{isa}.cpp", f"v_{op}", pre, post, under=[f"{isa}: {op}"]))
def binary(isa, n, op):
    def pre(c): c.arr('r', 'f64', n, out=True); c.arr('a', 'f64', n, ro=True); c.arr('b', 'f64', n, ro=True)
    def post(c):
        for s in range(n): c.eq(f"lane {s}", c['r'][s], BI[op](c, c['a'][s], c['b'][s]))
    CONTRACTS.append(Contract(f"{isa} {op}", f"simd_{isa}.cpp", f"v_{op}", pre, post, under=[f"{isa}: {op}"]))
for isa, n in (('scalar', 1), ('sse2', 2), ('avx', 4)):
    for op in UN: unary(isa, n, op)
    for op in BI: binary(isa, n, op)
    CONTRACTS.append(Contract(f"{isa} lanes", f"simd_{isa}.cpp", "v_size", lambda c: None, lambda c, n=n: c.eq("number of lanes", c.ret, n), ret='i32', under=[f"{isa}: SIMD::size"]))
