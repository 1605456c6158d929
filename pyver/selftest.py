"""cross-check of the symbolic semantics against CPython: random concrete operands are fed through the symbolic
operators as solver-constrained symbols, and the only possible value must be CPython's"""
import random, sys, operator as o
from . import sym, hooks
from .sym import *

OPS = [("+", o.add), ("-", o.sub), ("*", o.mul), ("&", o.and_), ("|", o.or_), ("^", o.xor), ("//", o.floordiv), ("%", o.mod),
       ("<<", o.lshift), (">>", o.rshift), ("==", o.eq), ("!=", o.ne), ("<", o.lt), ("<=", o.le), (">", o.gt), (">=", o.ge)]
UN = [("-", o.neg), ("~", o.invert), ("abs", abs), ("bit_length", lambda x: x.bit_length())]

def rnd(r):
    b = r.choice((1, 3, 8, 16, 31, 32, 33, 64)); v = r.getrandbits(b)
    if r.random() < .4: v = -v
    return v
def around(r, v):
    """an interval containing v"""
    return v - r.choice((0, 1, 7, 1000)), v + r.choice((0, 1, 7, 1000))

def main():
    r = random.Random(1); n = 0
    class Bad(Exception): pass
    def body():
        nonlocal n
        for _ in range(6):
            a, b = rnd(r), rnd(r)
            name, f = r.choice(OPS)
            if name in ("<<", ">>"): b = r.randint(0, 70)
            if name in ("//", "%") and b == 0: b = 1
            la, ha = around(r, a); lb, hb = around(r, b)
            if name in ("<<", ">>"): lb = max(lb, 0); hb = min(hb, 100)
            x = sym.symint(f"a{n}", la, ha) if r.random() < .8 else a
            y = sym.symint(f"b{n}", lb, hb) if r.random() < .8 else b
            n += 1
            ENG = sym.ENG
            ENG.assume(x == a); ENG.assume(y == b)
            s = f(x, y)
            if isinstance(s, SymBool): ENG.prove("op", s if f(a, b) else sym.not_(s), (name, a, b))
            elif isinstance(s, SymInt):
                if not (s.lo <= f(a, b) <= s.hi): raise Bad((name, a, b, s))
                ENG.prove("op", s == f(a, b), (name, a, b))
            elif s != f(a, b): raise Bad((name, a, b, s))
            un, g = r.choice(UN)
            s = g(x)
            ENG.prove("un", s == g(a), (un, a))
    for k in range(150):
        e = sym.Engine()
        def one():
            st = r.getstate(); body()
        # single path: operands are pinned, so every fork has one feasible side
        e.run(one)
        if e.failures or e.unknowns: print("self-test failed", [(f.name, f.detail, f.model) for f in e.failures], e.unknowns); return 1
    print("self-test ok:", n, "operations")
    return 0
if __name__ == "__main__":
    sys.exit(main())
