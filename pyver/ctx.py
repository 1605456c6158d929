"""pyver.ctx - one unit (contract harness), three ways to run it:
  * SymCtx       - inputs are symbolic, 'prove' generates a verification condition (deductive mode)
  * ReplayCtx    - inputs come from a solver model, 'prove' is evaluated on the real, uninstrumented code
  * RandomCtx    - inputs are drawn at random (bounded stand-in), 'prove' evaluated on the real code
Units never import z3; they only use the ctx and plain Python operators.
"""
import random, io

class Skip(BaseException): pass
class Violation(BaseException):
    def __init__(m, name, detail): m.name, m.detail = name, detail

class BaseCtx:
    symbolic = False
    def implies(m, a, b): return (not a) or bool(b)
    def and_(m, *cs): return all(cs)
    def or_(m, *cs): return any(cs)
    def not_(m, c): return not c
    def ite(m, c, a, b): return a if c else b
    def s32(m, v):
        """wrap to signed 32 bits"""
        v = v & 0xffffffff
        return m.ite(v >= 0x80000000, v - 0x100000000, v)
    def signed(m, v):
        """like s32, but by case distinction"""
        if v >= 0x80000000: return v - 0x100000000
        return v
    def loop(m, module, qual, n, contract): pass
    def contract(m, module, qual, fn, **k): pass
    def cover(m, name, cond=True): pass
    def note(m, text): pass
    def raises(m, f, *exc):
        try: f()
        except exc: return True
        return False

class ConcreteCtx(BaseCtx):
    def __init__(m): m.values = {}; m.evals = 0
    def assume(m, c):
        if not c: raise Skip()
    def prove(m, name, c, detail=""):
        m.evals += 1
        if not c: raise Violation(name, str(detail))
    def choose(m, options, name="choice"):
        options = list(options)
        return options[m.int(name, 0, len(options) - 1)]
    def str(m, name, n, lo=0, hi=255): return "".join(chr(m.int(f"{name}[{i}]", lo, hi)) for i in range(n))
    def bytes(m, name, n): return bytes(m.int(f"{name}[{i}]", 0, 255) for i in range(n))
    def bool(m, name): return m.int(name, 0, 1) == 1
    def stream(m, name, big=False):
        """a binary file with arbitrary content and position (position <= length)"""
        n = min(m.int(name + "_len", 0, 1 << 40), 4000)
        p = min(m.int(name + "_pos", 0, 1 << 40), n)
        rng = random.Random(f"{n}/{p}/{m.int(name + '_seed', 0, 1000)}")
        return CStream(bytes(rng.randrange(256) for _ in range(n)), p)
    def index(m, name, hi=4096): return m.int(name, 0, hi)
    def buffer(m, name, kind="bytearray", minlen=0, lo=0, hi=255):
        """a mutable byte buffer (or list of ints) of any length >= minlen with arbitrary content; elements are part of the ghost input only through its seed"""
        n = min(max(m.int(name + "_len", minlen, 1 << 40), minlen), 4000 + minlen)
        rng = random.Random(f"{n}/{m.int(name + '_seed', 0, 1000)}")
        xs = [rng.randint(lo, hi) for _ in range(n)]
        return {"bytearray": bytearray, "bytes": bytes, "list": list, "str": lambda x: "".join(map(chr, x))}[kind](xs)
    def length(m, b): return len(b)
    def snap(m, b): return b[:]
    def at(m, b, i):
        """element i, as a number; 0 outside"""
        if not 0 <= i < len(b): return 0
        return ord(b[i]) if isinstance(b, str) else b[i]

class CStream(io.BytesIO):
    """concrete counterpart of sym.GhostStream"""
    def __init__(m, data, p): super().__init__(data); m.seek(p)
    def byte(m, i):
        b = m.getbuffer()
        return b[i] if i < len(b) else 0
    def snapshot(m):
        b = m.getvalue()
        return lambda i: b[i] if i < len(b) else 0

class ReplayCtx(ConcreteCtx):
    def __init__(m, model): super().__init__(); m.model = model
    def int(m, name, lo, hi):
        v = m.model.get(name, lo)
        v = int(v) if isinstance(v, (int, bool)) else lo
        v = min(max(v, lo), hi)
        m.values[name] = v
        return v

class RandomCtx(ConcreteCtx):
    def __init__(m, rng, pool=()): super().__init__(); m.rng = rng; m.pool = list(pool)
    def int(m, name, lo, hi):
        r = m.rng
        k = r.random()
        if hi - lo < 16 or k < 0.35: v = r.randint(lo, hi)
        elif k < 0.6:
            v = r.choice((lo, lo + 1, hi, hi - 1, 0, 1, -1, (lo + hi) // 2))
        elif k < 0.75 and m.pool:
            v = r.choice(m.pool) + r.choice((-1, 0, 0, 1))
        else:
            b = r.randint(0, max(hi.bit_length(), 1)); v = (1 << b) + r.choice((-1, 0, 1))
            if lo < 0 and r.random() < 0.5: v = -v
            if r.random() < 0.3: v ^= r.randint(0, 255)
        v = min(max(v, lo), hi)
        m.values[name] = v
        return v

class SymCtx(BaseCtx):
    symbolic = True
    def __init__(m):
        from . import sym
        m.sym = sym
    def implies(m, a, b): return m.sym.implies(a, b)
    def contract(m, module, qual, fn, name=None, bound=False):
        """replace calls to a function by its contract (the contract itself is verified by another unit);
           bound: fn gets one dict of all the arguments, with the defaults of the real function's signature"""
        from . import hooks, load
        import inspect
        def c(real, *a, **k):
            if not bound: return fn(*a, **k)
            b = inspect.signature(real).bind(*a, **k); b.apply_defaults()
            return fn(dict(b.arguments))
        c.name = name or f"{module}.{qual}"
        hooks.CONTRACTS_BY_CODE[(load.REPO + "/" + module.replace(".", "/") + ".py", qual)] = c
    def replace(m, module, name, obj):
        """replace a class the code uses by its contract object"""
        import sys
        setattr(sys.modules[module], name, obj)
        m.sym.ENG.used_contracts.add(f"{module}.{name}")
    def and_(m, *cs): return m.sym.and_(*cs)
    def or_(m, *cs): return m.sym.or_(*cs)
    def not_(m, c): return m.sym.not_(c)
    def ite(m, c, a, b): return m.sym.ite(c, a, b)
    def int(m, name, lo, hi):
        v = m.sym.symint("in_" + name, lo, hi)
        m.sym.ENG.inputs[name] = v
        return v
    def fresh(m, name, lo, hi): return m.sym.symint(m.sym.ENG.fresh_name(name), lo, hi)
    def str(m, name, n, lo=0, hi=255): return m.sym.mkstr([m.int(f"{name}[{i}]", lo, hi) for i in range(n)])
    def bytes(m, name, n): return m.sym.mkbytes([m.int(f"{name}[{i}]", 0, 255) for i in range(n)])
    def bool(m, name): return m.int(name, 0, 1) == 1
    def stream(m, name, big=False):
        st = m.sym.GhostStream(name)
        m.assume(st.p <= st.length)
        return st
    def index(m, name, hi=1 << 40): return m.int(name, 0, hi)
    def buffer(m, name, kind="bytearray", minlen=0, lo=0, hi=255):
        n = m.int(name + "_len", minlen, 1 << 40)
        return m.sym.SymArr.fresh(m.sym.ENG.fresh_name(name), n, lo, hi, kind)
    def length(m, b): return b.length if isinstance(b, m.sym.SymArr) else len(b)
    def snap(m, b): return b.copy()
    def at(m, b, i):
        if isinstance(b, m.sym.SymArr): return b.raw(i)
        cs = b.cs if hasattr(b, "cs") else [ord(c) if isinstance(c, str) else c for c in b]
        return cs[i]
    def assume(m, c): m.sym.ENG.assume(c)
    def prove(m, name, c, detail=""): m.sym.ENG.prove(name, c, detail)
    def cover(m, name, cond=True): m.sym.ENG.cover(name, cond)
    def note(m, text): m.sym.ENG.assumptions.add(text)
    def choose(m, options, name="choice"):
        options = list(options)
        i = m.int(name, 0, len(options) - 1)
        return options[m.sym.concretize(i)]
