"""pyver.sym - symbolic values and path exploration.

Python ints are represented *exactly*: a SymInt is a signed bit-vector term that carries an interval
[lo, hi]; every operation computes the interval of its mathematical result and widens the bit-vector so
that no operation ever overflows.  There is no machine-arithmetic approximation.
"""
import z3, itertools, time
from fractions import Fraction

class PathEnd(BaseException):
    """the current path is finished (cut at a loop head or assumption false)"""
class Unsupported(BaseException):
    """the code left the subset the verifier can follow: the unit is undecided, never 'violated'"""

import os
SLOW = os.environ.get('PV_SLOW')
ENG = None  # the engine of this process
def engine(): return ENG

# ------------------------------------------------------------------ engine

class Failure:
    def __init__(m, name, model, detail=""):
        m.name, m.model, m.detail = name, model, detail

class Engine:
    def __init__(m, max_paths=20000, vc_timeout=60000, feas_timeout=1500, deadline=None):
        m.max_paths, m.vc_timeout, m.feas_timeout, m.deadline = max_paths, vc_timeout, feas_timeout, deadline
        m.obligations = {}      # name -> [checked, proved]
        m.failures, m.unknowns = [], []
        m.paths = 0; m.feas_queries = 0; m.solver_s = 0.0
        m.backends = {"z3": 0, "cvc5": 0, "trivial": 0}
        m.covers = {}
        m.assumptions = set()
        m.axioms = []
        m.inputs = {}
        m.completed_paths = 0; m.cut_paths = 0
        m.used_contracts = set(); m.executed = set()
        m.stop_on_fail = True

    def run(m, fn):
        """explore all paths of fn()"""
        global ENG
        ENG = m
        work = [()]
        while work:
            m.prefix = work.pop()
            m.paths += 1
            if m.paths > m.max_paths:
                raise Unsupported("path limit")
            if m.deadline and time.time() > m.deadline:
                raise Unsupported("time limit")
            m.pos = 0
            m.decisions = []
            m.alts = []
            m.counter = itertools.count()
            m.inputs = {}
            m.on_path_start = []
            m.solver = z3.Solver()
            m.solver.set("timeout", m.feas_timeout)
            m.pc = []
            STORES.clear()
            m.ended = False
            try:
                fn()
                m.completed_paths += 1
            except PathEnd:
                pass
            work.extend(m.alts)
            if m.failures and m.stop_on_fail:
                return

    # -- names
    def fresh_name(m, hint="v"):
        return f"{hint}!{next(m.counter)}"

    # -- constraints
    def _add(m, cond):
        m.pc.append(cond)
        m.solver.add(cond)

    def replaying(m):
        return m.pos < len(m.prefix)

    def check(m, *extra):
        m.feas_queries += 1
        t = time.time()
        r = m.solver.check(*extra)
        m.solver_s += time.time() - t
        if SLOW and time.time() - t > .5: import sys, traceback; print(f'slow fork {time.time() - t:.1f}s', [f'{f.name}:{f.lineno}' for f in traceback.extract_stack()[-8:-2]], file=sys.stderr)
        return r

    def fork(m, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        if m.deadline and time.time() > m.deadline:
            raise Unsupported("time limit")
        if m.pos < len(m.prefix):
            v = m.prefix[m.pos]
            m.pos += 1
            m.decisions.append(v)
            m._add(cond if v else z3.Not(cond))
            return v
        m.pos += 1
        can_t = m.check(cond) != z3.unsat
        can_f = m.check(z3.Not(cond)) != z3.unsat
        if not can_t and not can_f:
            raise PathEnd()   # contradictory path (only possible after an 'unknown')
        if can_t and can_f:
            m.alts.append(tuple(m.decisions) + (False,))
            v = True
        else:
            v = can_t
        m.decisions.append(v)
        # keep prefixes aligned with positions
        m.prefix = tuple(m.decisions)
        m._add(cond if v else z3.Not(cond))
        return v

    def choose(m, n):
        """non-deterministic choice among n alternatives (each explored)"""
        for i in range(n - 1):
            b = z3.Bool(m.fresh_name("choice"))
            if m.fork(b): return i
        return n - 1

    def assume(m, cond):
        cond = z3.simplify(as_z3bool(cond))
        if z3.is_true(cond): return
        m._add(cond)
        if not m.replaying() and m.check() == z3.unsat:
            raise PathEnd()

    def prove(m, name, cond, detail=""):
        ob = m.obligations.setdefault(name, [0, 0])
        if m.replaying():   # same obligation under the same constraints was settled on the parent path
            m._add_fact(cond)
            return
        ob[0] += 1
        cond = z3.simplify(as_z3bool(cond))
        if z3.is_true(cond):
            ob[1] += 1; m.backends["trivial"] += 1
            return
        m.cur = name
        r, model, backend = m.decide(z3.Not(cond))
        if r == z3.unsat:
            ob[1] += 1
            m.backends[backend] += 1
            m._add(cond)
        elif r == z3.sat:
            m.failures.append(Failure(name, m.model_inputs(model), detail))
            if m.stop_on_fail: raise PathEnd()
        else:
            m.unknowns.append(name)
            m._add(cond)

    def _add_fact(m, cond):
        cond = z3.simplify(as_z3bool(cond))
        if not z3.is_true(cond): m._add(cond)

    def cover(m, name, cond=True):
        """reachability guard: some path must reach this with a satisfiable condition"""
        if m.covers.get(name): return
        c = as_z3bool(cond)
        m.covers[name] = m.check(c) == z3.sat

    def model_inputs(m, model):
        out = {}
        for k, v in m.inputs.items():
            try: out[k] = eval_in(model, v)
            except Exception as ex: out[k] = f"?{ex}"
        return out

    def decide(m, goal):
        """satisfiability of path condition and goal; z3 first, then cvc5"""
        t0 = time.time()
        try:
            m.solver.set("timeout", 3000)
            r = m.solver.check(goal)
            if r == z3.sat: return r, m.solver.model(), "z3"
            if r == z3.unsat: return r, None, "z3"
            tmo = m.vc_timeout
            if m.deadline: tmo = int(max(1000, min(tmo, (m.deadline - time.time()) * 1000)))
            s = z3.Solver()
            s.set("timeout", tmo)
            for c in m.pc: s.add(c)
            s.add(goal)
            r = s.check()
            if r == z3.sat: return r, s.model(), "z3"
            if r == z3.unsat: return r, None, "z3"
            if cvc5_unsat(s, tmo):
                return z3.unsat, None, "cvc5"
            return z3.unknown, None, None
        finally:
            m.solver.set("timeout", m.feas_timeout)
            m.solver_s += time.time() - t0
            if SLOW and time.time() - t0 > 1: import sys; print(f"slow VC {time.time() - t0:.1f}s: {m.cur}", file=sys.stderr)

def cvc5_unsat(solver, timeout_ms):
    import subprocess, tempfile, os
    smt = "(set-logic ALL)\n" + solver.sexpr() + "\n(check-sat)\n"
    fd, path = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f: f.write(smt)
        r = subprocess.run(["cvc5", f"--tlimit={timeout_ms}", path], capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
        return r.stdout.strip().startswith("unsat")
    except Exception:
        return False
    finally:
        os.unlink(path)

def eval_in(model, v):
    if isinstance(v, SymInt):
        r = model.eval(v.t, model_completion=True)
        return r.as_signed_long()
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v.t, model_completion=True))
    if isinstance(v, SymStr):
        return "".join(chr(eval_in(model, c)) for c in v.cs)
    if isinstance(v, SymBytes):
        return bytes(eval_in(model, c) for c in v.cs)
    if isinstance(v, (list, tuple)):
        return type(v)(eval_in(model, x) for x in v)
    if isinstance(v, dict):
        return {k: eval_in(model, x) for k, x in v.items()}
    if hasattr(v, "__pv_eval__"):
        return v.__pv_eval__(model)
    return v

# ------------------------------------------------------------------ booleans

def as_z3bool(c):
    if isinstance(c, SymBool): return c.t
    if isinstance(c, SymInt): return (c != 0).t if not isinstance(c != 0, bool) else z3.BoolVal(bool(c != 0))
    if isinstance(c, z3.BoolRef): return c
    return z3.BoolVal(bool(c))

def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return SymBool(t)

class SymBool:
    __slots__ = ("t",)
    def __init__(m, t): m.t = t
    def __bool__(m): return ENG.fork(m.t)
    def __and__(m, o):
        if isinstance(o, (bool, SymBool)): return mkbool(z3.And(m.t, as_z3bool(o)))
        return m.i() & o
    __rand__ = __and__
    def __or__(m, o):
        if isinstance(o, (bool, SymBool)): return mkbool(z3.Or(m.t, as_z3bool(o)))
        return m.i() | o
    __ror__ = __or__
    def __xor__(m, o):
        if isinstance(o, (bool, SymBool)): return mkbool(z3.Xor(m.t, as_z3bool(o)))
        return m.i() ^ o
    __rxor__ = __xor__
    def __eq__(m, o):
        if isinstance(o, (bool, SymBool)): return mkbool(m.t == as_z3bool(o))
        if isinstance(o, (int, SymInt)): return m.i() == o
        return False
    def __ne__(m, o): return not_(m == o)
    def __hash__(m): raise Unsupported("hash of symbolic bool")
    def i(m): return mkint(z3.If(m.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)
    def __int__(m): raise Unsupported("int() of symbolic bool")
    def __index__(m): return 1 if m else 0
    def __add__(m, o): return m.i() + o
    __radd__ = __add__
    def __sub__(m, o): return m.i() - o
    def __rsub__(m, o): return o - m.i()
    def __mul__(m, o): return m.i() * o
    __rmul__ = __mul__
    def __lshift__(m, o): return m.i() << o
    def __lt__(m, o): return m.i() < o
    def __le__(m, o): return m.i() <= o
    def __gt__(m, o): return m.i() > o
    def __ge__(m, o): return m.i() >= o
    def __neg__(m): return -m.i()
    def __repr__(m): return f"<SymBool {m.t}>"
    def __format__(m, s): raise Unsupported("format of symbolic bool")

def not_(c):
    if isinstance(c, SymBool): return mkbool(z3.Not(c.t))
    if isinstance(c, SymInt): return c == 0
    return not c
def and_(*cs): return mkbool(z3.And(*[as_z3bool(c) for c in cs])) if cs else True
def or_(*cs): return mkbool(z3.Or(*[as_z3bool(c) for c in cs])) if cs else False
def implies(a, b): return mkbool(z3.Implies(as_z3bool(a), as_z3bool(b)))

# ------------------------------------------------------------------ integers

def width_for(lo, hi):
    n = 1
    while not (-(1 << (n - 1)) <= lo and hi < (1 << (n - 1))): n += 1
    return n
_wcache = {}
def width(lo, hi):
    k = (lo, hi)
    w = _wcache.get(k)
    if w is None:
        w = _wcache[k] = max(hi.bit_length() + 1 if hi >= 0 else 1, (~lo).bit_length() + 1 if lo < 0 else 1)
    return w

def resize(t, w):
    s = t.size()
    if s == w: return t
    return z3.SignExt(w - s, t) if w > s else z3.Extract(w - 1, 0, t)

def mkint(t, lo, hi):
    """t: signed term (any width large enough for [lo,hi]); the value is known to lie in [lo,hi]"""
    if lo == hi: return lo
    t = z3.simplify(resize(t, width(lo, hi)))
    if z3.is_bv_value(t): return t.as_signed_long()
    return SymInt(t, lo, hi)

def isint(x): return isinstance(x, (int, SymInt, SymBool))
def lohi(x):
    if isinstance(x, SymInt): return x.lo, x.hi
    if isinstance(x, SymBool): return 0, 1
    return int(x), int(x)
def term(x, w):
    if isinstance(x, SymInt):
        s = x.t.size()
        if x.lo >= 0 and w > s: return z3.ZeroExt(w - s, x.t)
        return resize(x.t, w)
    if isinstance(x, SymBool): return z3.If(x.t, z3.BitVecVal(1, w), z3.BitVecVal(0, w)) 
    return z3.BitVecVal(int(x), w)

MAXW = 4200
def _bin(a, b, lo, hi, f):
    al, ah = lohi(a); bl, bh = lohi(b)
    w = width(min(lo, al, bl), max(hi, ah, bh))
    if w > MAXW: raise Unsupported("integer too wide")
    return mkint(f(term(a, w), term(b, w)), lo, hi)

def _cmp(a, b, f, neg):
    al, ah = lohi(a); bl, bh = lohi(b)
    w = width(min(al, bl), max(ah, bh))
    return mkbool(f(term(a, w), term(b, w)))

def bitrange(n): return (1 << n.bit_length()) - 1

def op_and(a, b):
    al, ah = lohi(a); bl, bh = lohi(b)
    for x, xl, xh, y in ((a, al, ah, b), (b, bl, bh, a)):
        if type(y) is int and y >= 0 and y & (y + 1) == 0 and xl >= 0 and xh <= y: return x   # mask covers the range
    if al >= 0 and bl >= 0: lo, hi = 0, min(ah, bh)
    elif al >= 0: lo, hi = 0, ah
    elif bl >= 0: lo, hi = 0, bh
    else: w = width(min(al, bl), max(ah, bh)); lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return _bin(a, b, lo, hi, lambda x, y: x & y)
def op_or(a, b):
    al, ah = lohi(a); bl, bh = lohi(b)
    if al >= 0 and bl >= 0: lo, hi = max(al, bl), max(bitrange(ah), bitrange(bh)) if max(ah, bh) else 0
    else:
        w = width(min(al, bl), max(ah, bh)); lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if ah < 0 or bh < 0: hi = -1
    return _bin(a, b, lo, hi, lambda x, y: x | y)
def op_xor(a, b):
    al, ah = lohi(a); bl, bh = lohi(b)
    if al >= 0 and bl >= 0: lo, hi = 0, max(bitrange(ah), bitrange(bh)) if max(ah, bh) else 0
    else: w = width(min(al, bl), max(ah, bh)); lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    return _bin(a, b, lo, hi, lambda x, y: x ^ y)

def sign_split(x):
    """fork on the sign of x; the returned value carries a sign-definite interval"""
    if not isinstance(x, SymInt) or x.lo >= 0 or x.hi < 0: return x
    lo, hi = (x.lo, -1) if bool(x < 0) else (0, x.hi)
    return restrict(x, lo, hi)
def restrict(x, lo, hi):
    r = mkint(x.t, lo, hi)
    if isinstance(r, SymInt) and x.negof is not None:
        r.negof = mkint(x.negof.t, max(-hi, x.negof.lo), min(-lo, x.negof.hi))
        if not isinstance(r.negof, SymInt): r.negof = None
    return r
def udivrem(n, d):
    """n >= 0, d > 0 (intervals say so)"""
    nl, nh = lohi(n); dl, dh = lohi(d); dl = max(dl, 1)
    if nh < dl: return 0, n
    w = width(0, max(nh, dh))
    x, y = term(n, w), term(d, w)
    return mkint(z3.UDiv(x, y), nl // dh, nh // dl), mkint(z3.URem(x, y), 0, min(nh, dh - 1))
def floordivmod(a, b):
    if isinstance(a, SymBool): a = a.i()
    if isinstance(b, SymBool): b = b.i()
    if isinstance(b, int):
        if b == 0: raise ZeroDivisionError("integer division or modulo by zero")
    elif bool(b == 0): raise ZeroDivisionError("integer division or modulo by zero")
    a, b = sign_split(a), sign_split(b)
    an, bn = lohi(a)[0] < 0, lohi(b)[0] < 0
    if not bn and lohi(b)[0] == 0: b = mkint(b.t, 1, b.hi)
    if an == bn:
        q, r = udivrem(-a, -b) if an else udivrem(a, b)
        return q, (-r if an else r)
    q, r = udivrem(-a, b) if an else udivrem(a, -b)
    # floor: one less when there is a remainder
    nz = r != 0
    return ite(nz, -q - 1, -q), ite(nz, b - r if an else b + r, 0)
def op_floordiv(a, b):
    if type(b) is int and b > 0 and b & (b - 1) == 0: return op_rshift(a, b.bit_length() - 1)
    return floordivmod(a, b)[0]
def op_mod(a, b):
    if type(b) is int and b > 0 and b & (b - 1) == 0: return op_and(a, b - 1)
    return floordivmod(a, b)[1]
def or0(b):
    c = b == 0
    return bool(c)

def op_lshift(a, b):
    bl, bh = lohi(b)
    if bl < 0:
        if not isinstance(b, SymInt) or bool(b < 0): raise ValueError("negative shift count")
        bl = 0
    if bh > 600: 
        b, bl, bh = tighten(b); bl = max(bl, 0)
        if bh > 600: raise Unsupported("huge shift")
    al, ah = lohi(a)
    lo = min(al << bl, al << bh); hi = max(ah << bl, ah << bh)
    w = width(min(lo, 0), max(hi, bh))
    if w > MAXW: raise Unsupported("integer too wide")
    return mkint(term(a, w) << term(b, w), lo, hi)
def op_rshift(a, b):
    bl, bh = lohi(b)
    if bl < 0:
        if not isinstance(b, SymInt) or bool(b < 0): raise ValueError("negative shift count")
        bl = 0
    al, ah = lohi(a)
    cands = [al >> bl, al >> min(bh, 5000), ah >> bl, ah >> min(bh, 5000)]
    lo, hi = min(cands), max(cands)
    w = width(min(al, 0), max(ah, bh))
    x, y = term(a, w), term(b, w)
    if w > MAXW: raise Unsupported("integer too wide")
    return mkint(x >> y, lo, hi)   # bvashr; counts >= width give sign fill, as in Python

def tighten(x):
    """solver-derived bounds of x on the current path"""
    if not isinstance(x, SymInt): return x, x, x
    lo, hi = x.lo, x.hi
    def feasible(c): return ENG.check(c) != z3.unsat
    a, b = lo, hi       # smallest upper bound
    while a < b:
        mid = (a + b) // 2
        if feasible(as_z3bool(x > mid)): a = mid + 1
        else: b = mid
    hi = a
    a, b = lo, hi
    while a < b:
        mid = (a + b + 1) // 2
        if feasible(as_z3bool(x < mid)): b = mid - 1
        else: a = mid
    lo = a
    return mkint(x.t, lo, hi), lo, hi

def concretize(x, limit=300):
    """fork over all values x can take (complete)"""
    if not isinstance(x, SymInt): return int(x)
    x2, lo, hi = tighten(x) if x.hi - x.lo > 16 else (x, x.lo, x.hi)
    if not isinstance(x2, SymInt): return x2
    if hi - lo > limit: raise Unsupported(f"concretize over {hi - lo + 1} values")
    while lo < hi:
        mid = (lo + hi) // 2
        if x <= mid: hi = mid
        else: lo = mid + 1
    ENG.assume(x == hi)
    return hi

# linear forms: sums of atoms with integer coefficients, kept beside the term so that differences of positions need no solver
def lin_of(x):
    if isinstance(x, SymInt):
        if x.lin is None: return {x.t.get_id(): (1, x)}, 0
        return x.lin
    if isinstance(x, SymBool): return None
    return {}, int(x)
def lin_add(a, b, s):
    la, lb = lin_of(a), lin_of(b)
    if la is None or lb is None: return None
    d = dict(la[0])
    for k, (c, at) in lb[0].items():
        n = d[k][0] + s * c if k in d else s * c
        if n: d[k] = (n, at)
        else: del d[k]
    if len(d) > 8: return None
    return d, la[1] + s * lb[1]
def lin_range(l):
    lo = hi = l[1]
    for c, at in l[0].values():
        if c > 0: lo += c * at.lo; hi += c * at.hi
        else: lo += c * at.hi; hi += c * at.lo
    return lo, hi
def lin_bin(a, b, lo, hi, f, s):
    l = lin_add(a, b, s)
    if l is None: return _bin(a, b, lo, hi, f)
    if not l[0]: return l[1]
    if l[1] == 0 and len(l[0]) == 1:
        c, at = next(iter(l[0].values()))
        if c == 1: return at
    l2, h2 = lin_range(l)
    lo, hi = max(lo, l2), min(hi, h2)
    if lo > hi: return _bin(a, b, min(lo, hi), max(lo, hi), f)   # infeasible path
    r = _bin(a, b, lo, hi, f)
    if isinstance(r, SymInt): r.lin = l
    return r
def lin_diff(a, b):
    """range of a - b"""
    l = lin_add(a, b, -1)
    return lin_range(l) if l is not None else (-float("inf"), float("inf"))

class SymInt:
    __slots__ = ("t", "lo", "hi", "negof", "lin", "dig")
    def __init__(m, t, lo, hi): m.t, m.lo, m.hi, m.negof, m.lin, m.dig = t, lo, hi, None, None, None
    def __bool__(m):
        return bool(m != 0)
    def __hash__(m): return hash(concretize(m))
    def __index__(m): return concretize(m)
    def __int__(m): return concretize(m)
    def __repr__(m): return f"<SymInt {m.t} in [{m.lo},{m.hi}]>"
    def __format__(m, spec): return format(concretize(m), spec)
    def __str__(m): return str(concretize(m))
    def __float__(m): raise Unsupported("float of symbolic int")
    def __trunc__(m): return m
    def __round__(m, *_): return m
    def __floor__(m): return m
    def __ceil__(m): return m
    def bit_length(m):
        a = abs(m)
        if not isinstance(a, SymInt): return a.bit_length()
        r = 0
        n = a.hi.bit_length()
        t = z3.BitVecVal(0, 16)
        for i in range(n):
            w = a.t.size()
            t = z3.If(z3.Extract(i, i, a.t) == 1, z3.BitVecVal(i + 1, 16), t)
        return mkint(t, 0, n)
    def to_bytes(m, length=1, byteorder="big", *, signed=False):
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not (and_(m >= lo, m <= hi)): raise OverflowError("int too big to convert")
        bs = [(m >> (8 * i)) & 0xff for i in range(length)]
        return SymBytes(bs if byteorder == "little" else bs[::-1])
    @property
    def real(m): return m
    @property
    def numerator(m): return m
    @property
    def denominator(m): return 1
    def is_integer(m): return True

    def __add__(m, o):
        if not isint(o): return _other(m, o, "+")
        ol, oh = lohi(o)
        return lin_bin(m, o, m.lo + ol, m.hi + oh, lambda x, y: x + y, 1)
    def __radd__(m, o): return m.__add__(o)
    def __sub__(m, o):
        if not isint(o): return _other(m, o, "-")
        ol, oh = lohi(o)
        return lin_bin(m, o, m.lo - oh, m.hi - ol, lambda x, y: x - y, -1)
    def __rsub__(m, o):
        if not isint(o): return _other(o, m, "-")
        ol, oh = lohi(o)
        return lin_bin(o, m, ol - m.hi, oh - m.lo, lambda x, y: x - y, -1)
    def __mul__(m, o):
        if isinstance(o, str) and len(o) == 1 and m.hi > 600:
            from .rope import Rope, Rep
            return Rope([Rep(o, ite(m > 0, m, 0))])
        if isinstance(o, (list, tuple, str, bytes)): return o * concretize(m)
        if not isint(o): return _other(m, o, "*")
        ol, oh = lohi(o)
        c = [m.lo * ol, m.lo * oh, m.hi * ol, m.hi * oh]
        return _bin(m, o, min(c), max(c), lambda x, y: x * y)
    def __rmul__(m, o): return m.__mul__(o)
    def __floordiv__(m, o): return op_floordiv(m, o) if isint(o) else _other(m, o, "//")
    def __rfloordiv__(m, o): return op_floordiv(o, m) if isint(o) else _other(o, m, "//")
    def __mod__(m, o): return op_mod(m, o) if isint(o) else _other(m, o, "%")
    def __rmod__(m, o): return op_mod(o, m) if isint(o) else _other(o, m, "%")
    def __divmod__(m, o): return m // o, m % o
    def __rdivmod__(m, o): return o // m, o % m
    def __truediv__(m, o): return truediv(m, o)
    def __rtruediv__(m, o): return truediv(o, m)
    def __pow__(m, o, mod=None):
        o = concretize(o)
        if mod is not None: raise Unsupported("3-arg pow")
        if o < 0: raise Unsupported("negative power")
        r = 1
        for _ in range(o): r = r * m
        return r
    def __rpow__(m, o, mod=None):
        if isinstance(o, int) and o == 2:
            if m.lo < 0:
                if bool(m < 0): raise Unsupported("negative power")
            return op_lshift(1, m)
        return o ** concretize(m)
    def __lshift__(m, o): return op_lshift(m, o) if isint(o) else NotImplemented
    def __rlshift__(m, o): return op_lshift(o, m) if isint(o) else NotImplemented
    def __rshift__(m, o): return op_rshift(m, o) if isint(o) else NotImplemented
    def __rrshift__(m, o): return op_rshift(o, m) if isint(o) else NotImplemented
    def __and__(m, o): return op_and(m, o) if isint(o) else NotImplemented
    def __rand__(m, o): return op_and(o, m) if isint(o) else NotImplemented
    def __or__(m, o): return op_or(m, o) if isint(o) else NotImplemented
    def __ror__(m, o): return op_or(o, m) if isint(o) else NotImplemented
    def __xor__(m, o): return op_xor(m, o) if isint(o) else NotImplemented
    def __rxor__(m, o): return op_xor(o, m) if isint(o) else NotImplemented
    def __neg__(m):
        if m.negof is not None: return m.negof
        r = 0 - m
        if isinstance(r, SymInt): r.negof = m
        return r
    def __pos__(m): return m
    def __invert__(m): return -1 - m
    def __abs__(m):
        if m.lo >= 0: return m
        hi = max(abs(m.lo), abs(m.hi))
        w = width(-hi, hi)
        t = resize(m.t, w)
        return mkint(z3.If(t < 0, -t, t), 0, hi)
    def __eq__(m, o):
        if isinstance(o, float):
            if o != int(o) if o == o and abs(o) != float("inf") else True: return False
            o = int(o)
        if not isint(o): return NotImplemented if hasattr(o, "__pv_sym__") else False
        ol, oh = lohi(o)
        if oh < m.lo or ol > m.hi: return False
        if m.dig is not None and isinstance(o, int):        # the character of a digit
            v = o - 48 if 48 <= o <= 57 else o - (55 if m.dig[1] else 87)
            if v < 0 or v >= 36 or (v < 10) != (o <= 57): return False
            return m.dig[0] == v
        d = lin_diff(m, o)
        if d[0] > 0 or d[1] < 0: return False
        if d[0] == d[1] == 0: return True
        return _cmp(m, o, lambda x, y: x == y, None)
    def __ne__(m, o):
        r = m.__eq__(o)
        return r if r is NotImplemented else not_(r)
    def __lt__(m, o):
        if not isint(o): return _cmpother(m, o, "<")
        ol, oh = lohi(o)
        if m.hi < ol: return True
        if m.lo >= oh: return False
        d = lin_diff(m, o)
        if d[1] < 0: return True
        if d[0] >= 0: return False
        return _cmp(m, o, lambda x, y: x < y, None)
    def __ge__(m, o):
        if not isint(o): return _cmpother(m, o, ">=")
        return not_(m < o)
    def __gt__(m, o):
        if not isint(o): return _cmpother(m, o, ">")
        ol, oh = lohi(o)
        if m.lo > oh: return True
        if m.hi <= ol: return False
        d = lin_diff(m, o)
        if d[0] > 0: return True
        if d[1] <= 0: return False
        return _cmp(m, o, lambda x, y: x > y, None)
    def __le__(m, o):
        if not isint(o): return _cmpother(m, o, "<=")
        return not_(m > o)
    __pv_sym__ = True

def _other(a, b, op):
    if isinstance(a, float) or isinstance(b, float):
        for x in (a, b):
            if isinstance(x, float):
                if op == "+" and x == x and 0 <= x < 1 << 53 and lohi(a if x is b else b)[1] < 1 << 53:     # a float is n/2^k exactly
                    n, d = x.as_integer_ratio()
                    return SymReal((a if x is b else b) + n // d, n % d, d).rounded()
                raise Unsupported(f"float arithmetic {op}")
        raise Unsupported(f"float arithmetic {op}")
    return NotImplemented
def _cmpother(a, b, op):
    o = b
    if isinstance(o, float):
        if o == float("inf"): return op in ("<", "<=")
        if o == float("-inf"): return op in (">", ">=")
        if o == int(o):
            return {"<": a < int(o), "<=": a <= int(o), ">": a > int(o), ">=": a >= int(o)}[op]
        import math
        f = math.floor(o)
        return {"<": a <= f, "<=": a <= f, ">": a > f, ">=": a > f}[op]
    return NotImplemented

class SymReal:
    """float model: the exact value i + n/d (d a positive constant, n >= 0) with a bound on the accumulated rounding error.
    Each IEEE operation's result is the exact one rounded to nearest (error at most 2^-53 relative); results that fit 53 bits are exact.
    int() is only answered when the error cannot change it."""
    __pv_sym__ = True
    def __init__(m, i, n, d, err=Fraction(0)):
        import math
        g = math.gcd(d, n) if isinstance(n, int) else 1
        m.i, m.n, m.d, m.err = i, n // g, d // g, err
        if isinstance(n, int) and n == 0: m.d = 1
    def pow2(m): return m.d & (m.d - 1) == 0
    def maxabs(m):
        lo, hi = lohi(m.i); nl, nh = lohi(m.n)
        return max(abs(lo), abs(hi)) + Fraction(max(abs(nl), abs(nh)), m.d)
    def fits(m): return m.pow2() and m.maxabs() * m.d < (1 << 53) and m.err == 0
    def rounded(m):
        if not m.fits(): m.err = m.err + (m.maxabs() + m.err) * Fraction(1, 1 << 53)
        return m
    def __add__(m, o):
        if isint(o): return SymReal(m.i + o, m.n, m.d, m.err).rounded()
        raise Unsupported("float addition")
    __radd__ = __add__
    def __mul__(m, o):
        if isinstance(o, int) and o > 0 and o & (o - 1) == 0:
            import math
            g = math.gcd(o, m.d)
            r = SymReal(m.i * o, m.n * (o // g), m.d // g, m.err * o)
            return r
        raise Unsupported("float multiplication")
    __rmul__ = __mul__
    def trunc(m):
        if lohi(m.i)[0] < 0 or lohi(m.n)[0] < 0: raise Unsupported("int() of a possibly negative float")
        # n is an integer: the distance to the next integer is 0 or at least 1/d.  At distance 0 the value, and with it every
        # intermediate value of the chain of operations allowed above, is a multiple of a power of two that a float holds exactly
        if m.err * m.d >= 1: raise Unsupported("float rounding may change int()")
        if m.err and m.maxabs() >= 1 << 53: raise Unsupported("float too large")
        return m.i + m.n // m.d
    def fixed(m, prec):
        """digits of '%.<prec>f' (correctly rounded decimal of the exact value)"""
        if not m.fits(): raise Unsupported("decimal output of an inexact float")
        p = 10 ** prec; t = m.n * p; q = t // m.d; r = t - q * m.d
        q = ite(r * 2 > m.d, q + 1, ite(and_(r * 2 == m.d, q % 2 == 1), q + 1, q))
        return m.i * p + q
    def __eq__(m, o): raise Unsupported("float comparison")
    def __hash__(m): raise Unsupported("float hash")
def truediv(a, b):
    if isinstance(b, int) and b > 0 and isint(a) and lohi(a)[0] >= 0:
        return SymReal(0, a, b).rounded()
    raise Unsupported("true division of symbolic ints (float)")

def symint(name, lo, hi):
    t = z3.BitVec(name, width(lo, hi))
    w = width(lo, hi)
    if lo == hi: return lo
    c = []
    if lo != -(1 << (w - 1)): c.append(t >= lo)
    if hi != (1 << (w - 1)) - 1: c.append(t <= hi)
    if c: ENG._add(z3.And(*c) if len(c) > 1 else c[0])
    return SymInt(t, lo, hi)

def ite(c, a, b):
    """value-level if-then-else over ints/bools/strings"""
    if not isinstance(c, SymBool): return a if c else b
    if a is b: return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.t, as_z3bool(a), as_z3bool(b)))
    if isint(a) and isint(b):
        al, ah = lohi(a); bl, bh = lohi(b)
        lo, hi = min(al, bl), max(ah, bh)
        w = width(lo, hi)
        return mkint(z3.If(c.t, term(a, w), term(b, w)), lo, hi)
    sa, sb = as_symstr(a), as_symstr(b)
    if sa is not None and sb is not None and len(sa.cs) == len(sb.cs):
        return SymStr([ite(c, x, y) for x, y in zip(sa.cs, sb.cs)])
    if a == b: return a
    return a if bool(c) else b

# ------------------------------------------------------------------ strings / bytes of concrete length, symbolic items

def as_symstr(s):
    if isinstance(s, SymStr): return s
    if isinstance(s, str): return SymStr([ord(c) for c in s])
    return None
def as_symbytes(s):
    if isinstance(s, SymBytes): return s
    if isinstance(s, (bytes, bytearray)): return SymBytes(list(s))
    return None

def mkstr(cs):
    if all(type(c) is int for c in cs): return "".join(map(chr, cs))
    return SymStr(cs)
def mkbytes(cs, cls=None):
    if all(type(c) is int for c in cs) and cls is None: return bytes(cs)
    return SymBytes(cs)

def slice_of(items, idx):
    if isinstance(idx, slice):
        def cv(v):
            return concretize(v) if isinstance(v, SymInt) else v
        return items[slice(cv(idx.start), cv(idx.stop), cv(idx.step))], True
    return items, False

class SymSeqBase:
    __pv_sym__ = True
    def __init__(m, cs): m.cs = list(cs)
    def __len__(m): return len(m.cs)
    def __hash__(m): raise Unsupported("hash of symbolic sequence")
    def __bool__(m): return len(m.cs) > 0
    def _getitem(m, i):
        if isinstance(i, SymInt):
            n = len(m.cs)
            if i < 0: i = i + n
            if not and_(i >= 0, i < n): raise IndexError("index out of range")
            r = m.cs[n - 1]
            for k in range(n - 2, -1, -1): r = ite(i == k, m.cs[k], r)
            return r
        return m.cs[i]
    def _eq(m, o):
        if len(m.cs) != len(o.cs): return False
        return and_(*[a == b for a, b in zip(m.cs, o.cs)])
    def _starts(m, o, at=0):
        if at < 0 or at + len(o.cs) > len(m.cs): return False
        return and_(*[m.cs[at + k] == c for k, c in enumerate(o.cs)])
    def _find(m, o, s=None, e=None):
        s = 0 if s is None else concretize(s); e = len(m.cs) if e is None else concretize(e)
        s, e, _ = slice(s, e).indices(len(m.cs))
        if len(o.cs) == 1 and isinstance(o.cs[0], SymInt) and all(type(c) is int for c in m.cs[s:e]) and e - s > 2:
            c = o.cs[0]
            if not bool(or_(*[c == x for x in m.cs[s:e]])): return -1
            runs = []       # runs of consecutive characters: the index is the character minus a constant
            for k in range(s, e):
                if runs and m.cs[k] == m.cs[k - 1] + 1 and m.cs[k] not in m.cs[s:k]: runs[-1][1] = m.cs[k]
                elif m.cs[k] not in m.cs[s:k]: runs.append([m.cs[k], m.cs[k], k])
            r = c - (runs[-1][0] - runs[-1][2])
            for a, b, k in reversed(runs[:-1]): r = ite(and_(c >= a, c <= b), c - (a - k), r)
            l, h = lohi(r)
            return r if l >= s and h < e else mkint(r.t, s, e - 1)   # the character is one of these (path condition)
        for k in range(s, e - len(o.cs) + 1):
            if m._starts(o, k): return k
        return -1
    def _rfind(m, o, s=None, e=None):
        s = 0 if s is None else concretize(s); e = len(m.cs) if e is None else concretize(e)
        s, e, _ = slice(s, e).indices(len(m.cs))
        for k in range(e - len(o.cs), s - 1, -1):
            if m._starts(o, k): return k
        return -1
    def _lt(m, o):
        # lexicographic
        r = len(m.cs) < len(o.cs)
        n = min(len(m.cs), len(o.cs))
        for k in range(n - 1, -1, -1):
            r = or_(m.cs[k] < o.cs[k], and_(m.cs[k] == o.cs[k], r))
        return r

class SymStr(SymSeqBase):
    """string of known length whose code points may be symbolic"""
    def __getitem__(m, i):
        r, is_slice = slice_of(m.cs, i)
        if is_slice: return mkstr(r)
        return mkstr([m._getitem(i)])
    def __iter__(m):
        for c in list(m.cs): yield mkstr([c])
    def __add__(m, o):
        o = as_symstr(o)
        if o is None: return NotImplemented
        return mkstr(m.cs + o.cs)
    def __radd__(m, o):
        o = as_symstr(o)
        if o is None: return NotImplemented
        return mkstr(o.cs + m.cs)
    def __mul__(m, n): return mkstr(m.cs * concretize(n))
    __rmul__ = __mul__
    def __eq__(m, o):
        o = as_symstr(o)
        return False if o is None else m._eq(o)
    def __ne__(m, o): return not_(m == o)
    def __lt__(m, o): return m._lt(as_symstr(o))
    def __gt__(m, o): return as_symstr(o)._lt(m)
    def __le__(m, o): return not_(m > o)
    def __ge__(m, o): return not_(m < o)
    __hash__ = SymSeqBase.__hash__
    def __contains__(m, o): return bool(or_(*[m._starts(as_symstr(o), k) for k in range(len(m.cs) - len(o) + 1)]))
    def __repr__(m): return f"<SymStr {m.cs}>"
    def __str__(m): raise Unsupported("str() of symbolic string to native")
    def __format__(m, s): raise Unsupported("format of symbolic string")
    # -- methods
    def startswith(m, p, s=0, e=None):
        if isinstance(p, tuple): return or_(*[m.startswith(x, s, e) for x in p])
        sub = m if e is None else as_symstr(m[:e])
        return sub._starts(as_symstr(p), concretize(s) if s else 0)
    def endswith(m, p):
        if isinstance(p, tuple): return or_(*[m.endswith(x) for x in p])
        p = as_symstr(p)
        return m._starts(p, len(m.cs) - len(p.cs))
    def find(m, p, s=None, e=None): return m._find(as_symstr(p), s, e)
    def rfind(m, p, s=None, e=None): return m._rfind(as_symstr(p), s, e)
    def index(m, p, s=None, e=None):
        r = m.find(p, s, e)
        if r < 0: raise ValueError("substring not found")
        return r
    def count(m, p):
        n = k = 0; o = as_symstr(p)
        while k + len(o.cs) <= len(m.cs):
            if m._starts(o, k): n += 1; k += max(1, len(o.cs))
            else: k += 1
        return n
    def _all(m, f): return and_(*[f(c) for c in m.cs]) if m.cs else False
    def isdigit(m): return m._all(lambda c: uni_pred(c, "isdigit"))
    def isalpha(m): return m._all(lambda c: uni_pred(c, "isalpha"))
    def isalnum(m): return m._all(lambda c: uni_pred(c, "isalnum"))
    def isspace(m): return m._all(lambda c: uni_pred(c, "isspace"))
    def isupper(m): 
        return and_(or_(*[uni_pred(c, "isupper") for c in m.cs]), not_(or_(*[uni_pred(c, "islower") for c in m.cs])))
    def islower(m): 
        return and_(or_(*[uni_pred(c, "islower") for c in m.cs]), not_(or_(*[uni_pred(c, "isupper") for c in m.cs])))
    def lower(m): return mkstr([c if isinstance(c, SymInt) and c.dig is not None and not c.dig[1] else ite(and_(c >= 65, c <= 90), c + 32, _ascii_only(c)) for c in m.cs])
    def upper(m): return mkstr([ite(and_(c >= 97, c <= 122), c - 32, _ascii_only(c)) for c in m.cs])
    def replace(m, a, b, count=-1):
        a, b = as_symstr(a), as_symstr(b)
        out = []; k = 0
        if not a.cs: raise Unsupported("replace empty")
        while k < len(m.cs):
            if m._starts(a, k): out += b.cs; k += len(a.cs)
            else: out.append(m.cs[k]); k += 1
        return mkstr(out)
    def strip(m, chars=None): return as_symstr(m.lstrip(chars)).rstrip(chars)
    def _isin(m, c, chars):
        return uni_pred(c, "isspace") if chars is None else or_(*[c == ord(x) for x in chars])
    def lstrip(m, chars=None):
        k = 0
        while k < len(m.cs) and m._isin(m.cs[k], chars): k += 1
        return mkstr(m.cs[k:])
    def rstrip(m, chars=None):
        k = len(m.cs)
        while k > 0 and m._isin(m.cs[k - 1], chars): k -= 1
        return mkstr(m.cs[:k])
    def join(m, parts):
        out = []; first = True
        for p in parts:
            if not first: out += m.cs
            out += as_symstr(p).cs; first = False
        return mkstr(out)
    def ljust(m, w, ch=" "): return mkstr(m.cs + [ord(ch)] * (concretize(w) - len(m.cs)))
    def rjust(m, w, ch=" "): return mkstr([ord(ch)] * (concretize(w) - len(m.cs)) + m.cs)
    def zfill(m, w):
        k = concretize(w) - len(m.cs)
        if k <= 0: return m
        sign = len(m.cs) and bool(or_(m.cs[0] == 43, m.cs[0] == 45))
        return mkstr([m.cs[0]] + [48] * k + m.cs[1:]) if sign else mkstr([48] * k + m.cs)
    def split(m, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit != -1: raise Unsupported("split(None, n)")
            out = []; cur = []
            for c in m.cs:
                if uni_pred(c, "isspace"):
                    if cur: out.append(mkstr(cur)); cur = []
                else: cur.append(c)
            if cur: out.append(mkstr(cur))
            return out
        sep = as_symstr(sep); out = []; cur = []; k = 0
        while k < len(m.cs):
            if maxsplit != 0 and m._starts(sep, k): out.append(mkstr(cur)); cur = []; k += len(sep.cs); maxsplit -= 1
            else: cur.append(m.cs[k]); k += 1
        out.append(mkstr(cur))
        return out
    def encode(m, enc="utf-8", errors="strict"):
        enc = enc.lower().replace("_", "-")
        out = []
        for c in m.cs:
            lim = {"latin-1": 255, "latin1": 255, "iso-8859-1": 255, "ascii": 127}.get(enc)
            if lim is None:
                if enc in ("utf-8", "utf8"):
                    if c <= 127: out.append(c); continue
                    if c <= 0x7ff: out += [0xc0 | (c >> 6), 0x80 | (c & 0x3f)]; continue
                    raise Unsupported("utf8 encode beyond 2 bytes")
                raise Unsupported(f"encode {enc}")
            if not c <= lim: raise UnicodeEncodeError(enc, "?", 0, 1, "symbolic")
            out.append(c)
        return mkbytes(out)

_uni_sets = {}
def uni_pred(c, name, limit=0x110000):
    """Unicode predicate on a code point: interval form computed from CPython's own tables"""
    if isinstance(c, int): return getattr(chr(c), name)()
    if c.dig is not None and name == "isspace": return False
    if c.hi >= 0x10000: raise Unsupported("unicode predicate on wide code point")
    iv = _uni_sets.get(name)
    if iv is None:
        iv = []; start = None
        for k in range(0x10001):
            b = k < 0x10000 and getattr(chr(k), name)()
            if b and start is None: start = k
            elif not b and start is not None: iv.append((start, k - 1)); start = None
        _uni_sets[name] = iv
    return or_(*[and_(c >= a, c <= b) for a, b in iv if a <= c.hi and b >= c.lo])

def _ascii_only(c):
    if isinstance(c, SymInt) and c.hi > 127:
        if bool(c > 127): raise Unsupported("case mapping of non-ascii")
    return c

class SymBytes(SymSeqBase):
    def __getitem__(m, i):
        r, is_slice = slice_of(m.cs, i)
        if is_slice: return type(m)(r) if isinstance(m, SymByteArray) else mkbytes(r)
        return m._getitem(i)
    def __iter__(m): return iter(list(m.cs))
    def __add__(m, o):
        o = as_symbytes(o)
        if o is None: return NotImplemented
        return type(m)(m.cs + o.cs)
    def __radd__(m, o):
        o2 = as_symbytes(o)
        if o2 is None: return NotImplemented
        return SymBytes(o2.cs + m.cs)
    def __mul__(m, n):
        if isinstance(n, SymInt) and n.hi - max(n.lo, 0) > 300 and len(m.cs) == 1:
            n = ite(n > 0, n, 0)
            return SymArr(z3.K(z3.BitVecSort(IDXW), resize(term(m.cs[0], 9), width(0, 255))), n, 0, 255, 0, "bytearray")
        return type(m)(m.cs * concretize(n))
    __rmul__ = __mul__
    def __eq__(m, o):
        o = as_symbytes(o)
        return False if o is None else m._eq(o)
    def __ne__(m, o): return not_(m == o)
    __hash__ = SymSeqBase.__hash__
    def __contains__(m, o):
        if isint(o): return bool(or_(*[c == o for c in m.cs]))
        o = as_symbytes(o)
        return bool(or_(*[m._starts(o, k) for k in range(len(m.cs) - len(o.cs) + 1)]))
    def __repr__(m): return f"<SymBytes {m.cs}>"
    def startswith(m, p, s=0): return m._starts(as_symbytes(p), s)
    def endswith(m, p): p = as_symbytes(p); return m._starts(p, len(m.cs) - len(p.cs))
    def find(m, p, s=None, e=None): return m._find(SymBytes([p]) if isint(p) else as_symbytes(p), s, e)
    def rfind(m, p, s=None, e=None): return m._rfind(SymBytes([p]) if isint(p) else as_symbytes(p), s, e)
    def index(m, p, s=None, e=None):
        r = m.find(p, s, e)
        if r < 0: raise ValueError("subsection not found")
        return r
    def join(m, parts):
        out = []; first = True
        for p in parts:
            if not first: out += m.cs
            out += as_symbytes(p).cs; first = False
        return mkbytes(out)
    def hex(m):
        d = lambda n: ite(n < 10, n + 48, n + 87)
        return mkstr([x for c in m.cs for x in (d(c >> 4), d(c & 15))])
    def decode(m, enc="utf-8", errors="strict"):
        enc = enc.lower().replace("_", "-")
        if enc in ("latin-1", "latin1", "iso-8859-1"): return mkstr(m.cs)
        if enc in ("utf-8", "utf8", "ascii"):
            if and_(*[c <= 127 for c in m.cs]): return mkstr(m.cs)
        raise Unsupported(f"decode {enc}")
    def rstrip(m, chars=None):
        k = len(m.cs)
        while k > 0 and or_(*[m.cs[k - 1] == x for x in (chars if chars is not None else b" \t\n\r\x0b\f")]): k -= 1
        return mkbytes(m.cs[:k])
    def ljust(m, w, ch=b" "): return mkbytes(m.cs + [ch[0]] * (concretize(w) - len(m.cs)))

class SymByteArray(SymBytes):
    """mutable"""
    def __setitem__(m, i, v):
        if isinstance(i, slice):
            st, en, step = slice(*[concretize(x) if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)]).indices(len(m.cs))
            m.cs[slice(st, en, step)] = list(as_symbytes(v).cs if not isinstance(v, list) else v)
            return
        if isinstance(v, SymInt):
            if not and_(v >= 0, v <= 255): raise ValueError("byte must be in range(0, 256)")
        elif not (0 <= v <= 255): raise ValueError("byte must be in range(0, 256)")
        if isinstance(i, SymInt):
            n = len(m.cs)
            if i < 0: i = i + n
            if not and_(i >= 0, i < n): raise IndexError("bytearray index out of range")
            for k in range(n): m.cs[k] = ite(i == k, v, m.cs[k])
            return
        m.cs[i] = v
    def append(m, v): m.cs.append(v)
    def extend(m, v): m.cs.extend(as_symbytes(v).cs if as_symbytes(v) is not None else list(v))
    def __iadd__(m, v): m.extend(v); return m
    def __delitem__(m, i):
        if isinstance(i, slice): i = slice(*[concretize(x) if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)])
        del m.cs[i]
    def pop(m, i=-1): return m.cs.pop(i)
    def clear(m): m.cs.clear()

# ------------------------------------------------------------------ arrays of unknown length

IDXW = 64
STORES = {}
class SymArr:
    """mutable array of bounded ints, unknown (symbolic) length; backed by an SMT array"""
    __pv_sym__ = True
    def __init__(m, arr, length, lo, hi, off=0, kind="list"):
        m.arr, m.length, m.lo, m.hi, m.off, m.kind = arr, length, lo, hi, off, kind
    @staticmethod
    def fresh(name, length, lo, hi, kind="list"):
        w = width(lo, hi)
        a = z3.Array(name, z3.BitVecSort(IDXW), z3.BitVecSort(w))
        return SymArr(a, length, lo, hi, 0, kind)
    @property
    def w(m): return width(m.lo, m.hi)
    def idx(m, i): return term(i + m.off, IDXW)
    def raw(m, i):
        """element without bounds check"""
        a, pos = m.arr, i + m.off
        while True:     # stores at positions that are known to be different, or the same, are resolved here
            st = STORES.get(a.get_id())
            if st is None: break
            _, old, j, v = st
            d = (pos - j, pos - j) if isinstance(pos, int) and isinstance(j, int) else lin_diff(pos, j)
            if d[0] == d[1] == 0: return v
            if d[0] > 0 or d[1] < 0: a = old
            else: break
        t = z3.Select(a, m.idx(i))
        w = m.w
        if m.lo != -(1 << (w - 1)) or m.hi != (1 << (w - 1)) - 1:
            ENG._add(z3.And(t >= m.lo, t <= m.hi))   # element-type fact of this array (holds for every element)
        return mkint(t, m.lo, m.hi)
    def wrap(m, v): return mkstr([v]) if m.kind in ("str", "charlist") else v
    def __len__(m): raise Unsupported("native len of symbolic array")
    def pv_len(m): return m.length
    def __bool__(m): return bool(m.length > 0)
    def norm(m, i):
        if isinstance(i, int):
            if i < 0: i = m.length + i
        elif i.lo < 0:
            if bool(i < 0): i = i + m.length
        if not bool(and_(i >= 0, i < m.length)): raise IndexError("index out of range")
        return i
    def __getitem__(m, i):
        if isinstance(i, slice):
            s, n = m.slice_bounds(i)
            if isinstance(n, int) and n <= 64 and m.kind != "charlist":
                cs = [m.raw(s + j) for j in range(n)]
                return {"str": mkstr, "bytes": mkbytes, "bytearray": SymByteArray, "list": list}[m.kind](cs)
            return SymArr(m.arr, n, m.lo, m.hi, m.off + s, m.kind)
        return m.wrap(m.raw(m.norm(i)))
    def __setitem__(m, i, v):
        if isinstance(i, slice):
            s, n = m.slice_bounds(i)
            if isinstance(v, SymArr): ln = v.length
            else:
                v = as_symbytes(v) if not isinstance(v, list) else v
                v = v.cs if not isinstance(v, list) else v
                ln = len(v)
            if not bool(n == ln): raise Unsupported("slice assignment that changes the length of a symbolic array")
            if isinstance(v, SymArr):
                k = z3.BitVec(ENG.fresh_name("k"), IDXW)
                d = term(m.off + s, IDXW)
                src = z3.Select(v.arr, k - d + term(v.off, IDXW))
                src = resize(src, m.w) if v.w != m.w else src
                m.arr = z3.Lambda([k], z3.If(z3.And(k >= d, k < d + term(ln, IDXW)), src, z3.Select(m.arr, k)))
            else:
                for j, c in enumerate(v): m.raw_set(s + j, c)
            return
        i = m.norm(i)
        m.raw_set(i, v)
    def slice_bounds(m, i):
        if i.step not in (None, 1): raise Unsupported("extended slice")
        def clamp(v, dflt):
            if v is None: return dflt
            if isinstance(v, int) and v < 0 or isinstance(v, SymInt) and v.lo < 0 and bool(v < 0): 
                v = v + m.length
                if bool(v < 0): v = 0
            if bool(v > m.length): v = m.length
            return v
        s, t = clamp(i.start, 0), clamp(i.stop, m.length)
        n = t - s
        if bool(n < 0): n = 0
        return s, n
    def __add__(m, o):
        if isinstance(o, SymArr): raise Unsupported("concatenation of symbolic arrays")
        cs = as_symstr(o) if m.kind == "str" else as_symbytes(o) if m.kind in ("bytes", "bytearray") else None
        if cs is None: raise Unsupported("concatenation")
        r = m.copy()
        for c in cs.cs: r.append(c)
        return r
    def raw_set(m, i, v):
        if isinstance(v, (str, SymStr)): v = as_symstr(v).cs[0]
        l, h = lohi(v)
        if l < m.lo or h > m.hi:
            if not bool(and_(v >= m.lo, v <= m.hi)): raise ValueError("element out of range")
        old = m.arr
        m.arr = z3.Store(old, m.idx(i), resize(term(v, max(m.w, width(l, h))), m.w))
        if l >= m.lo and h <= m.hi: STORES[m.arr.get_id()] = (m.arr, old, i + m.off, v)     # (holds the term, so that its id is not reused)
    def append(m, v):
        m.raw_set(m.length, v); m.length = m.length + 1
    def copy(m): return SymArr(m.arr, m.length, m.lo, m.hi, m.off, m.kind)
    def __hash__(m): raise Unsupported("hash of symbolic array")
    def eq_term(m, o):
        """extensional equality over the live range"""
        k = z3.BitVec(ENG.fresh_name("k"), IDXW)
        n = term(m.length, IDXW)
        d = term(m.off, IDXW)       # (k is an absolute index, so that plain element accesses instantiate the quantifier)
        a = z3.Select(m.arr, k); b = z3.Select(o.arr, k - d + term(o.off, IDXW))
        return z3.And(as_z3bool(m.length == o.length), z3.ForAll([k], z3.Implies(z3.And(k >= d, k < d + n), a == b)))
    def __eq__(m, o):
        if isinstance(o, (str, SymStr)):
            cs = as_symstr(o).cs
            return and_(m.length == len(cs), *[m.raw(k) == c for k, c in enumerate(cs)]) if m.kind == "str" else False
        if isinstance(o, (bytes, bytearray, SymBytes)):
            cs = as_symbytes(o).cs
            return and_(m.length == len(cs), *[m.raw(k) == c for k, c in enumerate(cs)])
        if isinstance(o, SymArr):
            if m.arr.eq(o.arr) and m.off is o.off and m.length is o.length: return True
            return SymBool(m.eq_term(o))
        return False
    def __ne__(m, o): return not_(m == o)
    def __iter__(m):
        i = 0
        while bool(m.length > i):
            yield m.wrap(m.raw(i)); i += 1
            if i > 400: raise Unsupported("iterating a symbolic-length array without a loop contract")
    def __pv_eval__(m, model):
        n = eval_in(model, m.length)
        n = min(n, 4096)
        out = [model.eval(z3.Select(m.arr, term(k, IDXW) + term(m.off, IDXW)), model_completion=True).as_signed_long() for k in range(n)]
        return out

class GhostStream:
    """model of a seekable binary file (io.BytesIO semantics) with arbitrary content, length and position"""
    __pv_stream__ = True
    def __init__(m, name, maxlen=1 << 40, length=None, pos=None):
        m.arr = SymArr.fresh(ENG.fresh_name(name), maxlen, 0, 255, "bytes")
        m.length = symint(ENG.fresh_name(name + "_len"), 0, maxlen) if length is None else length
        m.p = symint(ENG.fresh_name(name + "_pos"), 0, maxlen) if pos is None else pos
        ENG.inputs[name + "_len"] = m.length; ENG.inputs[name + "_pos"] = m.p
    def byte(m, i): return m.arr.raw(i)
    def snapshot(m):
        a = m.arr.copy()
        return lambda i: a.raw(i)
    def tell(m): return m.p
    def seek(m, v, wh=0):
        m.p = v if wh == 0 else m.p + v if wh == 1 else m.length + v
        if bool(m.p < 0): raise ValueError("negative seek value")
        return m.p
    def read(m, n=-1):
        if n is None or (isinstance(n, int) and n < 0): raise Unsupported("read() to the end of a ghost stream")
        n = concretize(n)
        k = 0
        if n > 16 and not bool(m.p + n <= m.length): raise Unsupported("short read of a ghost stream")
        if n > 16: k = n
        else:
            while k < n and bool(m.p + k < m.length): k += 1
        r = mkbytes([m.arr.raw(m.p + j) for j in range(k)])
        m.p = m.p + k
        return r
    def write(m, d):
        cs = as_symbytes(d).cs
        m.arr = m.arr.copy()
        for j, c in enumerate(cs): m.arr.raw_set(m.p + j, c)
        m.p = m.p + len(cs)
        m.length = ite(m.p > m.length, m.p, m.length)   # (a gap before p reads as zeros in BytesIO; writers never leave one)
        return len(cs)
    def flush(m): pass
    def close(m): pass
