"""pyver.rope - ghost strings of unknown length: a concatenation of literal characters, repetitions and opaque pieces.
Positions are symbolic; every operation that is not listed here ends the unit as undecided."""
from . import sym
from .sym import SymInt, SymStr, mkstr, as_symstr, isint, Unsupported, and_, or_, not_

class Src:
    """an opaque string of length n; at(i) gives its code point at i; excl: characters known not to occur in it"""
    def __init__(m, name, n, at=None, excl="", facts=None):
        m.name, m.n, m._at, m.excl = name, n, at, set(excl)
        m.facts = facts or {}
    def at(m, i):
        if m._at is None: raise Unsupported("content of ghost text")
        return m._at(i)

class Blob:
    def __init__(m, src, off, n): m.src, m.off, m.n = src, off, n
    def at(m, i): return m.src.at(m.off + i)
    def cut(m, a, b): return Blob(m.src, m.off + a, b - a)
    def excludes(m, ch): return ch in m.src.excl
    def same(m, o): return isinstance(o, Blob) and o.src is m.src and bool(and_(o.off == m.off, o.n == m.n))
class Rep:
    def __init__(m, ch, n): m.ch, m.n = ch, n
    def at(m, i): return ord(m.ch)
    def cut(m, a, b): return Rep(m.ch, b - a)
    def excludes(m, ch): return ch != m.ch
    def same(m, o): return isinstance(o, Rep) and o.ch == m.ch and bool(o.n == m.n)
class Lit:
    def __init__(m, cs): m.cs = list(cs); m.n = len(m.cs)
    def at(m, i): return m.cs[i] if isinstance(i, int) else sym_at(m.cs, i)
    def cut(m, a, b):
        return Lit(m.cs[sym.concretize(a):sym.concretize(b)])
    def same(m, o): return isinstance(o, Lit) and m.n == o.n and bool(and_(*[a == b for a, b in zip(m.cs, o.cs)]))
def sym_at(cs, i):
    from .hooks import table_get
    return table_get(cs, i) if isinstance(i, SymInt) else cs[i]

def eq(a, b):
    """a == b as a python bool (forks)"""
    return bool(a == b)

class Rope:
    __pv_sym__ = True
    def __init__(m, parts):
        out = []
        for p in parts:
            if isinstance(p, Src): p = Blob(p, 0, p.n)
            if isinstance(p, (str, SymStr)): p = Lit(as_symstr(p).cs)
            if isinstance(p.n, int) and p.n <= 0: continue
            if out and isinstance(p, Lit) and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].cs + p.cs)
            elif out and isinstance(p, Rep) and isinstance(out[-1], Rep) and out[-1].ch == p.ch: out[-1] = Rep(p.ch, out[-1].n + p.n)
            else: out.append(p)
        m.parts = out
        m.find_facts = []   # callables (rope, pattern, start) -> position or None
    @staticmethod
    def of(x):
        if isinstance(x, Rope): return x
        if isinstance(x, (str, SymStr)): return Rope([x])
        raise Unsupported(f"rope with {type(x).__name__}")
    def pv_len(m):
        n = 0
        for p in m.parts: n = n + p.n
        return n
    def __len__(m): raise Unsupported("native len of ghost string")
    def __bool__(m): return bool(m.pv_len() > 0)
    def pv_str(m): return m
    def __add__(m, o): return m.like(Rope(m.parts + Rope.of(o).parts))
    def __radd__(m, o): return m.like(Rope(Rope.of(o).parts + m.parts))
    def like(m, r): r.find_facts = m.find_facts; return r
    def plain(m):
        """the native string if every part is literal"""
        if not m.parts: return ""
        if len(m.parts) == 1 and isinstance(m.parts[0], Lit): return mkstr(m.parts[0].cs)
        return None
    def norm(m):
        p = m.plain()
        return m if p is None else p
    def locate(m, i):
        """(part number, offset) of position i; forks"""
        o = 0
        for k, p in enumerate(m.parts):
            if bool(i < o + p.n): return k, i - o
            o = o + p.n
        return len(m.parts), 0
    def split(m, i):
        """parts before and after position i (0 <= i <= len)"""
        if isinstance(i, int) and i == 0: return [], list(m.parts)
        o = 0
        for k, p in enumerate(m.parts):
            if eq(i, o): return m.parts[:k], m.parts[k:]
            if bool(i < o + p.n): return m.parts[:k] + [p.cut(0, i - o)], [p.cut(i - o, p.n)] + m.parts[k + 1:]
            o = o + p.n
        return list(m.parts), []
    def __getitem__(m, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported("rope step")
            n = m.pv_len()
            def bound(v, d):
                if v is None: return d
                if bool(v < 0): v = v + n
                if bool(v < 0): v = 0
                elif bool(v > n): v = n
                return v
            a, b = bound(i.start, 0), bound(i.stop, n)
            if bool(a >= b): return ""
            if i.start is None: r = m.split(b)[0]
            elif i.stop is None: r = m.split(a)[1]
            else: r = Rope(m.split(b)[0]).split(a)[1]
            return m.like(Rope(r)).norm()
        n = m.pv_len()
        if bool(i < 0): i = i + n
        if not bool(and_(i >= 0, i < n)): raise IndexError("string index out of range")
        k, o = m.locate(i)
        return mkstr([m.parts[k].at(o)])
    def startswith(m, s, at=0):
        s = as_symstr(s)
        if s is None: raise Unsupported("startswith")
        if len(s.cs) == 1 and m.parts and isinstance(m.parts[0], Blob) and at == 0 and isinstance(s, SymStr):
            pass
        n = m.pv_len()
        if not bool(n - at >= len(s.cs)): return False
        return bool(and_(*[as_symstr(m[at + k]).cs[0] == c for k, c in enumerate(s.cs)]))
    def endswith(m, s):
        s = as_symstr(s); n = m.pv_len()
        if not bool(n >= len(s.cs)): return False
        return m.startswith(s, n - len(s.cs))
    def find(m, pat, start=0, end=None):
        if end is not None: raise Unsupported("rope find end")
        for f in m.find_facts:
            r = f(m, pat, start)
            if r is not None: return r
        if isinstance(pat, Rope): raise Unsupported("rope find")
        if not (isinstance(pat, str) and len(pat) == 1): raise Unsupported("rope find")
        before, after = m.split(start)
        o = start
        for p in after:
            if isinstance(p, Lit):
                for c in p.cs:
                    if bool(c == ord(pat)): return o
                    o = o + 1
            elif p.excludes(pat): o = o + p.n
            else: raise Unsupported(f"find {pat!r} in ghost text")
        return -1
    def pv_resub(m, pattern, repl):
        # trusted: normalising line breaks leaves text without returns as it is
        if isinstance(pattern, str) and repl == "\n" and set(pattern.replace("\\n", "").replace("\\r", "")) <= set("?|") and "\\r" in pattern \
                and not any(p in ("", "\\n\\n") for p in pattern.replace("?", "").split("|")) and all(isinstance(p, Lit) and 13 not in p.cs or not isinstance(p, Lit) and p.excludes("\r") for p in m.parts): return m
        raise Unsupported("re.sub on ghost text")
    def index(m, pat, start=0):
        r = m.find(pat, start)
        if bool(r < 0): raise ValueError("substring not found")
        return r
    def __contains__(m, pat): return bool(m.find(pat) >= 0)
    def same(m, o):
        """equality, decided structurally (forks on part boundaries); False only means 'not shown equal'"""
        a, b = list(m.parts), list(Rope.of(o).parts)
        while True:
            while a and eq(a[0].n, 0): a.pop(0)
            while b and eq(b[0].n, 0): b.pop(0)
            if not a or not b: return not a and not b
            p, q = a[0], b[0]
            if type(p) is not type(q): return False
            if eq(p.n, q.n):
                if not p.same(q): return False
                a.pop(0); b.pop(0)
            elif bool(p.n < q.n):
                if not p.same(q.cut(0, p.n)): return False
                b[0] = q.cut(p.n, q.n); a.pop(0)
            else:
                if not q.same(p.cut(0, q.n)): return False
                a[0] = p.cut(q.n, p.n); b.pop(0)
    def __eq__(m, o):
        if not isinstance(o, (str, SymStr, Rope)): return False
        r = m.same(o)
        if r: return True
        n = m.pv_len() == Rope.of(o).pv_len()
        if not bool(n): return False
        raise Unsupported("equality of ghost strings")
    def __ne__(m, o): return not m.__eq__(o)
    def __hash__(m): raise Unsupported("hash of ghost string")
    def __iter__(m): raise Unsupported("iteration over ghost string")
    def __str__(m): raise Unsupported("native str of ghost string")
    def __format__(m, s): raise Unsupported("native format of ghost string")
    def __repr__(m): return "<Rope " + " ".join(f"{type(p).__name__}:{p.n}" for p in m.parts) + ">"

class Acc:
    """contract object for a list that is only appended to and finally joined: 'before' is what it held at the loop head"""
    __pv_sym__ = True
    def __init__(m, before): m.before = before; m.added = []
    def append(m, x): m.added.append(x)
    def extend(m, xs):
        for x in xs: m.added.append(x)
    def __iadd__(m, xs): m.extend(xs); return m
    def text(m):
        r = Rope([])
        for x in m.added: r = r + x
        return r
    def pv_join(m, sep):
        if len(sep): raise Unsupported("join with separator")
        return Rope(m.before.parts + m.text().parts)
    def pv_len(m): raise Unsupported("len of accumulator")
    def __iter__(m): raise Unsupported("accumulator iterated")
