"""pyver.hooks - call/index/format hooks and models of the Python builtins on symbolic values"""
import builtins, types, struct, io, sys, collections, operator, functools
import z3
from . import sym
from .sym import *
from . import load

def has_sym(x, depth=0):
    if hasattr(type(x), "__pv_sym__") or isinstance(x, SymBool): return True
    if depth < 2 and isinstance(x, (list, tuple)): return any(has_sym(y, depth + 1) for y in x)
    return False

# ---------------------------------------------------------------- builtin models
def m_len(x):
    if isinstance(x, SymArr): return x.length
    if hasattr(x, "pv_len"): return x.pv_len()
    return len(x)
class SymRange:
    __pv_sym__ = True
    def __init__(m, a, b, s): m.a, m.b, m.s = a, b, s
    def __iter__(m):
        i = m.a; n = 0
        s = concretize(m.s)
        while (i < m.b) if s > 0 else (i > m.b):
            yield i
            i = i + s; n += 1
            if n > 600: raise Unsupported("symbolic range unrolled too far")
    def pv_len(m):
        return ite(m.b > m.a, (m.b - m.a + m.s - 1) // m.s, 0)
    def __contains__(m, x): return bool(and_(x >= m.a, x < m.b, (x - m.a) % m.s == 0))
    def __getitem__(m, i): return m.a + i * m.s
def m_range(*a):
    if len(a) == 1: return SymRange(0, a[0], 1)
    return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
def m_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for k in ts:
        if isinstance(x, SymInt) and k in (int, object): return True
        if isinstance(x, SymBool) and k in (bool, int, object): return True
        if isinstance(x, SymStr) and k in (str, object): return True
        if hasattr(type(x), "pv_str") and k in (str, object): return True
        if hasattr(type(x), "pv_isa") and k in type(x).pv_isa: return True
        if isinstance(x, SymByteArray): 
            if k in (bytearray, object): return True
        elif isinstance(x, SymBytes) and k in (bytes, object): return True
        if isinstance(x, SymArr) and k is {"str": str, "bytes": bytes, "list": list, "charlist": list, "bytearray": bytearray}[x.kind]: return True
        if isinstance(k, tuple) and m_isinstance(x, k): return True
        if isinstance(k, type) and not hasattr(type(x), "__pv_sym__") and not isinstance(x, SymBool) and isinstance(x, k): return True
    return False
def m_type(x, *a):
    if hasattr(type(x), "pv_str"): return str
    if isinstance(x, SymInt): return int
    if isinstance(x, SymBool): return bool
    if isinstance(x, SymStr): return str
    if isinstance(x, SymByteArray): return bytearray
    if isinstance(x, SymBytes): return bytes
    return type(x)
def m_int(x=0, base=None):
    if isinstance(x, SymInt): return x
    if isinstance(x, sym.SymReal): return x.trunc()
    if isinstance(x, SymBool): return x.i()
    if isinstance(x, (SymStr, SymBytes)): return parse_int(x, 10 if base is None else base)
    if base is None: return int(x)
    return int(x, base)
def digit_val(c, base):
    """value of digit c; None-able via fork"""
    if isinstance(c, SymInt) and c.dig is not None and lohi(c.dig[0])[1] < base: return c.dig[0]
    if and_(c >= 48, c <= 57): v = c - 48
    elif and_(c >= 97, c <= 122): v = c - 87
    elif and_(c >= 65, c <= 90): v = c - 55
    else: return None
    if isinstance(v, SymInt) or isinstance(v, int):
        if v < base: return v
    return None
def parse_int(s, base):
    cs = list(s.cs)
    if base not in (2, 8, 10, 16): raise Unsupported("int base")
    def bad(): raise ValueError("invalid literal for int()")
    neg = False
    def ws(c): return uni_pred(c, "isspace")
    while cs and ws(cs[0]): cs.pop(0)
    while cs and ws(cs[-1]): cs.pop()
    if cs and cs[0] == 45: neg = True; cs.pop(0)
    elif cs and cs[0] == 43: cs.pop(0)
    pfx = {16: 120, 2: 98, 8: 111}.get(base)
    if pfx and len(cs) > 2 and cs[0] == 48 and or_(cs[1] == pfx, cs[1] == pfx - 32): cs = cs[2:]
    if not cs: bad()
    v = 0; last_us = True
    for c in cs:
        if c == 95:
            if last_us: bad()
            last_us = True; continue
        d = digit_val(c, base)
        if d is None:
            if isinstance(c, SymInt) and c.hi > 127 and bool(c > 127): raise Unsupported("unicode digit")
            bad()
        v = v * base + d; last_us = False
    if last_us: bad()
    return -v if neg else v

def to_digits(v, base, minw=0, upper=False):
    """list of code points of non-negative v; forks over the digit count"""
    if not isinstance(v, SymInt):
        d = ""
        x = v
        while True:
            d = "0123456789abcdefghijklmnopqrstuvwxyz"[x % base] + d; x //= base
            if x == 0: break
        d = d.rjust(minw, "0")
        return [ord(c) for c in (d.upper() if upper else d)]
    n = max(1, minw); p = base ** n
    while p <= v.hi and bool(v >= p): n += 1; p *= base
    out = []
    x = v
    x = mkint(x.t, x.lo, min(x.hi, p - 1)) if isinstance(x, SymInt) else x
    for i in range(max(n, minw)):
        d = x % base
        x = x // base
        c = ite(d < 10, d + 48, d + (55 if upper else 87)) if base > 10 else d + 48
        if isinstance(c, SymInt): c.dig = (d, upper)        # reading this digit gives d (digit_val), whatever the base it is read in
        out.append(c)
    return out[::-1]
def m_str(x="", *a):
    if isinstance(x, SymStr): return x
    if hasattr(type(x), "pv_str"): return x.pv_str()
    if isinstance(x, SymInt): return fmt_int(x, "d", 0, "")
    if isinstance(x, SymBool): return "True" if x else "False"
    if isinstance(x, SymBytes) and a: return x.decode(*a)
    return str(x, *a)
def fmt_int(v, conv, width_, flags):
    neg = isinstance(v, SymInt) and v.lo < 0 and bool(v < 0) or isinstance(v, int) and v < 0
    a = -v if neg else v
    base = {"d": 10, "i": 10, "u": 10, "x": 16, "X": 16, "o": 8, "b": 2}[conv]
    cs = to_digits(a, base, upper=conv == "X", minw=width_ if "0" in flags and not neg and "+" not in flags and "#" not in flags else 0)
    pre = [45] if neg else ([43] if "+" in flags else [])
    if "#" in flags and base in (16, 2): pre += [48, ord(conv)]
    if width_ and len(cs) + len(pre) < width_:
        pad = width_ - len(cs) - len(pre)
        if "0" in flags: cs = pre + [48] * pad + cs
        elif "-" in flags or "<" in flags: cs = pre + cs + [32] * pad
        else: cs = [32] * pad + pre + cs
    else: cs = pre + cs
    return mkstr(cs)
import re as _re
_pct = _re.compile(r"%([-+ #0]*)(\d*|\*)(?:\.(\d+))?([a-zA-Z%])")
def m_mod(a, b):
    if isinstance(a, str) and has_sym(b):
        args = list(b) if isinstance(b, tuple) else [b]
        out = ""; pos = 0
        for mt in _pct.finditer(a):
            out = out + a[pos:mt.start()]; pos = mt.end()
            flags, w, prec, conv = mt.groups()
            if conv == "%": out = out + "%"; continue
            v = args.pop(0)
            if conv == "s": 
                if w or prec: raise Unsupported("%ns")
                out = out + m_str(v)
            elif conv in "dixXuo":
                if prec: raise Unsupported("%.nd")
                if not isint(v): out = out + (mt.group(0) % v)
                else: out = out + fmt_int(v, conv, int(w or 0), flags)
            elif conv == "f" and isinstance(v, sym.SymReal) and not flags and not w: out = out + fmt_fixed(v, int(prec or 6))
            else: raise Unsupported(f"format %{conv}")
        return out + a[pos:]
    return a % b
FIXED_HOOK = []     # a unit may give '%.nf' a ghost string
def fmt_fixed(v, prec):
    for h in FIXED_HOOK: return h(v, prec)
    q = v.fixed(prec)
    return mkstr(to_digits(q // 10 ** prec, 10) + [46] + to_digits(q % 10 ** prec, 10, minw=prec)[-prec:])
def fmt_value(v, spec):
    if hasattr(type(v), "pv_str"):
        if spec: raise Unsupported("format spec")
        return v.pv_str()
    if isinstance(v, (SymStr,)):
        if spec: raise Unsupported("string format spec")
        return v
    if isinstance(v, SymBool): raise Unsupported("format bool")
    if isinstance(v, SymInt):
        if isinstance(spec, SymStr): raise Unsupported("symbolic spec")
        mt = _re.fullmatch(r"([<>]?)(\+?)(#?)(0?)(\d*)([dxXob]?)", spec)
        if not mt: raise Unsupported(f"format spec {spec}")
        al, pl, sh, z, w, c = mt.groups()
        return fmt_int(v, c or "d", int(w or 0), al + pl + sh + z)
    return format(v, spec)
def m_fstr(*parts):
    out = ""
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114:
                if has_sym(v): raise Unsupported("repr of symbolic")
                v = repr(v)
            elif conv == 115: v = m_str(v)
            out = out + fmt_value(v, spec)
        else: out = out + p
    return out
def m_chr(x):
    if isinstance(x, SymInt):
        if x.lo < 0 or x.hi > 0x10ffff:
            if not and_(x >= 0, x <= 0x10ffff): raise ValueError("chr() arg not in range")
        return SymStr([x])
    return chr(x)
def m_ord(x):
    if isinstance(x, (SymStr, SymBytes)):
        if len(x.cs) != 1: raise TypeError("ord() expected a character")
        return x.cs[0]
    return ord(x)
def m_min(*a, **k):
    if k: raise Unsupported("min with key")
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for x in xs[1:]: r = ite(x < r, x, r)
    return r
def m_max(*a, **k):
    if k: raise Unsupported("max with key")
    xs = list(a[0]) if len(a) == 1 else list(a)
    r = xs[0]
    for x in xs[1:]: r = ite(x > r, x, r)
    return r
def m_abs(x): return abs(x)
def m_bool(x=False):
    if isinstance(x, SymInt): return bool(x != 0)
    return bool(x)
def m_bytes(x=b"", *a):
    if isinstance(x, SymBytes): return SymBytes(x.cs)
    if isinstance(x, SymStr): return x.encode(*a)
    if isinstance(x, (list, tuple)):
        for v in x:
            if isinstance(v, SymInt) and not (v.lo >= 0 and v.hi <= 255):
                if not and_(v >= 0, v <= 255): raise ValueError("bytes must be in range(0, 256)")
        return mkbytes(list(x))
    if isinstance(x, (SymInt,)): return bytes(concretize(x))
    if isinstance(x, SymArr): return SymArr(x.arr, x.length, x.lo, x.hi, x.off, "bytes")
    return bytes(x, *a)
def m_bytearray(x=b"", *a):
    if isinstance(x, SymInt): return SymByteArray([0] * concretize(x))
    if isinstance(x, (SymBytes, list)): return SymByteArray(m_bytes(x).cs if hasattr(m_bytes(x), "cs") else list(m_bytes(x)))
    if isinstance(x, SymArr): return SymArr(x.arr, x.length, x.lo, x.hi, x.off, "bytearray")
    return bytearray(x, *a)
def m_bytearray2(x=b"", *a):
    if isinstance(x, (SymBytes, SymArr, SymInt, list)): return m_bytearray(x, *a)
    return SymByteArray(list(bytearray(x, *a)))
def m_list(x=()): return list(x)
def m_tuple(x=()): return tuple(x)
def m_sum(xs, start=0):
    for x in xs: start = start + x
    return start
def m_all(xs):
    for x in xs:
        if not x: return False
    return True
def m_any(xs):
    for x in xs:
        if x: return True
    return False
def m_divmod(a, b): return a // b, a % b
def m_hex(x):
    neg = bool(x < 0); s = mkstr([48, 120] + to_digits(-x if neg else x, 16))
    return "-" + s if neg else s
def m_bin(x):
    neg = bool(x < 0); s = mkstr([48, 98] + to_digits(-x if neg else x, 2))
    return "-" + s if neg else s
def m_round(x, *a):
    if isinstance(x, SymInt) and not a: return x
    raise Unsupported("round")
def m_format(x, spec=""): return fmt_value(x, spec)
def m_float(x): raise Unsupported("float()")
def m_enumerate(x, start=0):
    def g():
        i = start
        for v in x:
            yield i, v
            i = i + 1
    return g()
def m_id(x): return x
def m_sorted(x, **k):
    if k: raise Unsupported("sorted key")
    raise Unsupported("sorted symbolic")
def m_pow(a, b, c=None): return a ** b if c is None else (_ for _ in ()).throw(Unsupported("pow3"))
def m_memoryview(x): return x

MODELS = {len: m_len, range: m_range, isinstance: m_isinstance, type: m_type, int: m_int, str: m_str, chr: m_chr, ord: m_ord,
          min: m_min, max: m_max, abs: m_abs, bool: m_bool, bytes: m_bytes, bytearray: m_bytearray, list: m_list, tuple: m_tuple,
          sum: m_sum, all: m_all, any: m_any, divmod: m_divmod, hex: m_hex, bin: m_bin, round: m_round, format: m_format,
          float: m_float, enumerate: m_enumerate, sorted: m_sorted, pow: m_pow, memoryview: m_memoryview,
          operator.index: lambda x: x}
MODELS_ID = {id(k): v for k, v in MODELS.items()}
NATIVE_OK = {id(x) for x in (zip, reversed, iter, next, print, getattr, setattr, hasattr, id, callable, map, filter, repr, object)}

class SymBytesIO:
    """model of io.BytesIO holding possibly symbolic bytes"""
    def __init__(m, data=b""):
        m.buf = list(as_symbytes(data).cs); m.p = 0; m.closed = False
    def read(m, n=-1):
        if n is None or (isinstance(n, int) and n < 0): n = len(m.buf)
        n = concretize(n)
        r = m.buf[m.p:m.p + n]; m.p = min(m.p + n, max(len(m.buf), m.p))
        return mkbytes(r)
    def readinto(m, b):
        r = m.buf[m.p:m.p + len(b)]; b[:len(r)] = SymBytes(r); m.p += len(r); return len(r)
    def write(m, d):
        d = as_symbytes(d) if not isinstance(d, SymByteArray) else d
        if m.p > len(m.buf): m.buf += [0] * (m.p - len(m.buf))
        m.buf[m.p:m.p + len(d.cs)] = d.cs; m.p += len(d.cs)
        return len(d.cs)
    def tell(m): return m.p
    def seek(m, p, wh=0):
        p = concretize(p)
        m.p = p if wh == 0 else m.p + p if wh == 1 else len(m.buf) + p
        return m.p
    def getvalue(m): return mkbytes(m.buf)
    def getbuffer(m): return mkbytes(m.buf)
    def truncate(m, n=None): del m.buf[m.p if n is None else n:]
    def flush(m): pass
    def close(m): pass
    def seekable(m): return True
    def readable(m): return True
    def writable(m): return True
    def __enter__(m): return m
    def __exit__(m, *_): pass

def struct_fmt(fmt):
    f = fmt.decode() if isinstance(fmt, bytes) else fmt
    end = "little"
    if f[:1] in "<>!=@":
        end = "big" if f[0] in ">!" else "little"; f = f[1:]
    items = []
    for n, c in _re.findall(r"(\d*)([a-zA-Z?])", f): items += [c] * (int(n) if n else 1)
    return end, items
SZ = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8}
def struct_pack(fmt, *vals):
    end, items = struct_fmt(fmt); out = []
    for c, v in zip(items, vals, strict=True):
        if c not in SZ: raise Unsupported(f"struct {c}")
        n = SZ[c]
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if c.islower() else (0, (1 << (8 * n)) - 1)
        if not isint(v): raise struct.error("required argument is not an integer")
        if not and_(v >= lo, v <= hi): raise struct.error("argument out of range")
        bs = [(v >> (8 * i)) & 0xff for i in range(n)]
        out += bs if end == "little" else bs[::-1]
    return mkbytes(out)
def struct_unpack(fmt, data, off=0):
    end, items = struct_fmt(fmt); out = []
    data = as_symbytes(data).cs if not isinstance(data, SymArr) else data
    p = off
    for c in items:
        if c not in SZ: raise Unsupported(f"struct {c}")
        n = SZ[c]
        bs = [data[p + k] if isinstance(data, list) else data.raw(p + k) for k in range(n)]
        if end == "big": bs = bs[::-1]
        v = 0
        for k, b in enumerate(bs): v = v | (b << (8 * k))
        if c.islower(): v = ite(v >= (1 << (8 * n - 1)), v - (1 << (8 * n)), v)
        out.append(v); p = p + n
    return tuple(out)

def m_str_method(s, name, args, kw):
    return getattr(as_symstr(s) if isinstance(s, str) else s, name)(*args, **kw)

def m_dict_get(d, name, args):
    key = args[0]; dflt = args[1] if len(args) > 1 else None
    r = dict_lookup(d, key)
    return dflt if r is _MISS else r
_MISS = object()
def dict_lookup(d, key):
    """lookup with a symbolic key in a concrete dict: forks once per distinct outcome (hit as ite-table, or miss)"""
    if isinstance(key, SymStr):
        cand = [(k, v) for k, v in d.items() if isinstance(k, str) and len(k) == len(key.cs)]
        cand = [(k, v, key == k) for k, v in cand]
    elif isinstance(key, (SymInt, SymBool)):
        cand = [(k, v, key == k) for k, v in d.items() if isinstance(k, int)]
    elif isinstance(key, (SymBytes,)):
        cand = [(k, v, key == k) for k, v in d.items() if isinstance(k, bytes)]
    elif isinstance(key, tuple) and has_sym(key):
        cand = [(k, v, and_(*[a == b for a, b in zip(key, k)])) for k, v in d.items() if isinstance(k, tuple) and len(k) == len(key)]
    else: raise Unsupported("dict key")
    cand = [(k, v, c) for k, v, c in cand if c is not False]
    if not cand: return _MISS
    hit = or_(*[c for _, _, c in cand])
    if not bool(hit): return _MISS
    vals = [v for _, v, _ in cand]
    if all(isint(v) for v in vals) or all(isinstance(v, (str, SymStr)) and len(v) == len(vals[0]) for v in vals):
        r = vals[-1]
        for _, v, c in cand[-2::-1]: r = ite(c, v, r)
        return r
    for i, (k, v, c) in enumerate(cand):
        if i == len(cand) - 1 or bool(c): return v

def pv_get(a, i):
    if isinstance(i, slice):
        if any(isinstance(x, SymInt) for x in (i.start, i.stop, i.step)) and isinstance(a, (list, tuple, str, bytes, bytearray)):
            r, _ = slice_of(a, i)
            return r
        return a[i]
    if isinstance(i, (SymInt, SymBool)):
        if isinstance(i, SymBool): i = i.i()
        if isinstance(a, (list, tuple)):
            return table_get(list(a), i)
        if isinstance(a, str): return as_symstr(a)[i]
        if isinstance(a, (bytes, bytearray)): return as_symbytes(a)[i]
        if isinstance(a, dict): return dict_item(a, i)
    elif isinstance(i, (SymStr, SymBytes)) or (isinstance(i, tuple) and has_sym(i)):
        if isinstance(a, dict): return dict_item(a, i)
    return a[i]
def dict_item(d, k):
    r = dict_lookup(d, k)
    if r is _MISS:
        if hasattr(type(d), "__missing__"): raise Unsupported("__missing__ with symbolic key")
        raise KeyError(k)
    return r
def table_get(items, i):
    n = len(items)
    if i.lo < 0:
        if i < 0: i = i + n
    if not and_(i >= 0, i < n): raise IndexError("list index out of range")
    if not isinstance(i, SymInt): return items[i]
    lo, hi = max(i.lo, 0), min(i.hi, n - 1)
    vals = items[lo:hi + 1]
    if all(isint(v) for v in vals) or all(isinstance(v, (str, SymStr)) and len(v) == len(vals[0]) for v in vals):
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1): r = ite(i == lo + k, vals[k], r)
        return r
    return items[concretize(i)]
def pv_in(x, c):
    if not has_sym(x) and not has_sym(c) and not isinstance(c, SymSeqBase): return x in c
    if isinstance(c, dict):
        if not has_sym(x): return x in c
        return dict_lookup(c, x) is not _MISS
    if isinstance(c, (set, frozenset)):
        return bool(or_(*[x == k for k in c]))
    if isinstance(c, (list, tuple)): return bool(or_(*[as_z3bool(x == k) for k in c]))
    if isinstance(c, range): 
        if c.step == 1: return bool(and_(x >= c.start, x < c.stop))
        return bool(or_(*[x == k for k in c]))
    if isinstance(c, str):
        if isinstance(x, SymStr) and len(x.cs) == 1: return bool(or_(*[x.cs[0] == ord(k) for k in c]))
        return as_symstr(c).__contains__(x)
    if isinstance(c, (bytes, bytearray)): return as_symbytes(c).__contains__(x)
    return x in c
def pv_notin(x, c): return not pv_in(x, c)
def pv_gen(it, f):
    """a generator expression over 'it'; a ghost sequence (of unknown length) maps it at an arbitrary element (trusted rule: a
       generator expression without filter applies its element expression to every element in order)"""
    if hasattr(type(it), "pv_map"): return it.pv_map(f)
    return f(it)
class GhostSeq:
    """a sequence of unknown length, seen at one arbitrary element"""
    __pv_sym__ = True
    def __init__(m, elem, kind): m.elem, m.kind = elem, kind
    def pv_map(m, f):
        r = list(f([m.elem]))
        if len(r) != 1: raise Unsupported("generator")
        return GhostSeq(r[0], "gen")
    def pv_join(m, sep):
        if len(sep): raise Unsupported("join ghost")
        return GhostSeq(m.elem, type(sep).__name__)
    def pv_bytes(m): return GhostSeq(m_bytes([m.elem])[0] if has_sym(m.elem) else bytes([m.elem])[0], "bytes")
def pv_slice(a, b, c): return slice(a, b, c)
def pv_mod(a, b): return m_mod(a, b)

CONTRACT_OFF = set()
EXECUTED = set()
REPO_PREFIX = load.REPO + '/'
BT = (types.BuiltinFunctionType, types.MethodType, types.MethodWrapperType)
def pv_call(f, /, *args, **kw):
    # user-level contracts
    code = getattr(getattr(f, "__func__", f), "__code__", None)
    if code is not None:
        if CONTRACTS_BY_CODE:
            c = CONTRACTS_BY_CODE.get((code.co_filename, code.co_qualname.replace(".<locals>", "")))
            if c is not None and c.name not in CONTRACT_OFF:
                sym.ENG.used_contracts.add(c.name)
                if isinstance(f, types.MethodType): args = (f.__self__,) + args
                return c(f, *args, **kw)
    if f is bytes and len(args) == 1 and hasattr(type(args[0]), "pv_bytes"): return args[0].pv_bytes()
    if f is bytearray and sym.ENG is not None: return m_bytearray2(*args)
    mdl = MODELS_ID.get(id(f))
    if mdl is not None:
        if any(has_sym(a) for a in args) or (f is range and any(isinstance(a, SymInt) for a in args)):
            return mdl(*args, **kw)
        if f in (sum, min, max, all, any, bytes, bytearray, tuple, list) and args and not isinstance(args[0], (int, str, bytes)):
            # iterables that may yield symbolic values
            if not isinstance(args[0], (list, tuple, dict, set, frozenset, range)) :
                if hasattr(args[0], "__iter__") and not kw:
                    xs = list(args[0])
                    if any(has_sym(x) for x in xs): return mdl(xs, *args[1:])
                    return f(xs, *args[1:])
        return f(*args, **kw)
    if f is io.BytesIO:
        if sym.ENG is not None: return SymBytesIO(*args)
        return f(*args)
    s = getattr(f, "__self__", None)
    if s is not None and isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType)):
        if f.__name__ == "join" and isinstance(s, (str, bytes)) and args and hasattr(type(args[0]), "pv_join"): return args[0].pv_join(s)
        if isinstance(s, str) and any(has_sym(a) for a in args) or (isinstance(s, str) and f.__name__ == "join"):
            if f.__name__ == "join":
                if isinstance(args[0], SymArr) and args[0].kind == "charlist" and s == "":
                    a = args[0]
                    return SymArr(a.arr, a.length, a.lo, a.hi, a.off, "str")
                parts = list(args[0])
                if s == "" and any(hasattr(type(p), "pv_str") for p in parts):
                    r = parts[0]
                    for p in parts[1:]: r = r + p
                    return r
                if any(has_sym(p) for p in parts): return as_symstr(s).join(parts)
                return s.join(parts)
            if f.__name__ == "format": raise Unsupported("str.format")
            return m_str_method(s, f.__name__, args, kw)
        if isinstance(s, (bytes, bytearray)) and any(has_sym(a) for a in args) or (isinstance(s, bytes) and f.__name__ == "join"):
            if f.__name__ == "join":
                parts = list(args[0])
                if any(has_sym(p) for p in parts): return as_symbytes(s).join(parts)
                return s.join(parts)
            if isinstance(s, bytearray): raise Unsupported("native bytearray with symbolic data")
            return getattr(as_symbytes(s), f.__name__)(*args, **kw)
        if isinstance(s, dict) and args and has_sym(args[0]):
            if f.__name__ == "get": return m_dict_get(s, "get", args)
            raise Unsupported(f"dict.{f.__name__} with symbolic key")
        if isinstance(s, (set, frozenset)) and args and has_sym(args[0]): raise Unsupported("set op with symbolic element")
        if isinstance(s, struct.Struct) and f.__name__ == "pack_into" and any(has_sym(a) for a in args):
            buf, off = args[:2]
            data = as_symbytes(struct_pack(s.format, *args[2:])).cs
            n = buf.length if isinstance(buf, SymArr) else len(buf)
            if off < 0: off = n + off
            if not bool(and_(off >= 0, off + len(data) <= n)): raise struct.error("pack_into requires a larger buffer")
            for j, c in enumerate(data): buf[off + j] = c
            return None
        if isinstance(s, struct.Struct) and f.__name__ in ("pack", "unpack", "unpack_from"):
            if any(has_sym(a) for a in args):
                if f.__name__ == "unpack_from":
                    buf = args[0]; off = args[1] if len(args) > 1 else 0
                    n = buf.length if isinstance(buf, SymArr) else len(buf)
                    if off < 0: off = n + off
                    if not bool(and_(off >= 0, off + s.size <= n)): raise struct.error("unpack_from requires a larger buffer")
                    return struct_unpack(s.format, buf, off)
                if f.__name__ == "pack": return struct_pack(s.format, *args)
                if f.__name__ == "unpack":
                    if len(args[0]) != s.size: raise struct.error("unpack requires a buffer of other size")
                return struct_unpack(s.format, *args)
        if f.__name__ == "from_bytes" and s is int and has_sym(args[0]):
            order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
            v = 0
            bs = as_symbytes(args[0]).cs if not isinstance(args[0], list) else args[0]
            for b in (bs if order == "big" else bs[::-1]): v = (v << 8) | b
            if kw.get("signed"):
                n = len(bs) * 8
                v = ite(v >= (1 << (n - 1)), v - (1 << n), v) if n else 0
            return v
    if f is struct.pack and any(has_sym(a) for a in args[1:]): return struct_pack(*args)
    if f is struct.unpack and has_sym(args[1]): return struct_unpack(*args)
    if getattr(f, "__module__", None) == "re" and f.__name__ == "sub" and len(args) >= 3 and hasattr(type(args[2]), "pv_resub"): return args[2].pv_resub(*args[:2])
    mc = MODELS_CALL.get(id(f))
    if mc is not None: return mc(*args, **kw)
    return f(*args, **kw)
MODELS_CALL = {}
CONTRACTS_BY_CODE = {}   # (filename, qualname) -> contract callable with .name

INNER = {}     # qualname -> last created closure
def pv_def(q):
    def deco(f):
        INNER[q] = f
        return f
    return deco

class Unbound:
    def __getattr__(m, n): raise Unsupported("variable not given by the loop contract")
UNBOUND = Unbound()

class LoopRun:
    def __init__(m, key, it):
        m.key = key; m.it = it
        m.c = load.LOOPS[key]; m.mem = {}
        m.state = m.c.start(it) if hasattr(m.c, "start") else None
    def enter(m, env, names):
        env = {k: v for k, v in env.items() if not k.startswith("pv__")}
        r = m.c.enter(m, env, names)
        out = []
        for n in names:
            if n in r: out.append(r[n])
            elif n in env and n in getattr(m.c, "keep", ()): out.append(env[n])
            else: out.append(UNBOUND)
        return tuple(out)
    def more(m): return bool(m.c.more(m))
    def next(m): return m.c.next(m)
    def end(m, env):
        m.c.end(m, {k: v for k, v in env.items() if not k.startswith("pv__")})
        sym.ENG.cut_paths += 1
        raise PathEnd()
def pv_loop(mod, q, n, it): return LoopRun((mod, q, n), it)

def pv_active(mod, q, n): return sym.ENG is not None and getattr(load.LOOPS[(mod, q, n)], "active", True)

NAMES = {"pv__active": pv_active, "pv__call": pv_call, "pv__in": pv_in, "pv__notin": pv_notin, "pv__get": pv_get, "pv__mod": pv_mod,
         "pv__fstr": m_fstr, "pv__slice": pv_slice, "pv__def": pv_def, "pv__loop": pv_loop, "pv__gen": pv_gen}
