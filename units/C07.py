"""C07 contracts: the operator functions of the constant folder against PICO-8's 16.16 arithmetic.

Postcondition of every operator: the result is either None ("not folded") or the LuaFixnum / LuaBoolean whose raw
value equals the specification function below, for all 2^32 (x 2^32) operands.  The operators are reached through
the folder's own tables (k_const_binary_ops, ...), so the table entries are part of what is verified.
"""
from pyver.unit import unit
M32 = 0xffffffff

def mods():
    import pico_process, pico_constfold
    from pico_defs import Language
    return pico_constfold, Language

def fix(ctx, C, name):
    v = ctx.int(name, 0, M32)
    x = C.LuaFixnum(v)
    return v, ctx.signed(v), x

def sgn_ok(ctx, r): return ctx.and_(r >= -0x80000000, r <= 0x7fffffff)

def post(ctx, C, r, spec, kind="fixnum", folded_if=None, name="result"):
    """r: returned LuaValue or None.  spec: raw result, or None where folding is not allowed"""
    if r is None:
        return
    if spec is None:
        ctx.prove(f"{name}: must not be folded", False)
        return
    if kind == "fixnum":
        ctx.prove(f"{name}: is a fixnum", r.type == C.LuaType.fixnum)
        ctx.prove(f"{name}: is representable (0 <= raw < 2^32)", ctx.and_(r.value >= 0, r.value <= M32))
        ctx.prove(f"{name}: equals the specification", r.value == spec)
    else:
        ctx.prove(f"{name}: is a boolean", r.type == C.LuaType.boolean)
        ctx.prove(f"{name}: equals the specification", bool(r.value) == spec if not ctx.symbolic else ctx.or_(ctx.and_(r.value, spec), ctx.and_(ctx.not_(r.value), ctx.not_(spec))))

def trunc_div(ctx, n, d):
    """C-style truncated division, d != 0"""
    if n < 0:
        return -((-n) // d) if d > 0 else (-n) // (-d)
    return n // d if d > 0 else -(n // (-d))

ARITH = {
    "+": lambda ctx, a, b, sa, sb: (a + b) & M32,
    "-": lambda ctx, a, b, sa, sb: (a - b) & M32,
    "&": lambda ctx, a, b, sa, sb: a & b,
    "|": lambda ctx, a, b, sa, sb: a | b,
    "^^": lambda ctx, a, b, sa, sb: a ^ b,
    "~": lambda ctx, a, b, sa, sb: a ^ b,
}
COMPARE = {
    "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "~=": lambda a, b: a != b,
    "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
}

@unit("C07", params=sorted(ARITH))
def binary_arith(ctx, op):
    """wrapped add/subtract and bitwise operations"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b")
    r = C.k_const_binary_ops[op](L.pico8, x, y)
    ctx.cover("folded", r is not None)
    ctx.prove("is folded", r is not None)
    post(ctx, C, r, ARITH[op](ctx, a, b, sa, sb))

@unit("C07")
def binary_mul(ctx):
    """multiplication: floor(a*b/65536) where it is representable (PICO-8 wraps elsewhere: wrapped value allowed)"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b")
    r = C.k_const_binary_ops["*"](L.pico8, x, y)
    ctx.cover("folded", r is not None)
    post(ctx, C, r, ((sa * sb) >> 16) & M32)

@unit("C07")
def binary_div(ctx):
    """division: truncated (a<<16)/b; not folded where it does not fit or b = 0"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b")
    r = C.k_const_binary_ops["/"](L.pico8, x, y)
    if b == 0: return post(ctx, C, r, None)
    if r is None: return
    ctx.cover("folded", r is not None)
    q = trunc_div(ctx, sa << 16, sb)
    ctx.prove("folded only when the quotient is representable", sgn_ok(ctx, q))
    post(ctx, C, r, q & M32)

@unit("C07")
def binary_idiv(ctx):
    """integer division: floor of the 16.16 quotient"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b")
    r = C.k_const_binary_ops["\\"](L.pico8, x, y)
    if b == 0: return post(ctx, C, r, None)
    if r is None: return
    ctx.cover("folded", r is not None)
    q = trunc_div(ctx, sa << 16, sb)
    ctx.prove("folded only when the quotient is representable", sgn_ok(ctx, q))
    post(ctx, C, r, q & 0xffff0000)

@unit("C07")
def binary_mod(ctx):
    """modulo: floored, positive divisor only"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b")
    r = C.k_const_binary_ops["%"](L.pico8, x, y)
    if sb <= 0: return post(ctx, C, r, None)
    ctx.cover("folded", r is not None)
    post(ctx, C, r, (sa % sb) & M32)

@unit("C07", params=sorted(COMPARE))
def compare(ctx, op):
    """comparisons of numbers are signed comparisons of the raw values"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b")
    r = C.k_const_binary_ops[op](L.pico8, x, y)
    ctx.prove("is folded", r is not None)
    post(ctx, C, r, COMPARE[op](sa, sb), "boolean")

def shift_spec(ctx, op, a, sa, sb):
    """(defined, value): shift/rotate by a whole count"""
    n = sb >> 16
    def left(n): return (a << n) & M32 if n < 32 else 0
    def lright(n): return a >> n if n < 32 else 0
    def aright(n): return (sa >> n) & M32 if n < 32 else (M32 if sa < 0 else 0)
    def rotl(n):
        n = n & 31
        return ((a << n) | (a >> (32 - n))) & M32
    if (sb & 0xffff) != 0: return None
    if n < 0:
        n = -n
        if op == "<<": return aright(n) if sa >= 0 else None    # shl of a negative by a negative is left alone
        if op in (">>", ">>>"): return left(n)
        if op == "<<>": return rotl(-n)
        return rotl(n)
    if op == "<<": return left(n)
    if op == ">>": return aright(n)
    if op == ">>>": return lright(n)
    if op == "<<>": return rotl(n)
    return rotl(-n)

SHIFT_FUNCS = {"<<": "shl", ">>": "shr", ">>>": "lshr", "<<>": "rotl", ">><": "rotr"}
@unit("C07", params=[(o, v) for o in SHIFT_FUNCS for v in ("op", "func")])
def shifts(ctx, p):
    """shifts and rotates: every value, every count (also negative, fractional and huge ones)"""
    op, how = p
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b")
    f = C.k_const_binary_ops[op] if how == "op" else C.k_const_globals[SHIFT_FUNCS[op]][0]
    r = f(L.pico8, x, y)
    ctx.cover("folded", r is not None)
    if r is None: return
    post(ctx, C, r, shift_spec(ctx, op, a, sa, sb))

@unit("C07", params=["-", "~", "not", "abs", "flr", "ceil", "bnot"])
def unary(ctx, op):
    """negation, complement, not, abs, flr, ceil"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a")
    f = C.k_const_unary_ops[op] if op in C.k_const_unary_ops else C.k_const_globals[op][0]
    r = f(L.pico8, x)
    ctx.cover("folded", r is not None)
    if op == "not": return post(ctx, C, r, False, "boolean")
    if r is None: return
    if op == "-": spec = (-a) & M32
    elif op in ("~", "bnot"): spec = a ^ M32
    elif op == "abs":
        ctx.prove("abs of the minimum is not folded", sa != -0x80000000)
        spec = ctx.ite(sa < 0, -sa, sa)
    elif op == "flr": spec = a & 0xffff0000
    else:
        c = ((sa + 0xffff) >> 16) << 16
        ctx.prove("ceil is folded only when it is representable", c <= 0x7fffffff)
        spec = c & M32
    post(ctx, C, r, spec)

@unit("C07", params=["min", "max", "band", "bor", "bxor"])
def builtin2(ctx, name):
    """two-argument pure built-ins"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b")
    r = C.k_const_globals[name][0](L.pico8, x, y)
    ctx.cover("folded", r is not None)
    spec = {"min": lambda: ctx.ite(sa < sb, a, b), "max": lambda: ctx.ite(sa > sb, a, b), "band": lambda: a & b, "bor": lambda: a | b, "bxor": lambda: a ^ b}[name]()
    post(ctx, C, r, spec)

@unit("C07")
def builtin_mid(ctx):
    """mid: the median of three"""
    C, L = mods()
    a, sa, x = fix(ctx, C, "a"); b, sb, y = fix(ctx, C, "b"); c, sc, z = fix(ctx, C, "c")
    r = C.k_const_globals["mid"][0](L.pico8, x, y, z)
    ctx.cover("folded", r is not None)
    if r is None: return
    mx = lambda p, q: ctx.ite(p > q, p, q)
    mn = lambda p, q: ctx.ite(p < q, p, q)
    spec = mx(mn(sa, sb), mn(mx(sa, sb), sc))
    post(ctx, C, r, spec & M32)

TYPES = ["nil", "bool", "fix", "str"]
def value_of(ctx, C, t, name):
    if t == "nil": return C.k_lua_nil
    if t == "bool": return C.LuaBoolean(ctx.bool(name))
    if t == "fix": return C.LuaFixnum(ctx.int(name, 0, M32))
    return C.LuaString(ctx.str(name, 2))

OPS_MIXED = ["+", "-", "*", "/", "\\", "%", "&", "|", "^^", "~", "<<", ">>", ">>>", "<<>", ">><", "<", "<=", ">", ">=", "==", "!=", "~="]
@unit("C07", params=[(o, s, t) for o in OPS_MIXED for s in TYPES for t in TYPES if (s, t) != ("fix", "fix")])
def mixed_types(ctx, p):
    """operands that are not both numbers: only (in)equality and string comparison may be folded"""
    op, s, t = p
    C, L = mods()
    x, y = value_of(ctx, C, s, "a"), value_of(ctx, C, t, "b")
    r = C.k_const_binary_ops[op](L.pico8, x, y)
    if op in ("==", "!=", "~="):
        if s != t: same = False
        elif s == "nil": same = True
        elif s == "bool": same = bool(x.value) == bool(y.value)
        else: same = x.value == y.value
        post(ctx, C, r, same if op == "==" else ctx.not_(same), "boolean")
    elif (s, t) == ("str", "str") and op in ("<", "<=", ">", ">="):
        post(ctx, C, r, COMPARE[op](x.value, y.value), "boolean")
    else:
        post(ctx, C, r, None)
    ctx.prove("reached", True)

@unit("C07", params=[(o, s) for o in ["-", "~", "abs", "flr", "ceil", "bnot"] for s in ["nil", "bool", "str"]] + [("#", s) for s in ["nil", "bool", "fix"]])
def mixed_unary(ctx, p):
    """unary operations on operands of the wrong type are not folded"""
    op, s = p
    C, L = mods()
    f = C.k_const_unary_ops[op] if op in C.k_const_unary_ops else C.k_const_globals[op][0]
    post(ctx, C, f(L.pico8, value_of(ctx, C, s, "a")), None)
    ctx.prove("reached", True)

@unit("C07", params=[(s, t) for s in TYPES for t in TYPES])
def logic(ctx, p):
    """and / or return one of the operands; not tests truthiness (only nil and false are false)"""
    s, t = p
    C, L = mods()
    x, y = value_of(ctx, C, s, "a"), value_of(ctx, C, t, "b")
    truthy = True if s in ("fix", "str") else False if s == "nil" else x.value
    r = C.k_const_binary_ops["and"](L.pico8, x, y)
    if r is not None: ctx.prove("and", (r is y) if truthy else (r is x))
    r = C.k_const_binary_ops["or"](L.pico8, x, y)
    if r is not None: ctx.prove("or", (r is x) if truthy else (r is y))
    r = C.k_const_unary_ops["not"](L.pico8, x)
    post(ctx, C, r, ctx.not_(truthy), "boolean")

@unit("C07", params=list(range(0, 6)))
def string_len(ctx, n):
    """# of a string is its length; .. concatenates strings"""
    C, L = mods()
    x = C.LuaString(ctx.str("a", n)); y = C.LuaString(ctx.str("b", 5 - n))
    post(ctx, C, C.k_const_unary_ops["#"](L.pico8, x), n << 16)
    r = C.k_const_binary_ops[".."](L.pico8, x, y)
    if r is not None:
        ctx.prove("string type", r.type == C.LuaType.string)
        ctx.prove("concatenation", r.value == x.value + y.value)
    ctx.prove("reached", True)

@unit("C07")
def defs_helpers(ctx):
    """number representation helpers"""
    import pico_defs as D
    C, L = mods()
    a = ctx.int("a", 0, M32)
    sa = ctx.s32(a)
    ctx.prove("fixnum_to_signed", D.fixnum_to_signed(a) == sa)
    ctx.prove("fixnum_is_whole", D.fixnum_is_whole(a) == ((a & 0xffff) == 0))
    ctx.prove("fixnum_is_negative", bool(D.fixnum_is_negative(a)) == bool(sa < 0))
    ctx.prove("fixnum_to_whole", D.fixnum_to_whole(a) == a >> 16)
    v = ctx.int("v", -(1 << 40), 1 << 40)
    ctx.prove("is_signed_fixnum_in_range", D.is_signed_fixnum_in_range(v) == ctx.and_(v >= -0x80000000, v <= 0x7fffffff))
    ctx.prove("LuaFixnum wraps", C.LuaFixnum(v).value == v & M32)
