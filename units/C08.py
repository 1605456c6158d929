"""C08 contracts: parse_fixnum against the meaning of a numeral, format_fixnum in every base and sign, float_str_minify

parse: every literal of at most 6 integer digits and 6 decimal (4 hexadecimal, 16 binary) fraction digits, either letter case, any sign, has
the value of the numeral (exact floor to 1/65536, wrapped).  Hexadecimal output is executed for all 2^32 values and parsed back.  Decimal
output: the digits are float_str_minify's, whose postcondition 'the result parses to the wanted value' is an invariant of its loop, given
the parser's numeral laws (trailing zeros, '5.' and '5', '.5' and '0.5') that the parse units establish."""
from pyver.unit import unit
from math import gcd
M = 0xffffffff
def mods():
    import pico_process, pico_tokenize, pico_output
    return pico_output, pico_tokenize

def numeral(ctx, kind, ni, nf, name="d", case=None):
    """a numeral: characters (without prefix), its integer part and its fraction's numerator; nf None: no point"""
    base = {"d": 10, "h": 16, "b": 2}[kind]
    ds = [ctx.int(f"{name}{j}", 0, base - 1) for j in range(ni + (nf or 0))]
    up = case if case is not None else 87
    cs = [ctx.ite(d < 10, d + 48, d + up) if base > 10 else d + 48 for d in ds]
    I = D = 0
    for d in ds[:ni]: I = I * base + d
    for d in ds[ni:]: D = D * base + d
    return cs[:ni] + ([46] + cs[ni:] if nf is not None else []), I, D, base
def text(ctx, cs): return ctx.sym.mkstr(cs) if ctx.symbolic else "".join(map(chr, cs))
def meaning(I, D, base, nf):
    """floor of the numeral times 65536 (in lowest terms)"""
    d = base ** (nf or 0); g = gcd(d, 65536)
    return (I << 16) + D * (65536 // g) // (d // g)
def signed(v, sign): return (v if sign == "" else -v if sign == "-" else -1 - v) & M

SHAPES = [("d", ni, nf) for ni in range(0, 6) for nf in (None, 0, 1, 2, 3, 4, 5, 6) if ni or nf] + \
         [("h", ni, nf) for ni in range(0, 5) for nf in (None, 0, 1, 2, 3, 4) if ni or nf] + \
         [("b", ni, nf) for ni in (0, 1, 2, 7) for nf in (None, 0, 1, 5) if (ni or nf) and ni + (nf or 0) < 9]
@unit("C08", params=SHAPES)
def parse(ctx, p):
    """parse_fixnum of any numeral of this shape, with each sign, is the numeral's value"""
    kind, ni, nf = p
    out, tok = mods()
    case = ctx.choose([87, 55], "case") if kind == "h" else 87
    cs, I, D, base = numeral(ctx, kind, ni, nf, case=case)
    pre = {"d": "", "h": "0x", "b": "0b"}[kind]
    if kind != "d" and ctx.choose([False, True], "capital prefix"): pre = pre.upper()
    sign = ctx.choose(["", "-", "~"], "sign")
    s = (sign + pre) + text(ctx, cs)
    ctx.prove("value of the numeral", tok.parse_fixnum(s) == signed(meaning(I, D, base, nf), sign), s if not ctx.symbolic else "")

@unit("C08", params=[(s, kind) for s in ("", "-", "~", None) for kind in ("whole", "frac")])
def hex_output(ctx, p):
    """base 16: for all values, the text parses back to the value, and has the asked sign"""
    sign, kind = p
    out, tok = mods()
    hi = ctx.int("hi", 0, 0xffff); lo = ctx.int("lo", 1, 0xffff) if kind == "frac" else 0
    v = (hi << 16) | lo
    s = out.format_fixnum(v, sign=sign, base=16)
    ctx.prove("parses back to the value", tok.parse_fixnum(s) == v)
    if sign is not None: ctx.prove("has exactly the asked sign", s[0] == sign if sign else s[0] == "0")
    ctx.prove("is a short numeral", len(s) <= 11 + len(sign or "-"))

# ------------------------------------------------------------------ decimal
class G: pass
class MinLoop:
    """float_str_minify: while "." in str"""
    active = False; keep = ("parse", "cmpval", "keep_float"); extra = ("str", "ok")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("entry: ok only if the text has the value", ctx.implies(env["ok"], G.P(env["str"]) == G.cmp))
        ctx.assume(ctx.implies(G.ok, G.P(G.s) == G.cmp))
        return {"str": G.s, "ok": G.ok}
    def end(m, lr, env):
        ctx = G.ctx
        ok = env["ok"]
        ctx.prove("ok only if the text has the value", ctx.implies(ok, G.P(env["str"]) == G.cmp))
        ctx.prove("once found, the value is never lost", ctx.or_(ok, ctx.not_(G.ok)))
        ctx.prove("one fraction digit fewer", len(G.frac(env["str"])) == G.nf - 1)
        ctx.prove("still a decimal numeral", G.decimal(env["str"]))
ML = MinLoop()
LOOPS = {("pico_output", "float_str_minify", 0): ML}

@unit("C08", params=[(ni, nf) for ni in (1, 2, 3, 4, 5) for nf in (0, 1, 2, 3, 4, 5, 6)], loops=LOOPS)
def minimiser(ctx, p):
    """float_str_minify: one arbitrary iteration and the exit; the result parses to the wanted value"""
    ni, nf = p
    out, tok = mods()
    cs, I, D, base = numeral(ctx, "d", ni, nf)
    if not ctx.symbolic:
        v = tok.parse_fixnum(text(ctx, cs))
        r = out.float_str_minify(text(ctx, cs), tok.parse_fixnum, v)
        ctx.prove("parses to the value", tok.parse_fixnum(r) == v, (text(ctx, cs), r)); return
    G.ctx, G.nf = ctx, nf
    G.s = text(ctx, cs); G.ok = ctx.bool("ok")
    G.cmp = ctx.int("cmp", 0, M)
    memo = []
    def canon(s):
        """digits of the numeral as (integer part, fraction part), with the parser's numeral laws applied"""
        u = list(ctx.sym.as_symstr(s).cs)
        dot = [k for k, c in enumerate(u) if isinstance(c, int) and c == 46]
        if len(dot) > 1: raise ctx.sym.Unsupported("two points")
        i, f = (u[:dot[0]], u[dot[0] + 1:]) if dot else (u, [])
        return i, f
    def same(a, b): return len(a) == len(b) and all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or bool(x == y) for x, y in zip(a, b))
    def PP(s):
        i, f = canon(s)
        while i and bool(i[0] == 48): i = i[1:]
        # laws: leading zeros of the integer part, trailing zeros of the fraction (established by the parse units' meaning())
        while f and bool(f[-1] == 48): f = f[:-1]
        for c in i + f: ctx.prove("the parser is given a numeral", ctx.and_(c >= 48, c <= 57))
        for (i2, f2, v) in memo:
            if same(i, i2) and same(f, f2): return v
        v = ctx.fresh("P", 0, M); memo.append((i, f, v)); return v
    G.P = PP
    G.frac = lambda s: canon(s)[1]
    G.decimal = lambda s: ctx.and_(*[ctx.and_(c >= 48, c <= 57) for c in sum(canon(s), [])]) if sum(canon(s), []) else False
    ML.active = True
    try: r = out.float_str_minify(G.s, PP, G.cmp)
    except Exception as ex:
        if type(ex).__name__ not in ("CheckError", "Exception", "Error", "UserError"): raise
        ctx.prove("gives up only if the value was not found", ctx.not_(G.ok)); return
    finally: ML.active = False
    ctx.prove("the result parses to the wanted value", ctx.or_(PP(r) == G.cmp, ctx.and_(ctx.not_(G.ok), nf == 0)))

@unit("C08", params=["", "-", "~", None])
def decimal_output(ctx, sign):
    """format_fixnum, any base choice: the digits come from float_str_minify for exactly the value to write, and the sign is accounted for"""
    out, tok = mods()
    v = ctx.int("v", 0, M)
    base = ctx.choose([None, 10], "base")
    if not ctx.symbolic:
        s = out.format_fixnum(v, sign=sign, base=base)
        ctx.prove("parses back to the value", tok.parse_fixnum(s) == v, s)
        if sign is not None: ctx.prove("has exactly the asked sign", s[:1] == sign if sign else s[:1] not in ("-", "~"))
        return
    from pyver.rope import Rope, Src
    from pyver import hooks
    texts = []     # (source object, value it parses to)
    def fixed(r, prec):
        ctx.prove("six decimals of the value", prec == 6)
        o = Src("digits", ctx.fresh("len", 1, 12)); o.val = None; texts.append((o, r)); return Rope([o])
    def minify(a):
        ctx.prove("parsed by parse_fixnum", getattr(a["parse"], "__name__", "") == "parse_fixnum")
        src = a["str"].parts[0].src
        r = [r for o, r in texts if o is src][0]
        # the printed number is the number asked for: exact i + n/d == cmpval / 65536
        ctx.prove("the digits are of the wanted value", ctx.and_(r.err == 0, r.i * 65536 + r.n * (65536 // r.d) == a["cmpval"]))
        o = Src("shortest", ctx.fresh("len", 1, 12), at=lambda i: first(i)); 
        c0 = ctx.fresh("first", 46, 57); ctx.assume(c0 != 47)
        def first(i): return c0
        o.val = a["cmpval"]
        return Rope([o])
    hooks.FIXED_HOOK[:] = [fixed]
    def recursive(a):
        """format_fixnum with a sign, by the contract that the other instances of this unit establish"""
        ctx.prove("asks for a sign", a["sign"] in ("-", "~") and a["base"] in (None, 10))
        ctx.prove("a fixnum", ctx.and_(a["value"] >= 0, a["value"] <= M))
        o = Src("signed", ctx.fresh("len", 1, 12)); o.val = a["value"] if a["sign"] == "-" else ~a["value"] & M
        if a["sign"] == "-": o.val = -a["value"] & M
        return Rope([ctx.sym.as_symstr(a["sign"]), o])
    ctx.contract("pico_output", "float_str_minify", minify, bound=True)
    ctx.contract("pico_output", "format_fixnum", recursive, bound=True)
    try: s = out.format_fixnum(v, sign=sign, base=base)
    finally: hooks.FIXED_HOOK.clear()
    if isinstance(s, Rope):
        parts = s.parts
        sg = ""
        if hasattr(parts[0], "cs"): sg = "".join(map(chr, parts[0].cs)); parts = parts[1:]
        ctx.prove("a sign and the digits", sg in ("", "-", "~") and len(parts) == 1 and parts[0].src.name in ("shortest", "signed"))
        ctx.prove("parses back to the value", signed(parts[0].src.val, sg) == v)
        if sign is not None: ctx.prove("has exactly the asked sign", sg == sign)
    else:
        # the hexadecimal form was chosen
        ctx.prove("parses back to the value", tok.parse_fixnum(s) == v)
        if sign is not None: ctx.prove("has exactly the asked sign", s[0] == sign if sign else s[0] == "0")
