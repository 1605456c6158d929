"""C21 contracts: count_tokens over any number of any tokens (loop contract), the size reports for code and data of any size.
Oracle: the token rules of the PICO-8 manual, written here independently."""
from pyver.unit import unit
from pyver.duck import Duck
class G: pass
FREE = (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None)
def mods():
    import pico_process, pico_compress, pico_tokenize, pico_defs, utils
    return pico_compress, pico_tokenize, utils

class Tokens:
    """any number of tokens, known around one position"""
    __pv_sym__ = True
    def __init__(m, n, i, at): m.n, m.i, m.at = n, i, at
    def pv_len(m): return m.n
    def __len__(m): return m.n
    def __iter__(m): raise TypeError("Sym: iterates any number of tokens")
    def __getitem__(m, k):
        for d, t in m.at.items():
            if bool(k == m.i + d):
                G.ctx.prove("only tokens of the program are looked at", G.ctx.and_(k >= 0, k < m.n))
                return t
        raise IndexError("Sym: other token")
class Count:
    active = False; keep = ("tokens",)
    def enter(m, lr, env, names):
        G.ctx.prove("counts from 0", env["count"] == 0)
        G.entered = True
        return {"count": G.count}
    def more(m, lr): return G.ctx.choose([True, False], "more")
    def next(m, lr): G.iter = True; return G.i, G.tokens.at[0]
    def end(m, lr, env): G.ctx.prove("the token counts as PICO-8 counts it", env["count"] == G.count + G.want)
CL = Count()
def token(pt, name, values, types):
    t = Duck(); t.value = G.ctx.choose(values, name); t.type = None
    return t
@unit("C21", loops={("pico_tokenize", "count_tokens", 0): CL})
def counting(ctx):
    """count_tokens: every token counts 1, but for commas, dots, colons, semicolons, closing brackets, end, local, and a minus or
    complement attached to a number that it is the sign of; nothing counts after count::stop; white space and comments never do"""
    if not ctx.symbolic: concrete(ctx); return
    pc, pt, u = mods(); K = pt.TokenType; H = pt.CommentHint
    G.ctx, G.iter, G.entered = ctx, False, False
    G.count = ctx.fresh("count", 0, 1 << 30)
    n = ctx.int("n", 1, 1 << 20); G.i = ctx.int("i", 0, 1 << 20); ctx.assume(G.i < n)
    def tk(v, t, children=()):
        r = Duck(); r.value, r.type, r.children = v, t, children
        r.idx, r.endidx = ctx.fresh("idx", 0, 1 << 20), ctx.fresh("end", 0, 1 << 20)
        return r
    PUN = [(x, K.punct) for x in FREE if x and not x.isalpha()] + [("(", K.punct), ("+", K.punct), ("=", K.punct), ("{", K.punct)]
    OTHERS = [("a", K.ident), ("1", K.number), ("'-'", K.string), ("end", K.keyword), ("return", K.keyword), ("local", K.keyword)]
    kind = ctx.choose(["sign", "other", "stop"], "kind")
    if kind == "sign": v, t = ctx.choose([("-", K.punct), ("~", K.punct)], "token")
    elif kind == "other": v, t = ctx.choose(PUN + OTHERS + [(None, None), ("#", K.punct), ("..", K.punct), ("[", K.punct), ("function", K.keyword)], "token")
    else: v, t = "a", K.ident
    comment = Duck(); comment.hint = ctx.choose([H.lint, H.none, H.preserve], "hint") if kind == "stop" else H.none
    comment.hintdata = ctx.choose([["count::stop"], ["x", "count::stop"], ["count"], []], "data") if kind == "stop" else ["count::stop"]
    cur = tk(v, t, ctx.choose([(), [comment]], "comments") if kind != "stop" else [comment])
    prev = tk(*(ctx.choose(PUN + OTHERS + [("-", K.punct), ("#", K.punct)], "prev") if kind == "sign" else ("x", K.ident)))
    nxt = tk(*(ctx.choose([("1", K.number), ("a", K.ident), ("'s'", K.string)], "next") if kind == "sign" else ("x", K.ident)))
    toks = G.tokens = Tokens(n, G.i, {-1: prev, 0: cur, 1: nxt})
    free = v in FREE
    if kind == "sign":
        operand = prev.type in (K.number, K.string, K.ident) or prev.value in (")", "]", "}", ";", "end")
        if nxt.type == K.number and not operand:
            if bool(ctx.and_(G.i + 1 < n, G.i >= 1, cur.endidx == nxt.idx)): free = True
    G.want = 0 if free else 1
    stop = kind == "stop" and comment.hint == H.lint and "count::stop" in comment.hintdata
    CL.active = True
    try: r = pt.count_tokens(toks)
    finally: CL.active = False
    if G.iter: ctx.prove("stops at count::stop only, before its token", stop and G.entered and r == G.count)
    else: ctx.prove("the count of all tokens", r == G.count)
def concrete(ctx):
    from bounded import lua
    import random, pico_process, pico_tokenize as pt
    rng = random.Random(ctx.int("seed", 0, 1 << 30))
    words = ["a", "1", "-", "~", ",", ")", "end", "local", ";", "(", "'s'", "]", "}", "return", "=", "+", ".", ":"]
    text = "".join(rng.choice(words) + rng.choice((" ", " ", "\n", "")) for _ in range(rng.randrange(12)))
    toks, errs = pt.tokenize(pico_process.Source("x", text))
    try: ref = lua.lex(text)
    except lua.LuaError: return
    if errs or [t.text for t in ref] != [t.value for t in toks if t.value]: return
    ctx.prove("the count of all tokens", pt.count_tokens(toks) == lua.count(ref), text)

@unit("C21")
def reports(ctx):
    """the number of characters and the sizes of data in compressed form are reported as they are, under their names"""
    pc, pt, u = mods()
    class Code:
        __pv_sym__ = True
        def __init__(m, n): m.n = n
        def pv_len(m): return m.n
        def __len__(m): return m.n
    class Cart: pass
    n = ctx.int("n", 0, 1 << 20); got = []
    cart = Cart(); cart.code = Code(n)
    inp = ctx.choose([True, False], "input")
    pc.write_code_size(cart, handler=lambda *a: got.append(a), input=inp)
    ctx.prove("the code's characters", len(got) == 1 and got[0][0] == ("input" if inp else None) and got[0][1] == "chars" and got[0][2] == n and got[0][3] == 0xffff)

@unit("C21", params=[True, False])
def compressed(ctx, old):
    """compress_code reports, and stores, the number of bytes it writes; and get_compressed_size reads it"""
    if not ctx.symbolic: ctx.prove("checked by the suites", True); return
    pc, pt, u = mods()
    class Code:
        __pv_sym__ = True
        def pv_len(m): return n
    n = ctx.int("n", 0, 0xffff); items = ["a"]
    def lz(code, **k):
        ctx.prove("of the code", code is c)
        return list(enumerate(items))
    ctx.contract("pico_compress", "get_lz77", lz)
    f = ctx.stream("f"); p = f.tell(); w = u.BinaryWriter(f); got = []; c = Code()
    pc.compress_code(w, c, size_handler=lambda *a: got.append((*a, f.tell())), force_compress=True, fail_on_error=False, old_compress=old)
    (prefix, name, size, limit, at), = got
    ctx.prove("reported under its name", prefix is None and name == "compressed" and limit == 0x3d00)
    if old: ctx.prove("the bytes written", f.tell() == p + size)
    else:
        ctx.prove("the size in the header", ctx.and_(f.byte(p + 6) == (size & 0xff), f.byte(p + 7) == (size >> 8) & 0xff))
        ctx.prove("as many as the written bytes", ctx.and_(size >= 8, size == at - p))
        r = u.BinaryReader(f); r.setpos(p)
        ctx.prove("is read back from there", pc.get_compressed_size(r) == size)
