"""C21: counts against an independent lexer and counter (bounded/lua.py), and against the bytes really written"""
from pyver.suite import suite, Done
from bounded import lua, gram, luagen, tool

def handler(got):
    def h(prefix, name, size, limit): got.append((prefix, name, size, limit))
    return h

@suite("C21", quick=30, thorough=300, shards=2)
def tokens(rng, i, api):
    """token counts of random programs: of the input, as given, minified and unminified"""
    import pico_process
    from pico_process import Source, process_code
    src = gram.text(rng) if rng.random() < .7 else luagen.text(rng, size=6)
    try: toks = lua.lex(src); lua.parse(src)
    except lua.LuaError: return
    mode = rng.choice(("plain", "lint", "minify", "unminify"))
    opts = {}
    if mode == "lint": opts = {"lint": {}, "stop_on_lint": False}
    if mode == "minify":
        m = {"focus": rng.choice(([], ["chars"], ["compressed"], ["tokens"]))}
        for k in ("tokens", "lines", "wspace", "comments", "reorder", "consts"):
            if rng.random() < .3: m[k] = False
        opts = {"minify": m, "rename": {} if rng.random() < .5 else False}
    if mode == "unminify": opts = {"unminify": {"indent": "  "}}
    api.case((mode, opts, src))
    for _ in range(1):
        a, b = [], []
        s = Source("t.lua", src)
        ok, errs = process_code(tool.context(rng.choice((36, 41, 43))), s, input_count=handler(a), count=handler(b), **opts)
        api.check(ok, "accepted", errs)
        api.eq(a, [("input", "tokens", lua.count(toks), 8192)], "count of the input")
        out = s.text if mode in ("minify", "unminify") else src
        api.eq(b, [(None, "tokens", lua.count(lua.lex(out)), 8192)], "count of the output", out)

@suite("C21", quick=15, thorough=150)
def layout(rng, i, api):
    """the count of the same tokens in two layouts (a sign directly attached to a number is the only part of the layout
    that matters)"""
    from pico_process import Source
    from pico_tokenize import tokenize, count_tokens
    prog = gram.program(rng)
    prog = [t for t in prog if t not in ("-", "~")]
    try: a, b = luagen.layout(prog, rng), luagen.layout(prog, rng)
    except Exception: return
    api.case((a, b))
    ctxt = tool.context(43)
    n = []
    for s in (a, b):
        toks, errs = tokenize(Source("t", s), ctxt, rng.random() < .5)
        api.check(not errs, "tokenizes", errs)
        n.append(count_tokens(toks))
    api.eq(n[0], n[1], "the count does not depend on whitespace and comments")
    real = [t for t in prog if not t.startswith("\0")]
    api.eq(n[0], len([t for t in real if t not in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local")]), "count of the token list")

@suite("C21", quick=15, thorough=60)
def operators(rng, i, api):
    """every pair of a token and a sign before a number, spaced and unspaced (exhaustive), and count::stop"""
    from pico_process import Source
    from pico_tokenize import tokenize, count_tokens
    befores = ["a", "1", "'s'", ")", "]", "}", ";", "end", "nil", "true", "...", "=", "(", "[", "{", ",", "return", "and", "not", "+", "-", "~", "..", "#", "==", "if", "do", "::", ".5"]
    cases = api.cache.setdefault("c", [(b, s, sp1, sp2, n) for b in befores for s in "-~+" for sp1 in ("", " ", "\n") for sp2 in ("", " ", "--[[c]]", "\n") for n in ("1", "0x1f", ".5", "0b1", "a", "'s'")])
    if i >= len(cases): raise Done
    b, s, sp1, sp2, n = cases[i]
    src = "x " + b + (sp1 or (" " if b[-1] in "-.~" else "")) + s + (" " + sp2 if sp2.startswith("--") and s == "-" else sp2) + n
    api.case(src)
    try: toks = lua.lex(src)
    except lua.LuaError: return
    got, errs = tokenize(Source("t", src), tool.context(43))
    api.check(not errs, "tokenizes", errs)
    api.eq(count_tokens(got), lua.count(toks), "count")
    got, errs = tokenize(Source("t", "a=1 --[[lint: count::stop]] " + src), tool.context(43))
    api.eq(count_tokens(got), 3, "count::stop")

@suite("C21", quick=25, thorough=200)
def sizes(rng, i, api):
    """characters, and compressed size == number of bytes of the code section that writing produces (both formats)"""
    from io import BytesIO
    from utils import BinaryWriter, BinaryReader
    import pico_compress as pc
    from pico_cart import Cart
    r = rng.random()
    if r < .5: src = gram.text(rng) * rng.choice((1, 1, 3))
    elif r < .6: src = "".join(chr(rng.randrange(1, 256)) for _ in range(rng.choice((0, 1, 10, 300, 5000))))
    elif r < .7: src = rng.choice("ab\n") * rng.choice((0, 1, 5, 100, 300))
    else: src = "".join(rng.choice(("a=", "b ", "foo()", "\n", "\x83", "0")) for _ in range(rng.choice((0, 3, 40, 500))))
    src = src[:0xffff]
    old = rng.random() < .3
    fast = rng.random() < .3
    api.case((src, old, fast))
    kw = {"fast_compress": fast}
    if old:
        kw["old_compress"] = True
    cart = Cart(); cart.code = src
    got = []; pc.write_code_size(cart, handler=handler(got))
    api.eq(got, [(None, "chars", len(src), 0xffff)], "chars")
    got = []; pc.write_code_size(cart, handler=handler(got), input=True)
    api.eq(got, [("input", "chars", len(src), 0xffff)], "input chars")
    got = []; pc.write_compressed_size(cart, handler=handler(got), **kw)
    f = BytesIO(); pc.compress_code(BinaryWriter(f), src, force_compress=True, fail_on_error=False, **kw)
    n = len(f.getvalue())
    api.eq(got, [(None, "compressed", n, 0x3d00)], "compressed size is the number of bytes written")
    if n <= 0x3d00:
        data = f.getvalue() + bytes(0x3d00 - n)
        if not old: api.eq(pc.get_compressed_size(BinaryReader(BytesIO(data))), n, "get_compressed_size")
        back = []; code = pc.uncompress_code(BinaryReader(BytesIO(data)), size_handler=handler(back))
        api.eq(code, src, "round trip"); api.eq(back, [("input", "compressed", n, 0x3d00)], "size read back")
