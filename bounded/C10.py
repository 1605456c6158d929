"""C10: minified and unminified text against an independent lexer and parser (bounded/lua.py)"""
import re
from pyver.suite import suite, Done
from bounded import lua, gram, luagen, tool
from bounded.tool import ToolError

def source(rng):
    src = gram.text(rng) if rng.random() < .7 else luagen.text(rng, size=rng.choice((4, 8)))
    try: return src, lua.parse(src)
    except lua.LuaError: return None, None

def texts(toks): return [t.text for t in toks]

@suite("C10", quick=30, thorough=300, shards=2)
def whitespace_only(rng, i, api):
    """minification of nothing but whitespace, lines and comments leaves exactly the same tokens and the same program"""
    src, p = source(rng)
    if src is None: return
    m = {"focus": rng.choice(([], ["chars"], ["compressed"])), "tokens": False, "reorder": False, "consts": False}
    for k in ("lines", "wspace", "comments"):
        if rng.random() < .35: m[k] = False
    version = rng.choice((36, 41, 43))
    api.case((version, m, src))
    try: out = tool.run(src, version=version, minify=m, rename=False)[0]
    except ToolError as ex: api.check(False, "a valid program is accepted", ex); return
    try: q = lua.parse(out)
    except lua.LuaError as ex: api.check(False, "the output is valid", f"{ex}: {out}"); return
    api.check(texts(q[2]) == texts(p[2]), "the same tokens", out)
    api.check(lua.norm(q[0]) == lua.norm(p[0]), "the same program", out)

@suite("C10", quick=30, thorough=300, shards=2)
def as_meant(rng, i, api):
    """under any options, the text is exactly the tokens of the syntax tree that was output, and it parses"""
    import pico_process, pico_output
    src, p = source(rng)
    if src is None or re.search(r"function\W[^(]*[.:]", src): return # (a member of a constant local cannot be defined as a function)
    m = {"focus": rng.choice(([], ["chars"], ["compressed"], ["tokens"]))}
    for k in ("lines", "wspace", "comments", "tokens", "reorder", "consts"):
        if rng.random() < .2: m[k] = False
    version = rng.choice((36, 41, 43))
    api.case((version, m, src))
    meant = []
    real = pico_process.output_code
    def output_code(ctxt, root, opts):
        meant[:] = [t.value for t in root.get_tokens() if t.value is not None]
        return real(ctxt, root, opts)
    pico_process.output_code = output_code
    try: out = tool.run(src, version=version, minify=m, rename={} if rng.random() < .5 else False)[0]
    except ToolError as ex: api.check(False, "a valid program is accepted", ex); return
    finally: pico_process.output_code = real
    try: q = lua.parse(out)
    except lua.LuaError as ex: api.check(False, "the output is valid", f"{ex}: {out}"); return
    api.check(texts(q[2]) == meant, "the output is the meant tokens", (out, [(a, b) for a, b in zip(texts(q[2]), meant) if a != b][:3]))

@suite("C10", quick=25, thorough=200)
def unminify(rng, i, api):
    """unminified text: the same program (shorthands may become longhands)"""
    src, p = source(rng)
    if src is None: return
    indent = rng.choice(("", " ", "  ", "\t"))
    api.case((indent, src))
    try: out = tool.run(src, unminify={"indent": indent})[0]
    except ToolError as ex: api.check(False, "a valid program is accepted", ex); return
    try: q = lua.parse(out)
    except lua.LuaError as ex: api.check(False, "the output is valid", f"{ex}: {out}"); return
    api.check(lua.norm(q[0]) == lua.norm(p[0]), "the same program", out)
    drop = (";", "(", ")", "then", "do", "end", "!=")
    api.eq([t for t in texts(q[2]) if t not in drop], [t for t in texts(p[2]) if t not in drop], "the same tokens, but for shorthand delimiters")

TOKENS = lua.OPS + sorted(lua.KEYWORDS) + ["a", "b", "x", "e", "_", "p1", "\x80", "E9", "0", "1", "10", "1.", ".5", "0x1f", "0xf.", "0x.8", "0b1", "0b1.", "0b.1", "3.25", "''", '"a"', "'\\''", "[[]]", "[=[a]=]"]
@suite("C10", quick=30, thorough=120, shards=2)
def pairs(rng, i, api):
    """every pair of tokens (all operators and keywords, names, numbers, strings) and comments: adjacent only if that still
    reads as these two (exhaustive)"""
    from pico_process import Source
    from pico_tokenize import tokenize
    from pico_output import need_whitespace_between
    ctxt = api.cache.setdefault("ctxt", tool.context(43))
    if "t" not in api.cache:
        l = []
        for s in TOKENS + ["--c", "--[[c]]", "//c", "--[==[c]==]"]:
            toks, errs = tokenize(Source("t", s), ctxt, all_comments=True)
            if errs: continue
            if s.startswith(("--", "//")): l.append((s, toks[0].children[0]))
            elif len([t for t in toks if t.value]) == 1: l.append((s, toks[0]))
        api.cache["t"] = l
    l = api.cache["t"]
    if i >= len(l): raise Done
    a, ta = l[i]
    for b, tb in l:
        api.case((a, b))
        if a.startswith(("--", "//")): continue
        need = need_whitespace_between(ctxt, ta, tb)
        com = b.startswith(("--", "//"))
        try: got = texts(lua.lex(a + b))
        except lua.LuaError: got = None
        ok = got == ([a] if com else [a, b])
        api.check(need or ok, "tokens put together stay these tokens", got)
