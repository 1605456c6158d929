"""C12: whole programs. Normal forms (bounded/lua.py, from the Lua manual) decide grouping and statement structure; running
both programs in lupaz8 (PICO-8's Lua) decides what is executed."""
import random
from pyver.suite import suite
from bounded import lua, gram, luagen, pico8
from bounded.tool import minify, run, ToolError

FOCUS = ([], ["chars"], ["compressed"], ["tokens"], ["chars", "tokens"])
def options(rng):
    o = {"focus": rng.choice(FOCUS)}
    for k in ("lines", "wspace", "comments"):
        if rng.random() < .2: o[k] = False
    return o

def compare(api, src, version, opts):
    api.case((version, opts, src))
    b, _, toks = lua.parse(src)
    try: out = minify(src, version=version, tokens=True, reorder=False, consts=False, **opts)
    except ToolError as ex: api.check(False, "a valid program is accepted", ex); return
    try: b2 = lua.parse(out)[0]
    except lua.LuaError as ex: api.check(False, "the minified program is valid", f"{ex}: {out}"); return
    api.check(lua.norm(b) == lua.norm(b2), "the minified program has the same statements and the same grouping", out)

@suite("C12", quick=30, thorough=300, shards=2)
def structure(rng, i, api):
    """random programs of the whole grammar with redundant parentheses everywhere: token-level minification keeps the normal
    form (grouping of every expression, branches, statement order, number of values)"""
    src = gram.text(rng)
    try: lua.parse(src)
    except lua.LuaError: return
    compare(api, src, rng.choice((36, 41, 43)), options(rng))

@suite("C12", quick=20, thorough=150)
def nested_shorthands(rng, i, api):
    """as structure, on programs with nested one-line shorthands"""
    src = luagen.text(rng, size=rng.choice((4, 8)))
    try: lua.parse(src)
    except lua.LuaError: return
    compare(api, src, 43, options(rng))

def taken(src, opts, ren, version=43):
    """is it only the known finding (declared_alone)?  Does it work if just these declarations are not merged?"""
    import pico_minify as pm
    real = getattr(pm, "minify_merge_assignments", None)
    def merge(prev, next, *a):
        if prev.sources and not next.sources and pm.is_vararg_expr(prev.sources[-1]): return
        return real(prev, next, *a)
    if not real: return False
    pm.minify_merge_assignments = merge
    try: return pico8.same(pico8.run(src), pico8.run(run(src, version=version, minify=opts, rename={} if ren else False)[0]))
    except (ToolError, AttributeError): return False
    finally: pm.minify_merge_assignments = real

@suite("C12", quick=2, thorough=2)
def declared_alone(rng, i, api):
    """a declaration without values after one with a call (the known finding)"""
    if i: return
    src = "function f() return 1,2 end\nlocal a=f()\nlocal b\nprint(a,b)\nb=a\nprint(b)\n"
    api.case(src); out = run(src, version=43, minify={}, rename=False)[0]
    api.check(pico8.same(pico8.run(src), pico8.run(out)), "a declaration without values takes the further results of the call in the declaration before it", out)

@suite("C12", quick=45, thorough=600, shards=3)
def execution(rng, i, api):
    """random programs print the same lines before and after minification (any focus, version, with constant folding,
    merged assignments and renaming)"""
    ren = rng.random() < .5
    src = luagen.text(rng, size=rng.choice((4, 8, 12)), strkeys=not ren)
    want = pico8.run(src)
    if want and want[0].startswith("<syntax>"): return
    opts = options(rng)
    for k in ("tokens", "reorder", "consts"):
        if rng.random() < .15: opts[k] = False
    version = rng.choice((36, 41, 43))
    api.case((version, opts, ren, src))
    try: out = run(src, version=version, minify=opts, rename={} if ren else False)[0]
    except ToolError as ex: api.check(False, "a valid program is accepted", ex); return
    got = pico8.run(out)
    if not pico8.same(want, got) and taken(src, opts, ren, version): return
    api.check(pico8.same(want, got), "the minified program prints the same", (out, [(a, b) for a, b in zip(want, got) if a != b][:2], len(want), len(got)))

K_OPS = "or and < > <= >= ~= != == | ~ ^^ & << >> >>> >>< <<> .. + - * / % \\ ^".split()
K_UN = "- not ~ # @ % $".split()
def operands():
    """(text, left-open, right-open) of every kind of operand"""
    for op in K_OPS: yield f"b{op if not op.isalpha() and op != '-' else ' ' + op + ' '}c"
    for u in K_UN: yield f"{u} b"; yield f"{u} b^c"; yield f"b^{u} c"
    yield from ("b", "b.c", "b[c]", "b()", "b:c()", "...", "f'x'", "{}", "'s'", "1", "-1", "~1", "0x8000", "0xffff", "-0x8000", "nil", "function()end", "(b())", "((...))", "1.5")
def contexts():
    for op in K_OPS: yield "%s " + op + " d"; yield "d " + op + " %s"; yield "d " + op + " %s " + op + " e"
    for a in ("..", "^", "-", "and"):
        for b in ("..", "^", "+", "or"): yield f"d {a} %s {b} e"
    for u in K_UN: yield u + " %s"; yield u + " %s^d"
    yield from ("%s.d", "%s[d]", "%s(d)", "%s:d()", "%s'x'", "%s{}", "d[%s]", "d(%s)", "d(%s,e)", "d(e,%s)", "{%s}", "{%s,e}", "{e,%s}", "{d=%s}", "{[d]=%s}", "{[%s]=d}", "d:e(%s)",
        "(%s)", "function() return %s end", "function() return %s,d end", "function() return d,%s end")
STMTS = ("a=%s", "a,b=%s", "a,b=%s,c", "a,b=c,%s", "local a=%s", "local a,b=%s", "a+=%s", "if %s then a() end", "if(%s)a()", "while %s do a() end", "while(%s)a()",
    "repeat until %s", "for a=%s,b do end", "for a=b,%s do end", "for a=b,c,%s do end", "for a in %s do end", "for a in b,c,%s do end", "for a in b,%s do end", "return %s", "return a,%s", "?%s", "?%s,a",
    "if a then elseif %s then end", "a[%s]=b", "print(%s)")

@suite("C12", quick=30, thorough=300, shards=2)
def groups(rng, i, api):
    """every kind of parenthesized expression in every kind of context, alone and inside each kind of statement
    (an enumeration, visited in random order)"""
    cases = api.cache.setdefault("g", [(o, c) for o in operands() for c in contexts()])
    o, c = rng.choice(cases)
    pre = rng.choice(STMTS) if rng.random() < .5 else "a=%s"
    if c[0] == "%" and not c.startswith("%s") or c.startswith("%s%"): return
    inner = c.replace("%s", f"({o})")
    src = pre.replace("%s", inner)
    try: lua.parse(src)
    except lua.LuaError: return
    compare(api, src, rng.choice((36, 41, 43)), {"focus": rng.choice(FOCUS)})

def merging_program(rng):
    """straight-line programs of declarations and assignments of locals (captured or not), globals and table fields, whose right sides
    call functions that read and write them; everything is printed at the end of each block"""
    pick = rng.choice; out = []; glob = ["g", "h"]; tabs = ["t", "u"]
    def expr(ls, fs, d=0):
        k = rng.random()
        if k < .25: return str(rng.randrange(20))
        if k < .5: return pick(ls + glob)
        if k < .6: return pick(tabs) + pick((".x", ".y", "[1]", "[2]"))
        if k < .75 and fs: return f"{pick(fs)}({expr(ls, fs, d + 1) if d < 2 and rng.random() < .5 else ''})"
        if k < .8: return f"max({expr(ls, fs, d + 1)},{pick(ls)})" if d < 2 else "1"
        if k < .85: return f"({pick(fs)}())" if fs else "2"
        if k < .87: return pick(("count(%s)", "deli(%s)", "add(%s,3)", "unpack(%s)", "del(%s,5)")) % pick(tabs)
        if k < .9: return pick(("{}", "nil", "#%s" % pick(tabs), "(function() return %s end)()" % pick(ls), "function() return %s end" % pick(ls)))
        if k < .95: return f"tostr({pick(ls + glob)}==nil)" 
        return f"{pick(tabs)}[{expr(ls, fs, d + 1) if d < 2 else 1}]"
    def target(ls, fs):
        k = rng.random()
        if k < .45: return pick(ls)
        if k < .7: return pick(glob)
        if k < .95 or not fs: return pick(tabs) + pick((".x", ".y", "[1]", "[2]", "[%s]" % pick(ls)))
        return f"ft({pick(ls)})" + pick((".x", "[1]")) if rng.random() < .6 else pick(("w[g].x", "w[h]", "w[%s][1]" % pick(ls), "w[1].y"))
    def values(ls, fs, n):
        k = n if rng.random() < .7 else pick((max(n - 1, 1), n + 1))
        return ",".join(expr(ls, fs) for _ in range(k))
    show = lambda ls: f"print({','.join('tostr(%s)' % x for x in ls + glob)},tostr(t.x),tostr(t.y),tostr(t[1]),tostr(t[2]),tostr(u.x),tostr(u[1]),tostr(o.x),tostr(o.y),tostr(o[1]),tostr(o[2]))"
    def stmts(ls, fs, n, depth=0):
        ls = list(ls); fs = list(fs); new = 0
        for _ in range(n):
            k = rng.random()
            if k < .55:
                m = pick((1, 1, 1, 2, 2, 3)); tt = [target(ls, fs) for _ in range(m)]
                if len(set(tt)) < m or sum("[" in x or "." in x for x in tt) > 1: continue   # (order of assignment within one statement is open)
                out.append(f"{','.join(tt)}={values(ls, fs, m)}")
            elif k < .75:
                m = pick((1, 1, 2)); names = rng.sample(("a", "b", "c", "d", "e"), m)
                out.append(f"local {','.join(names)}" + (f"={values(ls, fs, m)}" if rng.random() < .8 else "")); ls += [x for x in names if x not in ls]
            elif k < .9 and len(fs) < 5:
                f = f"f{len(fs)}"; out.append(f"local function {f}()")
                for _ in range(pick((0, 0, 1))): out.append(f"{target(ls, [])}={expr(ls, [])}")
                if rng.random() < .25: out.append(pick(("t={x=9}", "t,u=u,t", "u={}", "w[1],w[2]=w[2],w[1]", "deli(w,1)", "w={t,u,{},{}}")))
                out.append(f"return {expr(ls, fs[:2])}{',' + expr(ls, []) if rng.random() < .3 else ''} end"); fs.append(f)
            elif k < .95: out.append(show(ls))
            elif depth < 2: out.append("do"); stmts(ls, fs, pick((2, 3, 4)), depth + 1); out.append("end")
        out.append(show(ls))
    out.append("g,h,t,u=1,2,{x=3,y=4,5,6},{x=7,8} o=t w={t,u,{},{}}")
    out.append("local l,m=1,2"); out.append("local function ft() return t end")
    stmts(["l", "m"], [], pick((5, 8, 12)))
    return pick(("\n", " ")).join(out) + "\n"

@suite("C12", quick=40, thorough=400, shards=2)
def merging(rng, i, api):
    """neighbouring declarations and assignments print the same before and after they are merged (any focus)"""
    src = merging_program(rng)
    want = pico8.run(src)
    if want and want[0].startswith("<syntax>"): return
    opts = options(rng)
    if rng.random() < .6: opts["focus"] = ["tokens"]
    ren = rng.random() < .5
    api.case((opts, ren, src))
    try: out = run(src, version=43, minify=opts, rename={} if ren else False)[0]
    except ToolError as ex: api.check(False, "a valid program is accepted", ex); return
    got = pico8.run(out)
    if not pico8.same(want, got) and taken(src, opts, ren): return
    api.check(pico8.same(want, got), "the minified program prints the same", (src, out, [(a, b) for a, b in zip(want, got) if a != b][:2], len(want), len(got)))
