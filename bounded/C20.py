"""C20: the linter's warnings (message and place) against an independent linter over the independent parser of bounded/lua.py"""
import collections
from pyver.suite import suite, Done
from bounded import lua, gram, luagen, tool
from bounded.tool import ToolError
from bounded.C11 import labels as gotos

class Sc:
    def __init__(m, up, depth, fd, names=()): m.up, m.depth, m.fd, m.names = up, depth, fd, {n: m for n in names}
    def find(m, name):
        while m is not None:
            if name in m.names: return m
            m = m.up

class Lint:
    """the rules of the documentation: what is defined, used, assigned, hidden"""
    def __init__(m, block, occs, opts, hint_globals, hint_used, builtins):
        m.o = opts; m.builtins = builtins; m.errs = []
        m.custom = set(opts.get("globals", ())) | set(hint_globals)
        m.used, m.assigned = set(hint_used), set()
        m.lused, m.lassigned = set(), set()
        m.decls = []; m.labels = []; m.globals = []
        m.target = goto = gotos(block); m.jumped = {id(x) for x in goto.values()}
        m.stack = [None]                              # names of the functions around
        m.block(block, None, 0, 0, None)
        m.report()
    def err(m, msg, occ): m.errs.append((msg, occ.tok.idx if occ.tok else None))
    def on(m, k): return m.o.get(k, True)
    # walk
    def block(m, b, sc, depth, fd, lab, until=None):
        depth += 1
        lab = Sc(lab, depth, fd)
        for s in b:
            if s[0] == "label":
                if s[1].name in lab.names: raise lua.LuaError("duplicate label")
                lab.names[s[1].name] = lab
        for s in b: sc = m.stmt(s, sc, depth, fd, lab)
        if until is not None: m.ex(until, sc, depth, fd, lab)
    def decl(m, occ, sc, depth, fd, param=None):
        """param: None, or whether warned about when unused"""
        m.decls.append((occ, sc.find(occ.name) if sc else None, depth, fd, param))
    def stmt(m, s, sc, depth, fd, lab):
        k = s[0]; ex = lambda e: m.ex(e, sc, depth, fd, lab); blk = lambda b, c=sc: m.block(b, c, depth, fd, lab)
        if k == "do": blk(s[1])
        elif k == "if": ex(s[1]); blk(s[2]); s[3] and blk(s[3])
        elif k == "while": ex(s[1]); blk(s[2])
        elif k == "repeat": m.block(s[1], sc, depth, fd, lab, s[2])
        elif k in ("for", "forin"):
            vs = [s[1]] if k == "for" else s[1]
            for e in s[2]: ex(e)
            for v in vs: m.decl(v, sc, depth + 1, fd)
            blk(s[3], Sc(sc, depth + 1, fd, [v.name for v in vs]))
        elif k == "localfunc":
            m.decl(s[1], sc, depth, fd); sc = Sc(sc, depth, fd, [s[1].name])
            m.func(s[2], s[1].name, sc, depth, fd, lab)
        elif k == "local":
            for e in s[2]: ex(e)
            for v in s[1]: m.decl(v, sc, depth, fd)
            sc = Sc(sc, depth, fd, [v.name for v in s[1]])
        elif k == "label": m.labels.append((s[1], lab, fd))
        elif k == "assign":
            if s[3:] : m.name(s[1][0], True, sc, depth, fd, lab); m.func(s[2][0], s[3], sc, depth, fd, lab)
            else:
                for t in s[1]: m.name(t, True, sc, depth, fd, lab)
                for e in s[2]: ex(e)
        elif k == "opassign": m.name(s[2], False, sc, depth, fd, lab); ex(s[3])
        elif k == "return":
            for e in s[1]: ex(e)
        elif k == "callstmt": ex(s[1])
        return sc
    def name(m, t, plain, sc, depth, fd, lab):
        """an assignment's target"""
        if t[0] != "var": m.ex(t, sc, depth, fd, lab); return
        o = t[1]
        if o.var: m.lassigned.add(o.var)
        else:
            m.assigned.add(o.name); m.globals.append((o, ("function" if plain == "function" else "assign") if plain else None))
            if plain and (len(m.stack) == 1 or m.stack == [None, "_init"]): m.custom.add(o.name)
    def func(m, f, name, sc, depth, fd, lab):
        m.stack.append(name)
        vs, va = f[1], f[2]
        for i, v in enumerate(vs): m.decl(v, sc, depth + 1, fd + 1, i == len(vs) - 1 and not va and not v.implicit)
        m.block(f[3], Sc(sc, depth + 1, fd + 1, [v.name for v in vs]), depth, fd + 1, lab)
        m.stack.pop()
    def ex(m, e, sc, depth, fd, lab):
        k = e[0] if isinstance(e, tuple) and e else None
        if k == "func": m.func(e, None, sc, depth, fd, lab)
        elif k == "var":
            o = e[1]
            if o.var: m.lused.add(o.var)
            else: m.used.add(o.name); m.globals.append((o, None))
        elif isinstance(e, (tuple, list)):
            for x in e: m.ex(x, sc, depth, fd, lab)
    # the warnings
    def report(m):
        dup, dupg, unused, undef, unusedg = (m.on(k) for k in ("duplicate", "duplicate-global", "unused", "undefined", "unused-global"))
        for o, prev, depth, fd, param in m.decls:
            n = o.name
            if dup and n != "_":
                if prev is None:
                    if dupg and n in m.custom: m.err(f"Local '{n}' has the same name as a global", o)
                    elif dupg and (n in m.used or n in m.assigned): m.err(f"Local '{n}' has the same name as a built-in global used elsewhere in the cart", o)
                else:
                    w = ("at the top level" if prev.fd == 0 else "in a parent function") if prev.fd < fd else "in a parent scope" if prev.depth < depth else "in the same scope"
                    m.err(f"Local '{n}' has the same name as a local declared {w}", o)
            if unused and not n.startswith("_") and o.var not in m.lused:
                if o.var in m.lassigned: m.err(f"Local '{n}' is only ever assigned to, never used", o)
                elif param in (None, True): m.err(f"Local '{n}' isn't used", o)
        for o, lab, fd in m.labels:
            n = o.name; prev = lab.up.find(n) if lab.up else None
            if dup and n != "_" and prev is not None:
                w = ("at the top level" if prev.fd == 0 else "in a parent function") if prev.fd < fd else "in a parent scope"
                m.err(f"Label '{n}' has the same name as a label declared {w}", o)
            if unused and not n.startswith("_") and id(o) not in m.jumped: m.err(f"Label '{n}' isn't used", o)
        for o, how in m.globals:
            n = o.name
            if undef and n not in m.custom:
                b = n in m.builtins; hint = {"assign": "'local'", "function": "'local function'"}.get(how)
                if b and how: m.err(f"Built-in global '{n}' assigned outside _init - did you mean to use {hint}?", o)
                elif not b: m.err(f"Identifier '{n}' not found" + (f" - did you mean to use {hint} to define it?" if how else ""), o)
            if unused and unusedg and n not in m.used and not n.startswith("_"): m.err(f"Global '{n}' is only ever assigned to, never used", o)

def mark(toks, block):
    """function statements, as ('assign', [target], [func], name, 'function')"""
    def walk(x):
        if isinstance(x, list): return [walk(y) for y in x]
        if isinstance(x, tuple):
            if x and x[0] == "assign" and len(x) == 3 and len(x[1]) == 1 and len(x[2]) == 1 and x[2][0][0] == "func":
                t = x[1][0]; first = t
                while first[0] == "member": first = first[1]
                if first[0] == "var" and first[1].tok:
                    i = next(k for k, y in enumerate(toks) if y is first[1].tok)
                    if i and toks[i - 1].text == "function" and toks[i - 1].kind == "kw":
                        return ("assign", walk(x[1]), walk(x[2]), first[1].name if t[0] == "var" else "?.")
            return tuple(walk(y) for y in x)
        return x
    return walk(block)

class FLint(Lint):
    def name(m, t, plain, *a):
        super().name(t, plain, *a)
    def stmt(m, s, sc, depth, fd, lab):
        if s[0] == "assign" and len(s) == 4:
            t = s[1][0]
            if t[0] == "var": m.name(t, "function", sc, depth, fd, lab)
            else: m.ex(t, sc, depth, fd, lab)
            m.func(s[2][0], s[3], sc, depth, fd, lab); return sc
        return super().stmt(s, sc, depth, fd, lab)

def one(api, rng, src, hints=True):
    opts = {k: rng.random() < .7 for k in ("undefined", "unused", "unused-global", "duplicate", "duplicate-global")} if rng.random() < .5 else {}
    pool = sorted({t.text for t in lua.lex(src) if t.kind == "name"})
    pick = lambda: rng.sample(pool, min(len(pool), rng.choice((1, 2))))
    if rng.random() < .3: opts["globals"] = pick()
    hg = pick() if hints and rng.random() < .3 else []; hu = pick() if hints and rng.random() < .3 else []
    if hg or hu: src = "--" + rng.choice(("", "$")) + "lint: " + rng.choice((", ", ",", " ")).join(hg + ["used::" + x for x in hu]) + "\n" + src
    try:
        block, occs, toks = lua.parse(src)
        if any(o.role == "label" and not o.decl and id(o) not in gotos(block) for o in occs): return
        if any(o.name == "_ENV" for o in occs): return
    except lua.LuaError: return
    ctxt = tool.context(43)
    try: L = FLint(mark(toks, block), occs, opts, hg, hu, ctxt.builtins)
    except lua.LuaError: return
    api.case((opts, src))
    try: errs = tool.run(src, ctxt, lint=opts)[1]
    except ToolError as ex: api.check(False, "a valid program is accepted", ex); return
    got = collections.Counter((e.msg, e.token.idx if src[e.token.idx:].startswith(e.msg.split("'")[1]) else None) for e in errs)
    want = collections.Counter(L.errs)
    api.check(got == want, "exactly the warnings there should be", f"missing: {list((want - got).items())[:3]}, too many: {list((got - want).items())[:3]}")

@suite("C20", quick=40, thorough=400, shards=3)
def programs(rng, i, api):
    """random programs of the whole grammar with few names (locals, shadowing, upvalues, functions, members, labels), options and hints"""
    names = rng.choice((["a", "b", "c"], ["a", "b", "c", "d", "e", "f", "_", "_x"], ["a", "b", "print", "self", "_init"], ["a", "b", "g1", "t", "_init", "_draw", "abs"], gram.NAMES))
    try: src = gram.text(rng, names=names); lua.parse(src)
    except lua.LuaError: return
    one(api, rng, src)

@suite("C20", quick=25, thorough=300)
def scopes(rng, i, api):
    """programs of nested functions, loops and blocks with few statements, where most names are declared"""
    pool = rng.choice((["x", "y", "z"], ["x", "y", "z", "_", "u", "v", "w"], ["x", "self", "_init", "t"]))
    out = []; n = [0]; lab = [0]
    v = lambda: rng.choice(pool)
    def body(d):
        for _ in range(rng.choice((1, 2, 3))):
            r = rng.random()
            if r < .2: out.append(f"local {v()}={v()}")
            elif r < .25: out.append(f"local {v()},{v()}")
            elif r < .35: out.append(f"{v()}={v()}")
            elif r < .4: out.append(f"{v()}+=1")
            elif r < .45: out.append(f"{v()}.a={v()}")
            elif r < .5: out.append(f"{v()}({v()})")
            elif r < .55: lab[0] += 1; out.append(rng.choice((f"::l{lab[0]}::", f"do ::m{d}:: {rng.choice(('', f'goto m{d}'))} end", f"?{v()}")) + "\n")
            elif d < 4:
                k = rng.choice(("do ", f"for {v()}=1,{v()} do ", f"for {v()},{v()} in {v()} do ", f"function {v()}({v()}) ", f"function {v()}.a({v()},...) ", f"function {v()}:a({v()},{v()}) ", f"local function {v()}({v()},{v()}) ", f"{v()}=function({v()}) ", "function _init() ", "repeat ", f"while {v()} do ", f"if {v()} then "))
                out.append(k); body(d + 1); out.append(f"until {v()}" if k == "repeat " else "end")
    body(0)
    one(api, rng, " ".join(out))
