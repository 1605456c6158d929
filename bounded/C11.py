"""C11: every occurrence of every name in the renamed program still resolves to the declaration it resolved to (by the
independent parser of bounded/lua.py), names correspond one to one, and preserved names stay and are not introduced"""
import re
from pyver.suite import suite, Done
from bounded import lua, gram, luagen, tool
from bounded.tool import ToolError

def labels(block):
    """Lua's goto resolution: {id(goto occurrence): label occurrence}; innermost enclosing block that has the label"""
    res = {}
    def funcs(e):
        """function bodies inside an expression or statement part"""
        if isinstance(e, tuple):
            if e and e[0] == "func": walk(e[3], []); return
            for x in e[1:] if e and isinstance(e[0], str) else e: funcs(x)
        elif isinstance(e, list):
            for x in e: funcs(x)
    def walk(b, chain):
        own = {s[1].tok.text: s[1] for s in b if s[0] == "label"}
        chain = chain + [own]
        for s in b:
            k = s[0]
            if k == "goto":
                for c in reversed(chain):
                    if s[1].tok.text in c: res[id(s[1])] = c[s[1].tok.text]; break
            elif k == "do": walk(s[1], chain)
            elif k == "if": funcs(s[1]); walk(s[2], chain); walk(s[3], chain)
            elif k == "while": funcs(s[1]); walk(s[2], chain)
            elif k == "repeat": walk(s[1], chain); funcs(s[2])
            elif k in ("for", "forin"): funcs(s[2]); walk(s[3], chain)
            elif k == "localfunc": funcs(s[2])
            elif k in ("label", "break"): pass
            else:
                for x in s[1:]: funcs(x)
    walk(block, [])
    return res

def preserved(name, rules, builtin):
    """does a list of (pattern, keep) rules (exact names, prefix* or *) keep the name?"""
    v = None
    for pat, keep in [("*", None)] + rules:
        if pat == "*": v = keep if keep is not None else v
    if name in builtin: v = True
    for pat, keep in rules:
        if pat == name: v = keep
    if v is False: return False
    for pat, keep in rules:
        if pat != "*" and pat.endswith("*") and name.startswith(pat[:-1]):
            v = keep
            if v is False: return False
    return bool(v)

def compare(api, a, b, keep_g, keep_m):
    """a, b: parsed source and output"""
    (ba, oa, ta), (bb, ob, tb) = a, b
    api.check([(t.kind, t.text if t.kind not in ("name", "op") else t.val if t.kind == "op" else "") for t in ta] ==
              [(t.kind, t.text if t.kind not in ("name", "op") else t.val if t.kind == "op" else "") for t in tb], "only names change")
    api.check([(o.role, o.decl, o.assign, o.implicit) for o in oa] == [(o.role, o.decl, o.assign, o.implicit) for o in ob], "every name keeps its role",
              [(x.tok, x.role, y.tok, y.role) for x, y in zip(oa, ob) if x.role != y.role][:3])
    decl = {}; names = {"global": {}, "member": {}}; back = {"global": {}, "member": {}}
    for x, y in zip(oa, ob):
        if x.role == "local":
            if x.decl: decl[id(x.var)] = y.var
            api.check(decl.get(id(x.var)) is y.var, "every use of a local refers to the same declaration", (x.tok, y.tok))
            if x.name == "_ENV" or y.name == "_ENV": api.eq(y.name, x.name, "_ENV is not renamed")
        elif x.role in ("global", "member"):
            n = names[x.role].setdefault(x.name, y.name)
            api.eq(y.name, n, f"a {x.role} is renamed consistently")
            m = back[x.role].setdefault(y.name, x.name)
            api.eq(m, x.name, f"different {x.role}s keep different names ({y.name})")
            keep = keep_g if x.role == "global" else keep_m
            if keep(x.name): api.eq(y.name, x.name, f"a preserved {x.role} is kept")
    la, lb = labels(ba), labels(bb); label = {}
    for x, y in zip(oa, ob):
        if x.role == "label" and x.decl: label[id(x)] = y
    for x, y in zip(oa, ob):
        if x.role == "label" and not x.decl:
            t = la.get(id(x)); u = lb.get(id(y))
            api.check((t is None and u is None) or (t is not None and label.get(id(t)) is u), "every goto jumps to the same label", (x.tok, y.tok))
    return names

def one(api, src, p, version, rules, focus, hint):
    import pico_process
    from pico_process import PicoContext
    ctxt = tool.context(version)
    rename = {"focus": focus}
    text = [("" if k else "!") + r for r, k in rules["g"]] + [("" if k else "!") + "*." + r for r, k in rules["m"]]
    if hint and text: src = "--$preserve: " + ", ".join(text) + "\n" + src; p = lua.parse(src)
    elif text: rename["rules"] = text
    api.case((version, text, hint, focus, src))
    try: out = tool.run(src, ctxt, minify={"focus": focus, "tokens": False, "reorder": False, "consts": False}, rename=rename)[0]
    except ToolError as ex: api.check(False, "a valid program is accepted", ex); return
    try: q = lua.parse(out)
    except lua.LuaError as ex: api.check(False, "the output is valid", f"{ex}: {out}"); return
    builtin = tool.context(version).builtins | tool.context(version).builtin_callbacks
    members = tool.context(version).builtin_members
    keep_g = lambda n: preserved(n, rules["g"], builtin)
    keep_m = lambda n: preserved(n, rules["m"], members)
    try: names = compare(api, p, q, keep_g, keep_m)
    except Exception as ex:
        if hasattr(ex, "detail"): ex.detail += " output: " + out
        raise
    for old, new in names["global"].items():
        if not keep_g(old): api.check(new not in builtin and not (keep_g(new) and new in names["global"]), "a new global name is neither built in nor preserved", (old, new))
    for old, new in names["member"].items():
        if not keep_m(old): api.check(new not in members and not (keep_m(new) and new in names["member"]), "a new member name is neither built in nor preserved", (old, new))

SHORT = ["a", "b", "c", "d", "e", "f"]
def rules_for(rng):
    r = {"g": [], "m": []}
    pool = gram.NAMES + SHORT + ["g1", "g2"]
    for k in "gm":
        x = rng.random()
        if x < .4: pass
        elif x < .7: r[k] = [(n, True) for n in rng.sample(pool, rng.choice((1, 2, 3)))]
        elif x < .8: r[k] = [("*", True)] + [(n, False) for n in rng.sample(pool, 3)]
        elif x < .9: r[k] = [(rng.choice("abfgn_") + "*", True)]
        else: r[k] = [(rng.choice(("abs", "max")) if k == "g" else rng.choice(("__index", "x")), False)]
    return r

@suite("C11", quick=45, thorough=500, shards=3)
def grammar(rng, i, api):
    """random programs of the whole grammar: locals, shadowing, upvalues, methods, members, globals, labels, with preserve
    rules on the command line or in the program"""
    names = rng.choice((gram.NAMES, SHORT, SHORT + ["abs", "print", "self"], ["a", "b", "c"], gram.NAMES + SHORT))
    src = gram.text(rng, names=names)
    try: p = lua.parse(src)
    except lua.LuaError: return
    one(api, src, p, rng.choice((36, 41, 43)), rules_for(rng), rng.choice(([], ["chars"], ["compressed"])), rng.random() < .4)

@suite("C11", quick=25, thorough=300)
def programs(rng, i, api):
    """the same for random executable programs"""
    src = luagen.text(rng, size=rng.choice((6, 12)))
    try: p = lua.parse(src)
    except lua.LuaError: return
    one(api, src, p, 43, rules_for(rng), rng.choice(([], ["chars"], ["compressed"])), rng.random() < .4)

@suite("C11", quick=25, thorough=300)
def scopes(rng, i, api):
    """programs of many nested scopes and few statements, with more locals and globals than one-letter names"""
    out = []; n = [0]
    pool = ["v%d" % k for k in range(rng.choice((3, 10, 60)))]
    def body(d):
        for _ in range(rng.choice((1, 2, 4))):
            r = rng.random(); v = rng.choice(pool); w = rng.choice(pool)
            if r < .3: out.append(f"local {v}={w}")
            elif r < .45: out.append(f"{v}={w}")
            elif r < .55: out.append(f"{v}.{w}={rng.choice(pool)}")
            elif d < 5:
                k = rng.randrange(8)
                if k == 0: out.append("do"); body(d + 1); out.append("end")
                elif k == 1: out.append(f"local function {v}({w},{rng.choice(pool)})"); body(d + 1); out.append("end")
                elif k == 2: out.append(f"function {v}:{w}({rng.choice(pool)})self.{v}=self"); body(d + 1); out.append("end")
                elif k == 3: out.append(f"for {v}={w},{rng.choice(pool)} do"); body(d + 1); out.append("end")
                elif k == 4: out.append(f"for {v},{w} in {rng.choice(pool)} do"); body(d + 1); out.append("end")
                elif k == 5: out.append("repeat"); body(d + 1); out.append(f"until {v}")
                elif k == 6: out.append(f"while {v} do"); body(d + 1); out.append("end")
                else: out.append(f"local {v},{w}={v},{w}")
    body(0)
    src = "\n".join(out)
    try: p = lua.parse(src)
    except lua.LuaError: return
    one(api, src, p, 43, rules_for(rng), rng.choice(([], ["chars"], ["compressed"])), rng.random() < .2)

@suite("C11", quick=10, thorough=60)
def tables(rng, i, api):
    """preserve rules for the members of certain tables: they keep their names in accesses and in every constructor that is directly
    assigned to the table, and no other member gets them; all others are renamed consistently"""
    import pico_process
    tabs, mems = ["one", "two", "three"], ["speed", "other", "first", "last"]
    rules = sorted({rng.choice(tabs) + "." + rng.choice(mems + ["*"]) for _ in range(rng.choice((1, 2, 3)))})
    toks = []                                   # (text, the table it is a member of)
    def con(t):
        toks.append(("{", None))
        for m in rng.sample(mems, rng.choice((1, 2, 3))): toks.extend([(m, t), ("=", None), (str(rng.randrange(9)), None), (",", None)])
        toks.append(("}", None))
    for _ in range(rng.choice((2, 4, 6))):
        k = rng.random()
        if k < .6:
            ts = rng.sample(tabs, rng.choice((1, 2, 3)))
            if rng.random() < .3: toks.append(("local", None))
            for j, t in enumerate(ts): toks.extend([(",", None)] * (j > 0) + [(t, None)])
            toks.append(("=", None))
            for j in range(rng.choice((len(ts), len(ts), len(ts) - 1, len(ts) + 1)) or 1):
                if j: toks.append((",", None))
                if rng.random() < .2: toks.append(("f", None))
                else: con(ts[j] if j < len(ts) else "")
        else: toks.extend([("f", None), ("(", None), (rng.choice(tabs), None), (".", None), (rng.choice(mems), "?"), (")", None)]); toks[-2] = (toks[-2][0], toks[-4][0])
    src = " ".join(t for t, _ in toks)
    try: lua.parse(src)
    except lua.LuaError: return
    api.case((rules, src))
    out = [t.text for t in lua.lex(tool.run(src, tool.context(43), minify={"tokens": False, "reorder": False, "consts": False}, rename={"focus": [], "rules": rules + tabs})[0])]
    api.check(len(out) == len(toks), "only names change", (toks, out))
    kept = lambda m, t: t is not None and t != "" and (f"{t}.{m}" in rules or f"{t}.*" in rules)
    keep = {m for m, t in toks if t is not None and kept(m, t)}; new = {}
    for (m, t), o in zip(toks, out):
        if t is None: continue
        if kept(m, t): api.eq(o, m, "a preserved member of a table is kept"); continue
        api.eq(o, new.setdefault(m, o), "other members are renamed consistently")
        api.check(o not in keep, "no member gets a preserved name", (m, o))
