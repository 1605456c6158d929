"""random PICO-8 programs that run without errors and end, as token lists, with random layout"""
from bounded import lua

NAMES = ["a", "b", "c", "d", "x", "y", "i", "k", "foo", "bar", "_t", "n1", "\x83", "e", "o"]
SHADOW = ["abs", "max", "sub", "print"]
NL = "\0nl"          # a line break has to be here
OPEN, CLOSE = "\0open", "\0close"      # no line break between them

class Gen:
    def __init__(g, rng, size=12, shadow=True, short=True, names=NAMES, strkeys=True):
        g.strkeys = strkeys
        g.rng, g.out, g.budget, g.shadow, g.short, g.names = rng, [], size, shadow, short, names
        g.scopes = [{}]; g.globals = {}; g.loop = 0; g.func = 0; g.nshort = 0; g.fresh = 0; g.vararg = False
    def e(g, *t): g.out.extend(t)
    def pick(g, *l): return g.rng.choice(l)
    # --- variables: kinds num, str, tab (members x y numeric, array of 3 numbers, method m), fn
    def lookup(g, kind):
        seen = {}; r = []
        for s in reversed(g.scopes):
            for n, k in s.items():
                if n not in seen:
                    seen[n] = k
                    if k == kind: r.append(n)
        for n, k in g.globals.items():
            if n not in seen and k == kind: r.append(n)
        return r
    def visible_local(g, n): return any(n in s for s in g.scopes)
    def newname(g):
        if g.shadow and g.rng.random() < .03: return g.rng.choice(SHADOW[:3])
        return g.rng.choice(g.names)
    # --- expressions
    def num(g, d=0):
        r = g.rng.random(); vs = g.lookup("num")
        if d > 3 or r < .22: g.literal()
        elif r < .45 and vs: g.e(g.rng.choice(vs))
        elif r < .62: g.par(d, lambda: g.binary(d))
        elif r < .7:
            g.e(g.pick("-", "-", "~"))
            g.par(d, lambda: g.num(d + 1), .3)
        elif r < .76: g.e("("); g.num(d + 1); g.e(")")
        elif r < .8 and g.lookup("str"): g.e("#", g.rng.choice(g.lookup("str")))
        elif r < .86 and g.lookup("tab"):
            t = g.rng.choice(g.lookup("tab"))
            k = g.rng.randrange(4)
            if k == 0: g.e("(", t, ")") if g.rng.random() < .2 else g.e(t); g.e(".", g.pick("x", "y"))
            elif k == 1: g.e(t, "[", g.pick("1", "2", "3"), "]")
            elif k == 2: g.e(t, "[", g.pick("'x'", '"y"', "[[x]]"), "]") if g.strkeys else g.e(t, ".", "x")
            else: g.e(t, ":", "m", "("); g.num(d + 1); g.e(")")
        elif r < .92 and g.lookup("fn"): g.call(g.rng.choice(g.lookup("fn")), d)
        elif r < .95: g.e("("); g.cond(d + 1); g.e("and"); g.num(d + 1); g.e("or"); g.num(d + 1); g.e(")")
        elif r < .97 and not g.visible_local("max"): g.e("max", "("); g.num(d + 1); g.e(","); g.num(d + 1); g.e(")")
        else: g.literal()
    def par(g, d, f, p=.35):
        if g.rng.random() < p: g.e("("); f(); g.e(")")
        else: f()
    def literal(g):
        g.e(g.pick("0", "1", "2", "3", "5", "10", "255", "1.5", ".25", "0x1f", "0x.8", "0b101", "3.", "0x10.4", "32767", "1000"))
    def binary(g, d):
        op = g.pick("+", "-", "*", "/", "\\", "%", "&", "|", "^^", "~", "<<", ">>", ">>>", "<<>", ">><", "^", "+", "-", "..n")
        # operands may come in any grouping: random programs decide by the language's own precedence
        if op == "..n": op = "+"
        g.par(d, lambda: g.num(d + 1), .3); g.e(op)
        if op == "^": g.e(g.pick("2", "1", "0", "3"))
        else: g.par(d, lambda: g.num(d + 1), .3)
    def string(g, d=0):
        r = g.rng.random(); vs = g.lookup("str")
        if r < .5 or d > 2: g.e(g.pick('""', "'a'", '"b c"', "[[d]]", "'\\n'", '"--"', "'[['", '"\\65\\0661"', "[==[ ]] ]==]", '"it\'s"'))
        elif r < .75 and vs: g.e(g.rng.choice(vs))
        elif r < .95:
            g.e("("); g.string(d + 1); g.e("..");
            if g.rng.random() < .5: g.string(d + 1)
            else: g.e("("); g.num(d + 2); g.e(")")
            g.e(")")
        else: g.e("("); g.string(d + 1); g.e(")")
    def cond(g, d=0):
        r = g.rng.random()
        if r < .12: g.e(g.pick("true", "false", "nil"))
        elif r < .6 or d > 2: g.num(d + 1); g.e(g.pick("<", ">", "<=", ">=", "==", "~=", "!=")); g.num(d + 1)
        elif r < .68: g.string(d + 1); g.e(g.pick("==", "~=", "<")); g.string(d + 1)
        elif r < .78: g.e("not"); g.e("("); g.cond(d + 1); g.e(")")
        elif r < .9: g.e("("); g.cond(d + 1); g.e(")"); g.e(g.pick("and", "or")); g.e("("); g.cond(d + 1); g.e(")")
        else: g.cond(d + 1); g.e(g.pick("and", "or")); g.cond(d + 1)
    def call(g, f, d):
        r = g.rng.random()
        if r < .1: g.e("(", f, ")")
        else: g.e(f)
        g.e("("); n = g.rng.choice((0, 1, 2, 2, 3))
        for j in range(n):
            if j: g.e(",")
            g.num(d + 1)
        g.e(")")
    def table(g, d=0):
        """a table of kind tab"""
        g.e("{"); sep = lambda: g.e(g.pick(",", ",", ";"))
        parts = [lambda: g.num(2), lambda: g.num(2), lambda: g.num(2), lambda: (g.e("x", "="), g.num(2)), lambda: (g.e("[", g.pick("'y'", '"y"'), "]", "=") if g.strkeys else g.e("y", "="), g.num(2)),
                 lambda: (g.e("m", "="), g.function(["self", "p"], method=True))]
        for j, p in enumerate(parts):
            if j: sep()
            p()
        if g.rng.random() < .3: sep()
        g.e("}")
    def function(g, params=None, method=False, name=None):
        va = params is None and g.rng.random() < .2
        ps = params if params is not None else g.rng.sample(g.names, g.rng.choice((0, 1, 2)))
        g.e("function") if name is None else None
        g.e("(");
        for j, p in enumerate(ps):
            if j: g.e(",")
            g.e(p)
        if va:
            if ps: g.e(",")
            g.e("...")
        g.e(")")
        old = (g.loop, g.nshort, g.vararg); g.loop = 0; g.vararg = va
        inner = {p: "num" for p in ps}
        if method: inner["self"] = "tab"
        for p in inner:
            if inner[p] == "num": inner[p] = "arg"     # may be nil
        g.scopes.append(inner); g.func += 1
        for p in ps:
            if inner[p] == "arg":
                if g.nshort: g.e(p, "=", p, "or"); 
                else: g.e(p, g.pick("=", "="), p, "or")
                g.literal(); inner[p] = "num"
        g.body(g.rng.choice((0, 1, 2)))
        g.e("return");
        if va and g.rng.random() < .5: g.e("(", "...", ")", "or")
        g.num(1)
        if g.rng.random() < .25: g.e(","); g.num(1)
        if g.rng.random() < .2: g.e(";")
        g.scopes.pop(); g.func -= 1; g.loop, g.nshort, g.vararg = old
        g.e("end")
    # --- statements
    def body(g, n):
        for _ in range(n): g.stmt()
    def block(g, n=None, extra=None):
        g.scopes.append(dict(extra or {}))
        g.body(g.rng.choice((0, 1, 1, 2, 3)) if n is None else n)
        g.scopes.pop()
    def paren_stmt(g, *t):
        if g.out and g.out[-1] not in (NL, ";", "then", "do", "else", "end", "repeat"): g.e(";")
        g.e(*t)
    def stmt(g):
        g.budget -= 1
        small = g.budget <= 0 or g.nshort > 2
        r = g.rng.random()
        if g.rng.random() < .06: g.e(";")
        if r < .2 or (small and r < .6): g.out_stmt()
        elif r < .32 or small: g.local()
        elif r < .42: g.assign()
        elif r < .47: g.opassign()
        elif r < .52: g.definefn()
        elif r < .62: g.if_()
        elif r < .67: g.while_()
        elif r < .71: g.for_()
        elif r < .74: g.repeat()
        elif r < .78: g.e("do"); g.block(); g.e("end")
        elif r < .81 and g.loop and not g.nshort:
            g.e("if"); g.cond(); g.e("then", "break", "end")
        elif r < .84: g.skip()
        elif r < .92: g.parcall()
        elif r < .96 and g.lookup("tab"):
            t = g.rng.choice(g.lookup("tab"))
            g.e(t, ":", "m", "("); g.num(1); g.e(")")
        else: g.out_stmt()
    def out_stmt(g):
        r = g.rng.random()
        if r < .25 and g.short and not g.visible_local("print"):
            g.e(OPEN, "?"); g.value(); 
            if g.rng.random() < .3: g.e(","); g.value()
            g.e(CLOSE); g.line()
        elif r < .4 and not g.visible_local("print"):
            g.e("print", "("); g.value(); g.e(")")
        elif r < .45: g.e("printh"); g.e(g.pick('"s"', "[[t]]", "{}"))
        else:
            g.e("printh", "("); g.value()
            if g.rng.random() < .3: g.e(","); g.value()
            g.e(")")
    def value(g):
        r = g.rng.random()
        if r < .6: g.num()
        elif r < .8: g.string()
        elif r < .93: g.par(0, g.cond, 1)
        elif g.vararg: g.e("...")
        else: g.e("nil")
    def line(g):
        if not g.nshort: g.e(NL)
        else: g.pending = True
    def local(g):
        k = g.pick("num", "num", "num", "str", "tab", "fn", "multi", "nil")
        if k == "multi":
            ns = g.rng.sample(g.names, g.rng.choice((2, 3))); g.e("local")
            for j, n in enumerate(ns): g.e(",", n) if j else g.e(n)
            g.e("=")
            fns = g.lookup("fn")
            if fns and g.rng.random() < .3:
                g.num(1); g.e(","); g.call(g.rng.choice(fns), 1)
                kinds = ["num", "any", "any"] if len(ns) > 2 else ["num", "num"]
                if g.rng.random() < .2: g.out[-1] = ")"
            else:
                m = g.rng.choice((len(ns), len(ns), len(ns) - 1, len(ns) + 1))
                for j in range(m):
                    if j: g.e(",")
                    g.num(1)
                kinds = ["num"] * m + ["any"] * 3
            for n, kk in zip(ns, kinds): g.scopes[-1][n] = kk
            return
        n = g.newname(); g.e("local", n)
        if k == "nil": g.scopes[-1][n] = "any"; return
        g.e("=")
        {"num": g.num, "str": g.string, "tab": g.table, "fn": g.function}[k]()
        g.scopes[-1][n] = k
    def target(g):
        """an assignable of kind num"""
        r = g.rng.random(); vs = [v for v in g.lookup("num")]; ts = g.lookup("tab")
        if ts and r < .3:
            t = g.rng.choice(ts)
            if r < .1: g.e(t, ".", g.pick("x", "y"))
            elif r < .2: g.e(t, "[", g.pick("1", "2", "3"), "]")
            elif g.strkeys: g.e(t, "[", g.pick("'x'", '"y"'), "]")
            else: g.e(t, ".", "y")
        elif vs and r < .85: g.e(g.rng.choice(vs))
        else: return False
        return True
    def assign(g):
        r = g.rng.random()
        if r < .55 and g.target():
            extra = 0
            while g.rng.random() < .3:
                g.e(","); 
                if not g.target(): g.e(g.rng.choice(g.lookup("num"))) if g.lookup("num") else g.e(g.rng.choice(g.lookup("tab")), ".", "x")
                extra += 1
            g.e("=")
            for j in range(extra + 1):
                if j: g.e(",")
                g.num(1)
        else:
            n = g.newname()
            if n in SHADOW or g.visible_local(n) or n in g.globals or g.func or len(g.scopes) > 1: g.out_stmt(); return
            k = g.pick("num", "num", "str", "tab", "fn")
            g.e(n, "=")
            {"num": g.num, "str": g.string, "tab": g.table, "fn": g.function}[k]()
            g.globals[n] = k
    def opassign(g):
        if g.target():
            g.e(g.pick("+=", "-=", "*=", "\\=", "%=", "&=", "|=", "^^=", "<<=", ">>=", "/=", "<<>=", ">><=", ">>>="))
            g.par(0, lambda: g.num(1), .3)
        else: g.out_stmt()
    def definefn(g):
        r = g.rng.random(); n = g.rng.choice(g.names)
        if r < .5:
            g.e("local", "function", n); g.scopes[-1][n] = "rec"
            g.function(name=n); g.scopes[-1][n] = "fn"
        elif r < .8 and not g.visible_local(n) and n not in g.globals and not g.func and len(g.scopes) == 1:
            g.e("function", n); g.function(name=n); g.globals[n] = "fn"
        elif g.lookup("tab"):
            t = g.rng.choice(g.lookup("tab"))
            if g.rng.random() < .5: g.e("function", t, ":", "m"); g.function(["p"], name="m") 
            else: g.e("function", t, ".", "m"); g.function(["self", "p"], method=True, name="m")
        else: g.out_stmt()
    def if_(g):
        if g.short and g.rng.random() < .4:
            # the condition's last token has to be its closing parenthesis
            top = not g.nshort
            g.e("if", OPEN, "("); g.cond(); g.e(")")
            g.nshort += 1; g.short_body()
            if g.rng.random() < .35 and not g.pend():
                g.e("else"); g.short_body()
            g.nshort -= 1; g.e(CLOSE)
            if top: g.e(NL)
            else: g.pending = True
            return
        g.e("if"); g.par(0, g.cond, .3); g.e("then"); g.block()
        while g.rng.random() < .25: g.e("elseif"); g.cond(); g.e("then"); g.block()
        if g.rng.random() < .4: g.e("else"); g.block()
        g.e("end")
    pending = False
    def pend(g): r = g.pending; g.pending = False; return r
    def short_body(g):
        """statements of a one-line shorthand; a nested shorthand ends it"""
        g.pending = False
        g.scopes.append({})
        for j in range(g.rng.choice((1, 1, 2))):
            if g.pending: break
            at = len(g.out)
            if g.rng.random() < .5: g.out_stmt()
            elif g.rng.random() < .5: g.opassign()
            elif g.rng.random() < .4: g.if_()
            elif g.loop and g.loop_short and g.rng.random() < .3: g.e("break"); break
            else: g.local()
        g.scopes.pop()
    loop_short = False
    def while_(g):
        g.fresh += 1; v = "w%d" % g.fresh
        g.e("local", v, "=", "0")
        g.loop += 1
        if g.short and not g.nshort and g.rng.random() < .3:
            g.e("while", OPEN, "(", v, "<", g.pick("1", "2", "3"), ")", v, "+=", "1"); g.nshort += 1; g.short_body(); g.nshort -= 1; g.e(CLOSE, NL); g.pending = False
        else:
            g.e("while", v, "<", g.pick("1", "2", "3"));
            if g.rng.random() < .3: g.e("and", "("); g.cond(1); g.e(")")
            g.e("do", v, "+=", "1"); g.block(); g.e("end")
        g.loop -= 1
    def for_(g):
        g.loop += 1; n = g.rng.choice(g.names)
        if g.rng.random() < .6:
            g.e("for", n, "="); g.e(g.pick("1", "0", "2")); g.e(",", g.pick("2", "3")); 
            if g.rng.random() < .3: g.e(",", g.pick("1", "2"))
            g.e("do"); g.block(None, {n: "num"}); g.e("end")
        else:
            m = g.rng.choice([x for x in g.names if x != n])
            g.e("for", n, ",", m, "in", "ipairs", "(", "{"); g.num(2); g.e(","); g.num(2); g.e("}", ")", "do"); g.block(None, {n: "num", m: "num"}); g.e("end")
        g.loop -= 1
    def repeat(g):
        g.fresh += 1; v = "r%d" % g.fresh
        g.e("local", v, "=", "0", "repeat", v, "+=", "1"); g.loop += 1
        g.scopes.append({}); g.body(g.rng.choice((1, 2))); g.e("until", v, ">", g.pick("0", "1", "2"), "or", "("); g.cond(1); g.e(")"); g.scopes.pop(); g.loop -= 1
    def skip(g):
        g.fresh += 1; l = "l%d" % g.fresh if g.rng.random() < .5 else g.rng.choice(g.names)
        g.e("do", "if"); g.cond(); g.e("then", "goto", l, "end"); g.block_labels(l)
        g.e("::", l, "::", "end")
    def block_labels(g, l):
        g.e("do"); g.names_ = g.names; g.names = [n for n in g.names if n != l]; g.block(1); g.names = g.names_; g.e("end")
    def parcall(g):
        fs = g.lookup("fn")
        if not fs or g.nshort: g.out_stmt(); return
        f = g.rng.choice(fs)
        k = g.rng.randrange(3)
        if k == 0: g.paren_stmt("(", f, ")")
        elif k == 1: g.paren_stmt("(", f, "or", g.rng.choice(fs), ")")
        else: g.e(f)
        g.e("("); g.num(1); g.e(")")

_pairs = {}
def glued(a, b):
    """can a and b be adjacent?"""
    k = (a, b); r = _pairs.get(k)
    if r is None:
        try: r = [t.text for t in lua.lex(a + b)] == [a, b]
        except lua.LuaError: r = False
        if len(_pairs) > 100000: _pairs.clear()
        _pairs[k] = r
    return r

def layout(tokens, rng, style=None):
    """random whitespace and comments between the tokens"""
    style = style or rng.choice(("tight", "line", "wild", "wild"))
    out = []; prev = None; depth = 0; need = False
    for t in tokens:
        if t == OPEN: depth += 1; continue
        if t == CLOSE: depth -= 1; continue
        if t == NL: need = True; continue
        if prev is not None:
            w = ""
            tight = glued(prev, t)
            if need: w = rng.choice(("\n", "\n", " \n ", "--c\n", "//c\n", "\n\n")); need = False
            elif style == "tight": w = "" if tight else " "
            elif style == "line" and not depth: w = rng.choice(("\n", " ", " ", "")) if tight else rng.choice((" ", "\n"))
            else:
                r = rng.random()
                if tight and r < .4: w = ""
                elif r < .7: w = rng.choice((" ", " ", "  ", "\t"))
                elif r < .8 and not depth: w = rng.choice(("\n", "\n\n", " \n\t"))
                elif r < .9: w = rng.choice(("--[[c]]", " --[[c\n]] " if not depth else "--[[ c]]", "--[==[ ]] ]==]", " --[[]]"))
                elif not depth: w = rng.choice((" --c\n", "--\n", " //c\n", "\n--[[\n]]\n"))
                else: w = " "
                if prev[-1] == "-" and w.startswith("-"): w = " " + w
                if prev in ("/",) and w.startswith("/"): w = " " + w
                if prev[-1] == "[" and w.startswith("["): w = " " + w
        else: w = rng.choice(("", "", "\n", "-- c\n", "--[[x]]"))
        out.append(w); out.append(t); prev = t
    out.append(rng.choice(("", "\n", " ", "\n--c", "--[[c]]\n")))
    return "".join(out)

def program(rng, size=12, **kw):
    g = Gen(rng, size, **kw)
    for n, k in (("num", g.num), ("tab", g.table), ("fn", g.function)):
        if rng.random() < .7:
            v = rng.choice(g.names); 
            if rng.random() < .5 and v not in g.globals and not g.visible_local(v): g.e(v, "="); k(); g.globals[v] = n
            else: g.e("local", v, "="); k(); g.scopes[-1][v] = n
    n = rng.choice((2, 4, 8, size))
    for _ in range(n): g.stmt()
    g.e("printh", "(")
    vs = g.lookup("num")
    g.e(rng.choice(vs) if vs else "0", ")")
    return g.out

def text(rng, size=12, style=None, **kw):
    return layout(program(rng, size, **kw), rng, style)
