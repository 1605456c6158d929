"""random programs of PICO-8's grammar (parsed, never run): every construct in every context, redundant parentheses and
semicolons anywhere. Token lists for luagen.layout."""
from bounded.luagen import NL, OPEN, CLOSE, layout
BIN = "or and < > <= >= ~= != == | ^^ ~ & << >> >>> >>< <<> .. + - * / % \\ ^".split()
BIN += ["^", "..", "and", "or", "-", "+", "*", "^"]
UN = "- - not not ~ # @ % $".split()
NAMES = ["a", "b", "c", "x", "y", "foo", "_t", "n1", "\x83", "e", "bx"]
GLOBALS = ["print", "abs", "g1", "g2"]
NUMS = "0 1 2 10 .5 1.25 0x1f 0xf.8 0b101 3. 32767 32768 65535 65535.5 0xffff.ffff 0x8000 40000".split()
STRS = ["'s'", '"q"', "[[l]]", "[==[m]==]", "''", '"\\n"', "'\\x41'"]

class Gram:
    def __init__(g, rng, names=None, labels=True): g.names_, g.r, g.o, g.loop, g.va, g.short, g.nl, g.labels, g.left = names or NAMES, rng, [], 0, True, 0, 0, labels, 60
    def e(g, *t): g.o.extend(t)
    def p(g, *l): return g.r.choice(l)
    def odds(g, x): g.left -= 1; return g.left > 0 and g.r.random() < x
    def name(g): return g.r.choice(g.names_)
    def names(g, n=3):
        g.e(g.name())
        while g.r.random() < .35 and n: g.e(",", g.name()); n -= 1
    def expr(g, d=0):
        r = g.r.random()
        if d > 5 or g.left < 0: g.prim(d); return
        g.left -= 1
        if r < .3: g.expr(d + 1); g.e(g.r.choice(BIN)); g.expr(d + 1)
        elif r < .42: g.e(g.r.choice(UN)); g.expr(d + 1)
        elif r < .72: g.e("("); g.expr(d + 1); g.e(")")
        else: g.prim(d)
    def prim(g, d):
        r = g.r.random()
        if r < .3: g.e(g.r.choice(NUMS))
        elif r < .37: g.e(g.r.choice(STRS))
        elif r < .42: g.e(g.p("nil", "true", "false"))
        elif r < .48 and g.va: g.e("...")
        elif r < .53 and d < 4: g.table(d)
        elif r < .57 and d < 3 and g.left > 0: g.e("function"); g.func(d)
        else: g.prefix(d)
    def prefix(g, d, want=None):
        """want: assign (ends in a name, member or index), call, None"""
        if g.r.random() < .25 and d < 5 and (want or g.left > 0): g.e("("); g.expr(d + 1); g.e(")"); n = 1 if want else 0
        else: g.e(g.r.choice(g.names_ + GLOBALS)); n = 0
        k = g.r.choice((0, 0, 0, 1, 1, 2)) if d < 5 and g.left > 0 else 0
        if want == "assign" and n and not k: k = 1
        if want == "call" and not k: k = 1
        for i in range(k):
            last = i == k - 1
            if last and want == "call": s = g.p("()", ":")
            elif last and want == "assign": s = g.p(".", "[]")
            else: s = g.p(".", "[]", "()", ":")
            if s == ".": g.e(".", g.name())
            elif s == "[]": g.e("["); g.expr(d + 1); g.e("]")
            elif s == "()": g.args(d)
            else: g.e(":", g.name()); g.args(d)
    def args(g, d):
        r = g.r.random()
        if r < .15: g.e(g.r.choice(STRS))
        elif r < .25 and d < 4: g.table(d)
        elif r < .35: g.e("(", ")")
        else: g.e("("); g.exprs(d + 1); g.e(")")
    def exprs(g, d=1):
        g.expr(d)
        while g.odds(.3): g.e(","); g.expr(d)
    def table(g, d):
        g.e("{")
        n = g.r.choice((0, 1, 1, 2, 3))
        for i in range(n):
            r = g.r.random()
            if r < .25: g.e(g.name(), "="); g.expr(d + 1)
            elif r < .45: g.e("["); g.expr(d + 1); g.e("]", "="); g.expr(d + 1)
            else: g.expr(d + 1)
            if i < n - 1 or g.r.random() < .4: g.e(g.p(",", ",", ";"))
        g.e("}")
    def func(g, d):
        g.e("("); va = g.va; g.va = g.r.random() < .3
        n = g.r.randrange(3)
        ps = [g.name() for _ in range(n)] + (["..."] if g.va else [])
        for i, x in enumerate(ps):
            if i: g.e(",")
            g.e(x)
        g.e(")"); loop = g.loop; g.loop = 0; used, g.used = g.used, []; g.block(d + 2); g.used = used; g.loop = loop; g.va = va; g.e("end")
    def block(g, d, n=None):
        for _ in range(g.r.choice((0, 1, 1, 2)) if n is None else n): g.stmt(d)
        if g.odds(.15):
            g.e("return")
            if g.odds(.7): g.exprs(d + 1)
            if g.r.random() < .3: g.e(";")
        elif g.loop and g.odds(.15): g.e("break")
    def simple(g, d):
        r = g.r.random()
        if r < .15: g.e("local"); g.names(); 
        elif r < .3: g.e("local"); g.names(); g.e("="); g.exprs(d)
        elif r < .55: g.lhs(d); g.e("="); g.exprs(d)
        elif r < .7: g.lhs(d, 1); g.e(g.p("+=", "-=", "*=", "/=", "\\=", "%=", "^=", "..=", "&=", "|=", "^^=", "<<=", ">>=", ">>>=", "<<>=", ">><=")); g.expr(d)
        else: g.begin(lambda: g.prefix(d, "call"))
    def begin(g, f):
        """a statement that may start with a parenthesis"""
        at = len(g.o); f()
        if g.o[at] == "(" and at and g.o[at - 1] not in (NL, OPEN, CLOSE, ";", "do", "then", "else", "repeat"): g.o.insert(at, ";")
        elif g.o[at] == "(": g.o.insert(at, ";")
    def lhs(g, d, n=None):
        def f():
            g.prefix(d, "assign")
            k = g.r.choice((0, 0, 1, 2)) if n is None else 0
            for _ in range(k): g.e(","); g.prefix(d, "assign")
        g.begin(f)
    def stmt(g, d=0):
        g.left -= 1
        r = g.r.random()
        if g.left < 0 or r < .35: g.simple(d)
        elif r < .40: g.e(";")
        elif r < .44 and g.labels: g.goto(d)
        elif r < .45: g.e("do"); g.block(d + 1); g.e("end")
        elif r < .60: g.if_(d)
        elif r < .68: g.while_(d)
        elif r < .73: g.e("repeat"); g.loop += 1; g.block(d + 1); g.loop -= 1; g.e("until"); g.expr(d)
        elif r < .78:
            g.e("for", g.name(), "="); g.expr(d); g.e(","); g.expr(d)
            if g.r.random() < .3: g.e(","); g.expr(d)
            g.e("do"); g.loop += 1; g.block(d + 1); g.loop -= 1; g.e("end")
        elif r < .83: g.e("for"); g.names(); g.e("in"); g.exprs(d); g.e("do"); g.loop += 1; g.block(d + 1); g.loop -= 1; g.e("end")
        elif r < .87: g.e("local", "function", g.name()); g.func(d)
        elif r < .92:
            g.e("function", g.name())
            while g.r.random() < .3: g.e(".", g.name())
            if g.r.random() < .3: g.e(":", g.name())
            g.func(d)
        elif r < .96 and not g.short:
            g.e(OPEN, "?"); g.short += 1; g.exprs(d + 2); g.short -= 1; g.e(CLOSE, NL)
        else: g.e("print", "("); g.exprs(d); g.e(")")
    def goto(g, d):
        """a label and jumps to it (labels of different blocks may have the same name; those of one function differ)"""
        l = g.r.choice([n for n in g.names_ if n not in g.used]) if any(n not in g.used for n in g.names_) else None
        if not l: return g.e(";")
        g.used.append(l)
        g.e("do")
        if g.r.random() < .5: g.e("::", l, "::"); g.block(d + 1, 1); g.e("if"); g.expr(4); g.e("then", "goto", l, "end")
        else: g.e("do"); g.simple(d + 2); g.e("goto", l, "end", "do"); g.block(d + 1, 1); g.e("end", "::", l, "::")
        g.e("end")
        if g.r.random() < .4: g.used.remove(l) # (a disjoint block may use it again)
    used = ()
    def if_(g, d):
        if not g.short and g.r.random() < .35:
            g.e("if", OPEN); g.cond(d); g.short += 1; g.sbody(d)
            if g.r.random() < .4: g.e("else"); g.sbody(d)
            g.short -= 1; g.e(CLOSE, NL); return
        g.e("if"); g.expr(d); g.e("then"); g.block(d + 1)
        while g.odds(.25): g.e("elseif"); g.expr(d); g.e("then"); g.block(d + 1)
        if g.odds(.4): g.e("else"); g.block(d + 1)
        g.e("end")
    def while_(g, d):
        g.loop += 1
        if not g.short and g.r.random() < .35: g.e("while", OPEN); g.cond(d); g.short += 1; g.sbody(d); g.short -= 1; g.e(CLOSE, NL)
        else: g.e("while"); g.expr(d); g.e("do"); g.block(d + 1); g.e("end")
        g.loop -= 1
    def cond(g, d): g.short += 1; g.e("("); g.expr(d); g.e(")"); g.short -= 1
    def sbody(g, d):
        at = len(g.o)
        for _ in range(g.r.choice((1, 1, 2))):
            if g.loop and g.r.random() < .1: g.e("break"); break
            g.simple(d + 2)

def program(rng, size=None, **kw):
    g = Gram(rng, **kw); g.left = size or rng.choice((15, 30, 60)); g.used = []
    for _ in range(rng.choice((1, 2, 3))): g.stmt()
    return g.o
def text(rng, size=None, style=None, **kw): return layout(program(rng, size, **kw), rng, style)
