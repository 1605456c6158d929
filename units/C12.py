"""C12 contracts: removal of parentheses (complete case analysis over what is in and what is around them), the precedence the
parser uses, replaced and removed tokens, one-line shorthands made and unmade, what may become one. Oracle: the operator
precedence and the statement forms of the Lua 5.2 and PICO-8 manuals, written here independently of the tool's tables."""
from pyver.unit import unit
from pyver.duck import Duck
class G: pass
PREC = {"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "!=": 3, "==": 3, "|": 4, "~": 5, "^^": 5, "&": 6,
        "<<": 7, ">>": 7, ">>>": 7, "<<>": 7, ">><": 7, "..": 8, "+": 9, "-": 9, "*": 10, "/": 10, "\\": 10, "//": 10, "%": 10, "^": 12}
RIGHT = ("^", ".."); UPREC = 11; UNARY = ("-", "~", "not", "#", "@", "%", "$", "*")
P8_ONLY = (">>>", ">><", "<<>"); PT_ONLY = ("//",); PT_UNARY = ("*",)
def mods():
    import pico_process, pico_parse, pico_minify, pico_tokenize, pico_defs
    return pico_parse, pico_minify, pico_tokenize, pico_defs

class N(Duck):
    """a syntax node or token of which only what is given is known"""
    short = False; parent = None; else_ = None; value = None; children = ()
    def __init__(m, type, **k): m.type = type; m.__dict__.update(k)
    def move(m): m.moved = True; return m
    def replace_with(m, o, *a):
        G.replaced.append((m, o))
        p = m.parent; m.__dict__ = dict(o.__dict__); m.parent = p
        m.type = G.done             # (the rest of the loop is the same step again)
class Seq:
    """any number of expressions, with 'node' the last of them, one before the last, or none of them"""
    __pv_sym__ = True
    def __init__(m, n, node, where): m.n, m.node, m.where, m.other = n, node, where, object()
    def __bool__(m): return bool(m.n > 0)
    def __len__(m): return m.n
    def pv_len(m): return m.n
    def __getitem__(m, i):
        if isinstance(i, slice):
            assert i.start is None and i.stop == -1 and i.step is None
            return Seq(m.n - 1, m.node, "last" if m.where == "before" else None)
        assert i == -1
        return m.node if m.where == "last" else m.other
    def __contains__(m, x): return x is m.node and m.where is not None
    def __iter__(m): raise TypeError("Sym: iterates a list of any length")

class Root(Duck):
    """a program: the visitors it is traversed with are called by the unit"""
    has_env = False
    def __init__(m): m.calls = []
    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False): m.calls.append((pre, post, tokens))
def visitors(ctx, focus, new_shorts=None, allowed=(), version=43, lang=None, **opts):
    """the real visitors of minify_code (closures of one call of it)"""
    pp, pm, pt, pd = mods()
    from utils import Dynamic
    ctx.contract("pico_minify", "analyze_code_for_minify", lambda *a: Dynamic(new_shorts=new_shorts or {}, allowed_shorts=set(allowed)))
    root = Root()
    if not ctx.symbolic and (new_shorts is not None):
        real = pm.analyze_code_for_minify
        pm.analyze_code_for_minify = lambda *a: Dynamic(new_shorts=new_shorts, allowed_shorts=set(allowed))
        try: pm.minify_code(Dynamic(version=version, lang=lang or pd.Language.pico8), root, {"focus": focus, **opts})
        finally: pm.analyze_code_for_minify = real
    else: pm.minify_code(Dynamic(version=version, lang=lang or pd.Language.pico8, builtins_with_callbacks=set()), root, {"focus": focus, **opts})
    return root.calls[-1]

# ---- precedence

@unit("C12", params=[True, False])
def operators(ctx, p8):
    """the operators, their precedence and associativity, as both the parser and the minifier read them, for every pair of them"""
    pp, pm, pt, pd = mods()
    lang = pd.Language.pico8 if p8 else pd.Language.picotron
    T = pp.NodeType
    ctx.prove("the binary operators", set(pp.k_binary_op_precs) == set(PREC))
    ctx.prove("the unary operators", set(pp.k_unary_ops) == set(UNARY))
    for a in sorted(PREC):
        for b in sorted(PREC):
            for u in UNARY: pair(ctx, pp, p8, lang, a, b, u)
    for t in (T.var, T.const, T.group, T.call, T.index, T.member, T.table, T.function, T.varargs): ctx.prove("other expressions have none", pp.get_precedence(N(t)) is None)
def pair(ctx, pp, p8, lang, a, b, u):
    T = pp.NodeType
    n, k, u = N(T.binary_op, op=a), N(T.binary_op, op=b), N(T.unary_op, op=u)
    pa, pb, pu = pp.get_precedence(n), pp.get_precedence(k), pp.get_precedence(u)
    ctx.prove("binary operators are ordered as in the manual", (pa < pb) == (PREC[a] < PREC[b]) and (pa == pb) == (PREC[a] == PREC[b]))
    ctx.prove("and between them the unary ones", (pu < pa) == (UPREC < PREC[a]) and (pu > pa) == (UPREC > PREC[a]) and pu == pp.k_unary_ops_prec)
    ctx.prove("associativity", bool(pp.is_right_assoc(n)) == (a in RIGHT) and not pp.is_right_assoc(u))
    only = pp.k_binary_op_langs.get(a, lang) == lang
    ctx.prove("which operators a language has", only == (a not in (PT_ONLY if p8 else P8_ONLY)))
    ctx.prove("which unary operators a language has", (pp.k_unary_op_langs.get(u.op, lang) == lang) == (not p8 or u.op not in PT_UNARY))

# ---- the parser's expression loop

class ExprLoop:
    """parse_expr's loop: at its head, 'expr' is any expression that has been read"""
    active = False; keep = ("prec", "expr", "idx"); extra = ("expr",)
    def enter(m, lr, env, names):
        G.ctx.prove("reads an operand first", env["expr"] is G.first)
        G.expr = N(G.etype); G.expr.short = False
        return {"expr": G.expr}
    def end(m, lr, env):
        G.ctx.prove("an operator is taken only if it binds here", G.binds)
        x = env["expr"]
        G.ctx.prove("with the expression so far as its left side, and what binds tighter as its right", x.type == G.T.binary_op and x.left is G.expr and x.right is G.right and x.op == G.op and x.children[0] is G.expr and x.children[2] is G.right)
        G.ctx.prove("the right side is what binds tighter than the operator (or as much, if it associates to the right)", len(G.rec) == 1 and G.rec[0] == G.pp.k_binary_op_precs[G.op])
        G.ended = True
EL = ExprLoop()
@unit("C12", params=[True, False], loops={("pico_parse", "parse.parse_expr", 0): EL})
def expression(ctx, p8):
    """parse_expr: whatever has been read, the next binary operator is taken exactly if it binds tighter than the context
    (as tightly, for right associative ones), with a right side of what binds tighter still: Lua's grouping, by induction over the text"""
    if not ctx.symbolic: concrete_expression(ctx); return
    pp, pm, pt, pd = mods()
    G.ctx, G.pp, G.T = ctx, pp, pp.NodeType
    from pyver import hooks
    lang = pd.Language.pico8 if p8 else pd.Language.picotron
    K = pt.TokenType
    G.op = op = ctx.choose(sorted(PREC), "op"); outer = ctx.choose([None, UPREC] + sorted(PREC), "outer")
    G.etype = ctx.choose([G.T.var, G.T.const, G.T.binary_op], "etype")
    import pico_process
    src = pico_process.Source("x", "(((((((((")
    toks = [pt.Token(K.punct, op, src, 0, 1, 0, lang), pt.Token(K.ident, "a", src, 1, 2, 0, lang)]
    class Stop(Exception): pass
    def core(): G.first = N(G.etype); return G.first
    ctx.contract("pico_parse", "parse.parse_core_expr", core)
    def rec(p=None):
        if G.probe is None: G.probe = True; raise Stop()
        G.rec.append(p); return G.right
    ctx.contract("pico_parse", "parse.parse_expr", rec)
    G.probe = None
    try: pp.parse(src, toks, None, lang=lang, for_expr=True)
    except Stop: pass
    ctx.prove("expressions are read by parse_expr", G.probe is True)
    expr = hooks.INNER["parse.parse_expr"]
    prec = None if outer is None else pp.k_unary_ops_prec if outer is UPREC else pp.k_binary_op_precs[outer]
    lim = 0 if outer is None else UPREC if outer is UPREC else PREC[outer] - (.5 if outer in RIGHT else 0)
    G.binds = PREC[op] > lim and op not in (PT_ONLY if p8 else P8_ONLY)
    G.rec, G.right, G.ended = [], N(G.T.var), False
    EL.active = True
    try: r = expr(prec)
    finally: EL.active = False
    ctx.prove("an operator that binds here is not left behind", not G.binds)
    ctx.prove("the expression ends there, as it was read", r is G.expr and not G.rec)
    ctx.cover("operators end expressions")
def concrete_expression(ctx):
    """bounded stand-in: three operators in a row"""
    pp, pm, pt, pd = mods()
    import pico_process
    ops = [ctx.choose(sorted(set(PREC) - {"//"}), f"o{i}") for i in range(3)]; un = [ctx.choose(["", "", "- ", "not ", "# "], f"u{i}") for i in range(4)]
    text = " ".join(un[i] + "abcd"[i] + (" " + ops[i] if i < 3 else "") for i in range(4))
    want = ref(text.split())
    root, errs = pp.parse(*(lambda s: (s, pt.tokenize(s)[0]))(pico_process.Source("x", "x=" + text)), pico_process.PicoContext())
    got = show(root.children[0].children[0].sources[0] if root.children[0].type != pp.NodeType.assign else root.children[0].sources[0], pp)
    ctx.prove("grouping of three operators", not errs and got == want, (text, got, want))
def ref(ts):
    def expr(lim):
        t = ts.pop(0)
        e = ("u", t, expr(UPREC)) if t in UNARY else t
        while ts and PREC[ts[0]] > lim:
            o = ts.pop(0); e = ("b", o, e, expr(PREC[o] - (1 if o in RIGHT else 0)))
        return e
    return expr(0)
def show(n, pp):
    if n.type == pp.NodeType.binary_op: return ("b", n.op, show(n.left, pp), show(n.right, pp))
    if n.type == pp.NodeType.unary_op: return ("u", n.op, show(n.child, pp))
    return n.name

# ---- parentheses

OUTER = ["binary-left", "binary-right", "unary", "index-of", "index-key", "member-of", "call-of", "call-arg", "group", "table_member", "table_index", "op_assign", "assign", "local", "for_in", "return_", "table",
         "if_", "elseif", "while_", "until", "for_", "other"]
@unit("C12", params=OUTER, limit=200)
def groups(ctx, where):
    """a pair of parentheses, whatever is in it and around it, is removed only if the text groups the same without it, and yields
    as many values; the expression takes the parentheses' place"""
    pp, pm, pt, pd = mods(); T = pp.NodeType; K = pt.TokenType
    kind = ctx.choose(["binary", "unary", "number", "string", "constant", "group", "var", "index", "member", "call", "varargs", "table", "function"], "inner")
    p8 = ctx.choose([True, False], "pico8") if kind == "number" else True; lang = pd.Language.pico8 if p8 else pd.Language.picotron
    focus = ctx.choose([(), ("tokens",), ("chars",)], "focus") if kind == "number" else ()
    pre, post, tokens = visitors(ctx, list(focus), lang=lang)
    if kind == "number" and where.startswith("binary"): oops = [ctx.choose(sorted(PREC), "oop")]
    else: oops = sorted(PREC) if where.startswith("binary") else [None]
    for oop in oops:
        for iop in (sorted(PREC) if kind == "binary" else UNARY if kind == "unary" else [None]): group_case(ctx, where, pre, kind, iop, oop, p8)
def group_case(ctx, where, pre, kind, iop, oop, p8):
    pp, pm, pt, pd = mods(); T = pp.NodeType; K = pt.TokenType
    G.replaced = []; G.done = T.var
    if kind == "binary": inner = N(T.binary_op, op=iop)
    elif kind == "unary": inner = N(T.unary_op, op=iop)
    elif kind in ("number", "string", "constant"):
        tok = N({"number": K.number, "string": K.string, "constant": K.keyword}[kind])
        if kind == "number": tok.parsed_value = ctx.int("value", 0, 0xffffffff) if p8 else ctx.choose([-1, 0, 1, -0.0, 0.5, -2.5, 1 << 63, -(1 << 63)], "value")
        inner = N(T.const, token=tok)
    else: inner = N(getattr(T, kind))
    inner.child = N(T.var)
    node = N(T.group, child=inner); inner.parent = node
    pos, n, nt = "last", 1, 1
    if where in ("call-arg", "assign", "local", "for_in", "return_", "table", "table_index"):
        pos = ctx.choose(["last", "before"], "pos"); n = ctx.int("n", 1 if pos == "last" else 2, 1 << 20); nt = ctx.int("targets", 1, 1 << 20)
    seq = Seq(n, node, pos)
    if where.startswith("binary"):
        other = N(T.var)
        outer = N(T.binary_op, op=oop, left=node if where == "binary-left" else other, right=node if where == "binary-right" else other)
    elif where == "unary": outer = N(T.unary_op, op=ctx.choose(UNARY, "oop"), child=node)
    elif where == "index-of": outer = N(T.index, child=node, key=N(T.var))
    elif where == "index-key": outer = N(T.index, child=N(T.var), key=node)
    elif where == "member-of": outer = N(T.member, child=node, key=N(T.var))
    elif where == "call-of": outer = N(T.call, func=node, args=Seq(n, None, None), short=False)
    elif where == "call-arg": outer = N(T.call, func=N(T.var), args=seq, short=ctx.choose([False, True, pp.k_nested], "short"))
    elif where == "group": outer = N(T.group, child=node)
    elif where in ("table_member", "table_index"): outer = N(getattr(T, where), key=node if where == "table_index" and pos == "last" else N(T.var), value=node)
    elif where == "op_assign": outer = N(T.op_assign, target=N(T.var), source=node)
    elif where in ("assign", "local", "for_in"): outer = N(getattr(T, where), sources=seq, targets=Seq(nt, None, None))
    elif where in ("return_", "table"): outer = N(getattr(T, where), items=seq)
    elif where in ("if_", "elseif", "while_", "until", "for_"): outer = N(getattr(T, where), cond=node, min=node, short=ctx.choose([False, True, pp.k_nested], "short") if where in ("if_", "while_") else False)
    else: outer = N(ctx.choose([T.block, T.do, T.function, T.repeat, T.const, T.goto, T.label, T.else_], "other"))
    node.parent = outer
    pre(node)
    # what the language allows
    many = kind in ("call", "varargs"); prefix = kind in ("group", "var", "index", "member", "call")
    if where.startswith("binary") or where == "unary":
        lim = UPREC if where == "unary" else PREC[oop]
        ok = True
        if kind in ("binary", "unary"):
            ip = PREC[iop] if kind == "binary" else UPREC
            if where == "unary": ok = ip >= UPREC
            elif where == "binary-left": ok = ip > lim or (ip == lim and oop not in RIGHT)
            else: ok = ip > lim or (ip == lim and oop in RIGHT) or kind == "unary"
    elif where in ("index-of", "member-of", "call-of"): ok = prefix
    elif where in ("index-key", "group", "table_member", "table_index", "op_assign"): ok = True
    elif where in ("call-arg", "return_", "table"): ok = pos == "before" or not many
    elif where in ("assign", "local"): ok = pos == "before" or not many or n >= nt
    elif where == "for_in": ok = pos == "before" or not many or n >= 3
    elif where in ("if_", "elseif", "while_", "until", "for_"): ok = not outer.short
    else: ok = False
    if G.replaced:
        ctx.prove("parentheses are removed only where they change nothing", ok, (where, kind, pos))
        (a, b), = G.replaced
        ctx.prove("what was in them takes their place", a is node and b is inner and a.parent is outer)
    else: ctx.prove("nothing else is done", node.type == T.group and node.child is inner)

@unit("C12")
def signed_constants(ctx):
    """can_replace_with_unary: a number is printed with a sign only in a place for an operand of at least a unary operator's precedence"""
    pp, pm, pt, pd = mods(); T = pp.NodeType
    node = N(T.const)
    where = ctx.choose(["none", "left", "right", "unary", "other"], "where")
    op = ctx.choose(sorted(PREC), "op")
    if where == "none": node.parent = None
    elif where in ("left", "right"): node.parent = N(T.binary_op, op=op, left=node if where == "left" else N(T.var), right=node if where == "right" else N(T.var))
    elif where == "unary": node.parent = N(T.unary_op, op=ctx.choose(UNARY, "u"), child=node)
    else: node.parent = N(ctx.choose([T.group, T.index, T.call, T.table, T.assign, T.return_, T.if_, T.table_member], "t"))
    r = pp.can_replace_with_unary(node)
    ctx.prove("never as the left side of a tighter operator", not r or where != "left" or PREC[op] < UPREC)
    ctx.prove("elsewhere, if that groups the same", not (r is False and where in ("none", "other")))

# ---- tokens

WORDS = sorted(set(PREC) | set(UNARY)) + list("()[]{},;:.?=") + ["::", "...", "+=", "-=", "\\=", "//=", "^^=", "and", "break", "do", "else", "elseif", "end", "false", "for", "function", "goto", "if", "in", "local", "nil", "not", "or", "repeat", "return", "then", "true", "until", "while", "x", "print"]
class Tk(N):
    def modify(m, v, expected=None): G.log.append(("modify", m, v)); m.value = v
    def erase(m, expected=None): G.log.append(("erase", m, m.value)); m.type = m.value = None
    def next_token(m): return m.next
    def next_sibling(m): return m.sibling
class Parent(N):
    def insert_token(m, i, type, value, near_next=False): G.log.append(("insert", m, (i, value)))
    def append_token(m, type, value, near_next=False): G.log.append(("append", m, value))
    def erase_token(m, i, expected=None): G.log.append(("erase-child", m, (i, expected)))
    def get_tokens(m): return G.tokens
@unit("C12", params=["block", "table", "call", "other"], limit=200)
def words(ctx, where):
    """fixup_tokens: of all keywords, names and operators, anywhere, only these are changed or dropped: ; where no call follows and no
    one-line body needs it, the last separator of a table, the parentheses around one string or table, and != ^^ // then by their synonyms"""
    pp, pm, pt, pd = mods(); T = pp.NodeType; K = pt.TokenType
    p8 = ctx.choose([True, False], "pico8"); lang = pd.Language.pico8 if p8 else pd.Language.picotron
    version = ctx.choose([36, 37, 41, 42, 43], "version"); on = ctx.choose([True, False], "tokens")
    pre, post, fix = visitors(ctx, [], version=version, lang=lang, tokens=on)
    special = {"block": (";",), "table": (",", ";"), "call": ("(",)}.get(where, ())
    if ctx.choose([True, False], "special word") and special:
        v = ctx.choose(special, "word")
        if where != "block": word(ctx, where, p8, version, on, fix, v); return
        T = pp.NodeType; depth = ctx.choose([0, 1, 2], "depth")                # (blocks directly in blocks)
        for owner in (T.if_, T.else_, T.while_, T.function, T.do, None):
            for short in (False, True, pp.k_nested):
                for first in (True, False):
                    for rest in ("only", "do", "more"): word(ctx, where, p8, version, on, fix, v, (depth, owner, short, first, rest))
    else:
        for v in WORDS:
            if v not in special: word(ctx, where, p8, version, on, fix, v)
def word(ctx, where, p8, version, on, fix, v, body=None):
    pp, pm, pt, pd = mods(); T = pp.NodeType; K = pt.TokenType
    special = v in {"block": (";",), "table": (",", ";"), "call": ("(",)}.get(where, ())
    G.log = []
    parent = Parent({"block": T.block, "table": T.table, "call": T.call, "other": T.assign}[where])
    tok = Tk(K.punct, value=v, parent=parent)
    tok.next = Tk(K.punct, value=ctx.choose(["(", "x", "end", "do", None], "next")) if special else Tk(K.ident, value="x")
    tok.sibling = Tk(K.punct, value=ctx.choose(["}", "x"], "sibling")) if special and where == "table" else Tk(K.ident, value="x")
    filler = False; one = False
    if where == "block" and special:
        depth, kindp, short, first, one = body
        b = parent
        for _ in range(depth): b.parent = Parent(T.block); b = b.parent
        if kindp is not None:
            b.parent = Parent(kindp, short=short)
            G.tokens = ([tok] if first else [Tk(K.punct, value="y"), tok]) + ({"only": [], "do": [Tk(K.keyword, value="do")], "more": [Tk(K.ident, value="z")]}[one])
            filler = bool(b.parent.short) and kindp in (T.if_, T.else_, T.while_) and first and one in ("only", "do")
    if where == "call" and special:
        n = ctx.choose([0, 1, 2], "args"); a = ctx.choose(["table", "string", "number", "other"], "arg")
        arg = N(T.table) if a == "table" else N(T.const, token=N(K.string if a == "string" else K.number)) if a != "other" else N(T.call)
        parent.args = [arg] * n; one = n == 1 and a in ("table", "string")
    fix(tok)
    log = G.log
    if not on: ctx.prove("nothing, if tokens are to be kept", not log); return
    if v == ";" and where == "block":
        ctx.prove("; is kept before a parenthesis and where a one-line body needs it", not log or (log == [("erase", tok, ";")] and not filler and tok.next.value != "("))
    elif v in (",", ";") and where == "table":
        ctx.prove("a separator is dropped only at the table's end; ; may become ,", log == ([("erase", tok, v)] if tok.sibling.value == "}" else [("modify", tok, ",")] if v == ";" else []) or log == [])
    elif v == "(" and where == "call":
        ctx.prove("a call's parentheses are dropped (both) only around one string or table", log == [] or (one is True and sorted(log, key=lambda q: q[0]) == [("erase", tok, "("), ("erase-child", parent, (-1, ")"))]))
    else:
        same = {"!=": ["~="]}
        if p8 and version >= 42: same["then"] = ["do"]
        if version >= 37: same["^^"] = ["~"]
        if not p8: same["//"] = ["\\"]; same["//="] = ["\\="]
        ctx.prove("replaced by a synonym or kept", log == [] or (len(log) == 1 and log[0][:2] == ("modify", tok) and log[0][2] in same.get(v, [])), (v, log))

@unit("C12", params=["number", "string"])
def literals(ctx, what):
    """fixup_tokens: a number or string is replaced by a text of the same value (formatters by contract, C08 and C09), a sign only where it
    binds to the number; signs become tokens of their own"""
    if not ctx.symbolic: ctx.prove("checked by the suites", True); return
    pp, pm, pt, pd = mods(); T = pp.NodeType; K = pt.TokenType
    p8 = ctx.choose([True, False], "pico8"); lang = pd.Language.pico8 if p8 else pd.Language.picotron
    on = ctx.choose([True, False], "tokens")
    pre, post, fix = visitors(ctx, [], lang=lang, tokens=on)
    G.log = []; value = object(); parent = Parent(T.const); allow = ctx.choose([True, False], "unary allowed")
    text = ctx.choose(["5", "-5", "~5", "(-5.5)"], "text") if what == "number" else "'s'"
    orig = ctx.choose(["7", "-7", "~7"], "orig") if what == "number" else "'t'"
    tok = Tk(K.number if what == "number" else K.string, value=orig, parsed_value=value, parent=parent)
    tok.next = tok.sibling = Tk(K.ident, value="x")
    def fmt(v, sign=None, **k):
        ctx.prove("its value is written", v is value and not k)
        ctx.prove("with a sign only where that groups the same", allow or sign == "")
        G.fmt = True
        if sign == "": ctx.assume(text[0] not in "-~" )
        return text
    def other(*a, **k): ctx.prove("in its own language", False)
    ctx.contract("pico_output", "format_fixnum", fmt if p8 else other); ctx.contract("pico_output", "format_luanum", other if p8 else fmt)
    ctx.contract("pico_parse", "can_replace_with_unary", lambda n: (ctx.prove("of this number", n is parent), allow)[1])
    def strlit(c, t, f, value=None): ctx.prove("its value is written", t is tok and value is None); return text
    ctx.contract("pico_minify", "minify_string_literal", strlit)
    fix(tok)
    final = text if on else orig
    ins = [x for k, m, x in G.log if k == "insert" and m is parent]; app = [x for k, m, x in G.log if k == "append" and m is parent]
    ctx.prove("nothing else is done", all(k in ("insert", "append") and m is parent or k == "modify" and m is tok for k, m, x in G.log))
    if what == "string": ctx.prove("the string's text", tok.value == final and not ins + app); return
    whole = "".join(x for i, x in sorted(ins)) + tok.value + "".join(app)
    ctx.prove("the tokens spell the number", whole == final and [i for i, x in ins] == list(range(len(ins))))
    ctx.prove("one token each", all(len(x) == 1 for i, x in ins) and tok.value[0] not in "-~(")

# ---- one-line shorthands

def spell(pt, node):
    """the tokens of a subtree, opaque parts as one item"""
    out = []
    for c in node.children:
        if isinstance(c, pt.Token):
            if c.value is not None: out.append(c.value)
        elif getattr(c, "opaque", None): out.append(c.opaque)
        else: out += spell(pt, c)
    return out
def tree(ctx, pp, pt, pd, kind, short, has_else, empty, lines):
    """an if or while statement of opaque condition and bodies"""
    import pico_process
    T, K = pp.NodeType, pt.TokenType
    src = pico_process.Source("x", "x" * 99); n = [0]
    def tok(v, type=K.keyword):
        n[0] += 2
        return pt.Token(type, v, src, n[0], n[0] + 1, n[0] if lines else 0, pd.Language.pico8)
    def opaque(name, type): return pp.Node(type, [tok(name, K.ident)], opaque=name)
    def body(name): return pp.Node(T.block, [] if empty else [opaque(name, T.call)], stmts=[])
    def cond():
        c = opaque("COND", T.binary_op)
        if not short: return c
        return pp.Node(T.group, [tok("("), c, tok(")")], child=c)
    word = tok("if" if kind == "if" else "while"); c = cond(); kids = [word, c]
    if not short: kids.append(tok("then" if kind == "if" else "do"))
    b = body("BODY"); kids.append(b); els = None
    if has_else:
        et = tok("else"); eb = body("ELSE")
        els = pp.Node(T.else_, [et, eb] + ([] if short else [tok("end")]), body=eb, short=short)
        kids.append(els)
    elif not short: kids.append(tok("end"))
    node = pp.Node(T.if_ if kind == "if" else T.while_, kids, cond=c, else_=els, short=short, **({"then": b} if kind == "if" else {"body": b}))
    outer = pp.Node(T.block, [tok("before", K.ident), node, tok("after", K.ident)])
    return node, outer
@unit("C12")
def shorthand_forms(ctx):
    """minify_change_block_shorthand: any if or while, with or without else: keyword, condition in parentheses, bodies, all on one line, and back"""
    pp, pm, pt, pd = mods(); T = pp.NodeType
    for kind, has_else in (("if", False), ("if", True), ("while", False)):
        for empty in (False, True):
            for lines in (False, True):
                node, outer = tree(ctx, pp, pt, pd, kind, False, has_else, empty, lines)
                cond = node.cond
                pm.minify_change_block_shorthand(node, True)
                b = [";"] if empty else ["BODY"]; e = ["else"] + ([";"] if empty else ["ELSE"]) if has_else else []
                ctx.prove("the one-line form", spell(pt, node) == [kind, "(", "COND", ")"] + b + e and bool(node.short) and spell(pt, outer) == ["before"] + spell(pt, node) + ["after"])
                ctx.prove("whose condition is a group of the condition", node.cond.type == T.group and node.cond.child.opaque == "COND" and node.children[1] is node.cond)
                vl = []; node.traverse_tokens(lambda t: vl.append(t.vline))
                ctx.prove("all on the statement's line", len(set(vl)) == 1 and len(vl) == len(spell(pt, node)) and node.short is True)
                if has_else: ctx.prove("the else too", bool(node.else_.short))
                if empty: continue
                node, outer = tree(ctx, pp, pt, pd, kind, True, has_else, empty, lines)
                pm.minify_change_block_shorthand(node, False)
                e = ["else", "ELSE"] if has_else else []
                ctx.prove("the long form", spell(pt, node) == [kind, "(", "COND", ")", "then" if kind == "if" else "do", "BODY"] + e + ["end"] and not node.short)
                if has_else: ctx.prove("the else too", not node.else_.short)

@unit("C12")
def print_form(ctx):
    """minify_change_print_shorthand: ? and the arguments, on one line; without the call's parentheses"""
    pp, pm, pt, pd = mods(); T, K = pp.NodeType, pt.TokenType
    import pico_process
    for n in (0, 1, 2, 5):
        for form in ("paren", "string"):
            if form == "string" and n != 1: continue
            src = pico_process.Source("x", "x" * 99); k = [0]
            def tok(v, type=K.punct):
                k[0] += 2
                return pt.Token(type, v, src, k[0], k[0] + 1, k[0], pd.Language.pico8)
            func = pp.Node(T.var, [tok("print", K.ident)], name="print", var=pp.Global("print"), kind=pp.VarKind.global_)
            kids = [func]; args = []
            if form == "paren": kids.append(tok("("))
            for i in range(n):
                if i: kids.append(tok(","))
                a = pp.Node(T.call, [tok(f"A{i}", K.ident)], opaque=f"A{i}"); kids.append(a); args.append(a)
            if form == "paren": kids.append(tok(")"))
            node = pp.Node(T.call, kids, func=func, args=args)
            outer = pp.Node(T.block, [tok("before"), node, tok("after")])
            pm.minify_change_print_shorthand(node, True)
            want = []
            for i in range(n): want += ([","] if i else []) + [f"A{i}"]
            ctx.prove("? and the arguments", spell(pt, node) == ["?"] + want and node.short is True and node.args is args)
            vl = []; node.traverse_tokens(lambda t: vl.append(t.vline))
            ctx.prove("all on one line", len(set(vl)) == 1)
            ctx.prove("the variable is known to be used without being named", func.var.implicit is True)

class A(N):
    """a statement, expression or body; what is in or around it that matters: at most one (arbitrary) other shorthand"""
    def traverse_parents(m, visit):
        for p in m.ups: visit(p)
    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
        for c in m.inside: post(c)
        post(m)
    def get_tokens(m): return m.toks
    def first_token(m): return m.toks[0] if m.toks else m.after
    def next_token(m): return m.after
class Tok2(N):
    def next_token(m): return m.after
def chain(words, after):
    out = []
    for w in reversed(words):
        after = Tok2(0, value=w, after=after); out.append(after)
    return out[::-1]
@unit("C12", params=[("if", "child"), ("if", "parent"), ("while", "child"), ("while", "parent")])
def may_be_short(ctx, p):
    """analyze_code_for_minify: an if or while becomes a one-line shorthand only if its body can begin one (neither a parenthesis, which
    would call the condition, nor a do), has no elseif, and every shorthand in or around it ends with it, its else its own"""
    kind, rel = p
    pp, pm, pt, pd = mods(); T = pp.NodeType
    from utils import Dynamic
    version = ctx.choose([41, 43], "version")
    root = Root()
    focus = pm.Focus(ctx.choose([[], ["chars"]], "focus"))
    END = Tok2(0, value="end", after=None); OTHER = Tok2(0, value="z", after=None)
    start = ctx.choose([(), (";",), ("(",), ("do",), ("x",), (";", "do"), (";", ";", "do"), (";", "x"), (";", "(")], "start")
    els = ctx.choose(["none", "else", "elseif"], "else") if kind == "if" else "none"
    in_else = els == "else" and ctx.choose([False, True], "in else")
    node = A(T.if_ if kind == "if" else T.while_, short=ctx.choose([False, True], "already"), ups=[], inside=[], after=END)
    body = A(T.block, toks=chain(start, END), after=END, inside=[], parent=node); node.cond = A(T.var, toks=[], after=OTHER, inside=[])
    other = None; elsebody = None
    if kind == "if": node.then = body
    else: node.body = body
    if els == "else": elsebody = A(T.block, toks=chain(("y",), END), after=END, inside=[], parent=node); node.else_ = A(T.else_, body=elsebody)
    if els == "elseif": node.else_ = A(T.elseif, then=A(T.block, toks=chain(("y",), END), after=END, inside=[]), else_=None)
    analysis_add = None
    okind = ctx.choose([None, "if", "if-else", "while", "call"], "other"); oshort = True
    ends = ctx.choose([True, False], "ends with it")
    ok_nest = True
    if okind:
        ot = {"if": T.if_, "if-else": T.if_, "while": T.while_, "call": T.call}[okind]
        other = A(ot, short=True, else_=A(T.else_) if okind == "if-else" else None)
        if rel == "child":
            other.after = END if ends else OTHER
            (elsebody if in_else else body).inside.append(other)
            ok_nest = version >= 42 and ends and not (els != "none" and not in_else and okind != "if-else")
        else:
            # an outer shorthand: the statement is in a body of it
            pb = A(T.block, after=END if ends else OTHER, toks=[], inside=[]); other.then = pb if ctx.choose([True, False], "in its then") else object(); other.cond = None
            node.ups = [pb, other]
            ok_nest = version >= 42 and ends and not (okind == "if-else" and other.then is pb and els == "none")
    r = None
    class R(Root):
        def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False): post(node)
    r = pm.analyze_code_for_minify(R(), focus, Dynamic(version=version), True)
    became = node in r.allowed_shorts
    first = start[0] if start else "end"; rest = [w for w in start if w != ";"]
    if became:
        ctx.prove("was not one, and has no elseif", not node.short and els != "elseif")
        ctx.prove("its body does not begin with a parenthesis or a do block", first != "(" and not (rest and rest[0] == "do"))
        ctx.prove("shorthands in it and around it end with it, with their own else", ok_nest, (p, okind, ends, els, in_else))

# ---- merging of neighbouring declarations or assignments

class Stmt(Duck):
    """prev or next: what it consists of, and what is done to it"""
    name = None
    def __init__(m, type, targets, sources):
        m.type, m.targets, m.sources, m.erased = type, targets, sources, 0
        m.children = list(m.list(targets)) + (["="] + m.list(sources) if sources else [])
    @staticmethod
    def list(l): return [x for k, e in enumerate(l) for x in ([","] if k else []) + [e]]
    def first_token(m): return m.first
    def insert_token(m, i, type, value): m.children.insert(i, value)
    def append_token(m, type, value): m.children.append(value)
    def insert_existing(m, i, e): m.children.insert(i, e)
    def erase(m): m.erased += 1
class Part(Duck):
    """an expression or target; 'reads' and 'trivial' are decided when they are asked for"""
    name = None
    def __init__(m, kind): m.kind_ = kind; m.reads = None; m.checked = []
def merged_programs(ctx):
    """stand-in: random programs of neighbouring declarations and assignments, run before and after (the suite)"""
    import random
    from bounded import C12
    class A:
        def case(m, *a): pass
        def check(m, c, name, detail=""): ctx.prove(name, c, detail)
    for k in range(20): C12.merging(random.Random(ctx.int("seed%d" % k, 0, 1 << 30)), 0, A())
def targets_and_values(ctx, merge):
    pp, pm, pt, pd = mods(); T, K = pp.NodeType, pp.VarKind
    G.lastvars = None
    ctx.contract("pico_parse", "is_vararg_expr", lambda n: n.many)
    def contains(n, vars):
        for v in G.tvars: ctx.prove("asks whether it has any of the variables assigned before", v in vars)
        if n.reads is None: n.reads = ctx.choose([False, True], "reads them")
        return n.reads
    ctx.contract("pico_minify", "node_contains_vars", contains)
    def trivial(n, c, safe, allow_member=True, allow_index=True, allow_call=True, has_env=True):
        ctx.prove("with the options as they are", safe is G.safe and has_env is G.env and c is G.c)
        r = ctx.choose([False, True], "trivial")
        if r: n.checked.append((bool(allow_member), bool(allow_index), bool(allow_call)))
        return r
    ctx.contract("pico_minify", "expr_is_trivial", trivial)
    G.fixed = []
    ctx.contract("pico_constfold", "fixup_syntax_after_remove", lambda n: G.fixed.append(n))
def part(type, many=False, name=None, kind=None, captured=False, plain=True):
    pp, pm, pt, pd = mods(); T = pp.NodeType
    p = Part(None); p.type, p.many, p.name, p.kind = type, many, name, kind
    p.var = Duck(); p.var.captured = captured
    if type in (T.member, T.index):
        p.child, p.key = Duck(), Duck(); p.child.type = T.var if plain else T.index; p.key.type = T.var; p.key.var = Duck()
    return p
@unit("C12", limit=300)
def merge_shapes(ctx):
    """minify_merge_assignments: how many targets and values there are (up to two of each): merged only if each target gets the value it got"""
    if not ctx.symbolic: merged_programs(ctx); return
    pp, pm, pt, pd = mods(); T, K = pp.NodeType, pp.VarKind
    targets_and_values(ctx, None); G.safe, G.env, G.c, G.tvars = False, False, Duck(), ()
    typ = ctx.choose([T.local, T.assign], "type")
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(1, 0), (2, 0)] if typ is T.local else [])
    (a, b), (c, d) = ctx.choose(sizes, "prev"), ctx.choose(sizes, "next")
    clash = ctx.choose([False, True], "same name") if typ is T.local else False
    pt_ = [part(T.var, name=f"p{k}", kind=K.local) for k in range(a)]; nt = [part(T.var, name=f"n{k}", kind=K.local) for k in range(c)]
    if clash: nt[-1].name = pt_[-1].name
    ps, ns = [part(T.const) for _ in range(b)], [part(T.const) for _ in range(d)]
    if b: ps[-1].many = ctx.choose([False, True], "many prev")
    if d: ns[-1].many = ctx.choose([False, True], "many next")
    ctx.assume(not (b and not d and ps[-1].many))       # the known finding (local a=f() local b)
    prev, next = Stmt(typ, list(pt_), list(ps)), Stmt(typ, list(nt), list(ns)); next.first = Duck(); next.first.merge_prev = ctx.choose([None, False, True], "hint")
    pm.minify_merge_assignments(prev, next, G.c, G.safe, G.env)
    if not next.erased:
        ctx.prove("as they were", prev.targets == pt_ and prev.sources == ps and prev.children == Stmt(typ, pt_, ps).children and not G.fixed); return
    ctx.prove("not against a hint", next.first.merge_prev is not False)
    ctx.prove("removed once, and what it leaves is repaired", next.erased == 1 and G.fixed == [next])
    ctx.prove("all values, in order", prev.sources == ps + ns)
    # who gets what, by the rules of multiple assignment
    def gets(ts, vs):
        r = {}
        for k, t in enumerate(ts):
            if k < len(vs) - 1 or (k == len(vs) - 1): r[id(t)] = (vs[k], 0)
            elif vs and vs[-1].many: r[id(t)] = (vs[-1], k - len(vs) + 1)
            else: r[id(t)] = None
        return r
    want = {**gets(pt_, ps), **gets(nt, ns)}; got = gets(prev.targets, prev.sources)
    ctx.prove("every target gets the value it got", got == want)
    ctx.prove("the statement is exactly these", prev.children == Stmt(typ, prev.targets, prev.sources).children)
    if typ is T.local:
        win = {x.name: x for x in pt_ + nt}; now = {x.name: x for x in prev.targets}
        ctx.prove("the same of two variables of the same name is the visible one", all(now[k] is win[k] for k in win))

@unit("C12", limit=300)
def merge_order(ctx):
    """minify_merge_assignments: an arbitrary target of the first, value and target of the second (with others around them): merged only
    if these do not depend on the assignment before, directly or through functions that are called, nor does the table or key
    that is assigned to depend on functions that are called before"""
    if not ctx.symbolic: merged_programs(ctx); return
    pp, pm, pt, pd = mods(); T, K = pp.NodeType, pp.VarKind
    targets_and_values(ctx, None); G.safe, G.env, G.c = ctx.choose([False, True], "safe only"), ctx.choose([False, True], "env"), Duck()
    typ = ctx.choose([T.local, T.assign], "type"); pad = ctx.choose([0, 1, 2], "others")
    kinds = ["local"] + (["captured", "global", "member", "index", "other"] if typ is T.assign else [])
    kind = ctx.choose(kinds, "target")
    mk = {"local": lambda: part(T.var, name="x", kind=K.local), "captured": lambda: part(T.var, name="x", kind=K.local, captured=True), "global": lambda: part(T.var, name="x", kind=K.global_),
          "member": lambda: part(T.member), "index": lambda: part(T.index), "other": lambda: part(T.call)}
    t = mk[kind](); oth = lambda: part(T.var, name="o", kind=K.local)
    ntk = ctx.choose(["var", "member", "index", "deep member", "deep index"], "next target") if typ is T.assign else "var"
    nt = part(T.var, name="y", kind=K.local) if ntk == "var" else part(T.member if "member" in ntk else T.index, plain="deep" not in ntk)
    s, v = part(T.call), part(T.call)
    for x in (s, v): x.many = False
    pts, pss, nts, nss = [t], [s], [nt], [v]
    if pad:
        o = oth(); c1 = part(T.const); c1.reads = None
        pts, pss = ([o, t], [c1, s]) if pad == 1 else ([t, o], [s, c1])
    G.tvars = [x.key.var if x.type is T.member else x.var for x in pts if x.type in (T.var, T.member)]
    prev, next = Stmt(typ, list(pts), list(pss)), Stmt(typ, list(nts), list(nss)); next.first = Duck(); next.first.merge_prev = None
    pm.minify_merge_assignments(prev, next, G.c, G.safe, G.env)
    if not next.erased: return
    ctx.prove("only known kinds of targets", kind != "other")
    for x in (v, nt):
        ctx.prove("does not read what is assigned", x.reads is False or not G.tvars)
        if kind in ("captured", "global", "member", "index"):
            ok = [(m, i, c) for m, i, c in x.checked if (not m or kind != "index") and (not i or kind not in ("member", "index")) and (not c or x is v)]
            ctx.prove("nor do functions called by it", ok != [])
    if nt.type is not T.var:
        for x in pss:
            ok = [c for m, i, c in x.checked if not c or "deep" not in ntk]
            ctx.prove("nothing called before may change where it is assigned to", ok != [])

@unit("C12", limit=300)
def trivial_exprs(ctx):
    """expr_is_trivial and node_contains_vars: an arbitrary part of an expression"""
    pp, pm, pt, pd = mods(); T, K = pp.NodeType, pp.VarKind
    n = Duck(); n.type = ctx.choose([T.const, T.varargs, T.group, T.table, T.table_member, T.table_index, T.var, T.unary_op, T.binary_op, T.function, T.call, T.member, T.index], "type")
    n.op = ctx.choose(["not", "#", "-", "@"], "op") if n.type is T.unary_op else ctx.choose(["and", "or", "+", ".."], "op") if n.type is T.binary_op else None
    n.kind = ctx.choose([K.local, K.global_], "kind") if n.type is T.var else None; n.target = None; n.var = Duck()
    f = n.func = Duck(); f.type, f.name, f.kind, f.var, f.env_var = T.var, "fn", K.local, Duck(), None; f.var.builtin = False; f.var.reassigned = 0; c = Duck(); c.builtins_with_callbacks = {"cb"}
    if n.type is T.call:
        how = ctx.choose(["builtin", "callback", "reassigned", "own", "expr"], "func")
        f.var.builtin = how in ("builtin", "callback", "reassigned"); f.type = T.member if how == "expr" else T.var
        if how == "callback": f.name = "cb"
        if how == "reassigned": f.var.reassigned = 1
    safe, am, ai, ac, env = (ctx.choose([False, True], x) for x in ("safe", "member", "index", "call", "env"))
    class Root(Duck):
        def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False): m.extra = extra; m.r = pre(n)
    root = Root()
    r = pm.expr_is_trivial(root, c, safe, am, ai, ac, env)
    t = n.type
    if t in (T.const, T.varargs, T.group, T.table, T.table_member, T.table_index, T.function): ok = True
    elif t is T.var: ok = n.kind is K.local or not env or not safe
    elif t is T.unary_op: ok = n.op == "not" or (not safe and not (n.op == "#" and not ai))
    elif t is T.binary_op: ok = n.op in ("and", "or") or not safe
    elif t is T.call: ok = not safe and ac and ai and how == "builtin"
    elif t is T.member: ok = am and not safe
    else: ok = ai and not safe
    ctx.prove("trivial only if nothing in it runs or reads what may matter", ok or not r)
    if not ok: return
    ctx.prove("the rest of the expression is looked at, but for functions that are only made", t is T.function or getattr(root, "r", None) is None)
    w = Duck(); which = ctx.choose(["in", "out"], "vars")
    q = pm.node_contains_vars(root, [w, n.var] if which == "in" else [w])
    ctx.prove("has the variable", q == (t is T.var and which == "in"))
    ctx.prove("implied names too", root.extra is True)
