"""C20 contracts: what lint_code learns from any occurrence of any name, and which warnings any occurrence then gets, over opaque nodes,
variables and scopes of any depth, for all options. Oracle: the rules of the documentation (README, Linting), written here independently."""
from pyver.unit import unit
from pyver.duck import Duck
class G: pass
def mods():
    import pico_process, pico_lint, pico_parse, pico_tokenize, pico_defs
    return pico_lint, pico_parse, pico_tokenize, pico_defs
def cell(fn, name): return fn.__closure__[fn.__code__.co_freevars.index(name)].cell_contents
class Root(Duck):
    def __init__(m, visit): m.n, m.visit = 0, visit
    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
        m.n += 1; G.ctx.prove("every name, of the tree and implied, is visited", extra is True and pre is not None)
        m.visit(m.n, pre, tokens)
def lint(ctx, visit, opts=None, builtins=("bi",)):
    pl, pp, pt, pd = mods(); G.ctx = ctx
    c = Duck(); c.builtins = set(builtins); c.lang = pd.Language.pico8
    root = Root(visit); e = pl.lint_code(c, root, opts or {})
    ctx.prove("two passes: what there is, then the warnings", root.n == 2)
    return e
def concrete(ctx):
    """stand-in: a random program, linted by the real code, against the independent linter of the suites"""
    import random
    from bounded import C20
    class A:
        def case(m, *a): pass
        def check(m, c, name, detail=""): ctx.prove(name, c, detail)
    rng = random.Random(ctx.int("seed", 0, 1 << 30))
    (C20.programs if rng.random() < .5 else C20.scopes)(rng, 0, A())

class Func(Duck):
    def __init__(m, kind, name, outer): m.kind, m.name, m.outer = kind, name, outer
    def find_parent(m, t): G.ctx.prove("asks for the function around", t is G.FN); return m.outer
class Nd(Duck):
    def find_parent(m, t): G.ctx.prove("asks for the function around", t is G.FN); return m.func
SETS = ("used_globals", "used_locals", "used_labels", "assigned_globals", "assigned_locals", "custom_globals")
@unit("C20", limit=200)
def known(ctx):
    """the first pass: which names are defined (assigned at the top level or in _init), which are used and which are assigned"""
    if not ctx.symbolic: concrete(ctx); return
    pl, pp, pt, pd = mods(); K, T = pp.VarKind, pp.NodeType; G.FN = T.function
    n = Nd(); n.type = T.var; n.name = "x"; n.var = Duck(); n.kind = ctx.choose([K.local, K.global_, K.label, K.member], "kind")
    n.new = ctx.choose([False, True], "new") if n.kind in (K.local, K.label) else False
    glob = n.kind is K.global_ and ctx.choose([True, False], "of the real _ENV")
    how = ctx.choose(["use", "assign", "function", "op"], "how")
    where = ctx.choose(["top", "f", "hint _init", "_init", "inner _init", "hint other"], "where") if glob and how in ("assign", "function") else "top"
    outer = Func(None, "f", None)
    n.func = {"top": None, "f": outer, "hint _init": Func("_init", "g", outer), "_init": Func(None, "_init", None), "inner _init": Func(None, "_init", outer), "hint other": Func("o", "_init", None)}[where]
    if how == "function":
        p = n.parent = Nd(); p.func = n.func; n.func = Func(None, "f", None)
    known = glob and ctx.choose([False, True], "already known")
    def same(r):
        def f(x): ctx.prove("asked of the name", x is n); return r
        return f
    for name, r in (("is_assign_target", how == "assign"), ("is_function_target", how == "function"), ("is_any_assign_target", how != "use"), ("is_root_global_or_builtin_local", glob)):
        ctx.contract("pico_parse", name, same(r))
    got = {}
    def visit(k, f, tokens):
        if k != 1: return
        f(n)
        for s in SETS: got[s] = set(cell(f, s))
    e = lint(ctx, visit, {"globals": ["x"]} if known else {})
    defd = glob and how in ("assign", "function") and where in ("top", "_init", "hint _init")
    loc = n.kind is K.local and not n.new; lab = n.kind is K.label and not n.new
    want = dict(custom_globals={"x"} if defd or known else set(), used_globals={"x"} if glob and how == "use" else set(), assigned_globals={"x"} if glob and how != "use" else set(),
                used_locals={n.var} if loc and how == "use" else set(), assigned_locals={n.var} if loc and how != "use" else set(), used_labels={n.var} if lab else set())
    for s in SETS: ctx.prove(f"{s} as they are", got[s] == want[s])
    ctx.prove("no warning by itself", e == [])

@unit("C20", limit=200)
def hints(ctx):
    """names given by the options and by lint hints are known; used:: hints count as uses; other hints do nothing"""
    if not ctx.symbolic: concrete(ctx); return
    pl, pp, pt, pd = mods(); H = pt.CommentHint
    t = Duck(); c = Duck(); d = Duck(); got = {}
    c.hint = ctx.choose([H.none, H.auto, H.preserve, H.lint, H.keep], "hint"); c.hintdata = ["a", "used::b", "func::_init", "count::stop"]; d.hint = H.none; d.hintdata = ["z"]
    t.children = ctx.choose([(), [c], [d, c], [c, d]], "comments")
    def visit(k, f, tokens):
        if k != 1: return
        tokens(t)
        for s in SETS: got[s] = set(cell(f, s))
    lint(ctx, visit, {"globals": ["o"]})
    on = c.hint is H.lint and len(t.children) > 0
    ctx.prove("names that are known", got["custom_globals"] == ({"o", "a"} if on else {"o"}))
    ctx.prove("names that are used", got["used_globals"] == ({"b"} if on else set()))
    ctx.prove("nothing else", not (got["used_locals"] or got["used_labels"] or got["assigned_globals"] or got["assigned_locals"]))

class Scope(Duck):
    def find(m, name, crossfunc=False):
        G.ctx.prove("looks for the same name outside (labels: in any function)", name == G.node.name and crossfunc is G.label)
        return G.prev
OPTS = ("undefined", "unused", "unused-global", "duplicate", "duplicate-global")
@unit("C20", params=["local", "param", "label", "global_"], limit=400)
def warnings(ctx, kname):
    """the second pass: the warnings for any occurrence of any name, and no other"""
    if not ctx.symbolic: concrete(ctx); return
    pl, pp, pt, pd = mods(); K, T = pp.VarKind, pp.NodeType
    kind = K.local if kname == "param" else getattr(K, kname); G.label = kind is K.label
    n = G.node = Duck(); n.type = T.var; n.kind = kind; v = n.var = Duck()
    n.name = ctx.choose(["x", "_", "_x", "_ENV"] if kind is K.local else ["x", "_", "_x"] if G.label else ["x", "_x", "bi"], "name")
    mine = {"local": ("duplicate", "duplicate-global"), "param": ("unused",), "label": ("unused", "duplicate"), "global_": ("undefined", "unused", "unused-global")}[kname]
    if kname == "local": opts = dict(ctx.choose([(), (("unused", False),), (("duplicate", False),), (("duplicate-global", False),), (("unused", True), ("duplicate", True), ("unused-global", False), ("undefined", False)), (("unused", False), ("duplicate", False))], "options"))
    else:
        opts = {o: False for o in mine if ctx.choose([False, True], o)}
        if ctx.choose([False, True], "others"): opts.update((o, False) for o in OPTS if o not in mine)
    on = lambda o: opts.get(o, True)
    new = n.new = ctx.choose([True, False], "new") if kind is not K.global_ else False
    n.scope = Duck(); n.scope.parent = Scope(); G.prev = None
    fd, depth = ctx.int("funcdepth", 0, 1 << 20), ctx.int("depth", 0, 1 << 20); v.scope = Duck(); v.scope.funcdepth, v.scope.depth = fd, depth
    par = n.parent = Duck(); par.type = T.local; n.children = []
    place = ctx.choose(["last", "not last", "implicit"], "place") if kname == "param" else None
    if place:
        par.type = T.function; other = object()
        par.params = [other, n] if place != "not last" else [n, other]; par.children = [other, n] if place != "implicit" else [other]
    if kind in (K.local, K.label) and kname != "param" and ctx.choose([False, True], "hides"):
        p = G.prev = Duck(); p.builtin = kind is K.local and ctx.choose([False, True], "builtin"); p.scope = Duck()
        p.scope.funcdepth, p.scope.depth = ctx.int("pfuncdepth", -1, 1 << 20), ctx.int("pdepth", 0, 1 << 20)
        ctx.assume(p.scope.funcdepth <= fd)
        if p.builtin: ctx.assume(p.scope.funcdepth < 0)
        else: ctx.assume(p.scope.funcdepth >= 0)
    used, assd = ctx.choose([False, True], "used"), ctx.choose([False, True], "assigned")
    cust = ctx.choose([False, True], "known") if kind is not K.label else False
    gused = ctx.choose([None, "used_globals", "assigned_globals"], "global use") if kname == "local" and not cust else None
    how = ctx.choose([None, "assign", "function"], "how") if kind is K.global_ else None
    real = ctx.choose([True, False], "of the real _ENV") if kind is K.global_ else False
    def same(r):
        def f(x): ctx.prove("asked of the name", x is n); return r
        return f
    for name, r in (("is_assign_target", how == "assign"), ("is_function_target", how == "function"), ("is_any_assign_target", how is not None), ("is_root_global_or_builtin_local", real)):
        ctx.contract("pico_parse", name, same(r))
    def visit(k, f, tokens):
        if k == 1:
            sets = {s: cell(f, s) for s in SETS}
            if kind is K.local: used and sets["used_locals"].add(v); assd and sets["assigned_locals"].add(v)
            elif G.label: used and sets["used_labels"].add(v)
            else: used and sets["used_globals"].add(n.name); assd and sets["assigned_globals"].add(n.name)
            if cust: sets["custom_globals"].add(n.name)
            if gused: sets[gused].add(n.name)
        else: f(n)
    class Err:
        def __init__(m, msg, at): m.msg, m.at = msg, at
    ctx.replace("pico_lint", "Error", Err)
    errs = lint(ctx, visit, opts); want = []
    x = n.name; P = G.prev
    if kind is K.local and new:
        if on("duplicate") and x not in ("_", "_ENV"):
            if P is None or P.builtin:
                if on("duplicate-global"):
                    if cust: want.append(f"Local '{x}' has the same name as a global")
                    elif gused: want.append(f"Local '{x}' has the same name as a built-in global used elsewhere in the cart")
            else:
                pf, pdp = P.scope.funcdepth, P.scope.depth
                w = ("at the top level" if bool(pf == 0) else "in a parent function") if bool(pf < fd) else "in a parent scope" if bool(pdp < depth) else "in the same scope"
                want.append(f"Local '{x}' has the same name as a local declared {w}")
        if on("unused") and x[0] != "_" and not used:
            if assd: want.append(f"Local '{x}' is only ever assigned to, never used")
            elif place in (None, "last"): want.append(f"Local '{x}' isn't used")
    elif G.label and new:
        if on("duplicate") and x != "_" and P is not None:
            pf = P.scope.funcdepth
            w = ("at the top level" if bool(pf == 0) else "in a parent function") if bool(pf < fd) else "in a parent scope"
            want.append(f"Label '{x}' has the same name as a label declared {w}")
        if on("unused") and x[0] != "_" and not used: want.append(f"Label '{x}' isn't used")
    elif kind is K.global_ and real:
        if on("undefined") and not cust:
            h = {"assign": "'local'", "function": "'local function'"}.get(how)
            if x == "bi": h and want.append(f"Built-in global '{x}' assigned outside _init - did you mean to use {h}?")
            else: want.append(f"Identifier '{x}' not found" + (f" - did you mean to use {h} to define it?" if h else ""))
        if on("unused") and on("unused-global") and not used and x[0] != "_": want.append(f"Global '{x}' is only ever assigned to, never used" if assd else f"Global '{x}' isn't used")
    ctx.prove("exactly the warnings there should be", [e.msg for e in errs] == want, (opts, [e.msg for e in errs], want))
    ctx.prove("at the name", all(e.at is n for e in errs))

@unit("C20", limit=200)
def targets(ctx):
    """what is an assignment's target, what a function statement's, and which names are of the real _ENV"""
    pl, pp, pt, pd = mods(); K, T = pp.VarKind, pp.NodeType
    n = Duck(); p = n.parent = Duck(); p.type = ctx.choose([T.assign, T.op_assign, T.function, T.local, T.call], "parent")
    mine = ctx.choose([True, False], "mine"); o = object()
    p.targets = [o, n] if mine else [o]; p.target = n if mine else o
    ctx.prove("assignment", pp.is_assign_target(n) == (mine and p.type is T.assign))
    ctx.prove("function statement", pp.is_function_target(n) == (mine and p.type is T.function))
    ctx.prove("any assignment", pp.is_any_assign_target(n) == (mine and p.type in (T.assign, T.op_assign, T.function)))
    n.kind = ctx.choose([K.local, K.global_, K.member, K.label], "kind"); n.var = Duck(); n.var.builtin = ctx.choose([True, False], "builtin")
    n.env_var = Duck(); n.env_var.scope = Duck(); d = n.env_var.scope.funcdepth = ctx.int("d", -1, 1 << 20)
    r = pp.is_root_global_or_builtin_local(n)
    if n.kind is K.global_: ctx.prove("of the real _ENV", bool(r) == bool(d < 0))
    else: ctx.prove("built-in locals", bool(r) == (n.kind is K.local and n.var.builtin))

@unit("C20", limit=200)
def scopes(ctx):
    """Scope.find and LabelScope.find: the innermost scope around that has the name; labels of other functions only if asked for"""
    pl, pp, pt, pd = mods()
    depth = ctx.choose([1, 2, 3, 4], "scopes"); fds = [0]
    for k in range(depth - 1): fds.append(fds[-1] + ctx.choose([0, 1], "function"))
    lab = ctx.choose([True, False], "labels"); cross = ctx.choose([True, False], "crossfunc") if lab else True
    has = [ctx.choose([True, False], "declared") for _ in fds]
    sc = None; vs = []
    for k, fd in enumerate(fds):
        sc = pp.LabelScope(sc, fd) if lab else pp.Scope(sc, k, fd)
        v = Duck(); v.name = "x"; vs.append(v)
        o = Duck(); o.name = "y"; sc.add(o)
        if has[k]: sc.add(v)
    r = sc.find("x", crossfunc=cross) if lab else sc.find("x")
    want = next((vs[k] for k in range(depth - 1, -1, -1) if has[k] and (cross or fds[k] == fds[-1])), None)
    ctx.prove("the innermost one", r is want)
