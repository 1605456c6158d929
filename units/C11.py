"""C11 contracts: what keeps its name, what is counted and where it is used (scopes), when two variables may share a name, the selection of
variables for a name, the names themselves, and the new names put into the tree; every function of rename_tokens, over opaque nodes,
variables, scopes, any number of excluded or remaining variables and scopes. Oracle: Lua's scoping rules (a local and a variable used in
its scope cannot share a name), written here independently."""
from pyver.unit import unit
from pyver.duck import Duck
class G: pass
def mods():
    import pico_process, pico_rename, pico_parse, pico_tokenize, pico_defs
    return pico_rename, pico_parse, pico_tokenize, pico_defs
R = "rename_tokens"
def inner(name):
    from pyver import hooks
    return hooks.INNER[f"{R}.{name}"]
def cell(fn, name): return fn.__closure__[fn.__code__.co_freevars.index(name)].cell_contents

class Root(Duck):
    has_env = False
    def __init__(m, visit=None): m.visits, m.visit, m.globals, m.members = [], visit, {}, {}
    def traverse_tokens(m, f): m.tokens = f
    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
        m.visits.append(pre)
        G.ctx.prove("every name, of the tree and implied, is visited", extra is True and pre is not None)
        if m.visit: m.visit(len(m.visits), pre)
class Map:
    """what to preserve: any names"""
    def __init__(m, keys=None, **k): m.rules, m.init = [], (keys, k); G.maps.append(m)
    def set(m, k, v): m.rules.append((k, v))
    def __contains__(m, k): G.asked.append(k); return G.preserved
def forget():
    from pyver import hooks
    hooks.CONTRACTS_BY_CODE.clear()         # (those of an earlier path)
def run(ctx, visit=None, opts=None, lang=None, keep=False):
    pr, pp, pt, pd = mods()
    G.ctx, G.maps, G.asked = ctx, [], []
    ctx.replace("pico_rename", "IncludeExcludeMapping", Map); ctx.replace("pico_rename", "TableMemberPairIncludeExcludeMapping", Map)
    c = Duck(); c.lang = lang or pd.Language.pico8; c.srcmap = None
    c.builtins, c.builtin_callbacks, c.builtin_members = {"g"}, {"cb"}, {"m"}
    root = Root(visit)
    if not keep: forget()
    pr.rename_tokens(c, root, opts or {})
    return root, c
def concrete(ctx):
    """stand-in: a random program, renamed by the real code, against an independent parser"""
    import random
    from bounded import C11
    class A:
        def case(m, *a): pass
        def check(m, c, name, detail=""): ctx.prove(name, c, detail)
        def eq(m, a, b, name): ctx.prove(name, a == b, (a, b))
    rng = random.Random(ctx.int("seed", 0, 1 << 30))
    C11.grammar.__wrapped__(rng, 0, A()) if hasattr(C11.grammar, "__wrapped__") else C11.grammar(rng, 0, A())

class Names:
    """a set, of which only one membership is asked"""
    __pv_sym__ = True
    def __init__(m, has, key): m.has, m.key, m.added = has, key, []
    def __contains__(m, k): G.ctx.prove("asks for the variable's own entry", k is m.key or k == m.key); return m.has
    def add(m, k): m.added.append(k)

@unit("C11")
def compatible(ctx):
    """are_vars_compatible: two variables may share a name only if neither is used in the scope of the other"""
    if not ctx.symbolic: concrete(ctx); return
    pr, pp, pt, pd = mods(); K = pp.VarKind
    run(ctx); f = inner("are_vars_compatible")
    def var(n):
        v = Duck(); v.kind = ctx.choose([K.local, K.label, K.global_, K.member], n); v.name = "same"
        s = v.scope = Duck(); return v
    a, b = var("a"), var("b"); glob = (K.global_, K.member); fact = {}
    for x, y in ((a, b), (b, a)):
        if x.kind not in glob:
            u = fact[x] = ctx.choose([True, False], "other used in the scope")
            s = x.scope; s.used_locals = Names(u if y.kind == x.kind else False, y)
            s.has_used_globals = s.has_used_members = True
            s.used_globals = Names(u and y.kind is K.global_, "same"); s.used_members = Names(u and y.kind is K.member, "same")
            if y.kind in glob and not u and ctx.choose([True, False], "no set"): s.has_used_globals = s.has_used_members = False
    r = f(a, b)
    ctx.prove("decided", r is True or r is False)
    if a.kind in glob and b.kind in glob: ok = a.kind is not b.kind
    elif a.kind in glob or b.kind in glob: l = b if a.kind in glob else a; ok = l.kind is K.label or not fact[l]
    else: ok = a.kind is not b.kind or not (fact[a] or fact[b])
    ctx.prove("variables that meet in a scope never share a name", ok or not r)

class Excl:
    """any number of variables that already have the name"""
    __pv_sym__ = True
    def __init__(m): m.appended = []
    def append(m, v): m.appended.append(v)
    def __iter__(m): raise TypeError("Sym: iterates any number of variables")
class TryLoop:
    active = False
    def enter(m, lr, env, names): G.entered += 1; G.ctx.prove("all that have the name are looked at", lr.it is G.excluded); return {}
    def more(m, lr): G.more = G.ctx.choose([True, False], "more"); return G.more
    def next(m, lr): G.ex = object(); return G.ex
    def end(m, lr, env): G.ctx.prove("goes on only after compatible ones", G.compat == [(G.sel_var, G.ex, True)])
TL = TryLoop()
@unit("C11", loops={("pico_rename", R + ".try_select_var", 0): TL})
def try_select(ctx):
    """try_select_var: a variable gets a name only if it is not to be avoided there and compatible with every variable that has it"""
    if not ctx.symbolic: concrete(ctx); return
    run(ctx); G.compat, G.entered, G.more = [], 0, False
    def compat(a, b):
        r = ctx.choose([True, False], "compatible")
        G.compat.append((a, b, r) if b is G.ex else (b, a, r)); return r
    ctx.contract("pico_rename", R + ".are_vars_compatible", compat)
    sel, G.sel_var = "name", object()
    mapped = ctx.choose([True, False], "mapped")
    if not mapped: G.sel_var = sel
    vm = {sel: G.sel_var} if mapped else None
    avoid = ctx.choose([True, False], "avoid"); renames = {"o": "p"}; G.excluded = Excl(); G.ex = None
    TL.active = True
    try: r = inner("try_select_var")(sel, G.excluded, renames, {sel} if avoid else (), "new", vm)
    finally: TL.active = False
    ctx.prove("decided", r is True or r is False)
    if r:
        ctx.prove("not avoided, and compatible with all", not avoid and G.entered == 1 and not G.more)
        ctx.prove("has the name from now on", G.excluded.appended == [G.sel_var] and renames == {"o": "p", "name": "new"})
    else:
        ctx.prove("nothing changes", G.excluded.appended == [] and renames == {"o": "p"})
        ctx.prove("refused with a reason", avoid or (G.compat and not G.compat[-1][2]))

class Remaining:
    __pv_sym__ = True
    def __init__(m, n): m.n, m.deleted, m.got = n, [], {}
    def pv_len(m): return m.n
    def __len__(m): return m.n
    def __getitem__(m, i):
        G.ctx.prove("one of them", G.ctx.and_(i >= 0, i < m.n)); G.last = i
        return G.item
    def __delitem__(m, i): m.deleted.append(i)
class SelLoop:
    active = False
    def enter(m, lr, env, names):
        G.ctx.prove("starts where asked", env["i"] == G.i0); G.i = G.ctx.fresh("i", 0, 1 << 20); G.ctx.assume(G.i >= G.i0)
        return {"i": G.i}
    def end(m, lr, env): G.ctx.prove("those that were refused are passed, and kept", G.ctx.and_(env["i"] == G.i + 1, G.tried == [False], G.rem.deleted == []))
SL = SelLoop()
class VarsLoop:
    active = False
    def enter(m, lr, env, names): return {"i": G.i0}
    def end(m, lr, env): G.ctx.prove("goes on from there", env["i"] is G.ret and len(G.calls) == 1)
VL = VarsLoop()
@unit("C11", loops={("pico_rename", R + ".select_var", 0): SL})
def select_one(ctx):
    """select_var: gives the name to at most one of the remaining variables, which alone is removed from them"""
    if not ctx.symbolic: concrete(ctx); return
    run(ctx); G.tried = []; n = ctx.int("n", 0, 1 << 20); G.rem = Remaining(n); G.item = object(); G.i0 = ctx.int("i0", 0, 1 << 20); G.i = None
    ex, ren, av, vm = object(), object(), object(), ctx.choose([None, object()], "map")
    def attempt(sel, excluded, renames, avoids, ident, var_map=None):
        ctx.prove("the variable in question, with the same name, exclusions and map", sel is G.item and excluded is ex and renames is ren and avoids is av and ident == "new" and var_map is vm)
        r = ctx.choose([True, False], "selected"); G.tried.append(r); return r
    ctx.contract("pico_rename", R + ".try_select_var", attempt)
    SL.active = True
    try: r = inner("select_var")(G.rem, ex, ren, av, "new", vm, G.i0)
    finally: SL.active = False
    if r is None: ctx.prove("none was selected, and all were tried", ctx.and_(G.tried == [], G.rem.deleted == [], G.i >= n))
    else: ctx.prove("the selected one is removed", ctx.and_(G.tried == [True], len(G.rem.deleted) == 1, G.rem.deleted[0] == G.i, r == G.i))
@unit("C11", loops={("pico_rename", R + ".select_vars", 0): VL})
def select_all(ctx):
    """select_vars: tries them all, with the same name and exclusions"""
    if not ctx.symbolic: concrete(ctx); return
    run(ctx); G.calls = []; G.i0 = ctx.choose([0, 7], "at"); G.ret = ctx.choose([None, 9], "ret")
    rem, ex, ren, av = object(), object(), object(), object()
    def one(remaining, excluded, renames, avoids, ident, var_map=None, i=0):
        ctx.prove("the same variables, name and exclusions", remaining is rem and excluded is ex and renames is ren and avoids is av and ident == "new" and i == G.i0)
        G.calls.append(1); return G.ret
    ctx.contract("pico_rename", R + ".select_var", one)
    inner_f = inner("select_vars"); VL.active = G.ret is not None
    try:
        if G.ret is None: G.i0 = 0
        inner_f(rem, ex, ren, av, "new")
    finally: VL.active = False
    ctx.prove("ends when none is left to select", G.ret is None and len(G.calls) == 1)

# ---- what keeps its name, and where names are used

class Scope(Duck):
    def __init__(m): m.used_locals, m.used_globals, m.used_members = set(), set(), set()
    def chain(m): G.ctx.prove("from the scope the name is used in", m is G.node.scope); return Chain()
class Chain:
    __pv_sym__ = True
    def __iter__(m): raise TypeError("Sym: iterates any number of scopes")
class ScopeLoop:
    active = True
    def enter(m, lr, env, names): G.loops += 1; return {}
    def more(m, lr):
        G.more = G.ctx.choose([True, False], "more scopes"); return G.more
    def next(m, lr): G.scope = G.ctx.choose([G.node.var.scope, Scope()], "scope") if G.node.kind in G.bound else Scope(); return G.scope
    def end(m, lr, env):
        used(); n = G.node
        G.ctx.prove("goes out only to the scope of the variable", n.kind not in G.bound or n.var.scope is not G.scope or G.relaxed)
def used():
    n, s = G.node, G.scope; K = G.K
    if n.kind in G.bound: G.ctx.prove("the variable is used in this scope", n.var in s.used_locals)
    elif n.effective_kind is K.member: G.ctx.prove("the member is used as a global in this scope", n.name in s.used_members)
    else: G.ctx.prove("the global is used in this scope", n.name in s.used_globals)
SC0, SC1 = ScopeLoop(), ScopeLoop()
COLLECT = {("pico_rename", R + ".collect_idents_pre", 0): SC0, ("pico_rename", R + ".collect_idents_pre", 1): SC1}
@unit("C11", params=["local", "label", "global_", "member"], loops=COLLECT, limit=200)
def collected(ctx, kname):
    """every occurrence of a name: what is preserved, implicit, built in or hinted keeps (or gets) its name, which no other variable
    that meets it is given; everything else is counted under its kind; every scope around knows that the variable is used in it"""
    if not ctx.symbolic: concrete(ctx); return
    pr, pp, pt, pd = mods(); K, T = pp.VarKind, pp.NodeType
    G.K, G.loops, G.more, G.scope = K, 0, False, None; G.bound = (K.local, K.label)
    kind = getattr(K, kname)
    lang = ctx.choose([pd.Language.pico8, pd.Language.picotron], "lang") if kind is K.label else pd.Language.pico8
    G.relaxed = kind is K.label and lang is pd.Language.picotron
    n = G.node = Duck(); v = n.var = Duck(); n.type = T.var; n.kind = kind; v.kind = kind
    n.name = v.name = ctx.choose(["name", "_ENV"], "name") if kind is K.local else "name"
    v.rename = ctx.choose([None, "zz"], "rename"); v.keys_kind = None
    v.implicit = ctx.choose([False, True], "implicit") if kind in (K.local, K.global_) else False
    v.builtin = ctx.choose([False, True], "builtin") if kind is K.local else False
    n.var_kind = ctx.choose([None, K.global_, K.member], "hint") if kind in (K.global_, K.member) else None
    G.preserved = ctx.choose([False, True], "preserved")
    n.scope = Scope(); v.scope = n.scope if ctx.choose([True, False], "own scope") else Scope()
    n.env_var = None; tname = ""; keys = None; shape = "plain"
    def var_node(name):
        x = Duck(); x.type = T.var; x.name = name; x.var = Duck(); x.var.keys_kind = ctx.choose([None, K.global_], "keys"); return x
    par = n.parent = Duck(); par.type = T.assign
    asmember = kind is K.member or n.var_kind is K.member
    if kind is K.member:
        shape = ctx.choose(["var", "_ENV", "expr", "table", "table assigned"], "shape")
        if shape in ("var", "_ENV"):
            par.type = T.member; par.key = n; par.child = c = var_node(shape if shape == "_ENV" else "t"); tname, keys = c.name, c.var.keys_kind
        elif shape == "expr": par.type = T.member; par.key = n; par.child = Duck(); par.child.type = T.call
        else:
            par.type = T.table_member; par.key = n; tab = par.parent = Duck(); tab.keys_kind = ctx.choose([None, K.global_], "table keys"); keys = tab.keys_kind
            tab.parent = st = Duck(); st.type = T.local if shape == "table assigned" else T.call
            if shape == "table assigned":
                at = ctx.choose([0, 1], "at"); t = var_node("t"); st.sources = [object()] * at + [tab]; st.targets = [var_node("u")] * at + [t]; tname = "t"
                if keys is None: keys = t.var.keys_kind
    elif kind is K.global_ and ctx.choose([False, True], "env"):
        n.env_var = Duck(); n.env_var.keys_kind = keys = ctx.choose([None, K.member], "env keys")
        if keys is K.member: par.type = T.call
    n.is_extra_child = lambda: not zero[0]
    zero = [ctx.choose([False, True], "after zero")]
    def prev(): t = Duck(); t.type, t.value = pt.TokenType.number, "0"; return t
    n.prev_token = prev
    got = {}
    def visit(k, f):
        if k != 1: return
        for x in ("member_uses", "global_uses", "local_uses", "label_uses", "compute_effective_kind", "members_after_zero", "globals_after_zero", "locals_after_zero"): got[x] = cell(f, x)
        ce = got["compute_effective_kind"]
        for x in ("member_excludes", "global_excludes", "local_excludes", "label_excludes", "renamed_vars"): got[x] = cell(ce, x)
        f(n); got["done"] = True
        uses = [got[x] for x in ("member_uses", "global_uses", "local_uses", "label_uses")]
        check()
        for u in uses: u.clear()             # (the selection is verified by itself)
        got["renamed_vars"].clear()
    def check():
        ctx.prove("preserve rules are asked of this name, with the name of the table it is a member of", all(k == ((tname, n.name) if isinstance(k, tuple) else n.name) for k in G.asked))
        ek = n.effective_kind; hinted = n.var_kind is not None
        if ek is None:
            if v.rename: ctx.prove("a rename hint is followed", n.name == "zz" and v in got["renamed_vars"])
            excl = {K.member: got["member_excludes"], K.global_: got["global_excludes"]}
            nolocal = kind is K.local and n.name == "_ENV"
            if kind is K.local: ctx.prove("no variable that meets this local gets its name", v in got["local_excludes"].get(n.name, ()) or nolocal)
            elif kind is K.label: ctx.prove("no label that meets this one gets its name", v in got["label_excludes"].get(n.name, ()))
            elif not hinted and keys is None and tname != "_ENV": ctx.prove("no other variable of its kind gets its name", n.name in excl[kind])
            else: ctx.prove("no other variable gets its name", n.name in excl[K.member] or n.name in excl[K.global_])
            ctx.prove("names are kept for a reason", bool(v.rename) or G.preserved or v.implicit or n.name == "_ENV")
        else:
            ctx.prove("a rename hint is followed", not v.rename)
            ctx.prove("what is implicit keeps its name", not v.implicit or ek is K.member)
            ctx.prove("what is preserved keeps its name", not G.preserved or kind is K.label or (kind is K.local and not v.builtin))
            ctx.prove("_ENV keeps its name", n.name != "_ENV")
            ctx.prove("renamed as what it is", hinted or keys is not None or tname == "_ENV" or ek is kind)
            if keys is None and hinted and not tname == "_ENV": ctx.prove("renamed as what the hint says", ek is n.var_kind)
            key = n.name if ek in (K.member, K.global_) else v
            for x, kk in (("member_uses", K.member), ("global_uses", K.global_), ("local_uses", K.local), ("label_uses", K.label)):
                ctx.prove("counted once, under its kind", dict(got[x]) == ({key: 1} if kk is ek else {}))
            az = {K.member: "members_after_zero", K.global_: "globals_after_zero", K.local: "locals_after_zero"}.get(ek)
            if az and zero[0]: ctx.prove("known to follow a zero", key in got[az])
        if kind is not K.member: ctx.prove("the scopes around are told", G.loops == 1)
        if G.more:                              # (left by break)
            ctx.prove("stops only at the scope of the variable", kind in G.bound and G.scope is v.scope and not G.relaxed); used()
        elif kind in G.bound: ctx.assume(G.relaxed)     # the variable's scope is in the chain (scope resolution, by the suites)
    run(ctx, visit, lang=lang)
    ctx.prove("collected first", got.get("done"))

# ---- the names

class Text:
    """an identifier of any length whose characters are all in the alphabet, known around one position"""
    __pv_sym__ = True
    def __init__(m, n, at, ch, rest="tail"): m.n, m.at, m.ch, m.rest = n, at, ch, rest
    def pv_len(m): return m.n
    def __len__(m): return m.n
class IdLoop:
    """after the characters behind i have wrapped to the first one"""
    active = False
    def enter(m, lr, env, names):
        G.entered += 1
        return {"next_ident": G.text}
    def more(m, lr): 
        G.more = G.ctx.choose([True, False], "more chars")
        if G.more: G.ctx.assume(G.i < G.text.n)
        return G.more
    def next(m, lr): return G.i
    def end(m, lr, env): G.ctx.prove("a character that was the last wraps to the first, and the one before it goes on", G.replaced == [(G.i, G.first, False)])
IL = IdLoop()
ALPHA = (["chars"], ["compressed"], [])
HISTS = ("", "zxe01_A", "0", "9876543210", "\x80b1")
@unit("C11", params=[(f, h) for f in ALPHA for h in HISTS], limit=400)
def alphabet(ctx, fh):
    """get_next_ident_char, for the alphabets of each focus in the order of some programs' character counts: the successors visit every
    character of the alphabet once, the first position has no digit; so counting in it gives each identifier once (and only identifiers)"""
    if not ctx.symbolic: concrete(ctx); return
    pr, pp, pt, pd = mods(); focus, hist = fh
    def tok(s):
        t = Duck(); t.children = (); t.value = s; t.type = pt.TokenType.keyword; return t
    class R2(Root):
        def traverse_tokens(m, f):
            for k in range(len(hist), 0, -1):
                f(tok(hist[:k]))
    G.ctx, G.maps, G.asked = ctx, [], []
    c = Duck(); c.lang = pd.Language.pico8; c.srcmap = None; c.builtins, c.builtin_callbacks, c.builtin_members = set(), set(), set()
    pr.rename_tokens(c, R2(), {"focus": focus})
    f = inner("get_next_ident_char")
    def walk(first):
        out = []; ch = None
        while True:
            ch, found = f(ch, first)
            if not found: return out, ch
            out.append(ch)
            if len(out) > 1000: return out, None
    letters = "abcdefghijklmnopqrstuvwxyz"; import string
    whole = set(letters + string.digits + "_") | (set(string.ascii_uppercase) if focus != ["compressed"] else set()) | ({"\x1e", "\x1f"} | set(map(chr, range(0x80, 0x100))) if focus == ["chars"] else set())
    inn, w1 = walk(False); fst, w2 = walk(True)
    ctx.prove("every character once", len(inn) == len(set(inn)) and set(inn) == whole)
    ctx.prove("no digit first, every other character once", fst == [x for x in inn if not x.isdigit()])
    ctx.prove("all are characters of identifiers", all(pt.is_ident_char(x) for x in inn))
    ctx.prove("wraps to the first character", w1 == inn[0] and w2 == inn[0])

class AllLoop:
    """any identifier so far, of any length"""
    active = False
    def enter(m, lr, env, names):
        G.ctx.prove("starts before the shortest identifier", env["next_ident"] == ""); return {"next_ident": G.text}
    def end(m, lr, env): G.ctx.prove("goes on from the last identifier, given or not", env["next_ident"] is G.after); decided()
AL = AllLoop()
def decided():
    ctx = G.ctx
    if G.more: ctx.prove("the character at i goes on, those before stay", ctx.and_(len(G.replaced) == 1, G.replaced[0][0] == G.i, G.replaced[0][1:] == ("\x01next", True), G.ins == []))
    else:
        ctx.prove("all have wrapped: one more character, in front", len(G.ins) == 1 and G.ins[0][0] is G.text and G.ins[0][1] == 0 and G.ins[0][2] is G.first and G.replaced == [])
@unit("C11", loops={("pico_rename", R + ".get_idents", 0): AL, ("pico_rename", R + ".get_idents", 1): IL})
def counting(ctx):
    """get_idents: each new identifier is the successor of the last one (as a number counts up), only keywords are left out"""
    if not ctx.symbolic: concrete(ctx); return
    pr, pp, pt, pd = mods()
    n = ctx.int("n", 0, 1 << 10); G.i = ctx.int("i", 0, 1 << 10)
    G.replaced, G.entered, G.first, G.more, G.ins = [], 0, "\x01first", False, []
    found = [None]
    class C:
        """the character at i"""
    ch = C()
    class Str(Text):
        def __getitem__(m, k): ctx.prove("a character of it", ctx.and_(k == G.i, G.i < n)); return ch
    G.text = Str(n, G.i, ch); G.after = Str(n, G.i, ch)
    def nxt(c, first):
        if c is None: ctx.prove("a first character", first is True); return G.first, True
        ctx.prove("the character at this place", c is ch)
        ctx.prove("first means first", bool(first) == bool(G.i == 0))
        found[0] = ctx.choose([True, False], "found"); return ("\x01next" if found[0] else G.first), found[0]
    def rep(s, at, cnt, what): ctx.prove("one character is replaced", s is G.text and cnt == 1); G.replaced.append((at, what, found[0])); return G.after
    def insert(s, at, what): G.ins.append((s, at, what)); return G.after
    root, c = run(ctx)
    gen = inner("get_idents"); G.ins, G.replaced = [], []
    ctx.contract("pico_rename", R + ".get_next_ident_char", nxt)
    ctx.contract("utils", "str_replace_at", rep); ctx.contract("utils", "str_insert", insert)
    G.isword = None
    class KW:
        def __contains__(m, x): ctx.prove("the new identifier", x is G.after); G.isword = ctx.choose([False, True], "is a keyword"); return G.isword
    ctx.replace("pico_rename", "keywords", KW())
    AL.active = IL.active = True
    try: r = next(iter(gen()))
    finally: AL.active = IL.active = False
    ctx.prove("a new identifier that is no keyword", r is G.after and G.isword is False); decided()
@unit("C11")
def text_helpers(ctx):
    """str_insert and str_replace_at on any string of up to 6 characters"""
    import utils
    n = ctx.choose(range(7), "n"); s = ctx.str("s", n, 0, 255); at = ctx.choose(range(n + 1), "at"); w = ctx.str("w", 1, 0, 255)
    r = utils.str_insert(s, at, w)
    ctx.prove("inserted", len(r) == n + 1 and ctx.and_(*[r[k] == (s[k] if k < at else w if k == at else s[k - 1]) for k in range(n + 1)]))
    if at < n:
        r = utils.str_replace_at(s, at, 1, w)
        ctx.prove("replaced", len(r) == n and ctx.and_(*[r[k] == (w if k == at else s[k]) for k in range(n)]))

# ---- which variables a name is offered to

class MainLoop:
    active = False
    def enter(m, lr, env, names): return {}
    def more(m, lr): G.iter = G.ctx.choose([True, False], "another name") if not G.none_left else True; return G.iter
    def next(m, lr): return G.ident
    def end(m, lr, env): offered()
ML = MainLoop()
def offered():
    ctx = G.ctx; i = G.ident; ex = set()
    if i in G.exg: ex.add(("g", i))
    if i in G.exm: ex.add(("m", i))
    ex |= G.exl.get(i, set())
    before = []; zero = i[0] in "bBxX" and G.pico8
    kinds = [x for x in G.offers if x[0] != "label"]
    if i == "_ENV": ctx.prove("_ENV is no new name of a variable", kinds == [])
    else:
        ctx.prove("offered to each kind of variable once", sorted(x[0] for x in kinds) == ["global", "local", "member"])
        first = kinds[0][2]
        for kind, f, excluded, snap, avoids, vm in kinds:
            ctx.prove("against all that keep the name", ex <= set(snap) and excluded is first)
            ctx.prove("not where it would join a zero", not zero or avoids is G.zero[kind])
            ctx.prove("by name for globals and members, each only once", (kind == "local" and vm is None) or (kind != "local" and f == "one" and vm is G.vmaps[kind]))
    labels = [x for x in G.offers if x[0] == "label"]
    ctx.prove("offered to labels, against those that keep it", len(labels) == 1 and G.exlab.get(i, set()) <= set(labels[0][3]) and all(labels[0][2] is not x[2] for x in kinds))
@unit("C11", loops={("pico_rename", R, 3): ML})
def offers(ctx):
    """the main loop: each name is offered to locals, globals, members and labels against everything that keeps that name; _ENV is
    never offered; it goes on until every variable has a name"""
    if not ctx.symbolic: concrete(ctx); return
    pr, pp, pt, pd = mods(); K = pp.VarKind
    G.ctx = ctx; G.offers = []; G.iter = False
    G.ident = ctx.choose(["g", "m", "l", "both", "_ENV", "b1", "X", "zz"], "ident")
    G.pico8 = ctx.choose([True, False], "pico8"); G.none_left = ctx.choose([False, True], "none left")
    L = object(); G.exg, G.exm = {"g", "both"}, {"m", "both"}; G.exl = {"l": {L}, "both": {L}, "_ENV": {L}}; G.exlab = {"l": {"lab"}, "zz": {"lab"}}
    def visit(k, f):
        if k != 1: return
        ce = cell(f, "compute_effective_kind")
        for x in G.exg: cell(ce, "global_excludes").add(x)
        for x in G.exm: cell(ce, "member_excludes").add(x)
        for x, s in G.exl.items(): cell(ce, "local_excludes")[x] |= s
        for x, s in G.exlab.items(): cell(ce, "label_excludes")[x] |= s
        G.zero = {"local": cell(f, "locals_after_zero"), "global": cell(f, "globals_after_zero"), "member": cell(f, "members_after_zero")}
        for x in G.zero.values(): x.add("nobody")
        if not G.none_left:
            cell(f, "local_uses")["lv"] = 1; cell(f, "global_uses")["gv"] = 1; cell(f, "member_uses")["mv"] = 1; cell(f, "label_uses")["bv"] = 1
    def offer(f):
        def g(remaining, excluded, renames, avoids, ident, var_map=None, i=0):
            ctx.prove("the name in question", ident == G.ident)
            k = {"lv": "local", "gv": "global", "mv": "member", "bv": "label"}[remaining[0]]
            G.offers.append((k, f, excluded, list(excluded), avoids, var_map)); excluded.append(("taken", k))
            return None
        return g
    ctx.contract("pico_rename", R + ".select_var", offer("one")); ctx.contract("pico_rename", R + ".select_vars", offer("all"))
    def mk(p): 
        class D(dict):
            def __missing__(m, k): return (p, k)
        return D()
    c = Duck(); c.lang = pd.Language.pico8 if G.pico8 else pd.Language.picotron; c.srcmap = None; c.builtins, c.builtin_callbacks, c.builtin_members = set(), set(), set()
    G.maps, G.asked, G.preserved = [], [], False
    root = Root(visit); root.globals, root.members = mk("g"), mk("m"); G.vmaps = {"global": root.globals, "member": root.members}
    ML.active = True
    try: pr.rename_tokens(c, root, {"focus": ctx.choose([[], ["chars"]], "focus")})
    finally: ML.active = False
    if G.iter: ctx.prove("stops only when every variable has a name", G.none_left and G.offers == [])

@unit("C11")
def connected(ctx):
    """the names given to variables of each kind are those put into the tree for them; conflicting rename hints are refused"""
    if not ctx.symbolic: concrete(ctx); return
    pr, pp, pt, pd = mods(); G.ctx = ctx; given = {}; hint = ctx.choose([None, "same", "other", "compatible"], "hints"); seen = []
    hints = []
    def visit(k, f):
        if k == 1:
            cell(f, "local_uses")["lv"] = 1; cell(f, "global_uses")["gv"] = 1; cell(f, "member_uses")["mv"] = 1; cell(f, "label_uses")["bv"] = 1
            if hint:
                for r in ("x", "y" if hint == "other" else "x"):
                    v = Duck(); v.name = "v"; v.rename = r; cell(cell(f, "compute_effective_kind"), "renamed_vars").add(v); hints.append(v)
        else:
            seen.append(1)
            for k in ("local", "global", "member", "label"): ctx.prove("the names that were given", cell(f, k + "_renames") is given.get(k))
            ctx.prove("different tables", len(set(map(id, given.values()))) == 4)
    def offer(remaining, excluded, renames, avoids, ident, var_map=None, i=0):
        if remaining: given[{"lv": "local", "gv": "global", "mv": "member", "bv": "label"}[remaining.pop()]] = renames
        return None
    ctx.contract("pico_rename", R + ".select_var", offer); ctx.contract("pico_rename", R + ".select_vars", offer)
    ctx.contract("pico_rename", R + ".are_vars_compatible", lambda a, b: hint == "compatible")
    from utils import CheckError
    try: run(ctx, visit, keep=True); ok = True
    except CheckError: ok = False
    ctx.prove("conflicting hints are refused", ok is (hint != "same"))
    ctx.prove("then the tree is renamed", bool(seen) is ok)

# ---- the new names in the tree

@unit("C11", limit=200)
def updated(ctx):
    """update_idents: every occurrence gets the new name of its variable, in the tree and in its token (or its string)"""
    if not ctx.symbolic: concrete(ctx); return
    pr, pp, pt, pd = mods(); K, T = pp.VarKind, pp.NodeType
    root, c = run(ctx); f = root.visits[-1]
    ctx.prove("the tree is visited for uses and for new names", len(root.visits) == 2)
    n = Duck(); n.type = T.var; v = n.var = Duck(); v.name = "old"; n.name = "old"
    n.effective_kind = ek = ctx.choose([K.member, K.global_, K.local, K.label, None], "kind")
    v.rename = ctx.choose([None, "hint"], "rename") if ek is None else None
    if v.rename: n.name = "hint"
    for k, key in (("member", "old"), ("global", "old"), ("local", v), ("label", v)): cell(f, k + "_renames")[key] = "new_" + k
    const = ctx.choose([False, True], "const")
    t = Duck(); got = []; t.value = "'a.old'" if const else "old"; t.modify = lambda x: got.append(x)
    p = n.parent = Duck(); p.type = T.const if const else T.assign
    if const: p.children = [t]; p.extra_names = ["a", ".", "old"]; n.extra_i = 2
    else: n.children = [t]
    f(n)
    want = {K.member: "new_member", K.global_: "new_global", K.local: "new_local", K.label: "new_label", None: v.rename or "old"}[ek]
    ctx.prove("the new name of its variable", n.name == want)
    if want == "old": ctx.prove("what keeps its name is untouched", got == [])
    elif const: ctx.prove("written into the string", got in (['"a.%s"' % want], ["'a.%s'" % want]) and p.extra_names == ["a", ".", want])
    else: ctx.prove("written into its token", got == [want])

# ---- what to preserve

class Rules:
    __pv_sym__ = True
    def __bool__(m): return True
    def __iter__(m): raise TypeError("Sym: iterates any number of rules")
class RuleLoop:
    """value is that of the last matching rule, which is not False"""
    active = False
    def enter(m, lr, env, names):
        G.entered += 1; G.start = env["value"]; return {"value": G.value}
    def more(m, lr): G.more = G.ctx.choose([True, False], "more rules"); return G.more
    def next(m, lr): return (*G.pats, G.rv)
    def end(m, lr, env): G.ctx.prove("a matching rule decides over those before it", env["value"] is (G.rv if G.match else G.value) and env["value"] is not False)
R1, R2L = RuleLoop(), RuleLoop()
class Pat:
    def __init__(m, what, r): m.what, m.r = what, r
    def match(m, s): G.ctx.prove("matched against the name", s == m.what); return object() if m.r else None
@unit("C11", params=[0, 1], loops={("pico_rename", "IncludeExcludeMapping.__contains__", 0): R1, ("pico_rename", "TableMemberPairIncludeExcludeMapping.__contains__", 0): R2L})
def preserve_rules(ctx, pairs):
    """what a list of any number of preserve rules keeps: exact names first, then the default, then each pattern in order; a negated rule ends it"""
    if not ctx.symbolic: ctx.prove("checked by the suites", True); return
    pr, pp, pt, pd = mods(); G.ctx, G.entered, G.more = ctx, 0, False
    TRI = [None, True, False]
    G.value = ctx.choose([None, True], "value so far"); G.rv = ctx.choose([True, False], "rule"); 
    dflt, regexs = ctx.choose(TRI, "default"), ctx.choose([None, Rules()], "patterns")
    if pairs:
        m = pr.TableMemberPairIncludeExcludeMapping(); key = ctx.choose([("t", "k"), "k"], "key"); t, k = key if isinstance(key, tuple) else ("", key)
        vs = [ctx.choose(TRI[1:] + ["absent"], x) for x in ("pair", "table", "member")]
        for v, d, kk in zip(vs, (m.pair_dict, m.table_dict, m.member_dict), (key, t, k)):
            if v != "absent": d[kk] = v
        if any(v != "absent" for v in vs): dflt = True
        exact = next((v for v in vs if v != "absent"), dflt)
        a, b = ctx.choose([True, False], "t matches"), ctx.choose([True, False], "k matches")
        G.pats = (Pat(t, a), Pat(k, b)); G.match = a and b
    else:
        m = pr.IncludeExcludeMapping(); key = "k"; v = ctx.choose(TRI[1:] + ["absent"], "exact")
        if v != "absent": m.dict["k"] = v
        exact = dflt if v == "absent" else v
        G.match = ctx.choose([True, False], "matches"); G.pats = (Pat("k", G.match),)
    m.default, m.regexs = dflt, regexs
    if exact is not False and regexs is not None: pass
    R1.active = R2L.active = True
    try: r = m.__contains__(key)
    finally: R1.active = R2L.active = False
    if exact is False: ctx.prove("excluded by name", r is False and G.entered == 0)
    elif regexs is None: ctx.prove("by name or by default", r is bool(exact))
    else:
        ctx.prove("patterns start from the name's own rule or the default", G.entered == 1 and G.start is exact)
        if G.more: ctx.prove("only a negated rule that matches ends it", G.match and G.rv is False and r is False)
        else: ctx.prove("the last matching rule decides", r is bool(G.value))

RULES = [("a", "g", "a", True), ("!a", "g", "a", False), ("a*", "g", "a*", True), ("*", "g", "*", True), ("!*", "g", "*", False),
         ("a.b", "m", ["a", "b"], True), ("!a.b", "m", ["a", "b"], False), ("*.b", "m", ["*", "b"], True), ("!*.*", "m", ["*", "*"], False), ("a.*", "m", ["a", "*"], True)]
@unit("C11", limit=200)
def rules(ctx):
    """preserve rules given as options: each goes to the names or to the members, as they are or negated, in order; built-ins are kept"""
    if not ctx.symbolic: ctx.prove("checked by the suites", True); return
    rs = [ctx.choose(RULES, "rule"), ctx.choose(RULES[:6], "rule2")]
    run(ctx, opts={"rules": [x[0] for x in rs]})
    g, m = G.maps
    ctx.prove("built-in names are kept", set(g.init[0]) >= {"g", "cb"} and set(m.init[1]["members"]) >= {"m"})
    ctx.prove("names", g.rules == [(x[2], x[3]) for x in rs if x[1] == "g"])
    ctx.prove("members", [(list(k), v) for k, v in m.rules] == [(x[2], x[3]) for x in rs if x[1] == "m"])

def kinds(m, keys):
    """where set() puts a rule, by the mapping's own decision"""
@unit("C11", limit=200)
def rule_places(ctx):
    """set(): a rule with its exact names goes under these, * alone is the default, everything else is a pattern, in order"""
    pr, pp, pt, pd = mods()
    v = ctx.choose([True, False], "value")
    m = pr.IncludeExcludeMapping(["k"])
    ctx.prove("the given names are kept", "k" in m and "x" not in m)
    m.set("a", v); ctx.prove("exactly this name", ("a" in m) is v and "ab" not in m and "k" in m)
    m.set("p*", True); ctx.prove("what matches", "pq" in m and "p" in m and "qp" not in m)
    m.set("*", v); ctx.prove("everything else", ("other" in m) is v and ("a" in m) is v and "pq" in m if v else ("other" not in m))
    m = pr.TableMemberPairIncludeExcludeMapping(members=["k"])
    ctx.prove("the given members are kept", ("t", "k") in m and "k" in m and ("t", "x") not in m)
    m.set(("t", "a"), v); ctx.prove("exactly this pair", (("t", "a") in m) is v and ("u", "a") not in m)
    m.set(("w", "*"), v); ctx.prove("every member of a table", (("w", "z") in m) is v and ("u", "z") not in m)
    m.set(("*", "b"), v); ctx.prove("this member of every table", (("u", "b") in m) is v and ("u", "c") not in m)
    m.set(("q*", "b*"), True); ctx.prove("what matches", ("q1", "b2") in m and ("q1", "c") not in m and ("r", "b2") not in m)
    m.set(("*", "*"), v); ctx.prove("everything else", (("n", "n") in m) is v)
