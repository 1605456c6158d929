"""C19 contracts: preprocess_code (scanner, flushes, includes), read_included_cart, trim_cart_to_tab, get_line_col, get_tab_line_col,
CartSource.get_location, for any text, any include map and any position"""
from pyver.unit import unit
class G: pass
BIG = 1 << 30
def PP():
    import pico_process, pico_preprocess
    return pico_preprocess

def text(ctx, name="code"):
    """a string of any length and content, whose find() is known only by its contract, and whose slices are pieces of it"""
    from pyver import sym
    class Text(sym.SymArr):
        def find(m, needle, s=0, e=None):
            n = len(needle)
            ctx.prove("searches from a position in the text", ctx.and_(s >= 0))
            if ctx.choose([True, False], "found"):
                r = ctx.fresh("at", 0, BIG)
                ctx.assume(ctx.and_(r >= s, r + n <= m.length))
                for k, c in enumerate(needle): ctx.assume(m.raw(r + k) == ord(c))
                m.finds.append((needle, s, r))
                return r
            m.finds.append((needle, s, None))
            return -1
        def none_in(m, needle, a, b):
            """known from the finds so far: no needle starts in [a, b)"""
            return ctx.or_(*[ctx.and_(a >= s, (b <= r) if r is not None else True) for n, s, r in m.finds if n == needle])
        def __getitem__(m, i):
            if isinstance(i, slice):
                ctx.prove("slices forward", i.step is None)
                return Piece(m, i.start, i.stop)
            return super().__getitem__(i)
    n = ctx.int(name + "_len", 0, 1 << 29)
    a = sym.SymArr.fresh(ctx.sym.ENG.fresh_name(name), n, 1, 255, "str")
    t = Text(a.arr, n, 1, 255, 0, "str"); t.finds = []
    return t
class Piece:
    __pv_sym__ = True
    def __init__(m, of, a, b): m.of, m.a, m.b = of, a, b
    def split(m, sep=None, maxsplit=-1):
        G.ctx.prove("splits off the directive's name", sep is None and maxsplit == 1)
        m.line = True; G.split = m
        return G.args
    def pv_str(m): return "?"
    def pv_len(m): return m.b - m.a

# ---- the scanner

class Outer:
    active = False; keep = ("path", "code", "opts", "outparts", "outmappings", "start_line")
    def enter(m, lr, env, names):
        ctx, c = G.ctx, G.code
        ctx.prove("entry: at the start, nothing output", env["i"] == 0 and env["start_i"] == 0 and env["out_i"] == 0 and env["outparts"] == [] and env["outmappings"] == [])
        G.i, G.s, G.o = ctx.fresh("i", 0, BIG), ctx.fresh("start_i", 0, BIG), ctx.fresh("out_i", 0, BIG)
        ctx.assume(ctx.and_(G.s <= G.i, G.s <= c.length, m.boundary(G.s)))
        G.entered = True
        return {"i": G.i, "start_i": G.s, "out_i": G.o}
    def boundary(m, s):
        """what is still to be output begins at a line start or at a line end (so a directive's line never begins before it)"""
        ctx, c = G.ctx, G.code
        return ctx.or_(s == 0, s == c.length, c.raw(s) == 10, ctx.and_(s >= 1, c.raw(s - 1) == 10))
    def end(m, lr, env):
        ctx, c = G.ctx, G.code
        parts, maps, i, s, o = env["outparts"], env["outmappings"], env["i"], env["start_i"], env["out_i"]
        flushed = [p for p in parts if isinstance(p, Piece)]
        ctx.prove("the text before start_i has been output", ctx.and_(s <= i, s <= c.length, m.boundary(s)))
        ctx.prove("progress", i > G.i)
        k = G.s
        if flushed:
            p, q = parts[0], maps[0]; k = p.b
            ctx.prove("what is output begins where the last output ended, and ends where it says", len(flushed) == 1 and p.of is c and ctx.and_(p.a == G.s, p.b > p.a, p.b <= c.length))
            ctx.prove("and is mapped to its place in the file", ctx.and_(q.idx == G.o, q.src_path is G.path, q.src_code is c, q.src_idx == G.s, q.src_line is G.line))
        n = len(flushed)
        if G.inc:
            (kw, oi, res), = G.inc
            ctx.prove("an include goes behind what was output before it", ctx.and_(oi == G.o + (k - G.s), parts[n:] == [G.incpart], maps[n:] == [G.incmap], o == res))
            ctx.prove("the include directive and the rest of its line are replaced, from the line's start", ctx.and_(s == i, s == G.split.b, k <= G.split.a))
            t = G.t
            ctx.prove("only white space precedes it in its line", ctx.implies(ctx.and_(t >= k, t < G.split.a), ctx.and_(c.raw(t) != 10, ctx.or_(c.raw(t) == 32, c.raw(t) == 9, c.raw(t) == 13))))
            ctx.prove("which is the start of a line", ctx.or_(k == 0, c.raw(k - 1) == 10))
        else:
            ctx.prove("nothing is skipped and nothing output twice", ctx.and_(len(parts) == n, len(maps) == n, s == k, o == G.o + (k - G.s)))
        m.lexical(i, s)
    def lexical(m, i, s):
        """what the iteration passes over is one comment, one string, one directive or one other character"""
        ctx, c = G.ctx, G.code
        def at(k): return ctx.ite(k < c.length, c.raw(k), 0)
        c0, c1 = at(G.i), at(G.i + 1)
        what = [w for w, _ in G.passed]
        if G.inc or "back" in what: 
            ctx.prove("a directive: # and neither white space, a bracket nor the end after it", ctx.and_(c0 == 35, c1 != 0, c1 != 40, c1 != 32, c1 != 9, c1 != 10, c1 != 13))
            if not G.inc: ctx.prove("passes only the #", i == G.i + 1)
        elif "bracket" in what or "line" in what or "cline" in what:
            w, info = G.passed[-1]
            ctx.prove("comment or long string", ctx.or_(ctx.and_(c0 == 45, c1 == 45), ctx.and_(c0 == 47, c1 == 47, w == "cline"), ctx.and_(c0 == 91, w == "bracket")))
            if w == "bracket": ctx.prove("as far as the bracket's end", ctx.and_(info[0] == ctx.ite(c0 == 91, G.i, G.i + 2), i == info[1]))
            else: ctx.prove("as far as the line's end", ctx.and_(info == ctx.ite(c0 == 45, G.i + 2, G.i), ctx.or_(i >= c.length, c.raw(i) == 10), ctx.implies(ctx.and_(G.t >= info, G.t < i), c.raw(G.t) != 10)))
        elif "string" in what:
            ctx.prove("a quoted string", ctx.and_(ctx.or_(c0 == 34, c0 == 39), G.passed[-1][1] == G.i + 1))
            ctx.prove("as far as the same quote", ctx.and_(i >= G.i + 2, ctx.or_(i - 1 >= c.length, c.raw(i - 1) == c0)))
        else:
            ctx.prove("one character", i == G.i + 1)
            ctx.prove("which begins no comment, string or directive", ctx.not_(ctx.or_(ctx.and_(c0 == 45, c1 == 45), ctx.and_(c0 == 47, c1 == 47), c0 == 34, c0 == 39,
                      ctx.and_(c0 == 91, not G.nolong), ctx.and_(c0 == 35, c1 != 0, c1 != 40, c1 != 32, c1 != 9, c1 != 10, c1 != 13))))
class Skip:
    """a loop that passes over a comment"""
    keep = Outer.keep + ("ch", "start_i", "out_i"); active = False
    def __init__(m, name): m.name = name
    def enter(m, lr, env, names):
        ctx, c = G.ctx, G.code
        G.passed.append((m.name, env["i"]))
        m.i = ctx.fresh("i_" + m.name, 0, BIG)
        t = G.t
        ctx.assume(ctx.and_(m.i >= env["i"], ctx.implies(ctx.and_(t >= env["i"], t < m.i), c.raw(t) != 10)))
        return {"i": m.i}
    def end(m, lr, env):
        ctx, c = G.ctx, G.code
        ctx.prove("passes no line end", ctx.and_(env["i"] == m.i + 1, m.i < c.length, c.raw(m.i) != 10))
class Str(Skip):
    def enter(m, lr, env, names):
        ctx, c = G.ctx, G.code
        G.passed.append((m.name, env["i"])); m.q = env["ch"]
        m.i = ctx.fresh("i_" + m.name, 0, BIG); ctx.assume(m.i >= env["i"])
        return {"i": m.i}
    def end(m, lr, env):
        ctx, c = G.ctx, G.code
        ctx.prove("passes one character that is not the quote, or an escape", ctx.and_(m.i < c.length, ctx.or_(ctx.and_(c.raw(m.i) == 92, env["i"] == m.i + 2),
                  ctx.and_(c.raw(m.i) != 92, env["i"] == m.i + 1)), ctx.not_(c[m.i] == m.q)))
class Back(Skip):
    keep = Skip.keep + ("hash_i",)
    def enter(m, lr, env, names):
        ctx, c, t = G.ctx, G.code, G.t
        G.passed.append((m.name, env["i"]))
        ctx.prove("looks back from the #", ctx.and_(env["i"] == G.i, env["hash_i"] == G.i))
        m.i = ctx.fresh("i_back", 0, BIG)
        ctx.assume(ctx.and_(m.i >= G.s, m.i <= G.i, c.raw(m.i) != 10, ctx.implies(ctx.and_(t >= m.i, t < G.i), m.ws(t))))
        return {"i": m.i}
    def ws(m, t): c = G.code; return G.ctx.or_(c.raw(t) == 32, c.raw(t) == 9, c.raw(t) == 13)
    def end(m, lr, env):
        ctx, c = G.ctx, G.code
        ctx.prove("one white space character back in the line, not into text already output", ctx.and_(env["i"] == m.i - 1, m.i > G.s, m.ws(m.i - 1)))
O = Outer(); SK = [Skip("line"), Skip("cline"), Str("string"), Back("back")]
MOD = "pico_preprocess"
LOOPS = {(MOD, "preprocess_code", k): l for k, l in enumerate([O] + SK)}

@unit("C19", params=["include", "include-bare", "other"], loops=LOOPS)
def scan(ctx, directive):
    """preprocess_code: each step passes one comment, string, directive or character; text is output once, in order, mapped to its place"""
    if not ctx.symbolic: concrete(ctx); return
    pp = PP(); G.ctx = ctx
    G.code = c = text(ctx); G.path, G.line = object(), object(); G.t = ctx.fresh("t", 0, BIG); ctx.assume(G.t < c.length)
    G.passed, G.inc, G.nolong, G.entered = [], [], False, False
    name = object(); G.incpart, G.incmap = object(), object()
    G.args = {"include": ["#include", name], "include-bare": ["#include"], "other": ["#foo", "bar"]}[directive]
    class Match:
        def __init__(m, e): m.e = e
        def end(m): return m.e
    class LB:
        def match(m, code, i):
            ctx.prove("looks for a long bracket in the code, from there", code is c)
            if ctx.choose([True, False], "long bracket"):
                e = ctx.fresh("bracket_end", 0, BIG); ctx.assume(ctx.and_(e >= i + 4, e <= c.length))
                G.passed.append(("bracket", (i, e)))
                return Match(e)
            G.nolong = True
            return None
    ctx.replace(MOD, "k_long_brackets_re", LB())
    def inc(orig, inc_name, out_i, outparts, outmappings, **opts):
        ctx.prove("the named file is included, relative to this one, with the same options", orig is G.path and inc_name is name and list(opts.items()) == [("opt", 5)])
        # the rest of the line belongs to the directive
        ctx.prove("only #include directives include", directive == "include")
        n = ctx.fresh("inc_len", 0, BIG)
        outparts.append(G.incpart); outmappings.append(G.incmap)
        G.inc.append((opts, out_i, out_i + n))
        ctx.prove("the directive begins at the # and ends with its line", ctx.and_(G.split.a == G.i, ctx.or_(G.split.b == c.length, c.raw(G.split.b) == 10), c.none_in("\n", G.split.a, G.split.b)))
        return out_i + n
    ctx.contract(MOD, "read_included_cart", inc)
    O.active = True
    for s in SK: s.active = True
    try: code, maps = pp.preprocess_code(G.path, c, G.line, opt=5)
    finally:
        O.active = False
        for s in SK: s.active = False
    # all of the code has been passed: the rest is output
    if not G.entered: ctx.prove("nothing to do for empty code only", c.length == 0)
    if maps == []: ctx.prove("nothing left to output", G.s >= c.length)
    else:
        q, = maps
        ctx.prove("the rest is output, and mapped", ctx.and_(isinstance(code, Piece) and code.of is c, code.a == G.s, code.b >= c.length, q.idx == G.o, q.src_path is G.path, q.src_code is c, q.src_idx == G.s, q.src_line is G.line))
    ctx.cover("the end is reached", len(maps) == 1)

def concrete(ctx):
    import random
    from bounded.C19 import attempt
    bad = attempt(random.Random(ctx.int("seed", 0, 1 << 30)))
    ctx.prove("text and locations of the preprocessed code", not bad, repr(bad)[:800])

# ---- included carts

class Maps:
    """any list of mappings"""
    __pv_sym__ = True
    def __init__(m, nonempty): m.nonempty = nonempty
    def __bool__(m): return m.nonempty
    def __reversed__(m): return Rev(m)
class Rev:
    __pv_sym__ = True
    def __init__(m, of): m.of = of
class M: pass
def mapping(ctx, n):
    r = M(); r.idx, r.src_idx, r.src_path, r.src_code, r.src_line = ctx.fresh(f"idx{n}", 0, BIG), ctx.fresh(f"src{n}", 0, BIG), object(), object(), object()
    return r
class IncLoop:
    active = False; keep = ("orig_path", "inc_name", "out_i", "outparts", "outmappings", "inc_cart", "tab_idx", "inc_path", "opts", "include_notifier")
    def enter(m, lr, env, names):
        G.ctx.prove("all of the included cart's mappings are taken, in their order", lr.it is G.cart.code_map)
        G.ctx.prove("none before", env["outmappings"] == [])
        m.map = mapping(G.ctx, "m"); return {}
    def more(m, lr): return G.ctx.choose([True, False], "more")
    def next(m, lr): return m.map
    def end(m, lr, env):
        ctx = G.ctx; ms = env["outmappings"]; k = m.map
        ctx.prove("a mapping at the place where its text is output", len(ms) == 1 and ctx.and_(ms[0].idx == G.out_i + k.idx, ms[0].src_idx == k.src_idx) and
                  ms[0].src_path is k.src_path and ms[0].src_code is k.src_code and ms[0].src_line is k.src_line)
IL = IncLoop()
@unit("C19", params=[(t, mp, w) for t in ("", ":0", ":9", ":f", ":A") for mp in (True, False) for w in ("found", "backslash", "missing")], loops={(MOD, "read_included_cart", 0): IL})
def included(ctx, p):
    """read_included_cart: the text of the named cart (or tab of it) and its mappings, moved to where it is output"""
    if not ctx.symbolic: concrete(ctx); return
    tab, mapped, where = p
    pp = PP(); G.ctx = ctx; G.out_i = ctx.int("out_i", 0, BIG)
    c0 = text(ctx, "inc_code"); seen = []; G.cart = cart = M(); cart.code, cart.code_map, cart.path = c0, Maps(mapped), "P/FILE"
    trimmed = text(ctx, "tab_code"); noted = []
    ctx.replace(MOD, "path_dirname", lambda q: ("dir", q))
    def join(d, n): ctx.prove("relative to the including file", d == ("dir", "ORIG")); return "P/" + n
    ctx.replace(MOD, "path_join", join)
    good = {"found": "P/a\\F", "backslash": "P/a/F", "missing": None}[where]
    ctx.replace(MOD, "path_exists", lambda q: q == good)
    def rd(path, **o):
        ctx.prove("the file is read with the same options", path == good and list(o.items()) == [("opt", 5)]); seen.append("read")
        return cart
    ctx.replace(MOD, "read_cart", rd)
    own = []
    def trim(ct, k):
        ctx.prove("the named tab of it", ct is cart and k == int(tab[1:], 16))
        seen.append("trim"); own.append(ct.code_map)
        ct.code = trimmed; ct.code_map = Maps(True)
        ct.code_map.trimmed = True
    ctx.contract(MOD, "trim_cart_to_tab", trim)
    def note(q): noted.append(q)
    parts, maps = [], []
    IL.active = True
    try: r = pp.read_included_cart("ORIG", "a\\F" + tab, G.out_i, parts, maps, include_notifier=note, opt=5)
    except pp.IncludeNotFoundError: 
        ctx.prove("fails only if there is no such file", where == "missing" and not parts); return
    finally: IL.active = False
    ctx.prove("read once, and trimmed if a tab is named", where != "missing" and seen == (["read", "trim"] if tab else ["read"]) and noted == [good])
    want = trimmed if tab else c0
    ctx.prove("its text is output", len(parts) == 1 and parts[0] is want)
    ctx.prove("and counted", r == G.out_i + want.length)
    if not mapped:
        cm = own[0] if tab else cart.code_map
        ctx.prove("a cart without mappings maps to itself", len(cm) == 1 and (cm[0].idx, cm[0].src_path, cm[0].src_idx, cm[0].src_line) == (0, good, 0, 0) and cm[0].src_code is c0)
        if not tab: pass
class IncConcrete: pass

# ---- tabs

BRK = "\n-->8\n"
class Tabs:
    """looks for the k-th tab: 'start' is the start of tab 'tab'"""
    active = False; keep = ("cart", "target_tab", "limit")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("from tab 0, at the start of the code", env["tab"] == 0 and env["start"] == 0 and env["limit"] is G.code.length)
        G.tab, G.start = ctx.fresh("tab", 0, 16), ctx.fresh("start", 0, BIG)
        G.code.finds.clear()
        ctx.assume(G.tab <= env["target_tab"])
        return {"tab": G.tab, "start": G.start}
    def end(m, lr, env):
        ctx = G.ctx
        (n, s, r), = G.code.finds
        ctx.prove("the next tab begins behind the next separator", ctx.and_(n == BRK, s == G.start, env["tab"] == G.tab + 1, env["tab"] <= env["target_tab"], env["start"] == (r if r is not None else G.code.length) + len(BRK)))
class TabMaps:
    active = False; keep = ("cart", "target_tab", "limit", "tab", "start", "end", "new_code_map")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("the mappings of the cart, in their order", lr.it is G.maps and env["new_code_map"] == [])
        ctx.prove("the tab that was asked for", ctx.and_(env["tab"] == G.want, env["start"] == G.start))
        (n, s, r), = G.code.finds
        ctx.prove("ends at the next separator, or with the code", ctx.and_(n == BRK, s == G.start, env["end"] == (r if r is not None else G.code.length)))
        ctx.prove("its text is kept", isinstance(env["cart"].code, Piece) and env["cart"].code.of is G.code and ctx.and_(env["cart"].code.a == G.start, env["cart"].code.b == env["end"]))
        m.map = mapping(ctx, "m"); G.events = []
        # any position of the tab, and any mapping: those at or before the position come first
        ctx.assume(ctx.and_(G.p >= env["start"], G.p <= env["end"]))
        m.done = False
        return {"new_code_map": New()} if "new_code_map" in names else {}
    def more(m, lr): return G.ctx.choose([True, False], "more")
    def next(m, lr): m.done = True; G.iter = True; return m.map
    def end(m, lr, env):
        check_map(env["start"])
TabMaps.extra = ("new_code_map",)
class New:
    __pv_sym__ = True
    def append(m, x): G.events.append(x)
    def clear(m): G.events.append("clear")
def check_map(start, broke=False):
    """the iteration keeps: the last mapping at or before the position gives the position's source place"""
    ctx, k, p = G.ctx, TM.map, G.p
    before = k.idx <= p
    if broke: ctx.prove("mappings of the tab's text are all taken", ctx.not_(before)); return
    new = [e for e in G.events if e != "clear"]
    ctx.prove("a mapping is taken once", len(new) == 1 and G.events[-1] is new[0])
    e = new[0]; q = p - start
    ctx.prove("from the same source", e.src_path is k.src_path and e.src_code is k.src_code and e.src_line is k.src_line)
    inside = bool(k.idx >= start)
    # (for a mapping from before the tab: src_idx + (start - idx) + (p - start) = src_idx + (p - idx); for one in the tab: both offsets are p - idx)
    ctx.prove("starts at the tab's start, or where it did", e.idx == ((k.idx - start) if inside else 0))
    ctx.prove("and at the source place of that", (e.src_idx == k.src_idx) if inside else (e.src_idx == k.src_idx + (start - k.idx)))
    ctx.prove("a mapping at or before the position still is", ctx.implies(before, ctx.and_(e.idx <= q, e.idx >= 0)))
    ctx.prove("a mapping behind the position still is, and no earlier one is dropped", ctx.implies(ctx.not_(before), ctx.and_(e.idx > q, "clear" not in G.events)))
TB, TM = Tabs(), TabMaps()
@unit("C19", loops={(MOD, "trim_cart_to_tab", 0): TB, (MOD, "trim_cart_to_tab", 1): TM})
def tab(ctx):
    """trim_cart_to_tab: the text of that tab, every position of which keeps its source place"""
    if not ctx.symbolic: concrete(ctx); return
    pp = PP(); G.ctx = ctx; G.code = text(ctx); G.maps = Maps(True); G.want = want = ctx.int("want", 0, 15); G.p = ctx.int("p", 0, BIG); G.iter = False
    cart = M(); cart.code, cart.code_map, cart.path = G.code, G.maps, "PATH"
    class Missing(Exception): pass
    def thr(*a): raise Missing
    ctx.replace(MOD, "throw", thr)
    TB.active = TM.active = True
    try: pp.trim_cart_to_tab(cart, want)
    except Missing: ctx.prove("fails only behind the last tab", G.start >= G.code.length); return
    finally: TB.active = TM.active = False
    ctx.prove("the new mappings are used", isinstance(cart.code_map, New) or cart.code_map == [])
    if G.iter: check_map(None, broke=True)

# ---- line and column

class Lines:
    active = False; keep = ("text", "idx")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("line 0 begins at the start", ctx.and_(env["line"] == 0, env["start"] == G.start))
        G.line, G.ls = ctx.fresh("line", 0, BIG), ctx.fresh("line_start", 0, BIG)
        G.code.finds.clear()
        ctx.assume(ctx.and_(G.ls >= G.start, G.ls <= G.idx))
        return {"line": G.line, "start": G.ls}
    def end(m, lr, env):
        ctx = G.ctx
        (n, s, r), = G.code.finds
        ctx.prove("the next line begins behind the next line break, at or before the position", n == "\n" and r is not None and ctx.and_(s == G.ls, env["line"] == G.line + 1, env["start"] == r + 1, r < G.idx))
LN = Lines()
@unit("C19", loops={("pico_process", "get_line_col", 0): LN})
def line_col(ctx):
    """get_line_col: line = number of line breaks between start and idx; col = characters since the last of them"""
    import pico_process as p
    if not ctx.symbolic:
        n = ctx.int("n", 0, 1 << 20); import random; rng = random.Random(n)
        t = "".join(rng.choice("ab\n\r") for _ in range(rng.randrange(12))); a = rng.randrange(len(t) + 1); i = rng.randrange(a, len(t) + 1)
        s = t[a:i]
        ctx.prove("line and column", p.get_line_col(t, i, a) == (s.count("\n"), len(s) - (s.rfind("\n") + 1))); return
    G.ctx = ctx; G.code = text(ctx); G.start, G.idx = ctx.int("start", 0, BIG), ctx.int("idx", 0, BIG)
    ctx.assume(ctx.and_(G.start <= G.idx, G.idx <= G.code.length))
    LN.active = True
    try: line, col = p.get_line_col(G.code, G.idx, G.start)
    finally: LN.active = False
    ctx.prove("the line that was found", ctx.and_(line == G.line, col == G.idx - G.ls))
    ctx.prove("no further line break before the position", ctx.or_(G.ls == G.idx, G.code.none_in("\n", G.ls, G.idx)))

class TabPos:
    active = False; keep = ("text", "idx")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("tab 0 begins at the start", ctx.and_(env["tab"] == 0, env["start"] == 0))
        G.tab, G.ts = ctx.fresh("tab", 0, 15), ctx.fresh("tab_start", 0, BIG)
        G.code.finds.clear()
        ctx.assume(G.ts <= G.idx)
        return {"tab": G.tab, "start": G.ts}
    def end(m, lr, env):
        ctx = G.ctx
        (n, s, r), = G.code.finds
        ctx.prove("the next tab begins behind the next separator, at or before the position", n == BRK and r is not None and
                  ctx.and_(s == G.ts, env["tab"] == G.tab + 1, env["tab"] <= 15, env["start"] == r + len(BRK), r + len(BRK) <= G.idx))
TP = TabPos()
@unit("C19", loops={("pico_process", "get_tab_line_col", 0): TP})
def tab_line_col(ctx):
    """get_tab_line_col: the tab of the position (at most 16 tabs), and line and column in it"""
    import pico_process as p
    if not ctx.symbolic:
        n = ctx.int("n", 0, 1 << 20); import random; rng = random.Random(n)
        t = "".join(rng.choice(["ab", "\n", BRK, BRK, "-->8", "\n-->8"]) for _ in range(rng.randrange(24))); i = rng.randrange(len(t) + 1)
        ctx.prove("tab, line and column", p.get_tab_line_col(t, i) == ref_tab(t, i)); return
    G.ctx = ctx; G.code = text(ctx); G.idx = ctx.int("idx", 0, BIG); ctx.assume(G.idx <= G.code.length)
    res = []
    def glc(t, i, s=0):
        ctx.prove("line and column are those since the tab's start", t is G.code and ctx.and_(i == G.idx, s == G.ts)); res.append(1)
        return "LINE", "COL"
    ctx.contract("pico_process", "get_line_col", glc)
    TP.active = True
    try: r = p.get_tab_line_col(G.code, G.idx)
    finally: TP.active = False
    ctx.prove("the tab that was found", len(r) == 3 and (r[1], r[2]) == ("LINE", "COL") and len(res) == 1 and r[0] == G.tab)
    f = G.code.finds
    ctx.prove("there is no later tab at or before the position", ctx.or_(G.tab == 15, G.ts == G.idx, *[ctx.and_(n == BRK, s == G.ts, True if e is None else e + len(BRK) > G.idx) for n, s, e in f]))
def ref_tab(t, i):
    tab = s = 0
    while tab < 15:
        k = t.find(BRK, s)
        if k < 0 or k + len(BRK) > i: break
        tab += 1; s = k + len(BRK)
    x = t[s:i]
    return tab, x.count("\n"), len(x) - (x.rfind("\n") + 1)

@unit("C19", params=[True, False])
def location(ctx, tabs):
    """get_source_location and Source.get_location: path, tab, line (behind the lines before the code) and column"""
    import pico_process as p
    if not ctx.symbolic:
        ctx.prove("path, tab, line, column", tuple(p.get_source_location("P", "a\nbc" + BRK + "d\ne", 13, 4, tabs=tabs)) == (("P", 1, 5, 1) if tabs else ("P", None, 8, 1))); return
    line, col, tab, base, idx = [ctx.int(n, 0, BIG) for n in ("line", "col", "tab", "base", "idx")]
    T = text(ctx)
    def glc(t, i, s=0): ctx.prove("of the position in the text", t is T and i is idx and s == 0); return line, col
    def gt(t, i, s=0): ctx.prove("of the position in the text", t is T and i is idx and s == 0); return tab, line, col
    ctx.contract("pico_process", "get_line_col", glc); ctx.contract("pico_process", "get_tab_line_col", gt)
    for how in range(2):
        src = p.Source("PATH", T); src.path = "PATH"
        r, b = (p.get_source_location("PATH", T, idx, base, tabs=tabs), base) if how == 0 else (src.get_location(idx, tabs=tabs), 0)
        ctx.prove("path, tab, line, column", r.path == "PATH" and ctx.and_(r.line == line + b, r.col is col) and (r.tab is tab if tabs else r.tab is None))

class Find:
    active = False; keep = ("m", "idx", "tabs")
    def enter(m, lr, env, names):
        G.ctx.prove("the mappings, from the last", isinstance(lr.it, Rev) and lr.it.of is G.maps)
        m.map = mapping(G.ctx, "m"); return {}
    def more(m, lr): return G.ctx.choose([True, False], "more")
    def next(m, lr): return m.map
    def end(m, lr, env): G.ctx.prove("passes only mappings behind the position", m.map.idx > G.idx)
FD = Find()
@unit("C19", params=[True, False], loops={("pico_process", "CartSource.get_location", 0): FD})
def mapped(ctx, tabs):
    """CartSource.get_location: the source place given by the last mapping at or before the position"""
    import pico_process as p
    if not ctx.symbolic: concrete(ctx); return
    G.ctx = ctx; G.idx = ctx.int("idx", 0, BIG); G.maps = Maps(True)
    cart = M(); cart.code, cart.code_map, cart.path = text(ctx), G.maps, "PATH"
    R = object()
    def gsl(d):
        k = FD.map
        if d["text"] is cart.code: ctx.prove("without a mapping: the code itself", d["path"] == "PATH" and d["idx"] is G.idx and d["tabs"] is tabs and d["start_line"] == 0); return R
        ctx.prove("the mapping is at or before the position", k.idx <= G.idx)
        ctx.prove("the place it maps to", d["path"] is k.src_path and d["text"] is k.src_code and d["start_line"] is k.src_line and d["tabs"] is tabs and d["idx"] == k.src_idx + (G.idx - k.idx))
        return R
    ctx.contract("pico_process", "get_source_location", gsl, bound=True)
    FD.active = True
    try: r = p.CartSource(cart).get_location(G.idx, tabs)
    finally: FD.active = False
    ctx.prove("is the location", r is R)
