"""contracts of pico_compress.get_lz77 (shared by C01, C02 and C14): the items tile the code.

Yielded items (i, item), in order, starting at 0, each beginning where the previous one ends, up to the end of the code:
  literal code[i], literal block code[i:e], or Lz77Entry(offset, count) with count >= min_c (<= max_c if given),
  1 <= offset <= min(i, max_o), no_repeat => count <= offset, i + count <= len(code) and code[x] == code[x - offset] in all of it.
All statements about "every character of a match" are proved at an arbitrary index t (G.t), fixed but unknown.
Representation invariant of the match tables (any nesting of dicts): the list at key K of a table of level c holds only
positions j with 0 <= j < bound and code[j:j+c] == K, where bound is the current position.
"""
import random
from pyver.unit import unit
MAXN = 1 << 20

class G: pass
class Got(Exception): pass

def PC():
    import pico_process, pico_compress
    return pico_compress

class GhostText:
    """the code, or a slice of it"""
    __pv_sym__ = True
    def __init__(m, off=0, length=0): m.off, m.length = off, length
    def pv_len(m): return m.length
    def __getitem__(m, i):
        ctx = G.ctx
        if isinstance(i, slice):
            assert i.step is None
            n = m.length
            a = 0 if i.start is None else i.start; b = n if i.stop is None else i.stop
            ctx.prove("slices start inside or at the end", ctx.and_(a >= 0, b >= 0))
            b = ctx.ite(b < n, b, n)
            a = ctx.ite(a < n, a, n)
            return GhostText(m.off + a, ctx.ite(b > a, b - a, 0))
        ctx.prove("character index in range", ctx.and_(i >= 0, i < m.length))
        return ctx.sym.mkstr([G.S.raw(m.off + i)])
    def __eq__(m, o):
        ctx = G.ctx
        if not isinstance(o, GhostText): return False
        b = ctx.fresh("same", 0, 1) == 1
        ctx.assume(ctx.implies(b, ctx.and_(m.length == o.length, ctx.implies(G.t < m.length, G.S.raw(m.off + G.t) == G.S.raw(o.off + G.t)))))
        return b
    def __ne__(m, o): return G.ctx.not_(m == o)
    __hash__ = object.__hash__

def same_key(K, j, c):
    """code[j:j+c] == K"""
    ctx = G.ctx
    end = ctx.ite(j + c < G.n, j + c, G.n)
    return ctx.and_(ctx.ite(end > j, end - j, 0) == K.length, ctx.implies(G.t < K.length, G.S.raw(j + G.t) == G.S.raw(K.off + G.t)))
def rep(K, c, j): return G.ctx.and_(j >= 0, j < G.bound, same_key(K, j, c))

class GhostMatches:
    """list of previous positions for key K in a table of level c"""
    __pv_sym__ = True
    def __init__(m, K, c): m.K, m.c = K, c
    def __reversed__(m): return m
    def element(m):
        j = G.ctx.fresh("j", 0, MAXN)
        G.ctx.assume(rep(m.K, m.c, j))
        return j
    def append(m, j): G.ctx.prove("match table: only earlier positions with this key are listed", rep(m.K, m.c, j))
    def pv_len(m): return G.ctx.fresh("len", 0, MAXN)

def make_smd(K, c):
    """arbitrary SubMatchDict standing at key K of a table of level c"""
    ctx = G.ctx
    class GhostSMD(PC().SubMatchDict):
        def __setattr__(m, n, v):
            if n == "best_j" and getattr(m, "pv_ready", False):
                ctx.prove("sub-table: best position has the key", rep(K, c, v))
            object.__setattr__(m, n, v)
    bj = ctx.fresh("best_j", -1, MAXN)
    ctx.assume(ctx.or_(bj == -1, rep(K, c, bj)))
    s = GhostSMD(GhostDict(c + 1), bj)
    object.__setattr__(s, "pv_ready", True)
    return s

class GhostDict:
    """a match table of level c (keys are slices of c characters)"""
    __pv_sym__ = True
    def __init__(m, c=None, lists=False): m.c, m.lists = c, lists
    def __getitem__(m, K):
        ctx = G.ctx
        if m.c is None: m.c = G.level
        if not m.lists and ctx.fresh("is_sub", 0, 1) == 1: r = make_smd(K, m.c)
        else: r = GhostMatches(K, m.c)
        G.last = (m, K, r)
        return r
    def __setitem__(m, K, v):
        ctx = G.ctx
        ctx.prove("sub-table: one level down", ctx.and_(isinstance(v, PC().SubMatchDict), v.dict.c == m.c + 1))
        ctx.prove("sub-table: best position has the key", ctx.or_(v.best_j == -1, rep(K, m.c, v.best_j)))
    def pv_len(m): return G.ctx.fresh("keys", 0, MAXN)

def valid_match(i, c, j, min_c, max_o):
    ctx = G.ctx
    return ctx.and_(c >= min_c, c >= 1, j >= 0, j < i, i + c <= G.n, True if max_o is None else j >= i - max_o,
                    True if G.max_c is None else c <= G.max_c, ctx.implies(G.no_repeat, c <= i - j),
                    ctx.implies(G.t < c, G.S.raw(i + G.t) == G.S.raw(j + G.t)))

# ---- callee contracts (each discharged by the unit of the same name)
def c_match_length(left, left_i, right, right_i, min_c):
    ctx = G.ctx
    ctx.prove("get_match_length: the given start is already equal", ctx.implies(G.t < min_c, G.S.raw(left.off + left_i + G.t) == G.S.raw(right.off + right_i + G.t)))
    ctx.prove("get_match_length: arguments in range", ctx.and_(left_i >= 0, right_i >= 0, min_c >= 0, left_i + min_c <= left.length, right_i + min_c <= right.length))
    c = ctx.fresh("mlen", 0, MAXN)
    ctx.assume(ctx.and_(c >= min_c, left_i + c <= left.length, right_i + c <= right.length,
                        ctx.implies(G.t < c, G.S.raw(left.off + left_i + G.t) == G.S.raw(right.off + right_i + G.t))))
    return c
def c_find_match(i, min_c=None, max_o="default", matches_dict=None):
    ctx = G.ctx
    if min_c is None: min_c = G.min_c
    if max_o == "default": max_o = G.max_o
    ctx.prove("find_match: called at the current position or later", ctx.and_(i >= G.bound, i <= G.n, min_c >= 1))
    if matches_dict is not None: ctx.prove("find_match: table of the right level", matches_dict.c == min_c)
    c = ctx.fresh("best_c", 0, MAXN); j = ctx.fresh("best_j", -1, MAXN)
    ctx.assume(ctx.or_(c == 0, ctx.and_(valid_match(i, c, j, min_c, max_o), j < G.bound)))
    return c, j
def c_convert(matches, min_i, c):
    ctx = G.ctx
    ctx.prove("convert: one level down", ctx.and_(isinstance(matches, GhostMatches), matches.c + 1 == c))
    K = matches.K
    s = make_smd(K, c - 1)
    return s

class GMLoop:
    """get_match_length: while"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("starts at the given length", env["c"] == env["min_c"])
        lr.mem["lim"] = env["limit"]
        c = ctx.fresh("c", 0, MAXN)
        a, b, li, ri = env["left"], env["right"], env["left_i"], env["right_i"]
        ctx.assume(ctx.and_(c >= env["min_c"], ctx.implies(c > env["min_c"], c <= env["limit"]), ctx.implies(G.t < c, G.S.raw(a.off + li + G.t) == G.S.raw(b.off + ri + G.t))))
        lr.mem["c"] = c
        return {"c": c}
    def end(m, lr, env):
        ctx = G.ctx
        c = env["c"]; a, b, li, ri = env["left"], env["right"], env["left_i"], env["right_i"]
        ctx.prove("one more equal character", ctx.and_(c >= env["min_c"], c <= env["limit"], ctx.implies(G.t < c, G.S.raw(a.off + li + G.t) == G.S.raw(b.off + ri + G.t))))

class FMLoop:
    """find_match: for j in reversed(matches)"""
    active = False; keep = (); extra = ()
    def inv(m, env, bc, bj, bs):
        ctx = G.ctx
        return ctx.or_(ctx.and_(bc == 0, bs.length == 0), ctx.and_(valid_match(env["i"], bc, bj, env["min_c"], env["max_o"]), bj < G.bound, bs.off == env["i"], bs.length == bc))
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("find_match: nothing found yet", ctx.and_(env["best_c"] == 0, env["best_slice"].length == 0))
        c, j = ctx.fresh("best_c", 0, MAXN), ctx.fresh("best_j", -1, MAXN)
        s = GhostText(env["i"], c)
        ctx.assume(m.inv(env, c, j, s))
        return {"best_c": c, "best_j": j, "best_slice": s}
    def more(m, lr): return G.ctx.fresh("more", 0, 1) == 1
    def next(m, lr): return lr.it.element()
    def end(m, lr, env):
        G.ctx.prove("find_match: the best match so far is a match", m.inv(env, env["best_c"], env["best_j"], env["best_slice"]))

class CVLoop:
    """convert_to_matches_dict: for j in matches"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("convert: no position yet", env["best_j"] == -1)
        j = ctx.fresh("best_j", -1, MAXN)
        ctx.assume(ctx.or_(j == -1, rep(lr.it.K, lr.it.c, j)))
        return {"best_j": j}
    def more(m, lr): return G.ctx.fresh("more", 0, 1) == 1
    def next(m, lr): return lr.it.element()
    def end(m, lr, env):
        G.ctx.prove("convert: best position has the key", G.ctx.or_(env["best_j"] == -1, rep(lr.it.K, lr.it.c, env["best_j"])))

def item_ok(i, item, c):
    """item is a valid description of code[i:i+c]"""
    ctx = G.ctx; pc = PC()
    if isinstance(item, pc.Lz77Entry):
        return ctx.and_(item.count == c, item.offset >= 1, valid_match(i, c, i - item.offset, G.min_c, G.max_o))
    if isinstance(item, GhostText): return ctx.and_(item.off == i, item.length == c, i + c <= G.n, c >= 1)
    if isinstance(item, str) or hasattr(item, "cs"):
        cs = ctx.sym.as_symstr(item).cs
        return ctx.and_(len(cs) == 1, c == 1, i < G.n, cs[0] == G.S.raw(i))
    return False

class Chain:
    """the items of a chain of advances, in order: they tile the code from G.F to adv.next_i"""
    def __init__(m, adv): m.adv = adv

class AdvDeque:
    """contract object of the deque of pending advances as the main loop sees it: all of them end behind the current position,
    strictly ascending, and each one is a valid chain from G.F"""
    __pv_sym__ = True
    def __init__(m, empty): m.empty = empty
    def __bool__(m): return not m.empty
    def popleft(m):
        ctx = G.ctx
        ctx.prove("advances is not empty", not m.empty)
        ni = ctx.fresh("next_i", 0, MAXN)
        ctx.assume(ctx.and_(ni > G.i, ni <= G.n))
        adv = PC().Lz77Advance(ctx.fresh("adv_i", 0, MAXN), ni, ctx.fresh("cost", 0, 1 << 40), None, "?", None)
        m.empty = bool(ctx.fresh("more_advances", 0, 1) == 0)
        if not m.empty: ctx.assume(ni < G.n)
        G.chains[id(adv)] = adv
        return adv
    def clear(m): m.empty = True

class ListedDeque:
    """the same deque as add_advance sees it: next_i of its elements is strictly ascending and behind the current position"""
    __pv_sym__ = True
    def __init__(m):
        ctx = G.ctx
        m.L = ctx.int("L", 0, MAXN)
        m.d = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("adv"), m.L, 0, MAXN, "list")
        m.ops = 0
    def good(m, a):
        ctx = G.ctx
        ctx.prove("add_advance: at most one change", m.ops == 0); m.ops += 1
        ctx.prove("add_advance: the new advance continues the current one", ctx.and_(a.i == G.i, a.prev is G.curr_adv, a.next_i == G.i + G.c, a.item is G.item))
    def append(m, a):
        ctx = G.ctx; m.good(a)
        ctx.prove("append keeps the order", ctx.or_(m.L == 0, m.d.raw(m.L - 1) < a.next_i))
        m.L = m.L + 1
    def insert(m, idx, a):
        ctx = G.ctx; m.good(a)
        ctx.prove("insert keeps the order", ctx.and_(idx >= 0, idx <= m.L, ctx.or_(idx == 0, m.d.raw(idx - 1) < a.next_i), ctx.or_(idx == m.L, a.next_i < m.d.raw(idx))))
        m.L = m.L + 1
    def __setitem__(m, idx, a):
        ctx = G.ctx; m.good(a)
        ctx.prove("replacing keeps the order", ctx.and_(idx >= 0, idx < m.L, m.d.raw(idx) == a.next_i))

class AALoop:
    """add_advance: for adv in advances"""
    active = False; keep = (); extra = ()
    def inv(m, lr, k, idx, rp):
        ctx = G.ctx; d = lr.it.d; v = G.i + G.c
        if idx is None: return ctx.or_(k == 0, d.raw(k - 1) < v)
        return ctx.and_(idx >= 0, idx < k, ctx.or_(idx == 0, d.raw(idx - 1) < v), ctx.ite(rp, d.raw(idx) == v, v < d.raw(idx)))
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("add_advance: search starts at the front", ctx.and_(env["adv_idx"] == 0, env["insert_idx"] is None, env["do_replace"] == False))
        k = lr.mem["k"] = ctx.fresh("k", 0, MAXN)
        ctx.assume(k <= lr.it.L)
        if ctx.fresh("none", 0, 1) == 1: idx, rp = None, False
        else: idx, rp = ctx.fresh("idx", 0, MAXN), bool(ctx.fresh("rp", 0, 1) == 1)
        ctx.assume(m.inv(lr, k, idx, rp))
        return {"adv_idx": k, "insert_idx": idx, "do_replace": rp}
    def more(m, lr): return lr.mem["k"] < lr.it.L
    def next(m, lr):
        ctx = G.ctx; k = lr.mem["k"]; d = lr.it.d
        ctx.assume(ctx.and_(d.raw(k) > G.i, ctx.or_(k == 0, d.raw(k - 1) < d.raw(k))))
        return PC().Lz77Advance(0, d.raw(k), ctx.fresh("cost", 0, 1 << 40), None, "?", None)
    def end(m, lr, env):
        ctx = G.ctx
        k = lr.mem["k"]
        ctx.prove("add_advance: index of the next advance", env["adv_idx"] == k + 1)
        ctx.prove("add_advance: place to insert", m.inv(lr, k + 1, env["insert_idx"], env["do_replace"]))

class GAILoop:
    """get_advance_items: while adv"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx
        node = PC().Lz77Advance(ctx.fresh("i", 0, MAXN), ctx.fresh("ni", 0, MAXN), 0, None, "item", "the rest") if ctx.fresh("some", 0, 1) == 1 else None
        G.node = lr.mem["node"] = node
        G.yielded = []
        return {"adv": node}
    def end(m, lr, env):
        ctx = G.ctx; node = lr.mem["node"]
        ctx.prove("get_advance_items: exactly the item, then the rest", ctx.and_(env["adv"] == "the rest", len(G.yielded) == 1, G.yielded[0][0] is node.i, G.yielded[0][1] is node.item))

class StepLoop:
    """for step in max_o_steps"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names): return {}
    def more(m, lr): return G.ctx.fresh("more", 0, 1) == 1
    def next(m, lr): return G.ctx.fresh("step", 1, MAXN)
    def end(m, lr, env): pass

class AddLoop:
    """for j in range(prev_i, i): add to the match tables"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("positions passed are added", ctx.and_(lr.it.a == env["prev_i"], lr.it.b == env["i"], lr.it.s == 1))
        G.bound = env["i"]
        return {}
    def more(m, lr): return G.variant in ("fast", "litblock") and G.ctx.fresh("more", 0, 1) == 1
    def next(m, lr):
        j = G.ctx.fresh("j", 0, MAXN)
        G.ctx.assume(G.ctx.and_(j >= lr.it.a, j < lr.it.b))
        return j
    def end(m, lr, env): pass

class DescLoop:
    """while isinstance(matches, SubMatchDict): descend"""
    active = False; keep = (); extra = ()
    def inv(m, env):
        ctx = G.ctx
        d, K, r = G.last
        return ctx.and_(env["matches"] is r, env["matches_dict"] is d, d.c == env["c"], K.off == GhostText(0, G.n)[env["j"]:env["j"] + env["c"]].off, K.length == GhostText(0, G.n)[env["j"]:env["j"] + env["c"]].length)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("table descent: starts at the table's entry", m.inv(env))
        c = ctx.fresh("c", 1, MAXN)
        d = GhostDict(c); r = d[GhostText(0, G.n)[env["j"]:env["j"] + c]]
        return {"c": c, "matches_dict": d, "matches": r}
    def end(m, lr, env): G.ctx.prove("table descent: next level's entry", m.inv(env))

class MainLoop:
    """while i < len(code)"""
    active = False; keep = ("next_litblock",); extra = ("advances", "next_litblock")
    def enter(m, lr, env, names):
        ctx = G.ctx
        if G.mode == "capture": raise Got()
        ctx.prove("entry: at the beginning", ctx.and_(env["i"] == 0, env["prev_i"] == 0, env["curr_adv"] is None, G.F == 0, env["advances"] is None or len(env["advances"]) == 0))
        G.i = i = ctx.int("i", 0, MAXN)
        nl = ctx.fresh("next_litblock", 0, MAXN)
        if G.measure and ctx.fresh("pending", 0, 1) == 1:
            G.F = ctx.fresh("F", 0, MAXN)
            ctx.assume(ctx.and_(G.F < i, i < G.n))
            adv = PC().Lz77Advance(ctx.fresh("adv_i", 0, MAXN), i, ctx.fresh("cost", 0, 1 << 40), None, "?", None)
            G.chains = {id(adv): adv}
            G.curr_adv, G.adv = adv, AdvDeque(False)
        else:
            G.F = ctx.ite(i < G.n, i, G.n)
            G.chains = {}
            G.curr_adv, G.adv = None, AdvDeque(True)
        G.bound = i
        if G.mode == "add" or G.variant in ("measure", "measure-options"): ctx.assume(nl > i)
        if G.variant == "litblock": ctx.assume(nl <= i)
        if G.mode == "add": G.adv = ListedDeque()
        return {"i": i, "prev_i": i, "curr_adv": G.curr_adv, "next_litblock": nl, "advances": G.adv if G.measure else None}
    def end(m, lr, env):
        ctx = G.ctx
        i = env["i"]
        ctx.prove("never goes back", ctx.and_(i >= G.i, env["prev_i"] == i))
        ca = env["curr_adv"]
        if ca is None: ctx.prove("everything passed is output", ctx.and_(G.F == ctx.ite(i < G.n, i, G.n), env["advances"] is None or env["advances"].empty))
        else: ctx.prove("pending advances start at what was output", ctx.and_(id(ca) in G.chains, ca.next_i == i, G.F < i, i < G.n, not env["advances"].empty))

Q = "get_lz77"
LOOPS = {("pico_compress", Q, 0): MainLoop(), ("pico_compress", Q, 1): StepLoop(), ("pico_compress", Q, 2): AddLoop(), ("pico_compress", Q, 3): DescLoop(),
         ("pico_compress", Q + ".get_match_length", 0): GMLoop(), ("pico_compress", Q + ".find_match", 0): FMLoop(),
         ("pico_compress", Q + ".convert_to_matches_dict", 0): CVLoop(), ("pico_compress", Q + ".add_advance", 0): AALoop(),
         ("pico_compress", Q + ".get_advance_items", 0): GAILoop()}
L = lambda q, n=0: ("pico_compress", q, n)

def setup(ctx, mode, cfg, measure=True):
    G.ctx, G.mode, G.measure = ctx, mode, measure
    G.n = ctx.int("n", 0, MAXN)
    G.S = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("S"), G.n, 0, 255, "str")
    G.t = ctx.int("t", 0, MAXN)
    G.min_c = G.level = ctx.int("min_c", 1, 100)
    G.max_o = ctx.int("max_o", 1, MAXN)
    has_max_c, G.no_repeat = cfg
    G.max_c = ctx.int("max_c", 1, MAXN) if has_max_c else None
    if G.max_c is not None: ctx.assume(G.max_c >= G.min_c)
    G.F = 0; G.chains = {}
    if mode != "main": G.variant = None
    ctx.replace("pico_compress", "defaultdict", lambda f: GhostDict(lists=G.mode == "cv"))
    for l in LOOPS.values(): l.active = False

def run(measure=None, **kw):
    return PC().get_lz77(GhostText(0, G.n), min_c=G.min_c, max_c=G.max_c, max_o=G.max_o, no_repeat=G.no_repeat, measure=measure, **kw)

def capture(ctx, name):
    from pyver import hooks
    LOOPS[L(Q)].active = True
    G.mode = "capture"
    try: next(run(), None)
    except Got: pass
    LOOPS[L(Q)].active = False
    return hooks.INNER[Q + "." + name]

# parameters of the callers: (is max_c given, no_repeat).   C01: pxa, C02: old format, C14: lz4
CFG = {"C01": (False, False), "C02": (True, True), "C14": (False, False)}
def lz_unit(loops, params=None):
    def deco(fn):
        for prop, cfg in CFG.items():
            if params is None: unit(prop, loops=loops, limit=200)(lambda ctx, fn=fn, cfg=cfg: fn(ctx, cfg))
            else: unit(prop, params=params, loops=loops, limit=200)(lambda ctx, p, fn=fn, cfg=cfg: fn(ctx, cfg, p))
            from pyver.unit import UNITS
            UNITS[prop][-1].name, UNITS[prop][-1].desc = fn.__name__, fn.__doc__
        return fn
    return deco
MINE = lambda *q: {L(*x) if isinstance(x, tuple) else L(x): LOOPS[L(*x) if isinstance(x, tuple) else L(x)] for x in q}

def deactivate():
    for l in LOOPS.values(): l.active = False

@lz_unit(MINE(Q, Q + ".get_match_length"))
def lz77_match_length(ctx, cfg):
    """get_match_length: the characters counted are equal"""
    if not ctx.symbolic: return concrete(ctx)
    setup(ctx, "gml", cfg)
    f = capture(ctx, "get_match_length")
    LOOPS[L(Q + ".get_match_length")].active = True
    a, b, s = ctx.int("a", 0, MAXN), ctx.int("b", 0, MAXN), ctx.int("s", 0, MAXN)
    code = GhostText(0, G.n)
    ctx.assume(ctx.and_(a + s <= G.n, b + s <= G.n, ctx.implies(G.t < s, G.S.raw(a + G.t) == G.S.raw(b + G.t))))
    c = f(code, a, code, b, s)
    deactivate()
    ctx.prove("result", ctx.and_(c >= s, a + c <= G.n, b + c <= G.n, ctx.implies(G.t < c, G.S.raw(a + G.t) == G.S.raw(b + G.t))))

@lz_unit(MINE(Q, Q + ".find_match"))
def lz77_find_match(ctx, cfg):
    """find_match: what it returns is a match of the promised shape (tables nested to any depth)"""
    if not ctx.symbolic: return concrete(ctx)
    setup(ctx, "fm", cfg)
    f = capture(ctx, "find_match")
    ctx.contract("pico_compress", Q + ".get_match_length", c_match_length)
    ctx.contract("pico_compress", Q + ".find_match", c_find_match)
    LOOPS[L(Q + ".find_match")].active = True
    i = ctx.int("i", 0, MAXN); mc = ctx.int("mc", 1, MAXN)
    G.bound = ctx.int("bound", 0, MAXN)
    ctx.assume(ctx.and_(i <= G.n, G.bound <= i))
    mo = ctx.int("mo", 1, MAXN)
    d = GhostDict(mc)
    c, j = f(i, mc, mo, d)
    deactivate()
    ctx.prove("a match or nothing", ctx.or_(c == 0, ctx.and_(valid_match(i, c, j, mc, mo), j < G.bound)))
    ctx.cover("match", c > 0)

@lz_unit(MINE(Q, Q + ".convert_to_matches_dict"))
def lz77_convert(ctx, cfg):
    """convert_to_matches_dict: the sub-table satisfies the tables' invariant"""
    if not ctx.symbolic: return concrete(ctx)
    setup(ctx, "cv", cfg)
    f = capture(ctx, "convert_to_matches_dict"); G.mode = "cv"
    LOOPS[L(Q + ".convert_to_matches_dict")].active = True
    c = ctx.int("c", 1, MAXN); k = ctx.int("k", 0, MAXN)
    G.bound = ctx.int("bound", 0, MAXN)
    ctx.assume(k < G.bound); ctx.assume(G.bound <= G.n)
    K = GhostText(0, G.n)[k:k + c]
    G.level = c + 1
    s = f(GhostMatches(K, c), ctx.int("min_i", 0, MAXN), c + 1)
    deactivate()
    ctx.prove("level", ctx.and_(isinstance(s, PC().SubMatchDict), s.dict.c is None or s.dict.c == c + 1))
    ctx.prove("best position has the key", ctx.or_(s.best_j == -1, rep(K, c, s.best_j)))

@lz_unit(MINE(Q, Q + ".add_advance"))
def lz77_add_advance(ctx, cfg):
    """add_advance: keeps the pending advances in order; adds nothing but the given continuation; never leaves them empty"""
    if not ctx.symbolic: return concrete(ctx)
    from pyver import hooks
    from pyver.sym import PathEnd
    setup(ctx, "add", cfg)
    class Stop(Exception): pass
    def measure(ctxt, item):
        deactivate(); LOOPS[L(Q + ".add_advance")].active = True
        G.c = ctx.int("c", 1, MAXN); G.item = "an item"
        ctx.assume(G.i + G.c <= G.n)
        hooks.INNER[Q + ".add_advance"](ctx.int("cost", 0, 1 << 40), None, G.c, G.item)
        deactivate()
        ctx.prove("not empty afterwards", G.adv.L >= 1)
        raise Stop()
    LOOPS[L(Q)].active = True
    mincost = (lambda d: ctx.fresh("mc", 0, 1 << 40)) if ctx.choose([0, 1], "has_min_cost") else None
    try:
        for _ in run(measure, min_cost=mincost): pass
    except Stop: pass
    deactivate()

@lz_unit(MINE(Q))
def lz77_add_lz77_advance(ctx, cfg):
    """add_lz77_advance: a match at position j becomes an advance whose item describes the code"""
    if not ctx.symbolic: return concrete(ctx)
    from pyver import hooks
    setup(ctx, "add", cfg)
    class Stop(Exception): pass
    first = []
    def measure(ctxt, item):
        if first: return 0, None
        first.append(1)
        deactivate()
        j, c = ctx.int("j", 0, MAXN), ctx.int("c", 1, MAXN)
        ctx.assume(valid_match(G.i, c, j, G.min_c, G.max_o))
        def add_advance(cost, ctxt, c2, item): ctx.prove("the advance describes the code", ctx.and_(c2 == c, item_ok(G.i, item, c2)))
        ctx.contract("pico_compress", Q + ".add_advance", add_advance)
        hooks.INNER[Q + ".add_lz77_advance"](j, c)
        raise Stop()
    LOOPS[L(Q)].active = True
    try:
        for _ in run(measure): pass
    except Stop: pass
    deactivate()

@lz_unit(MINE(Q, Q + ".get_advance_items"))
def lz77_advance_items(ctx, cfg):
    """get_advance_items: yields the chain's items, last first"""
    if not ctx.symbolic: return concrete(ctx)
    setup(ctx, "gai", cfg)
    f = capture(ctx, "get_advance_items")
    LOOPS[L(Q + ".get_advance_items")].active = True
    for x in f("any"): G.yielded.append(x)
    deactivate()
    ctx.prove("nothing for the empty chain", ctx.and_(G.node is None, len(G.yielded) == 0))

class LitIdx:
    """deque of literal block indices: any numbers"""
    __pv_sym__ = True
    def __bool__(m): return bool(G.ctx.fresh("more_idx", 0, 1) == 1)
    def popleft(m): return G.ctx.fresh("lit_idx", 0, MAXN)

@lz_unit(MINE((Q, 0), (Q, 1), (Q, 2), (Q, 3)), ["fast", "measure", "measure-options", "litblock"])
def lz77_main(ctx, cfg, p):
    """one arbitrary step of the main loop: what is output starts where the last output ended and describes the code exactly"""
    if not ctx.symbolic: return concrete(ctx)
    # (the loop that fills the match tables is verified under "fast" and "litblock": its precondition is the same in all of them)
    measure, opts = p != "fast", p in ("measure-options", "litblock")
    G.variant = p
    setup(ctx, "main", cfg, measure)
    pc = PC()
    ctx.contract("pico_compress", Q + ".find_match", c_find_match)
    ctx.contract("pico_compress", Q + ".convert_to_matches_dict", c_convert)
    def add_advance(cost, ctxt, c, item):
        ctx.prove("an advance describes the code", ctx.and_(c >= 1, item_ok(G.i, item, c)))
        G.adv.empty = False
    ctx.contract("pico_compress", Q + ".add_advance", add_advance)
    if p != "measure":
        def add_lz77_advance(j, c):
            ctx.prove("add_lz77_advance gets a match", valid_match(G.i, c, j, G.min_c, G.max_o))
            G.adv.empty = False
        ctx.contract("pico_compress", Q + ".add_lz77_advance", add_lz77_advance)
    def items(adv):
        ctx.prove("chain is a pending one", id(adv) in G.chains)
        return [(None, Chain(adv))]
    ctx.contract("pico_compress", Q + ".get_advance_items", items)
    def mfn(ctxt, item):
        return ctx.fresh("cost", 0, 1 << 30), None
    for k in range(4): LOOPS[L(Q, k)].active = True
    kw = {}
    if opts: kw = dict(get_cheaper_c=lambda c: ctx.fresh("cheap", -100, MAXN), max_o_steps="steps", min_cost=lambda d: 0, litblock_idxs=LitIdx())
    fast = ctx.int("fast_c", 0, 100) if ctx.choose([0, 1], "has_fast") else None
    for pos, item in run(mfn if measure else None, fast_c=fast, **kw):
        if isinstance(item, Chain):
            ctx.prove("output continues", ctx.and_(item.adv.next_i > G.F, item.adv.next_i <= G.n))
            G.F = item.adv.next_i
            continue
        c = item.count if isinstance(item, pc.Lz77Entry) else item.length if isinstance(item, GhostText) else 1
        ctx.prove("output continues where it ended", pos == G.F)
        ctx.prove("the item describes the code", item_ok(pos, item, c))
        G.F = pos + c
    deactivate()
    ctx.prove("the whole code is output", G.F == G.n)

# ---- concrete counterpart (replays and bounded stand-in)
def check_items(ctx, code, items, min_c, max_c, max_o, no_repeat):
    pc = PC(); p = 0
    for i, it in items:
        ctx.prove("output continues where it ended", i == p, f"{i} {p} {it}")
        if isinstance(it, pc.Lz77Entry):
            o, c = it.offset, it.count
            ctx.prove("valid match", c >= min_c and 1 <= o <= i and (max_o is None or o <= max_o) and (max_c is None or c <= max_c) and (not no_repeat or c <= o) and p + c <= len(code), f"{i} {it}")
            ctx.prove("the match describes the code", all(code[x] == code[x - o] for x in range(i, i + c)), f"{i} {it}")
            p += c
        else:
            if isinstance(it, int): it = bytes([it])
            ctx.prove("the item describes the code", code[i:i + len(it)] == it and len(it) > 0, f"{i} {it!r}")
            p += len(it)
    ctx.prove("the whole code is output", p == len(code))

def lz_params(rng, code):
    """parameters as the callers choose them, and others"""
    from collections import deque
    kw = dict(min_c=rng.choice([3, 3, 4, 2, 1, 5]), max_c=rng.choice([None, 0x11, 0x7fff, 20]), max_o=rng.choice([0x7fff, 0xc3f, 0x20, 0x10000, 300]), no_repeat=rng.random() < .4)
    k = rng.random()
    if k < .35: kw["fast_c"] = rng.choice([None, 1, 16])
    else:
        cl, cm = rng.choice([(9, 20), (1, 2), (8, 3), (2, 30)])
        pc = PC()
        kw["measure"] = lambda ctxt, it: ((cm + it.count // 7 if isinstance(it, pc.Lz77Entry) else cl), ctxt)
        if rng.random() < .5: kw["min_cost"] = lambda d: max(d // 7 - 2, 0)
        if rng.random() < .5: kw["get_cheaper_c"] = lambda c: c - 3
        if rng.random() < .5: kw["max_o_steps"] = (0x20, 0x400)
        if rng.random() < .4: kw["litblock_idxs"] = deque(sorted(rng.randint(0, len(code)) for _ in range(2 * rng.randint(0, 4))))
    return kw

def gen_text(rng, n):
    """text with runs, repeats at chosen distances, dense few-letter stretches and fresh stretches"""
    out = []
    alpha = rng.choice(["ab", "abc\n", "abcdefghijklmnopqrstuvwxyz \n=(),.", "".join(map(chr, range(1, 256))), "".join(map(chr, range(0xe0, 0x100))) + "ab"])
    while len(out) < n:
        k = rng.random()
        if k < .4: out += [rng.choice(alpha) for _ in range(rng.choice([1, 2, 5, 30, 60]))]
        elif k < .5: out += [rng.choice(alpha)] * rng.choice([2, 3, 4, 9, 10, 17, 18, 100, 400])
        elif k < .6:
            x = [rng.choice(alpha) for _ in range(3)]
            for _ in range(rng.choice([5, 50])): out += x + [rng.choice(alpha)]
        elif out:
            o = min(rng.choice([1, 2, 3, 16, 17, 31, 32, 33, 34, 1023, 1024, 1025, 1026, 3135, 3136, 0x7fff, rng.randint(1, len(out))]), len(out))
            for _ in range(rng.choice([3, 4, 9, 10, 11, 16, 17, 18, 19, 24, 100])): out.append(out[-o])
    return "".join(out[:n])

def concrete(ctx):
    rng = random.Random(ctx.int("seed", 0, 1 << 30))
    code = gen_text(rng, rng.choice([0, 1, 2, 3, 5, 10, 40, 200, 700, 3000]))
    if rng.random() < .2: code = code.encode("latin-1")
    kw = lz_params(rng, code)
    items = list(PC().get_lz77(code, **kw))
    if isinstance(code, bytes): items = [(i, it) for i, it in items]
    check_items(ctx, code, items, kw["min_c"], kw["max_c"], kw["max_o"], kw["no_repeat"])
