"""C02 contracts: the old (:c:) compression format.  Same coupling argument as C01 (see there and units/lz77.py)."""
import random
from pyver.unit import unit
from units import lz77
from units.C01 import GhostW, gen_code, PC, concrete_roundtrip
MAXN = 0xffff
HDR = b":c:\0"
class G: pass

class ByteReader:
    """reader contract object: yields the bytes that were written, in order"""
    def __init__(m, ctx, items): m.ctx, m.items, m.k, m.f = ctx, items, 0, "file"; m.hdr = 0
    def pos(m): return 0
    def bytes(m, n, allow_eof=False): return HDR
    def u16(m): m.hdr += 1; return G.n if m.hdr == 1 else 0
    def subpos(m, n): pass
    def u8(m):
        m.ctx.prove("reader does not run past what was written", m.k < len(m.items))
        m.k += 1
        return m.items[m.k - 1]

class OldW(GhostW):
    def __init__(m, ctx): super().__init__(ctx); m.items = None
    def u8(m, v):
        m.ctx.prove("u8(): the value is a byte", m.ctx.and_(v >= 0, v <= 255))
        m.items.append(v)

class Enc:
    """compress_code: old format's item loop"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx
        G.w.items = []
        G.i = ctx.int("i", 0, MAXN)
        ctx.assume(G.i <= G.n)
        return {}
    def more(m, lr): return G.mode == "step"
    def next(m, lr):
        ctx, i, n, pc = G.ctx, G.i, G.n, PC()
        ctx.assume(i < n)
        G.kind = ctx.choose(["match", "literal"], "kind")
        if G.kind == "literal": G.count = 1; return i, G.S[i]
        p = G.params
        o = ctx.int("offset", 1, MAXN); c = ctx.int("count", 1, MAXN)
        # contract of get_lz77 with the parameters it was called with
        ctx.assume(ctx.and_(o <= i, i + c <= n, True if p["max_o"] is None else o <= p["max_o"], c >= p["min_c"], True if p["max_c"] is None else c <= p["max_c"], c <= o if p["no_repeat"] else True))
        G.count, G.offset = c, o
        return i, pc.Lz77Entry(o, c)
    def end(m, lr, env):
        G.reader = ByteReader(G.ctx, G.w.items)
        PC().uncompress_code(G.reader)
        G.ctx.prove("decoder stops", False)

class Dec:
    """uncompress_code: old format's loop"""
    active = False; keep = (); extra = ("code",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("decoder entry: nothing decoded", len(env["code"]) == 0)
        return {"code": ctx.sym.SymArr(G.S.arr, G.i, 1, 255, 0, "charlist")}      # == S[0..i)
    def end(m, lr, env):
        ctx, code = G.ctx, env["code"]
        ctx.prove("the item's characters are appended", code.length == G.i + G.count)
        t = ctx.fresh("t", 0, 2 * MAXN)
        ctx.prove("the decoded text is the code up to the end of the item", ctx.implies(t < G.i + G.count, code.raw(t) == G.S.raw(t)))
        ctx.prove("exactly the bytes of the item are consumed", G.reader.k == len(G.reader.items))

class Copy:
    """uncompress_code: copy loop of the old format"""
    active = False; keep = (); extra = ("code",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("copies the item's count", ctx.and_(G.kind == "match", lr.it.a == 0, lr.it.s == 1, lr.it.b == G.count))
        ctx.prove("copy starts at the item", env["code"].length == G.i)
        t = ctx.fresh("t", 0, MAXN)
        ctx.assume(t <= G.count); lr.mem["t"] = t
        x = G.i + t
        ctx.assume(ctx.implies(t < G.count, G.S.raw(x) == G.S.raw(x - G.offset)))
        return {"code": ctx.sym.SymArr(G.S.arr, x, 1, 255, 0, "charlist")}
    def more(m, lr): return lr.mem["t"] < G.count
    def next(m, lr): return lr.mem["t"]
    def end(m, lr, env):
        ctx, t, code = G.ctx, lr.mem["t"], env["code"]
        q = ctx.fresh("q", 0, 2 * MAXN)
        ctx.prove("copy: one character per round", code.length == G.i + t + 1)
        ctx.prove("copy: text so far", ctx.implies(q < G.i + t + 1, code.raw(q) == G.S.raw(q)))

E_, D_, C_ = Enc(), Dec(), Copy()
LOOPS = {("pico_compress", "compress_code", 1): E_, ("pico_compress", "uncompress_code", 5): D_, ("pico_compress", "uncompress_code", 6): C_}
def activate(on):
    for l in LOOPS.values(): l.active = on

def encode(ctx, mode, fast):
    pc = PC()
    G.ctx, G.mode, G.w, G.params = ctx, mode, OldW(ctx), None
    G.n = ctx.int("n", 0, MAXN)
    G.S = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("S"), G.n, 1, 255, "str")
    def get_lz77(p):
        ctx.prove("get_lz77's precondition", ctx.and_(p["code"].length == G.n, p["min_c"] >= 1, True if p["max_c"] is None else p["max_c"] >= p["min_c"]))
        G.params = p
        return iter(())
    ctx.contract("pico_compress", "get_lz77", get_lz77, bound=True)
    activate(True)
    pc.compress_code(G.w, G.S, force_compress=True, fail_on_error=mode == "exit", fast_compress=fast, old_compress=True)

@unit("C02", params=[False, True], loops=LOOPS)
def old_step(ctx, fast):
    """one arbitrary item: encoder body, then decoder body, from corresponding states"""
    if not ctx.symbolic: return concrete_roundtrip(ctx, fast, True)
    try: encode(ctx, "step", fast)
    finally: activate(False)

@unit("C02", params=[False, True], loops=LOOPS)
def old_frame(ctx, fast):
    """header with the exact length; entry and exit of both loops"""
    if not ctx.symbolic: return concrete_roundtrip(ctx, fast, True)
    import utils
    nb = ctx.int("nbytes", 0, 0x20000)
    pos = OldW.pos
    OldW.pos = lambda m: m.p if m.items is None else m.p + nb
    try:
        try: encode(ctx, "exit", fast); raised = False
        except utils.CheckError: raised = True
        big = 8 + nb > 0x3d00
        if raised: ctx.prove("refused only when it does not fit", big); return
        ctx.prove("accepted only when it fits", ctx.not_(big))
        log = G.w.log
        ctx.prove("header", ctx.and_(len(log) == 3, log[0] == (0, HDR), log[1][0] == 4, log[1][1] == G.n, log[2] == (6, 0)))
        ctx.cover("accepted")
        G.i = G.n; G.count = 0; G.reader = ByteReader(ctx, [])
        r = PC().uncompress_code(G.reader)
    finally: activate(False); OldW.pos = pos
    ctx.prove("decoder returns the whole code", r.length == G.n)
    t = ctx.index("t", MAXN)
    ctx.prove("decoder returns the code", ctx.implies(t < G.n, r.raw(t) == G.S.raw(t)))
