"""C14 contracts: lz4 and pxu coders coupled step by step with their decoders, the containers around them, and file metadata/payload

lz4: from an arbitrary state of the item loop (l pending literals, everything before them written and decoded), an arbitrary item of
get_lz77 (by the contract verified in units/lz77.py) goes through the encoder's body; whatever block it writes goes through the decoder's
body.  Long lengths (write_u8_sum / read_u8_sum) have their own coupling unit and are used by contract.
pxu: from an arbitrary position, value mapping and move-to-front state, the encoder's body (the run it finds, by loop invariant; the
extended count, by loop invariant) and then the decoder's body give back the run and the same state.
Composition over steps is induction on the position; composition of pod values over their structure is covered by the bounded suites."""
from pyver.unit import unit
from units import lz77
MAXN = 1 << 20
class G: pass
def PE():
    import pico_process, pico_export
    return pico_export

# ---------------------------------------------------------------- length sums
class SumW:
    active = False; keep = ("w",); extra = ("val",)
    def enter(m, lr, env, names):
        G.ctx.prove("entry: the whole value is to be written", env["val"] == G.total)
        m.v = G.ctx.fresh("rest", 0, MAXN); G.ctx.assume(m.v <= G.total)
        return {"val": m.v}
    def more(m, lr): return True
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("one byte is written", len(G.out) == 1)
        ctx.prove("the rest follows", ctx.and_(env["val"] >= 0, env["val"] + G.out[0] == m.v))
        G.stop = False; read_sum(m.v)
class SumR:
    active = False; keep = ("r",); extra = ("sum",)
    def enter(m, lr, env, names):
        G.ctx.prove("entry: nothing read", env["sum"] == 0)
        return {"sum": G.total - G.v}
    def end(m, lr, env):
        G.ctx.prove("the reader goes on exactly when the writer does", not G.stop)
        G.ctx.prove("the sum so far", env["sum"] == G.total - G.v + G.out[0])
        G.ctx.prove("one byte is read", G.read == 1)
SW, SR = SumW(), SumR()
def read_sum(v):
    G.v, G.read = v, 0
    SR.active = True
    try: r = G.rsum(G.r)
    finally: SR.active = False
    G.ctx.prove("the reader stops exactly when the writer does", G.stop)
    G.ctx.prove("the value read is the value written", r == G.total)

@unit("C14", loops={("pico_export", "lz4_compress.write_u8_sum", 0): SW, ("pico_export", "lz4_uncompress.read_u8_sum", 0): SR})
def length_sum(ctx):
    """write_u8_sum / read_u8_sum: any length, from an arbitrary point of both loops"""
    pe = PE()
    v = ctx.int("v", 0, MAXN)
    if not ctx.symbolic:
        v %= 2000; d = bytes(i % 251 for i in range(v)) + bytes([1]) * v + b"0123456789abc"
        ctx.prove("the value read is the value written", pe.lz4_uncompress(pe.lz4_compress(d)) == d); return
    from pyver import hooks
    G.ctx, G.total, G.out = ctx, v, []
    class W:
        f = None
        def __enter__(m): return m
        def __exit__(m, *a): pass
        def u8(m, b): ctx.prove("a byte", ctx.and_(b >= 0, b <= 255)); G.out.append(b)
    class R(W):
        def eof(m): return True
        def u8(m): G.read += 1; return G.out[0]
    G.r = R()
    ctx.replace("pico_export", "BinaryWriter", lambda *a: W()); ctx.replace("pico_export", "BinaryReader", lambda *a: R())
    class Stop(Exception): pass
    def grab(*a, **k): raise Stop
    ctx.contract("pico_export", "get_lz77", grab)
    ctx.contract("pico_compress", "get_lz77", grab)
    try: pe.lz4_compress(b"")
    except Stop: pass
    pe.lz4_uncompress(b"")
    wsum, G.rsum = hooks.INNER["lz4_compress.write_u8_sum"], hooks.INNER["lz4_uncompress.read_u8_sum"]
    SW.active = True
    try: wsum(v)
    finally: SW.active = False
    G.stop = True
    ctx.prove("one last byte", len(G.out) == 1)
    read_sum(SW.v)

# ---------------------------------------------------------------- lz4 blocks
class Lits:
    """the pending literals: S[a .. a+n)"""
    __pv_sym__ = True
    def __init__(m, a, n): m.a, m.n = a, n
    def pv_len(m): return m.n
    def __bool__(m): return bool(m.n > 0)
    def start(m, n):
        """where literals start that are added after a match was written: they must end where the item ends"""
        if m.a is None: m.a = G.i + G.count - n
    def append(m, v):
        m.start(1)
        G.ctx.prove("the literal is the next byte", v == G.S.raw(m.a + m.n)); m.n = m.n + 1
    def extend(m, s):
        ctx = G.ctx; q = ctx.fresh("q", 0, MAXN); n = ctx.length(s)
        m.start(n)
        ctx.prove("the literals are the next bytes", ctx.implies(q < n, ctx.at(s, q) == G.S.raw(m.a + m.n + q))); m.n = m.n + n
    def clear(m): m.a, m.n = (m.a + m.n if G.mode == "exit" or G.kind == "literal" else None), 0
class LitLoop:
    """for lit in literals: w.u8(lit)"""
    active = False; keep = ("item", "size", "count")
    def enter(m, lr, env, names):
        m.l = lr.it; m.mark = len(G.items)
        G.ctx.prove("all pending literals", m.l is G.lits)
        m.k = G.ctx.fresh("k", 0, MAXN); G.ctx.assume(m.k <= m.l.n)
        return {}
    def more(m, lr):
        if bool(m.k < m.l.n): return True
        G.items.append(("lits", m.l.a, m.l.n)); return False
    def next(m, lr): return G.S.raw(m.l.a + m.k)
    def end(m, lr, env):
        G.ctx.prove("one byte, the literal", len(G.items) == m.mark + 1 and G.items[-1][0] == "u8" and G.items[-1][1] == G.S.raw(m.l.a + m.k))
class Item:
    """for i, item in items"""
    active = False; keep = ("items", "w", "end_of_lz77_reach", "end_of_lz77s", "min_c", "uncdata", "debug"); extra = ("literals",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("entry: no pending literals, nothing written", env["literals"] == [] and G.items == [])
        G.i = ctx.int("i", 0, MAXN); ln = ctx.int("pending", 0, MAXN)
        ctx.assume(ctx.and_(G.i <= G.n, ln <= G.i))
        G.lits = Lits(G.i - ln, ln); G.base = G.i - ln
        if G.mode == "exit": ctx.assume(G.i == G.n)
        return {"literals": G.lits}
    def more(m, lr): return G.mode == "step"
    def next(m, lr):
        ctx, i, n = G.ctx, G.i, G.n
        ctx.assume(i < n)
        G.kind = ctx.choose(["match", "literal"], "kind")
        if G.kind == "literal": G.count = 1; return i, G.S.raw(i)
        p = G.params
        o = ctx.int("offset", 1, MAXN); c = ctx.int("count", 1, MAXN)
        ctx.assume(ctx.and_(o <= i, i + c <= n, True if p["max_o"] is None else o <= p["max_o"], c >= p["min_c"], True if p["max_c"] is None else c <= p["max_c"]))
        G.count, G.offset = c, o
        import pico_compress
        return i, pico_compress.Lz77Entry(o, c)
    def end(m, lr, env):
        ctx = G.ctx
        if G.lits.a is None: G.lits.start(0)
        done = G.lits.a        # everything before the pending literals must have been written
        ctx.prove("all the item's bytes are written or pending", G.lits.a + G.lits.n == G.i + G.count)
        if G.items: G.done = done; decode(done, False)
        else: ctx.prove("nothing is lost", G.lits.a == G.base)
def decode(done, last):
    G.k = 0; G.last = last; G.done = done
    RB.active = RC.active = RL_.active = True
    try: G.result = PE().lz4_uncompress(b"x")
    finally: RB.active = RC.active = RL_.active = False
class GW:
    def __init__(m): m.f = m
    def __enter__(m): return m
    def __exit__(m, *a): pass
    def getvalue(m): return "DONE"
    def u8(m, v): G.ctx.prove("u8(): a byte", G.ctx.and_(v >= 0, v <= 255)); G.items.append(("u8", v))
    def u16(m, v): G.ctx.prove("u16(): in range", G.ctx.and_(v >= 0, v <= 65535)); G.items.append(("u16", v))
class GR:
    def __enter__(m): return m
    def __exit__(m, *a): pass
    def take(m, kind):
        G.ctx.prove("the reader reads what was written there", G.k < len(G.items) and G.items[G.k][0] == kind)
        G.k += 1; return G.items[G.k - 1]
    def eof(m): return G.k == len(G.items) and G.last
    def u8(m):
        if RL_.cur is not None: return RL_.cur
        return m.take("u8")[1]
    def u16(m): return m.take("u16")[1]
class Block:
    """while not r.eof()"""
    active = False; keep = ("data", "debug", "r"); extra = ("uncdata",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("decoder entry: nothing decoded", len(env["uncdata"]) == 0)
        return {"uncdata": ctx.sym.SymArr(G.S.arr, G.base, 0, 255, 0, "bytearray")}
    def end(m, lr, env):
        check_decoded(env["uncdata"])
        if not G.last:
            from pyver.sym import PathEnd
            raise PathEnd()
        G.ctx.prove("the decoder stops at the end", GR().eof()); G.ended = True
        from pyver.sym import PathEnd
        raise PathEnd()
def check_decoded(u):
    ctx = G.ctx
    ctx.prove("exactly the block's bytes are consumed", G.k == len(G.items))
    ctx.prove("as many bytes as were encoded", u.length == G.done)
    t = ctx.fresh("t", 0, MAXN)
    ctx.prove("they are the data's", ctx.implies(t < G.done, u.raw(t) == G.S.raw(t)))
class RLits:
    """for i in range(size): uncdata.append(r.u8())"""
    active = False; keep = Block.keep + ("header", "size"); extra = ("uncdata",); cur = None
    def enter(m, lr, env, names):
        ctx = G.ctx
        a, b = (lr.it.a, lr.it.b) if not isinstance(lr.it, range) else (lr.it.start, lr.it.stop)
        it = GR().take("lits")
        ctx.prove("as many literals as were written", ctx.and_(a == 0, b == it[2]))
        ctx.prove("they start where the decoded data ends", env["uncdata"].length == it[1])
        m.it = it; m.t = ctx.fresh("lt", 0, MAXN); ctx.assume(m.t <= it[2])
        m.cur = None
        return {"uncdata": ctx.sym.SymArr(G.S.arr, it[1] + m.t, 0, 255, 0, "bytearray")}
    def more(m, lr): return m.t < m.it[2]
    def next(m, lr): m.cur = G.S.raw(m.it[1] + m.t); return m.t
    def end(m, lr, env):
        m.cur = None
        ctx, u = G.ctx, env["uncdata"]; q = ctx.fresh("q", 0, MAXN)
        ctx.prove("one literal per round", u.length == m.it[1] + m.t + 1)
        ctx.prove("literals so far", ctx.implies(q < m.it[1] + m.t + 1, u.raw(q) == G.S.raw(q)))
class Copy:
    """for i in range(count): uncdata.append(uncdata[-offset])"""
    active = False; keep = Block.keep + ("header", "size", "offset", "count"); extra = ("uncdata",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("copy starts at the match", ctx.and_(G.kind == "match", env["uncdata"].length == G.i))
        ctx.prove("copies up to the end of the written match", ctx.and_(lr.it.a == 0, lr.it.b == G.done - G.i))
        m.t = ctx.fresh("ct", 0, MAXN); ctx.assume(m.t <= G.done - G.i)
        x = G.i + m.t
        ctx.assume(ctx.implies(m.t < G.count, G.S.raw(x) == G.S.raw(x - G.offset)))
        return {"uncdata": ctx.sym.SymArr(G.S.arr, x, 0, 255, 0, "bytearray")}
    def more(m, lr): return m.t < G.done - G.i
    def next(m, lr): return m.t
    def end(m, lr, env):
        ctx, u = G.ctx, env["uncdata"]; q = ctx.fresh("q", 0, MAXN)
        ctx.prove("copy: one byte per round", u.length == G.i + m.t + 1)
        ctx.prove("copy: data so far", ctx.implies(q < G.i + m.t + 1, u.raw(q) == G.S.raw(q)))
IT, LL, RB, RL_, RC = Item(), LitLoop(), Block(), RLits(), Copy()
LZ4 = {("pico_export", "lz4_compress", 0): IT, ("pico_export", "lz4_compress.write_block", 0): LL, ("pico_export", "lz4_uncompress", 0): RB,
       ("pico_export", "lz4_uncompress", 1): RL_, ("pico_export", "lz4_uncompress", 2): RC}

def lz4_setup(ctx, mode):
    pe = PE()
    G.ctx, G.mode, G.items, G.kind = ctx, mode, [], None
    G.n = ctx.int("n", 0, MAXN)
    G.S = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("S"), G.n, 0, 255, "bytes")
    def lz(p):
        ctx.prove("get_lz77's precondition", ctx.and_(p["code"].length == G.n, p["min_c"] >= 1, True if p["max_c"] is None else p["max_c"] >= p["min_c"]))
        G.params = p; return iter(())
    ctx.contract("pico_compress", "get_lz77", lz, bound=True)
    def wsum(v): ctx.prove("lengths are not negative", v >= 0); G.items.append(("sum", v))
    ctx.contract("pico_export", "lz4_compress.write_u8_sum", wsum)
    ctx.contract("pico_export", "lz4_uncompress.read_u8_sum", lambda r: r.take("sum")[1])
    ctx.replace("pico_export", "BinaryWriter", lambda *a: GW()); ctx.replace("pico_export", "BinaryReader", lambda *a: GR())
    RL_.cur = None
    return pe
def concrete_lz4(ctx, fast):
    import random
    pe = PE(); rng = random.Random(ctx.int("seed", 0, 1 << 30)); d = b""
    while len(d) < ctx.int("size", 0, 600):
        d += rng.choice((rng.randbytes(rng.randrange(20)), d[-rng.randrange(1, 300):], bytes([rng.randrange(3)]) * rng.randrange(300)))
    ctx.prove("lz4 round trip", pe.lz4_uncompress(pe.lz4_compress(d, fast=fast)) == d)

@unit("C14", params=[False, True], loops=LZ4)
def lz4_step(ctx, fast):
    """lz4: an arbitrary item with arbitrarily many pending literals"""
    if not ctx.symbolic: concrete_lz4(ctx, fast); return
    pe = lz4_setup(ctx, "step")
    IT.active = LL.active = True
    try: pe.lz4_compress(G.S, fast=fast)
    finally: IT.active = LL.active = False

@unit("C14", params=[False, True], loops=LZ4)
def lz4_end(ctx, fast):
    """lz4: the last block: the remaining literals, after which the decoder stops"""
    if not ctx.symbolic: concrete_lz4(ctx, fast); return
    pe = lz4_setup(ctx, "exit")
    IT.active = LL.active = True
    try: r = pe.lz4_compress(G.S, fast=fast)
    finally: IT.active = LL.active = False
    ctx.prove("the written bytes are returned", r == "DONE")
    ctx.prove("all literals are written", G.lits.n == 0)
    G.count = 0
    decode(G.n, True)

# ---------------------------------------------------------------- pxu
def FS():
    import pico_process, picotron_fs
    return picotron_fs
class Perm:
    """ghost of the move-to-front list: a permutation of 0..14; update_mtf is the function proved in C01's update_mtf_exact"""
    __pv_sym__ = True
    def __init__(m, ctx, arr): m.ctx, m.arr = ctx, arr
    @staticmethod
    def fresh(ctx):
        z = ctx.sym.z3
        return Perm(ctx, z.Array(ctx.sym.ENG.fresh_name("perm"), z.BitVecSort(6), z.BitVecSort(6)))
    def pv_len(m): return 15
    def get(m, i):
        z = m.ctx.sym.z3
        t = z.Select(m.arr, m.ctx.sym.term(i, 6))
        m.ctx.sym.ENG._add(z.And(t >= 0, t <= 14))
        return m.ctx.sym.mkint(t, 0, 14)
    def index(m, v):
        m.ctx.prove("a value that is in the list", m.ctx.and_(v >= 0, v <= 14))
        z = m.ctx.sym.z3; f = z.Function("perm_pos", m.arr.sort(), z.BitVecSort(6), z.BitVecSort(6))     # (the only) position of v
        t = f(m.arr, m.ctx.sym.term(v, 6)); m.ctx.sym.ENG._add(z.And(t >= 0, t <= 14))
        i = m.ctx.sym.mkint(t, 0, 14)
        m.ctx.assume(m.get(i) == v)
        return i
    def __getitem__(m, i):
        if isinstance(i, int) and i < 0: i += 15
        m.ctx.prove("move-to-front index in range", m.ctx.and_(i >= 0, i <= 14))
        return m.get(i)
    def update(m, idx, v):
        z = m.ctx.sym.z3; ctx = m.ctx
        f = z.Function("update_perm", m.arr.sort(), z.BitVecSort(6), z.BitVecSort(6), m.arr.sort())
        ctx.prove("update_mtf is called with an element of the list", ctx.and_(idx >= 0, idx <= 14, m.get(idx) == v))
        m.arr = f(m.arr, ctx.sym.term(idx, 6), ctx.sym.term(v, 6))
class Map:
    """ghost of the 15 remembered values"""
    __pv_sym__ = True
    def __init__(m, ctx, arr): m.ctx, m.arr = ctx, arr
    @staticmethod
    def fresh(ctx):
        z = ctx.sym.z3
        return Map(ctx, z.Array(ctx.sym.ENG.fresh_name("map"), z.BitVecSort(6), z.BitVecSort(18)))
    def pv_len(m): return 15
    def get(m, i):
        z = m.ctx.sym.z3
        t = z.Select(m.arr, m.ctx.sym.term(i, 6))
        m.ctx.sym.ENG._add(z.And(t >= 0, t <= 65535))
        return m.ctx.sym.mkint(t, 0, 65535)
    def __getitem__(m, i):
        m.ctx.prove("mapping index in range", m.ctx.and_(i >= 0, i <= 14))
        return m.get(i)
    def __setitem__(m, i, v):
        ctx = m.ctx
        ctx.prove("mapping index in range", ctx.and_(i >= 0, i <= 14))
        m.arr = ctx.sym.z3.Store(m.arr, ctx.sym.term(i, 6), ctx.sym.term(v, 18))
    def index(m, v):
        if m.ctx.choose([True, False], "known"):
            i = m.ctx.fresh("map_i", 0, 14); m.ctx.assume(m.get(i) == v); return i
        raise ValueError("not in list")
def same(a, b):
    return a.arr.eq(b.arr) or G.ctx.sym.SymBool(a.arr == b.arr)

class PxW(GW):
    def bytes(m, b): G.items.append(("bytes", b))
    def u32(m, v): G.ctx.prove("u32(): in range", G.ctx.and_(v >= 0, v < 1 << 32)); G.items.append(("u32", v))
class PxR(GR):
    def bytes(m, n): b = m.take("bytes")[1]; G.ctx.prove("as many header bytes", len(b) == n); return b
    def u32(m): return m.take("u32")[1]
    def u8(m):
        if RX.cur is not None: return RX.cur
        return m.take("u8")[1]
    def setpos(m, p): G.ctx.prove("from the given position", p is G.idx or p == G.idx)
    def pos(m): G.ctx.prove("the position is asked for at the end of the data", G.k == len(G.items)); return "END"

class ParseData:
    """write_pxu: for i in range(0, len(ud.data), type_nybbles)"""
    active = False; keep = ("ud", "type", "w", "type_nybbles", "flags", "write_type", "compression", "bits", "runtime"); extra = ("data",)
    def enter(m, lr, env, names):
        ctx, it = G.ctx, lr.it
        ctx.prove("all digits, one value at a time", ctx.and_(it.a == 0, it.b == G.N * G.nyb, it.s == G.nyb))
        ctx.prove("entry: no values", len(env["data"]) == 0)
        m.t = ctx.fresh("dt", 0, MAXN)
        ctx.assume(m.t <= G.N if G.mode == "exit" else m.t == G.N)
        return {"data": ctx.sym.SymArr(G.D.arr, m.t, 0, G.vmax, 0, "list")}
    def more(m, lr): return m.t < G.N
    def next(m, lr):
        G.at = m.t; return m.t * G.nyb
    def end(m, lr, env):
        ctx, d = G.ctx, env["data"]
        ctx.prove("one value per round", d.length == m.t + 1)
        q = ctx.fresh("q", 0, MAXN)
        ctx.prove("values so far kept", ctx.implies(q < m.t, d.raw(q) == G.D.raw(q)))
        ctx.prove("the value of the digits", d.raw(m.t) == G.value)
class Digits:
    """the userdata's digits; the digits of value t are G.digits, of which D[t] is the value"""
    __pv_sym__ = True
    def pv_len(m): return G.N * G.nyb
    def startswith(m, p): return False
    def __getitem__(m, sl):
        ctx = G.ctx
        ctx.prove("exactly one value's digits", ctx.and_(sl.start == G.at * G.nyb, sl.stop == G.at * G.nyb + G.nyb, sl.step is None))
        return G.digits
class WOuter:
    """write_pxu: while i < len(data)"""
    active = False; keep = ParseData.keep + ("data", "mask", "ext_count", "bits"); extra = ("i", "mapping", "mtf", "data")
    def enter(m, lr, env, names):
        ctx = G.ctx
        d = env["data"]; q = ctx.fresh("q", 0, MAXN)
        ctx.prove("all values are parsed", ctx.and_(d.length == G.N, ctx.implies(q < G.N, d.raw(q) == G.D.raw(q))))
        G.hdr = list(G.items)
        ctx.prove("entry: the mapping and the order are the identity", env["mapping"] == list(range(G.mask)) and env["mtf"] == list(range(G.mask)))
        ctx.prove("entry: at the start", env["i"] == 0)
        G.i = ctx.int("i", 0, MAXN)
        ctx.assume(G.i <= G.N)
        if G.mode == "exit": ctx.assume(G.i == G.N)
        else: ctx.assume(G.i < G.N); G.items.clear()
        G.map, G.mtf = (Map.fresh(ctx), Perm.fresh(ctx)) if G.mask else ([], [])
        if G.mask: G.map0, G.mtf0 = Map(ctx, G.map.arr), Perm(ctx, G.mtf.arr)
        else: G.map0, G.mtf0 = [], []
        return {"i": G.i, "mapping": G.map, "mtf": G.mtf, "data": G.D}
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("the next run starts where this one ends", env["i"] == WR.i)
        ctx.prove("progress", env["i"] > G.i)
        G.i1 = env["i"]; read_step()
class WRun:
    """write_pxu: while i < len(data) and data[i] == value"""
    active = False; keep = WOuter.keep + ("value", "mapping", "mtf"); extra = ("i", "count")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("run entry", ctx.and_(env["i"] == G.i + 1, env["count"] == 1, env["value"] == G.D.raw(G.i)))
        m.i = ctx.fresh("ri", 0, MAXN); ctx.assume(ctx.and_(G.i < m.i, m.i <= G.N))
        m.v = env["value"]
        G.run = lambda q: ctx.implies(ctx.and_(q >= G.i, q < m.i), G.D.raw(q) == m.v)   # all values of the run so far
        return {"i": m.i, "count": m.i - G.i}
    def end(m, lr, env):
        ctx = G.ctx; q = ctx.fresh("q", 0, MAXN)
        ctx.prove("run: one more value", ctx.and_(env["i"] == m.i + 1, env["count"] == env["i"] - G.i))
        ctx.assume(G.run(q))
        ctx.prove("run: all values are equal", ctx.implies(ctx.and_(q >= G.i, q < env["i"]), G.D.raw(q) == m.v))
class WExt:
    """write_pxu: while count >= 0xff"""
    active = False; keep = WRun.keep + ("index", "i"); extra = ("count",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        m.r0 = env["count"]; ctx.prove("the extension is not negative", m.r0 >= 0)
        G.items.append(("ext", m.r0)); m.mark = len(G.items)
        m.rest = ctx.fresh("wrest", 0, MAXN); ctx.assume(m.rest <= m.r0)
        return {"count": m.rest}
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("one byte 255 per round", len(G.items) == m.mark + 1 and G.items[-1][0] == "u8" and G.items[-1][1] == 255)
        ctx.prove("the rest follows", ctx.and_(m.rest >= 255, env["count"] == m.rest - 255))
def read_step():
    ctx = G.ctx
    ext = [k for k, it in enumerate(G.items) if it[0] == "ext"]
    if ext:
        k = ext[0]
        ctx.prove("one last byte of the count", k == len(G.items) - 2 and G.items[-1][0] == "u8")
        ctx.prove("it ends the count", ctx.and_(G.items[-1][1] == WX.rest, WX.rest < 255))
        G.items.pop()
    G.step, G.items = G.items, G.hdr
    G.k = 0; RX.cur = None
    for l in (RO, RX, RA): l.active = True
    try: FS().read_pxu(b"x", G.idx)
    finally:
        for l in (RO, RX, RA): l.active = False
class ROuter:
    """read_pxu: while len(data) < size"""
    active = False; keep = ("r", "size", "mask", "bits", "ext_count", "read_type", "type_nybbles", "type", "compression", "width", "height", "flags"); extra = ("data", "mapping", "mtf")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("decoder entry", env["data"] == [] and env["mapping"] == list(range(G.mask)) and env["mtf"] == list(range(G.mask)))
        ctx.prove("as many values as were written", env["size"] == G.N)
        if G.mode == "exit":
            G.k = len(G.items)
            return {"data": Whole(), "mapping": None, "mtf": None}
        G.k, G.items = 0, G.step
        G.rmap, G.rmtf = (Map(ctx, G.map0.arr), Perm(ctx, G.mtf0.arr)) if G.mask else ([], [])
        return {"data": ctx.sym.SymArr(G.D.arr, G.i, 0, G.vmax, 0, "list"), "mapping": G.rmap, "mtf": G.rmtf}
    def end(m, lr, env):
        ctx, d = G.ctx, env["data"]
        ctx.prove("exactly what was written is consumed", G.k == len(G.items))
        ctx.prove("the whole run is read", d.length == G.i1)
        t = ctx.fresh("t", 0, MAXN)
        ctx.prove("the values are the data's", ctx.implies(t < G.i1, d.raw(t) == G.D.raw(t)))
        if G.mask:
            ctx.prove("mapping and order agree again", ctx.and_(same(G.rmap, G.map), same(G.rmtf, G.mtf)))
class RExt:
    """read_pxu: while True: c = r.u8() ..."""
    active = False; keep = ROuter.keep + ("data", "mapping", "mtf", "index", "value", "b"); extra = ("count",); cur = None
    def enter(m, lr, env, names):
        ctx = G.ctx
        it = GR().take("ext")
        m.base = env["count"]; m.r0 = it[1]
        m.rest = ctx.fresh("rrest", 0, MAXN); ctx.assume(m.rest <= m.r0)
        m.cur = ctx.ite(m.rest >= 255, 255, m.rest)
        return {"count": m.base + (m.r0 - m.rest)}
    def more(m, lr): return True
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("goes on exactly after a byte 255", m.rest >= 255)
        ctx.prove("the count so far", env["count"] == m.base + (m.r0 - m.rest) + 255)
class RAppend:
    """read_pxu: for i in range(count): data.append(value)"""
    active = False; keep = RExt.keep + ("count", "c"); extra = ("data",)
    def enter(m, lr, env, names):
        ctx, d = G.ctx, env["data"]
        RX.cur = None
        ctx.prove("the run's length is read", ctx.and_(lr.it.a == 0, lr.it.b == G.i1 - G.i))
        m.t = ctx.fresh("at", 0, MAXN); ctx.assume(m.t <= G.i1 - G.i)
        ctx.assume(G.run(G.i + m.t))
        return {"data": ctx.sym.SymArr(G.D.arr, G.i + m.t, 0, G.vmax, 0, "list")}
    def more(m, lr): return m.t < G.i1 - G.i
    def next(m, lr): return m.t
    def end(m, lr, env):
        ctx, d = G.ctx, env["data"]; q = ctx.fresh("q", 0, MAXN)
        ctx.prove("one value per round", d.length == G.i + m.t + 1)
        ctx.prove("values so far", ctx.implies(q < G.i + m.t + 1, d.raw(q) == G.D.raw(q)))
WP, WO, WR, WX, RO, RX, RA = ParseData(), WOuter(), WRun(), WExt(), ROuter(), RExt(), RAppend()
PXU = {("picotron_fs", "write_pxu", 0): WP, ("picotron_fs", "write_pxu", 1): WO, ("picotron_fs", "write_pxu", 2): WR, ("picotron_fs", "write_pxu", 3): WX,
       ("picotron_fs", "read_pxu", 0): RO, ("picotron_fs", "read_pxu", 1): RX, ("picotron_fs", "read_pxu", 2): RA}
class Whole:
    """all values, seen at an arbitrary one"""
    __pv_sym__ = True
    def pv_len(m): return G.N
    def pv_map(m, f):
        from pyver.hooks import GhostSeq
        return GhostSeq(G.value, "list").pv_map(f)

def pxu_setup(ctx, mode, type):
    fs = FS()
    G.ctx, G.mode, G.items, G.step = ctx, mode, [], []
    G.idx = ctx.int("idx", 0, MAXN)
    G.nyb, G.vmax, G.mask = (2, 255, 15) if type == "u8" else (4, 65535, 0)
    G.w = ctx.int("width", 0, 70000); G.has_h = ctx.choose([True, False], "has_h")
    G.h = ctx.int("height", 1, 70000) if G.has_h else 0
    G.N = G.w * G.h if G.has_h else G.w
    G.D = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("D"), G.N, 0, G.vmax, "list")
    cs = [ctx.int(f"d{k}", 48, 102) for k in range(G.nyb)]
    v = 0
    for c in cs:
        ctx.assume(ctx.or_(c <= 57, c >= 97)); v = v * 16 + ctx.ite(c <= 57, c - 48, c - 87)
    G.digits, G.value = ctx.sym.mkstr(cs), v
    ctx.contract("pico_compress", "update_mtf", lambda mtf, idx, ch: mtf.update(idx, ch))
    ctx.replace("picotron_fs", "BinaryWriter", lambda *a: PxW()); ctx.replace("picotron_fs", "BinaryReader", lambda *a: PxR())
    return fs
def concrete_pxu(ctx, type):
    import random
    fs = FS(); rng = random.Random(ctx.int("seed", 0, 1 << 30))
    h = rng.choice((0, 0, 1, 3, 256)); w = ctx.int("width", 0, 600); n = w * (h or 1)
    vals = []
    while len(vals) < n: vals += [rng.randrange(256 if type == "u8" else 65536) if rng.random() < .3 else rng.randrange(18)] * rng.choice((1, 1, 2, 15, 16, 17, 255, 256, 270, 271, 272, 600))
    d = "".join(f"{v:0{2 if type == 'u8' else 4}x}" for v in vals[:n])
    ud = fs.UserData(type, w, h, d)
    p = b"pre" + fs.write_pxu(ud) + b"post"
    got, end = fs.read_pxu(p, 3)
    ctx.prove("pxu round trip", (got.type, got.width, got.height, got.data, end) == (type, w, h, d, len(p) - 4))

@unit("C14", params=["u8", "i16"], loops=PXU)
def pxu_step(ctx, type):
    """pxu: an arbitrary run from an arbitrary position, mapping and order; after the real header of the reader"""
    if not ctx.symbolic: concrete_pxu(ctx, type); return
    fs = pxu_setup(ctx, "step", type)
    pxu_active(True)
    try: fs.write_pxu(fs.UserData(type, G.w, G.h, Digits()))
    finally: pxu_active(False)

@unit("C14", params=["u8", "i16"], loops=PXU)
def pxu_frame(ctx, type):
    """pxu: header, digits and end: what read_pxu returns after any run of steps is the userdata that was written"""
    if not ctx.symbolic: concrete_pxu(ctx, type); return
    fs = pxu_setup(ctx, "exit", type)
    pxu_active(True)
    try: r = fs.write_pxu(fs.UserData(type, G.w, G.h, Digits()))
    finally: pxu_active(False)
    ctx.prove("the written bytes are returned", r == "DONE")
    G.k = 0; RX.cur = None
    for l in (RO, RX, RA): l.active = True
    try: ud, end = fs.read_pxu(b"x", G.idx)
    finally:
        for l in (RO, RX, RA): l.active = False
    ctx.prove("type and size are read back", ctx.and_(ud.type == type, ud.width == G.w, ud.height == G.h))
    ctx.prove("the digits are read back", ud.data.elem == G.digits)
    ctx.prove("the end is reported", end == "END")
def pxu_active(on):
    for l in (WP, WO, WR, WX): l.active = on

# ---------------------------------------------------------------- metadata and payload of a file
class Cat:
    """bytes given as a sequence of pieces: known bytes, or opaque ones of any length and content (known only to lack ']]' where said)"""
    __pv_sym__ = True
    def __init__(m, parts): m.parts = [p for p in parts if not (isinstance(p, bytes) and not p)]
    @staticmethod
    def of(x): return x.parts if isinstance(x, Cat) else [x]
    def __add__(m, o):
        return Cat(m.parts + Cat.of(o)).norm()
    def __radd__(m, o): return Cat(Cat.of(o) + m.parts).norm()
    def norm(m):
        out = []
        for p in m.parts:
            if isinstance(p, bytes) and out and isinstance(out[-1], bytes): out[-1] += p
            else: out.append(p)
        m.parts = out; return m
    def plen(m, p): return len(p) if isinstance(p, bytes) else p.n
    def pv_len(m):
        n = 0
        for p in m.parts: n = n + m.plen(p)
        return n
    def startswith(m, pre):
        rest = pre
        for p in m.parts:
            if isinstance(p, bytes):
                k = min(len(p), len(rest))
                if p[:k] != rest[:k]: return False
                rest = rest[k:]
                if not rest: return True
            else: return p.starts(pre, rest)
        return not rest
    def find(m, sub, start=0):
        pos = start
        k0, o0 = m.cut(start, 0)
        for k, p in enumerate(m.parts[k0:]):
            if isinstance(p, bytes):
                i = p.find(sub, o0 if k == 0 else 0)
                if i >= 0: return pos + i - (o0 if k == 0 else 0)
                pos = pos + len(p) - (o0 if k == 0 else 0)
            else:
                if sub not in p.lacks: raise G.Unsupported("find in opaque bytes")
                pos = pos + m.plen(p)
        return -1
    def __getitem__(m, sl):
        ctx = G.ctx
        if not isinstance(sl, slice) or sl.step is not None: raise G.Unsupported("index of opaque bytes")
        ps = m.cut(sl.start, 0); pe = m.cut(sl.stop, None)
        (k0, o0), (k1, o1) = ps, pe
        out = []
        for k in range(k0, k1 + 1):
            if k >= len(m.parts): break
            p = m.parts[k]
            lo, hi = (o0 if k == k0 else 0), (o1 if k == k1 else None)
            if isinstance(p, bytes): out.append(p[lo:hi])
            elif hi == 0: pass
            elif lo == 0 and hi is None: out.append(p)
            else: raise G.Unsupported(f"cut inside opaque bytes {pos} {[p if isinstance(p, bytes) else p.name for p in m.parts]}")
        return Cat(out).norm()
    def cut(m, pos, dflt):
        """the piece and offset of a position"""
        if pos is None: return (0, 0) if dflt == 0 else (len(m.parts), 0)
        at = 0
        for k, p in enumerate(m.parts):
            if isinstance(p, bytes):
                for o in range(len(p)):
                    if bool(at + o == pos): return (k, o)
            elif bool(at == pos): return (k, 0)
            at = at + m.plen(p)
        if bool(at == pos): return (len(m.parts), 0)
        raise G.Unsupported(f"cut inside opaque bytes {pos} {[p if isinstance(p, bytes) else p.name for p in m.parts]}")
    def __eq__(m, o):
        a, b = m.parts, Cat(Cat.of(o)).norm().parts
        return len(a) == len(b) and all(x is y if not isinstance(x, bytes) else (isinstance(y, bytes) and x == y) for x, y in zip(a, b))
    def __ne__(m, o): return not m == o
    def __hash__(m): return id(m)
class Piece:
    def __init__(m, ctx, name, lacks=(), starts=None):
        m.name, m.lacks = name, lacks; m.n = ctx.fresh(name + "_len", 1, MAXN); m.f = starts
    def starts(m, whole, rest):
        if m.f is None: raise G.Unsupported("start of opaque bytes")
        return m.f(whole, rest)
def same_bytes(a, b):
    if a is None or b is None: return a is None and b is None
    return (a if isinstance(a, Cat) else Cat([a])) == (b if isinstance(b, Cat) else Cat([b]))
METAS = [b"pod", b'pod_format="raw"', b'pod_type="image"', b"pod_format=1"]
def some_meta(ctx, which):
    """raw metadata: pod prefix and anything without ']]' that does not end with ']' (format_meta_pod escapes it); after the prefix comes a ','"""
    head = METAS[which]
    if not ctx.symbolic: return head + ctx.choose([b"", b',x="]\\93]"', b",y=3", b" "], "tail")
    return head if ctx.choose([True, False], "no_tail") else Cat([head, Piece(ctx, "meta", lacks=(b"]]",), starts=lambda whole, rest: False)])
def some_payload(ctx, name):
    """any bytes; without metadata, bytes that do not look like metadata"""
    if not ctx.symbolic: return ctx.choose([b"", b"]]x", b"\0\xff", b"--[[", b"{a=1}"], name)
    return b"" if ctx.choose([True, False], name + "_empty") else Cat([Piece(ctx, name, starts=lambda whole, rest: False)])

@unit("C14", params=[(a, b) for a in (None, 0, 1) for b in (None, 0, 1, 2, 3)])
def file_parts(ctx, ab):
    """PicotronFile: raw metadata and raw payload of any file are changed independently, in either order, and read back"""
    a, b = ab
    fs = FS(); G.ctx = ctx
    if ctx.symbolic:
        G.Unsupported = ctx.sym.Unsupported
    M0 = None if a is None else some_meta(ctx, a)
    P0 = some_payload(ctx, "payload")
    f = fs.PicotronFile(b"")
    f.raw_metadata = M0; f.raw_payload = P0
    def look(name, M, P):
        for g in (f, fs.PicotronFile(f.data)):
            ctx.prove(name + ": metadata", same_bytes(g.raw_metadata, M))
            ctx.prove(name + ": payload", same_bytes(g.raw_payload, P))
            raw = M is None or Cat.of(M)[0].startswith(b'pod_format="raw"')
            ctx.prove(name + ": raw or pod", g.is_raw == raw)
            if raw: ctx.prove(name + ": a raw file's payload is its bytes", same_bytes(g.payload, P))
    look("initial", M0, P0)
    M1 = None if b is None else some_meta(ctx, b)
    f.raw_metadata = M1
    look("metadata changed", M1, P0)
    P1 = some_payload(ctx, "payload2")
    f.raw_payload = P1
    look("payload changed", M1, P1)

@unit("C14", params=[None, 0, 2, 3])
def file_pods(ctx, a):
    """PicotronFile.create / metadata / payload with pod values, the pod coders by contract (their own units and suites)"""
    fs = FS(); G.ctx = ctx
    class V:
        def __init__(m, n): m.n = n
    if ctx.symbolic:
        G.Unsupported = ctx.sym.Unsupported
        pods = {}
        def wp(pod, compress=True, use_pxu=True, use_base64=False, runtime=None):
            p = Piece(ctx, "pod", starts=lambda whole, rest: False); pods[id(p)] = pod; return Cat([p])
        def rp(value):
            ctx.prove("read_pod gets what write_pod wrote", isinstance(value, Cat) and len(value.parts) == 1 and id(value.parts[0]) in pods)
            return pods[id(value.parts[0])]
        ctx.contract("picotron_fs", "write_pod", wp); ctx.contract("picotron_fs", "read_pod", rp)
        mt = {}
        def fm(v):
            p = METAS[0] if not v else Cat([METAS[a or 0], Piece(ctx, "meta", lacks=(b"]]",), starts=lambda whole, rest: False)]); mt[id(Cat.of(p)[-1])] = v; return p
        def pm(s):
            ctx.prove("parse_meta_pod gets what format_meta_pod wrote", id(Cat.of(s)[-1]) in mt); return mt[id(Cat.of(s)[-1])]
        ctx.contract("picotron_fs", "format_meta_pod", fm); ctx.contract("picotron_fs", "parse_meta_pod", pm)
        ctx.contract("pico_defs", "encode_luastr", lambda s: s); ctx.contract("pico_defs", "decode_luastr", lambda s: s)
    V0, V1 = {"a": 1}, {"b": [2].count(2)}
    M0 = None if a is None else [{"m": 1}, None, {"pod_type": "image"}, {"pod_format": 1}][a]
    M1 = {"n": "]]"} if a != 2 else {"pod_type": "image", "n": 3}
    f = fs.PicotronFile.create(V0, M0)
    def look(name, M, P):
        for g in (f, fs.PicotronFile(f.data)):
            ctx.prove(name + ": metadata", g.metadata == M and type(g.metadata) is dict)
            ctx.prove(name + ": payload", g.payload == P)
    look("created", M0 or ({} if a is None else M0), V0) if ctx.symbolic is False or a is not None else ctx.prove("created", f.payload == V0 and fs.PicotronFile(f.data).payload == V0)
    f.metadata = M1; look("metadata changed", M1, V0)
    f.payload = V1; look("payload changed", M1, V1)

class BW(GW):
    """a writer whose contents are pieces"""
    def __init__(m): m.f = m; m.parts = []
    def bytes(m, b): m.parts += Cat.of(b)
    def u32(m, v): p = Piece(G.ctx, "u32"); p.n = 4; p.value = v; m.parts.append(p)
    def getvalue(m): return Cat(m.parts)
class BR(GW):
    def __init__(m, data): m.parts = list(Cat.of(data)); m.i = m.off = 0
    def addpos(m, n):
        G.ctx.prove("the header is skipped", m.i == 0 and isinstance(m.parts[0], bytes) and len(m.parts[0]) == n); m.i = 1
    def u32(m): p = m.parts[m.i]; G.ctx.prove("a u32 is read where one was written", isinstance(p, Piece) and p.name == "u32"); m.i += 1; return p.value
    def remaining(m): return Cat(m.parts[m.i:]).pv_len()
    def bytes(m, n): G.ctx.prove("all the compressed bytes are read", n == m.remaining()); r = Cat(m.parts[m.i:]); m.i = len(m.parts); return r
@unit("C14", params=[(n, c, b) for n in (0, 1, 2) for c in (False, True) for b in (False, True)])
def pod_wrap(ctx, nbc):
    """write_pod / read_pod: compression, base64 and up to two pxu userdata (each kept as text or written as pxu) around any pod text;
    coders by contract.  The pod text has no NUL and does not start like a container (format_pod: bounded)"""
    nud, compress, b64 = nbc
    fs = FS(); G.ctx = ctx
    if not ctx.symbolic:
        uds = [fs.UserData("u8", 40 + k, 0, "%02x" % (k + 3) * (40 + k)) for k in range(nud)]
        pod = {"a": uds, "b": "pxu\0" * ctx.int("rep", 0, 40)}; pod["a"] = dict(enumerate(uds, 1))
        got = fs.read_pod(fs.write_pod(pod, compress=compress, use_base64=b64))
        ctx.prove("reads back", [(u.type, u.width, u.height, u.data) for u in got["a"].values()] == [(u.type, u.width, u.height, u.data) for u in uds] and got["b"] == pod["b"])
        return
    G.Unsupported = ctx.sym.Unsupported
    NOT = lambda whole, rest: False
    text = [Piece(ctx, f"text{k}", lacks=(0, b"pxu\0"), starts=NOT) for k in range(nud + 1)]
    uds = [object() for _ in range(nud)]; uds_text = [Piece(ctx, f"udtext{k}", lacks=(0, b"pxu\0")) for k in range(nud)]
    body = [Piece(ctx, f"pxu{k}") for k in range(nud)]; calls = []
    def fp(value, ud_handler=None):
        out = [text[0]]
        for k in range(nud):
            calls.append(k)
            as_pxu = ud_handler is not None and ud_handler(uds[k], Cat([uds_text[k]]))
            pxu[k] = bool(as_pxu)
            out += [b"\0" if as_pxu else uds_text[k], text[k + 1]]
        return Cat(out)
    pxu = {}
    ctx.contract("picotron_fs", "format_pod", fp)
    ctx.contract("picotron_fs", "write_pxu", lambda ud, runtime=None: None if ctx.choose([True, False], f"unsupported{uds.index(ud)}") else Cat([b"pxu\0", body[uds.index(ud)]]))
    def rp(data, idx):
        k0, o0 = data.cut(idx, 0)
        ctx.prove("a pxu is read where one was written", data.parts[k0][o0:o0 + 4] == b"pxu\0" and data.parts[k0 + 1] in body)
        k = body.index(data.parts[k0 + 1])
        return uds[k], idx + 4 + body[k].n
    ctx.contract("picotron_fs", "read_pxu", rp)
    comp = {}
    def lz(v):
        p = Piece(ctx, "lz4"); comp[id(p)] = v; return Cat([p])
    def unlz(v):
        ctx.prove("exactly the compressed bytes are uncompressed", len(v.parts) == 1 and id(v.parts[0]) in comp); return comp[id(v.parts[0])]
    ctx.contract("pico_export", "lz4_compress", lz); ctx.contract("pico_export", "lz4_uncompress", unlz)
    b = {}
    def enc(v):
        p = Piece(ctx, "b64"); b[id(p)] = v; return Cat([p])
    ctx.contract("pico_cart", "pico_base64_encode", enc)
    ctx.contract("pico_cart", "pico_base64_decode", lambda v: b[id(v.parts[0])])
    ctx.contract("pico_defs", "encode_luastr", lambda s: s); ctx.contract("pico_defs", "decode_luastr", lambda s: s)
    ctx.replace("picotron_fs", "BinaryWriter", lambda *a: BW()); ctx.replace("picotron_fs", "BinaryReader", lambda f: BR(f))
    ctx.replace("picotron_fs", "BytesIO", lambda v: v)
    ctx.replace("picotron_fs", "warn_assert", lambda c, *a: ctx.prove("no warning", c)); ctx.replace("picotron_fs", "warn", lambda *a: ctx.prove("no warning", False))
    POD = object()
    def parse(s, handler=None):
        want = [text[0]]
        for k in range(nud):
            want += [b"userdata()" if pxu[k] else uds_text[k], text[k + 1]]
        ctx.prove("the same text is parsed", s == Cat(want).norm())
        for k in range(nud):
            if pxu[k]: ctx.prove("the userdata come in order", handler() is uds[k])
        ctx.prove("no other userdata", handler() is None)
        return POD
    ctx.contract("picotron_fs", "parse_pod", parse)
    w = fs.write_pod({}, compress=compress, use_base64=b64)
    ctx.prove("reads back", fs.read_pod(w) is POD)
