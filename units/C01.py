"""C01 contracts: the new (pxa) compression format.

Coupling argument, all of it on the real compress_code / uncompress_code:
  * get_lz77 (contract below, discharged by the lz77_* units): it yields items (i, item) that tile the code from 0 to its end, in
    order; a literal is code[i], a block is a slice of the code, a match (offset, count) has count >= min_c,
    1 <= offset <= min(i, max_o) and code[x] == code[x - offset] for all i <= x < i + count.
  * pxa_step: for ONE arbitrary iteration of compress_code's item loop, from an arbitrary position i of an arbitrary code and
    any move-to-front state: run the real body, then one iteration of uncompress_code's real main loop on what was written,
    from the corresponding state: it consumes exactly what was written, appends exactly the item's characters, and its
    move-to-front state again equals the encoder's.   By induction the decoder reproduces the code.
  * pxa_frame: header, sizes, entry and exit of both loops.
Loops inside the items (3-bit count groups, block characters, copy loop) have their own invariants: no length is bounded.
"""
from pyver.unit import unit
from units.ghost_bits import GhostBits, GhostReader
import random
from units import lz77
MAXN = 0xffff
HDR = b"\0pxa"

def PC():
    import pico_process, pico_compress
    return pico_compress

class Mtf:
    """ghost of the move-to-front list: an arbitrary permutation; update_mtf is the function proved in unit update_mtf_exact"""
    __pv_sym__ = True
    def __init__(m, ctx, arr): m.ctx, m.arr = ctx, arr
    @staticmethod
    def fresh(ctx):
        z = ctx.sym.z3
        return Mtf(ctx, z.Array(ctx.sym.ENG.fresh_name("mtf"), z.BitVecSort(9), z.BitVecSort(9)))
    def get(m, i):
        z = m.ctx.sym.z3
        t = z.Select(m.arr, m.ctx.sym.term(i, 9))
        m.ctx.sym.ENG._add(z.And(t >= 0, t <= 255))
        return m.ctx.sym.mkint(t, 0, 255)
    def index(m, ch):
        """list.index: some position that holds ch (a permutation of all 256 characters has one)"""
        ctx = m.ctx
        i = ctx.fresh("mtf_i", 0, 255)
        ctx.assume(m.get(i) == ctx.sym.as_symstr(ch).cs[0])
        return i
    def __getitem__(m, i):
        ctx = m.ctx
        ctx.prove("move-to-front index in range", ctx.and_(i >= 0, i <= 255))
        return ctx.sym.mkstr([m.get(i)])
    def update(m, idx, ch):
        z = m.ctx.sym.z3
        f = z.Function("update_mtf", m.arr.sort(), z.BitVecSort(9), z.BitVecSort(9), m.arr.sort())
        ctx = m.ctx
        c = ctx.sym.as_symstr(ch).cs[0]
        ctx.prove("update_mtf is called with an element of the list", ctx.and_(idx >= 0, idx <= 255, m.get(idx) == c))
        m.arr = f(m.arr, ctx.sym.term(idx, 9), ctx.sym.term(c, 9))
    def pv_len(m): return 256

class G: pass     # ghost state of the running unit

class EncLoop:
    """compress_code: for i, item in items"""
    active = False; keep = (); extra = ("mtf", "bw")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("encoder entry: move-to-front list is the identity", env["mtf"] == [chr(c) for c in range(256)])
        ctx.prove("encoder entry: no bits written", ctx.and_(isinstance(env["bw"], GhostBits), not env["bw"].items))
        G.bw = GhostBits(ctx)
        G.mtf = Mtf.fresh(ctx)
        G.mtf0 = Mtf(ctx, G.mtf.arr)
        G.i = ctx.int("i", 0, MAXN)
        ctx.assume(G.i <= G.n)
        return {"mtf": G.mtf, "bw": G.bw}
    def more(m, lr):
        return G.mode == "step"
    def next(m, lr):
        ctx, i, n = G.ctx, G.i, G.n
        pc = PC()
        ctx.assume(i < n)
        kind = ctx.choose(["match", "literal", "block"], "kind")
        G.kind = kind
        if kind == "literal":
            G.count = 1
            return i, G.S[i]
        if kind == "match":
            # contract of get_lz77 with the arguments it was called with
            p = G.params
            o = ctx.int("offset", 1, MAXN); c = ctx.int("count", 1, MAXN)
            ctx.assume(ctx.and_(o <= i, i + c <= n, True if p["max_o"] is None else o <= p["max_o"], c >= p["min_c"], True if p["max_c"] is None else c <= p["max_c"]))
            G.count, G.offset = c, o
            return i, pc.Lz77Entry(o, c)
        c = ctx.int("blocklen", 0, MAXN)
        ctx.assume(ctx.and_(i + c <= n, c != 1))
        G.count = c
        return i, G.S[i:i + c]
    def end(m, lr, env):
        ctx = G.ctx
        G.written = G.bw.items
        G.reader = GhostReader(ctx, G.written)
        decode(ctx)
        ctx.prove("decoder stops", False)

class RepLoop:
    """write_match: while count_val >= 7"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx
        lr.mem["c0"] = c0 = env["count_val"]
        j = ctx.fresh("groups", 0, MAXN)
        ctx.assume(c0 - 7 * j >= 0)
        G.groups = j
        G.bw.items.append(("rep", 3, 7, j))
        lr.mem["n"] = len(G.bw.items)
        return {"count_val": c0 - 7 * j}
    def end(m, lr, env):
        ctx = G.ctx
        new = G.bw.items[lr.mem["n"]:]
        ctx.prove("count groups: one full group is written per round", ctx.and_(len(new) == 1, new[0][0] == "bits", new[0][1] == 3, new[0][2] == 7))
        ctx.prove("count groups: seven less to write", ctx.and_(env["count_val"] == lr.mem["c0"] - 7 * (G.groups + 1), env["count_val"] >= 0))

class BlockLoop:
    """write_litblock: for ch in str"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx
        t = ctx.fresh("t", 0, MAXN)
        ctx.assume(t <= G.count)
        lr.mem["t"] = t
        ctx.prove("block text is the item", ctx.and_(lr.it.length == G.count, lr.it.off == G.i) if hasattr(lr.it, "off") else len(lr.it) == G.count)
        G.bw.items.append(("chars", G.S, G.i, t))
        lr.mem["n"] = len(G.bw.items)
        return {}
    def more(m, lr): return lr.mem["t"] < G.count
    def next(m, lr): return G.S[G.i + lr.mem["t"]]
    def end(m, lr, env):
        ctx = G.ctx
        new = G.bw.items[lr.mem["n"]:]
        ctx.prove("block: each character is written as 8 bits", ctx.and_(len(new) == 1, new[0][0] == "bits", new[0][1] == 8, new[0][2] == G.S.raw(G.i + lr.mem["t"])))

class DecLoop:
    """uncompress_code: while len(code) < unc_size"""
    active = False; keep = (); extra = ("code", "mtf", "br")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("decoder entry: nothing decoded", len(env["code"]) == 0)
        ctx.prove("decoder entry: move-to-front list is the identity", env["mtf"] == [chr(c) for c in range(256)])
        G.dmtf = Mtf(ctx, G.mtf0.arr)
        G.code = ctx.sym.SymArr(G.S.arr, G.i, 1, 255, 0, "charlist")      # == S[0..i)
        return {"code": G.code, "mtf": G.dmtf, "br": G.reader}
    def end(m, lr, env):
        ctx = G.ctx
        code = env["code"]
        ctx.prove("the item's characters are appended", code.length == G.i + G.count)
        t = ctx.fresh("t", 0, 2 * MAXN)
        ctx.prove("the decoded text is the code up to the end of the item", ctx.implies(t < G.i + G.count, code.raw(t) == G.S.raw(t)))
        ctx.prove("exactly the bits of the item are consumed", G.reader.done())
        ctx.prove("move-to-front states agree again", G.dmtf.arr.eq(G.mtf.arr) or ctx.sym.SymBool(G.dmtf.arr == G.mtf.arr))

class DecBlockLoop:
    """uncompress_code: characters of a literal block"""
    active = False; keep = (); extra = ("code",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("block loop only for blocks", G.kind == "block")
        ctx.prove("block loop starts at the item", ctx.and_(env["code"].length == G.i, env["startlen"] == G.i))
        r = G.reader
        while r.k < len(r.items) and r.items[r.k][0] != "chars": ctx.prove("reader stands at the block's characters", False)
        t = ctx.fresh("t", 0, MAXN)
        ctx.assume(t <= G.count); lr.mem["t"] = t
        r.sub = t
        return {"code": ctx.sym.SymArr(G.S.arr, G.i + t, 1, 255, 0, "charlist")}
    def end(m, lr, env):
        ctx, t = G.ctx, lr.mem["t"]
        code = env["code"]
        q = ctx.fresh("q", 0, 2 * MAXN)
        ctx.prove("block: one character per round", ctx.and_(code.length == G.i + t + 1, t + 1 <= G.count, G.reader.sub == t + 1))
        ctx.prove("block: text so far", ctx.implies(q < G.i + t + 1, code.raw(q) == G.S.raw(q)))

class DecCountLoop:
    """uncompress_code: 3-bit count groups"""
    active = False; keep = (); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("count starts at the minimum", env["count"] == 3)
        r = G.reader
        ctx.prove("reader stands at the count groups", r.k < len(r.items) and r.items[r.k][0] == "rep")
        g = ctx.fresh("g", 0, MAXN)
        ctx.assume(g <= G.groups); lr.mem["g"] = g
        r.sub = g
        return {"count": 3 + 7 * g}
    def end(m, lr, env):
        ctx, g = G.ctx, lr.mem["g"]
        ctx.prove("count groups: seven more per full group", ctx.and_(env["count"] == 3 + 7 * (g + 1), G.reader.sub == g + 1, g + 1 <= G.groups))

class DecCopyLoop:
    """uncompress_code: for _ in range(count): code.append(code[-offset])"""
    active = False; keep = (); extra = ("code",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("copies the item's count", ctx.and_(lr.it.a == 0, lr.it.s == 1, lr.it.b == G.count))
        ctx.prove("copy starts at the item", env["code"].length == G.i)
        t = ctx.fresh("t", 0, MAXN)
        ctx.assume(t <= G.count); lr.mem["t"] = t
        x = G.i + t
        ctx.assume(ctx.implies(t < G.count, G.S.raw(x) == G.S.raw(x - G.offset)))    # match contract of get_lz77, at x
        return {"code": ctx.sym.SymArr(G.S.arr, x, 1, 255, 0, "charlist")}
    def more(m, lr): return lr.mem["t"] < G.count
    def next(m, lr): return lr.mem["t"]
    def end(m, lr, env):
        ctx, t = G.ctx, lr.mem["t"]
        code = env["code"]
        q = ctx.fresh("q", 0, 2 * MAXN)
        ctx.prove("copy: one character per round", code.length == G.i + t + 1)
        ctx.prove("copy: text so far", ctx.implies(q < G.i + t + 1, code.raw(q) == G.S.raw(q)))

LOOPS = {("pico_compress", "compress_code", None): None}
E_, R_, B_, D_, DB_, DC_, DP_ = EncLoop(), RepLoop(), BlockLoop(), DecLoop(), DecBlockLoop(), DecCountLoop(), DecCopyLoop()
LOOPS = {
    ("pico_compress", "compress_code", 0): E_,
    ("pico_compress", "compress_code.write_match", 0): R_,
    ("pico_compress", "compress_code.write_litblock", 0): B_,
    ("pico_compress", "uncompress_code", 0): D_,
    ("pico_compress", "uncompress_code", 2): DB_,
    ("pico_compress", "uncompress_code", 3): DC_,
    ("pico_compress", "uncompress_code", 4): DP_,
}
def activate(on):
    for l in LOOPS.values(): l.active = on

class GhostW:
    """contract object of BinaryWriter for the header and the total size"""
    def __init__(m, ctx): m.ctx, m.log, m.p, m.f = ctx, [], 0, "file"; m.end = None
    def pos(m): return m.p
    def bytes(m, b): m.log.append((m.p, b)); m.p += len(b)
    def u16(m, v):
        m.ctx.prove("u16 in range", m.ctx.and_(v >= 0, v <= 0xffff))
        m.log.append((m.p, v)); m.p += 2
    def setpos(m, p): m.p = p

class GhostR:
    def __init__(m, ctx, n, size): m.ctx, m.n, m.size, m.f, m.p, m.k = ctx, n, size, "file", 0, 0
    def pos(m): return m.p if G.mode != "exit" or m.k < 2 else m.size
    def bytes(m, n, allow_eof=False): m.p += 4; return HDR
    def u16(m): m.k += 1; m.p += 2; return m.n if m.k == 1 else m.size
    def subpos(m, n): pass

def encode(ctx, fast):
    pc = PC()
    class BW(GhostBits):
        def __init__(b, f): super().__init__(ctx)
        def flush(b): pass
    def bw_flush():   # after the loop: flush moves the file position behind the last bit
        G.w.p = 8 + G.nbytes
    def new_bw(f):
        b = GhostBits(ctx); return b
    ctx.replace("pico_compress", "BinaryBitWriter", new_bw)
    GhostBits.flush = lambda b: bw_flush()
    def get_lz77(p):
        ctx.prove("get_lz77's precondition", ctx.and_(p["code"].length == G.n, p["min_c"] >= 1, True if p["max_c"] is None else p["max_c"] >= p["min_c"]))
        G.params = p
        return iter(())
    ctx.contract("pico_compress", "get_lz77", get_lz77, bound=True)
    # the literal-block heuristic: get_lz77's contract is proved for any indices (lz77_main)
    ctx.contract("pico_compress", "compress_code.preprocess_litblock_idxs", lambda: None)
    ctx.contract("pico_compress", "update_mtf", lambda mtf, idx, ch: mtf.update(idx, ch))
    G.w = GhostW(ctx)
    pc.compress_code(G.w, G.S, force_compress=True, fail_on_error=G.fail_on_error, fast_compress=fast)

def decode(ctx):
    pc = PC()
    ctx.replace("pico_compress", "BinaryBitReader", lambda f: G.reader)
    size = 8 + G.nbytes if G.mode == "exit" else ctx.fresh("com_size", 0, 0xffff)
    return pc.uncompress_code(GhostR(ctx, G.n, size))

def setup(ctx, mode):
    G.ctx, G.mode = ctx, mode
    G.n = ctx.int("n", 0, MAXN)
    G.S = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("S"), G.n, 1, 255, "str")
    G.nbytes = ctx.int("nbytes", 0, 0x20000)
    G.fail_on_error = mode == "exit"
    activate(True)

@unit("C01", params=[False, True], loops=LOOPS, limit=250)
def pxa_step(ctx, fast):
    """one arbitrary item: encoder body, then decoder body, from corresponding states (no bound on any length)"""
    if not ctx.symbolic: return concrete_roundtrip(ctx, fast, False)
    setup(ctx, "step")
    try: encode(ctx, fast)
    finally: activate(False)

@unit("C01", params=[False, True], loops=LOOPS, limit=250)
def pxa_frame(ctx, fast):
    """header: magic, exact uncompressed length, exact compressed size; both loops' entry and exit; oversize is refused"""
    if not ctx.symbolic: return concrete_roundtrip(ctx, fast, False)
    import utils
    setup(ctx, "exit")
    G.i = None
    class X: pass
    old = E_.enter
    try:
        try:
            encode(ctx, fast)
            raised = False
        except utils.CheckError:
            raised = True
        too_big = 8 + G.nbytes > 0x3d00
        if raised:
            ctx.prove("refused only when it does not fit", too_big)
            return
        ctx.prove("accepted only when it fits", ctx.not_(too_big))
        log = G.w.log
        ctx.prove("header", ctx.and_(log[0][0] == 0, log[0][1] == HDR, log[1][0] == 4, log[1][1] == G.n))
        ctx.prove("compressed size", ctx.and_(log[-1][0] == 6, log[-1][1] == 8 + G.nbytes))
        ctx.cover("accepted")
        # decoder: from the state in which everything is decoded, the loop ends and the checks hold
        G.i = G.n; G.count = 0; G.mtf0 = G.mtf
        G.reader = GhostReader(ctx, [])
        r = decode(ctx)
    finally: activate(False)
    ctx.prove("decoder returns the whole code", ctx.and_(r.length == G.n))
    t = ctx.index("t", MAXN)
    ctx.prove("decoder returns the code", ctx.implies(t < G.n, r.raw(t) == G.S.raw(t)))

def gen_code(rng, n=None):
    """code with runs, repeats at many distances, incompressible stretches and rare characters"""
    out = []
    n = rng.choice([0, 1, 2, 3, 5, 10, 40, 200, 700, 3000]) if n is None else n
    alpha = rng.choice(["ab", "abcdefghijklmnopqrstuvwxyz \n=(),.", "".join(map(chr, range(1, 256))), "".join(map(chr, range(0xe0, 0x100))) + "ab"])
    while len(out) < n:
        k = rng.random()
        if k < .4: out += [rng.choice(alpha) for _ in range(rng.choice([1, 2, 5, 30, 60]))]
        elif k < .5: out += [rng.choice(alpha)] * rng.choice([2, 3, 4, 9, 10, 17, 18, 100, 400])
        elif out:
            o = min(rng.choice([1, 2, 3, 16, 17, 31, 32, 33, 34, 1023, 1024, 1025, 1026, 3135, 3136, 0x7fff, rng.randint(1, len(out))]), len(out))
            c = rng.choice([3, 4, 9, 10, 11, 16, 17, 18, 19, 24, 100])
            for _ in range(c): out.append(out[-o])
    return "".join(out[:n])

def concrete_roundtrip(ctx, fast, old):
    pc = PC()
    from io import BytesIO
    import utils
    rng = random.Random(ctx.int("seed", 0, 1 << 30))
    code = gen_code(rng)
    w = utils.BinaryWriter(BytesIO())
    pc.compress_code(w, code, force_compress=True, fail_on_error=False, fast_compress=fast, old_compress=old)
    data = w.f.getvalue()
    ctx.prove("decompresses to the code", pc.uncompress_code(utils.BinaryReader(BytesIO(data + bytes(4)))) == code, repr(code)[:2000])

@unit("C01")
def update_mtf_exact(ctx):
    """update_mtf(mtf, idx, mtf[idx]) moves the element to the front and shifts exactly the ones before it"""
    pc = PC()
    if ctx.symbolic:
        for idx in [ctx.choose(range(256), "idx")]:
            xs = [ctx.int(f"x{k}", 0, 255) for k in range(256)]
            l = list(xs)
            pc.update_mtf(l, idx, xs[idx])
            ctx.prove("moved to front", ctx.and_(len(l) == 256, l[0] is xs[idx] or l[0] == xs[idx]))
            ctx.prove("others keep their order", all(l[k] is xs[k - 1] for k in range(1, idx + 1)) and all(l[k] is xs[k] for k in range(idx + 1, 256)))
    else:
        idx = ctx.choose(range(256), "idx")
        xs = [chr(k) for k in range(256)]; l = list(xs)
        pc.update_mtf(l, idx, xs[idx])
        ctx.prove("moved to front", l == [xs[idx]] + xs[:idx] + xs[idx + 1:])
