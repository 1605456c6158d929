"""C06 contracts: to_p8str inverts from_p8str on every string of PICO-8 characters (loop invariant over the unicode text), byte coding

The unicode text of a p8 string S is the concatenation U(S[0]) U(S[1]) ...; U(c) is what the real from_p8str gives for c (homomorphism:
unit from_elementwise).  Loop invariant of to_p8str at text position p: p is the start of U(S[j]), result == S[0..j), ignore_next false; or
p is the second code unit of U(S[j]), result == S[0..j], ignore_next true.  One arbitrary iteration is executed for every c, both capital modes
and every possible following code unit."""
from pyver.unit import unit
MAXN = 1 << 40

def PD():
    import pico_process, pico_defs
    return pico_defs

class G: pass

class GhostText:
    """the unicode text, seen from the start of the arbitrary character S[j]"""
    __pv_sym__ = True
    def pv_len(m): return G.base + len(G.units) + G.rest
    def __getitem__(m, i):
        d = i - G.base
        for k, u in enumerate(G.units):
            if d == k: return u
        if d == len(G.units) and G.rest > 0: return G.nxt()
        raise G.ctx.sym.Unsupported("text accessed elsewhere")
    def __iter__(m): raise G.ctx.sym.Unsupported("text iterated")

class ToLoop:
    """to_p8str: for i, ch in enumerate(text)"""
    active = False; keep = (); extra = ("result",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("entry: nothing converted", ctx.and_(len(env["result"]) == 0, env["ignore_next"] == False))
        if G.mode == "exit":
            return {"result": ctx.sym.SymArr(G.S.arr, G.n, 0, 255, 0, "charlist"), "ignore_next": False}
        lr.mem["k"] = k = ctx.choose(range(len(G.units)), "k")
        return {"result": ctx.sym.SymArr(G.S.arr, G.j + (1 if k else 0), 0, 255, 0, "charlist"), "ignore_next": k > 0}
    def more(m, lr): return G.mode == "step"
    def next(m, lr): return G.base + lr.mem["k"], G.units[lr.mem["k"]]
    def end(m, lr, env):
        ctx, k = G.ctx, lr.mem["k"]
        last = k == len(G.units) - 1
        r = env["result"]
        ctx.prove("one character per converted unit", r.length == G.j + 1)
        t = ctx.fresh("t", 0, MAXN)
        ctx.prove("converted so far", ctx.implies(t < G.j + 1, r.raw(t) == G.S.raw(t)))
        ctx.prove("state for the next code unit", env["ignore_next"] == (not last))
L_ = ToLoop()
LOOPS = {("pico_defs", "to_p8str", 0): L_}

@unit("C06", params=["step", "step_unicaps", "exit"], loops=LOOPS)
def to_inverts_from(ctx, mode):
    pd = PD()
    if not ctx.symbolic:
        s = ctx.str("s", ctx.int("len", 0, 12)); caps = ctx.int("caps", 0, 1) == 1
        ctx.prove("to_p8str inverts from_p8str", pd.to_p8str(pd.from_p8str(s, unicaps=caps)) == s); return
    G.ctx, G.mode = ctx, mode.split("_")[0]
    caps = mode.endswith("unicaps")
    G.n = ctx.int("n", 0, MAXN)
    G.S = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("S"), G.n, 0, 255, "str")
    if mode != "exit":
        c = ctx.choose(range(256), "c")
        u = pd.from_p8str(chr(c), unicaps=caps)
        ctx.prove("a character has one or two code units", 1 <= len(u) <= 2)
        G.units = u; G.base = ctx.int("base", 0, MAXN); G.j = ctx.int("j", 0, MAXN)
        ctx.assume(ctx.and_(G.j < G.n, G.S.raw(G.j) == c))
        G.memo = []; G.rest = ctx.int("rest", 0, MAXN)
        def nxt():
            if not G.memo:
                firsts = sorted({pd.from_p8str(chr(d), unicaps=caps)[0] for d in range(256)})
                G.memo.append(ctx.choose(firsts, "next unit"))
            return G.memo[0]
        G.nxt = nxt
    L_.active = True
    try: r = pd.to_p8str(GhostText())
    finally: L_.active = False
    t = ctx.fresh("t", 0, MAXN)
    ctx.prove("exit: the whole string", ctx.and_(r.length == G.n, ctx.implies(t < G.n, r.raw(t) == G.S.raw(t))))

@unit("C06")
def single(ctx):
    """every character on its own, and no two share a unicode form"""
    pd = PD()
    for caps in (False, True):
        forms = [pd.from_p8str(chr(c), unicaps=caps) for c in range(256)]
        for c in range(256): ctx.prove("single character", pd.to_p8str(forms[c]) == chr(c), c)
        ctx.prove("forms are distinct", len(set(forms)) == 256)
        ctx.prove("only capitals differ", all(pd.from_p8str(chr(c)) == forms[c] for c in range(256) if not 65 <= c <= 90))

@unit("C06", params=[False, True])
def from_elementwise(ctx, caps):
    """from_p8str maps its text character by character"""
    pd = PD()
    if not ctx.symbolic:
        s = ctx.str("s", ctx.int("len", 0, 12))
        ctx.prove("character by character", pd.from_p8str(s, unicaps=caps) == "".join(pd.from_p8str(c, unicaps=caps) for c in s)); return
    from pyver.hooks import GhostSeq
    c = chr(ctx.choose(range(256), "c"))
    r = pd.from_p8str(GhostSeq(c, "str"), unicaps=caps)
    ctx.prove("element", isinstance(r, GhostSeq) and r.kind == "str" and r.elem == pd.from_p8str(c, unicaps=caps))
    ctx.prove("empty", pd.from_p8str("", unicaps=caps) == "")

@unit("C06")
def byte_coding(ctx):
    """encode_p8str / decode_p8str: one byte per character, inverse of each other"""
    pd = PD()
    if not ctx.symbolic:
        s = ctx.str("s", ctx.int("len", 0, 12)); b = s.encode("latin-1")
        ctx.prove("encode", pd.encode_p8str(s) == b); ctx.prove("decode", pd.decode_p8str(b) == s); return
    from pyver.hooks import GhostSeq
    c = ctx.int("c", 0, 255)
    ch = ctx.sym.mkstr([c])
    e = pd.encode_p8str(GhostSeq(ch, "str"))
    ctx.prove("encode: the byte of the character", isinstance(e, GhostSeq) and e.kind == "bytes" and e.elem == c)
    d = pd.decode_p8str(GhostSeq(c, "bytes"))
    ctx.prove("decode: the character of the byte", isinstance(d, GhostSeq) and d.kind == "str" and d.elem == ch)
