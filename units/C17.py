"""C17 contracts: Memory accessors (value and frame, for any memory size, content, address and value), address functions, merge_cart"""
import random
from pyver.unit import unit
N = 1 << 20

def PD():
    import pico_process, pico_defs
    return pico_defs

def mem(ctx, name, size=None):
    """a Memory of any (or the given) size with arbitrary content"""
    pd = PD()
    if not ctx.symbolic:
        n = size if size is not None else min(ctx.int(name + "_len", 8, N), 3000)
        rng = random.Random(ctx.int(name + "_seed", 0, 1 << 20))
        return pd.Memory(rng.randbytes(n))
    n = size if size is not None else ctx.int(name + "_len", 8, N)
    a = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name(name), n, 0, 255, "bytearray")
    cls = ctx.sym.SymArr
    body = {k: v for k, v in pd.Memory.__dict__.items() if callable(v) and not k.startswith("__")}
    a.__class__ = type("SymMemory", (cls,), {k: v for k, v in body.items() if k != "copy"})
    return a

def snap(ctx, m):
    if not ctx.symbolic: return type(m)(m)
    return ctx.sym.SymArr(m.arr, m.length, m.lo, m.hi, m.off, m.kind)
def frame(ctx, m, old, lo, n, name):
    """every byte outside [lo, lo+n) is unchanged, and the size too"""
    t = ctx.int("t", 0, N)
    ctx.prove(name + ": size unchanged", ctx.length(m) == ctx.length(old))
    if not ctx.symbolic:
        ctx.prove(name + ": other bytes unchanged", m[:max(lo, 0)] == old[:max(lo, 0)] and m[lo + n:] == old[lo + n:]); return
    ctx.prove(name + ": other bytes unchanged", ctx.implies(ctx.and_(t < ctx.length(old), ctx.or_(t < lo, t >= lo + n)), ctx.at(m, t) == ctx.at(old, t)))

@unit("C17", params=[1, 2, 4])
def get_set(ctx, n):
    """get/set of 8, 16 and 32 bits: little-endian value, read back, nothing else touched"""
    m = mem(ctx, "mem"); i = ctx.int("i", 0, N); v = ctx.int("v", 0, (1 << (8 * n)) - 1)
    ctx.assume(i + n <= ctx.length(m))
    g = {1: m.get8, 2: m.get16, 4: m.get32}[n]; s = {1: m.set8, 2: m.set16, 4: m.set32}[n]
    want = sum([ctx.at(m, i + k) << (8 * k) for k in range(1, n)], ctx.at(m, i))
    ctx.prove("get: little-endian value", g(i) == want)
    old = snap(ctx, m)
    s(i, v)
    frame(ctx, m, old, i, n, "set")
    for k in range(n): ctx.prove("set: little-endian bytes", ctx.at(m, i + k) == (v >> (8 * k)) & 0xff)
    ctx.prove("get after set", g(i) == v)

@unit("C17", params=[2, 4])
def set_wide(ctx, n):
    """values wider than the cell keep only their low bits (also negative ones)"""
    m = mem(ctx, "mem"); i = ctx.int("i", 0, N); v = ctx.int("v", -(1 << 33), 1 << 33)
    ctx.assume(i + n <= ctx.length(m))
    {2: m.set16, 4: m.set32}[n](i, v)
    ctx.prove("low bits", {2: m.get16, 4: m.get32}[n](i) == v & ((1 << (8 * n)) - 1))

@unit("C17")
def get_set4(ctx):
    """nibbles: read back, the other nibble and all other bytes untouched"""
    m = mem(ctx, "mem"); i = ctx.int("i", 0, N); v = ctx.int("v", 0, 255); high = ctx.int("high", 0, 1)
    ctx.assume(i < ctx.length(m))
    old = snap(ctx, m); b = ctx.at(m, i)
    ctx.prove("get4", m.get4((i, high)) == ctx.ite(high == 1, b >> 4, b & 15))
    m.set4((i, high), v)
    ctx.prove("set4: the byte", ctx.at(m, i) == ctx.ite(high == 1, (b & 15) | ((v & 15) << 4), (b & 0xf0) | (v & 15)))
    ctx.prove("get4 after set4", m.get4((i, high)) == v & 15)
    frame(ctx, m, old, i, 1, "set4")

@unit("C17")
def bits(ctx):
    """bit fields: read back, all other bits untouched"""
    m = mem(ctx, "mem"); i = ctx.int("i", 0, N); v = ctx.int("v", 0, 255)
    sh = ctx.choose(range(8), "shift"); mask = (1 << ctx.choose(range(1, 9), "width")) - 1
    if (mask << sh) > 255: ctx.assume(False)
    ctx.assume(i < ctx.length(m))
    old = snap(ctx, m); b = ctx.at(m, i)
    m.set8_bits(i, sh, mask, v)
    ctx.prove("get8_bits after set8_bits", m.get8_bits(i, sh, mask) == v & mask)
    ctx.prove("other bits", (ctx.at(m, i) & ~(mask << sh) & 255) == (b & ~(mask << sh) & 255))
    frame(ctx, m, old, i, 1, "set8_bits")

@unit("C17", params=["get", "set", "copy", "copy_other", "copyfrom", "fill", "replace", "clear"])
def blocks(ctx, what):
    """block operations move exactly the given bytes"""
    m = mem(ctx, "mem"); o = mem(ctx, "other")
    a, b, n = ctx.int("a", 0, N), ctx.int("b", 0, N), ctx.int("n", 0, N)
    L = ctx.length(m); t = ctx.int("t", 0, N)
    if what == "replace":
        if ctx.symbolic: ctx.assume(L == ctx.length(o))
        old = snap(ctx, o)
        m.replace(o)
        ctx.prove("replace", ctx.and_(ctx.length(m) == ctx.length(old), ctx.implies(t < ctx.length(old), ctx.at(m, t) == ctx.at(old, t)))); return
    if what == "clear":
        m.clear()
        ctx.prove("clear", ctx.and_(ctx.length(m) == L, ctx.implies(t < L, ctx.at(m, t) == 0))); return
    src = o if what in ("copy_other", "copyfrom", "set") else m
    if what == "copyfrom": b = a
    ctx.assume(ctx.and_(a + n <= L, b + n <= ctx.length(src)))
    old, osrc = snap(ctx, m), snap(ctx, src)
    if what == "get":
        r = m.get_block(b, n)
        ctx.prove("get_block", ctx.and_(ctx.length(r) == n, ctx.implies(t < n, ctx.at(r, t) == ctx.at(old, b + t)))); return
    if what == "set": m.set_block(a, o.get_block(b, n))
    elif what == "copy": m.copy8(a, b, n)
    elif what == "copy_other": m.copy8(a, b, n, o)
    elif what == "copyfrom": m.copyfrom8(a, n, o)
    elif what == "fill":
        v = ctx.int("v", 0, 255)
        m.fill8(a, v, n)
    want = v if what == "fill" else ctx.at(osrc, b + t)
    ctx.prove("the bytes given", ctx.implies(t < n, ctx.at(m, a + t) == want))
    frame(ctx, m, old, a, n, what)
    if src is not m: ctx.prove("the source is not changed", ctx.and_(ctx.length(src) == ctx.length(osrc), ctx.implies(t < ctx.length(osrc), ctx.at(src, t) == ctx.at(osrc, t))))

@unit("C17")
def compare(ctx):
    """cmpeq8: equal only if every byte is equal, and equal when they all are"""
    m = mem(ctx, "mem"); o = mem(ctx, "other")
    a, b, n, t = ctx.int("a", 0, N), ctx.int("b", 0, N), ctx.int("n", 0, N), ctx.int("t", 0, N)
    if not ctx.symbolic: n = n % 9; t = t % 9; a = a % max(ctx.length(m) - 8, 1); b = b % max(ctx.length(o) - 8, 1); n = max(n, t + 1)
    ctx.assume(ctx.and_(a + n <= ctx.length(m), b + n <= ctx.length(o), t < n))
    r = m.cmpeq8(a, b, n, o)
    ctx.prove("equal means every byte is", ctx.implies(r, ctx.at(m, a + t) == ctx.at(o, b + t)))
    ctx.prove("a block equals itself", m.cmpeq8(a, a, n))
    m.copy8(a, b, n, o)
    ctx.prove("a copied block is equal", m.cmpeq8(a, b, n, o))
    x = ctx.int("x", 0, N) if ctx.symbolic else 0
    ctx.assume(x + n <= ctx.length(m)); ctx.assume(x + n <= ctx.length(o))
    m.copyfrom8(x, n, o)
    ctx.prove("a copied block is equal (same address)", m.cmpeqwith8(x, n, o))

SECT = {"gfx": (0, 0x2000), "map": (0x2000, 0x3000), "gff": (0x3000, 0x3100), "music": (0x3100, 0x3200), "sfx": (0x3200, 0x4300)}

@unit("C17", params=["sprite", "map", "flag", "flag2", "music", "sfx", "info"])
def addresses(ctx, what):
    """cells of a section: inside their section, distinct cells never overlap"""
    pd = PD()
    def cell(k):
        i = lambda n, hi: ctx.int(f"{n}{k}", 0, hi)
        if what == "sprite":
            x, y = i("x", 127), i("y", 127); a, h = pd.mem_sprite_addr(x, y); return (x, y), a * 2 + h, 1, 2 * SECT["gfx"][0], 2 * SECT["gfx"][1]
        if what == "map": x, y = i("x", 127), i("y", 63); return (x, y), pd.mem_map_addr(x, y), 1, ctx.ite(y < 0x20, 0x2000, 0x1000), ctx.ite(y < 0x20, 0x3000, 0x2000)
        if what == "flag": x = i("x", 255); return (x,), pd.mem_flag_addr(x), 1, *SECT["gff"]
        if what == "flag2": x, y = i("x", 127), i("y", 1); return (x, y), pd.mem_flag_addr(x, y), 1, *SECT["gff"]
        if what == "music": x, y = i("x", 63), i("y", 3); return (x, y), pd.mem_music_addr(x, y), 1, *SECT["music"]
        if what == "sfx": x, y = i("x", 63), i("y", 31); return (x, y), pd.mem_sfx_addr(x, y), 2, *SECT["sfx"]
        x, y = i("x", 63), i("y", 3); return (x, y), pd.mem_sfx_info_addr(x, y), 1, *SECT["sfx"]
    c, a, n, lo, hi = cell(1); d, b, _, _, _ = cell(2)
    ctx.prove("inside the section", ctx.and_(a >= lo, a + n <= hi))
    same = ctx.and_(*[p == q for p, q in zip(c, d)])
    ctx.prove("distinct cells never overlap", ctx.or_(same, a + n <= b, b + n <= a))
    if what == "info":
        s, k = ctx.int("s", 0, 63), ctx.int("k", 0, 31)
        b = pd.mem_sfx_addr(s, k)
        ctx.prove("info bytes are not notes", ctx.or_(a + 1 <= b, b + 2 <= a))
    if what == "flag2": ctx.prove("row-wise and linear numbering agree", pd.mem_flag_addr(c[0] + 128 * c[1]) == a)
    if what == "map":
        # the lower half of the map is the upper half of the sprites, byte for byte
        x, y = c
        sa, _ = pd.mem_sprite_addr(2 * (x & 63), 2 * y + (x >> 6))
        ctx.prove("lower map rows share the sprite rows", ctx.implies(y >= 32, pd.mem_sprite_addr(0, 64)[0] <= a))

class Obj: pass

@unit("C17", params=["lua", "gfx", "map", "gff", "music", "sfx", "label", "meta:title", "meta:x-y", "unknown"])
def merge_section(ctx, section):
    """merge_cart: replaces exactly the named section"""
    import pico_process, pico_cart, utils
    from collections import defaultdict
    def cart(k):
        c = Obj()
        c.rom = mem(ctx, "rom" + k, 0x4300)
        for f in ("code", "code_map", "code_rom", "label", "name", "path", "version_id", "version_tuple", "platform"): setattr(c, f, k + f)
        c.meta = defaultdict(list)
        for f in ("title", "x-y", "other"): c.meta[f] = [k + f]
        return c
    d, s = cart("d"), cart("s")
    old, osrc = snap(ctx, d.rom), snap(ctx, s.rom)
    try: pico_cart.merge_cart(d, s, [section]); bad = False
    except utils.CheckError: bad = True
    ctx.prove("only unknown sections are refused", bad == (section == "unknown"))
    lo, hi = SECT.get(section, (0, 0))
    t = ctx.int("t", 0, 0x42ff)
    ctx.prove("rom", ctx.and_(ctx.length(d.rom) == 0x4300, ctx.at(d.rom, t) == ctx.ite(ctx.and_(t >= lo, t < hi), ctx.at(osrc, t), ctx.at(old, t))))
    ctx.prove("source rom", ctx.and_(ctx.length(s.rom) == 0x4300, ctx.at(s.rom, t) == ctx.at(osrc, t)))
    for f in ("code", "code_map", "code_rom", "label", "name", "path", "version_id", "version_tuple", "platform"):
        want = "s" if section == "lua" and f.startswith("code") or section == f == "label" else "d"
        ctx.prove("fields", getattr(d, f) == want + f and getattr(s, f) == "s" + f, f)
    for f in ("title", "x-y", "other"):
        ctx.prove("meta", d.meta[f] == [("s" if section == "meta:" + f else "d") + f] and s.meta[f] == ["s" + f], f)

@unit("C17")
def default_rom(ctx):
    """mem_create_rom: every byte of a new cart"""
    rom = PD().mem_create_rom()
    want = bytearray(0x4300)
    for i in range(64):
        want[0x3200 + 68 * i + 64 + 1] = 1 if i == 0 else 16
        want[0x3100 + 4 * i:0x3104 + 4 * i] = bytes([0x41, 0x42, 0x43, 0x44])
    ctx.prove("default rom", bytes(rom) == bytes(want))

@unit("C17", params=[(128, 128), (3, 5, 7), (2000,)])
def multidim(ctx, size):
    """MultidimArray: distinct index tuples never share a cell, indices outside are refused"""
    import pico_process, utils
    a = utils.MultidimArray.__new__(utils.MultidimArray)
    a.dim = len(size); a.size = size
    idx = [ctx.int(f"i{k}", -2, 1 << 20) for k in range(len(size))]
    jdx = [ctx.int(f"j{k}", -2, 1 << 20) for k in range(len(size))]
    if not ctx.symbolic: idx = [i % (s + 1) for i, s in zip(idx, size)]; jdx = [i % (s + 1) for i, s in zip(jdx, size)]
    ins = ctx.and_(*[ctx.and_(i >= 0, i < s) for i, s in zip(idx, size)])
    bad = ctx.raises(lambda: a._getindex(idx), IndexError)
    ctx.prove("refuses exactly the indices outside", bad == ctx.not_(ins))
    ctx.assume(ins); ctx.assume(ctx.and_(*[ctx.and_(i >= 0, i < s) for i, s in zip(jdx, size)]))
    p, q = a._getindex(idx), a._getindex(jdx)
    total = 1
    for s in size: total = total * s
    ctx.prove("inside the array", ctx.and_(p >= 0, p < total))
    ctx.prove("distinct cells", ctx.or_(ctx.and_(*[i == j for i, j in zip(idx, jdx)]), p != q))
