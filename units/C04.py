"""C04 contracts: the picture <-> bytes coupling of the png writer and reader at an arbitrary pixel, and the rom layout

png: the writer's loop body is run for an arbitrary pixel of an arbitrary carrier, then the reader's loop body is run on the pixel written: it
appends exactly the byte at index x + y * width of the rom image; the reader's loop invariant is 'data has y * width + x bytes', so that
the data read is the rom image written.  Loading and saving the png (PIL, lossless) is trusted.
rom: write_cart_to_rom against a ghost file of spans, then read_cart_from_rom of that file (compress_code / uncompress_code by the contract
that C01 and C02 establish; the reader and writer operations by C03's)."""
from pyver.unit import unit
W, H = 160, 205

class G: pass
class GPixels:
    def __init__(m, ctx, known): m.ctx, m.known, m.sets = ctx, known, []
    def at(m, k): return k[0], k[1]
    def __getitem__(m, k):
        x, y = m.at(k); ctx = m.ctx
        ctx.prove("pixel inside the image", ctx.and_(x >= 0, x < W, y >= 0, y < H))
        for (kx, ky), v in m.sets + m.known:
            if bool(ctx.and_(kx == x, ky == y)): return v
        v = tuple(ctx.fresh("px", 0, 255) for _ in range(4))
        m.known.append(((x, y), v))
        return v
    def __setitem__(m, k, v):
        x, y = m.at(k)
        m.ctx.prove("pixel inside the image", m.ctx.and_(x >= 0, x < W, y >= 0, y < H))
        m.sets.insert(0, ((x, y), v))
class GImage:
    def __init__(m, pixels): m.size, m.pixels = (W, H), pixels
    def draw(m, *a): pass
    def save(m, **k): return m
class GData:
    """the reader's byte array: its length, and what is appended in the current iteration"""
    def __init__(m): m.n, m.new = 0, []
    def append(m, v): m.new.append(v); m.n = m.n + 1
class WOuter:
    active = False; keep = ("image", "width", "height", "pixels", "output")
    def enter(m, lr, env, names): m.it = lr.it; return {}
    def more(m, lr): return G.ctx.bool("more rows")
    def next(m, lr):
        G.ctx.prove("rows 0..204", m.it == range(H)); return G.y
    def end(m, lr, env): pass
class WInner:
    active = False; keep = WOuter.keep + ("y",)
    def enter(m, lr, env, names):
        m.it = lr.it
        if lr.it != range(W): G.ctx.prove("columns 0..159", False)
        return {}
    def more(m, lr): return G.ctx.bool("more columns")
    def next(m, lr): return G.x
    def end(m, lr, env):
        ctx = G.ctx; px = G.pixels
        ctx.prove("exactly this pixel is written", len(px.sets) == 1 and ctx.and_(px.sets[0][0][0] == G.x, px.sets[0][0][1] == G.y))
        new = px.sets[0][1]; old = [v for k, v in px.known if k[0] is G.x and k[1] is G.y][0]
        for a, b in zip(old, new): ctx.prove("only the low two bits of the channel change", ctx.and_(b >= 0, b <= 255, (b | 3) == (a | 3)))
        # now read it
        G.new = new
        G.rpixels = GPixels(ctx, [((G.x, G.y), new)])
        RO.active = RI.active = True
        try: G.cart.read_cart_from_image(b"png")
        finally: RO.active = RI.active = False
class ROuter:
    active = False; keep = ("image", "width", "height", "pixels"); extra = ("data",)
    def enter(m, lr, env, names):
        m.it = lr.it
        G.ctx.prove("starts with no data", len(env["data"]) == 0)
        G.data = GData(); G.data.n = G.yy = G.ctx.fresh("rowbytes", 0, W * H)
        return {"data": G.data}
    def more(m, lr):
        G.ctx.prove("rows 0..204", m.it == range(H))
        if G.ctx.bool("another row"): G.ctx.assume(G.data.n == G.y * W); return True
        G.ctx.assume(G.data.n == H * W); return False
    def next(m, lr): return G.y
    def end(m, lr, env): G.ctx.prove("a row adds its bytes", G.data.n == (G.y + 1) * W)
class RInner:
    active = False; keep = ROuter.keep + ("y",); extra = ("data",)
    def enter(m, lr, env, names):
        m.it = lr.it
        G.ctx.prove("the row starts at its offset", G.data.n == G.y * W)
        G.ctx.prove("the same buffer", env["data"] is G.data)
        G.data.n = G.ctx.fresh("bytes", 0, W * H)
        return {"data": G.data}
    def more(m, lr):
        G.ctx.prove("columns 0..159", m.it == range(W))
        if G.ctx.bool("another column"): G.ctx.assume(G.data.n == G.y * W + G.x); return True
        G.ctx.assume(G.data.n == G.y * W + W); return False
    def next(m, lr): return G.x
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("one byte is appended", len(G.data.new) == 1 and G.data.n == G.y * W + G.x + 1)
        ctx.prove("it is the byte the writer stored there", G.data.new[0] == ctx.at(G.output, G.y * W + G.x))
WO, WI, RO, RI = WOuter(), WInner(), ROuter(), RInner()
LOOPS = {("pico_cart", "write_cart_to_image", 0): WO, ("pico_cart", "write_cart_to_image", 1): WI,
         ("pico_cart", "read_cart_from_image", 0): RO, ("pico_cart", "read_cart_from_image", 1): RI}

def concrete_png(ctx):
    """the real png writer and reader on a random cart and carrier"""
    import random, pico_process, pico_cart, io
    from PIL import Image
    rng = random.Random(ctx.int("seed", 0, 1 << 20))
    cart = pico_cart.Cart(code="x=%d" % rng.randrange(1 << 30)); cart.rom.replace(rng.randbytes(len(cart.rom)))
    old = Image.frombytes("RGBA", (W, H), rng.randbytes(W * H * 4)); f = "/dev/shm/pv_c04_%d.png" % __import__("os").getpid()
    old.save(f)
    try: png = pico_cart.write_cart_to_image(cart, template_image=f, template_only=True)
    finally: __import__("os").unlink(f)
    new = Image.open(io.BytesIO(png)).convert("RGBA").tobytes()
    ctx.prove("only the low two bits of the channel change", all(a | 3 == b | 3 for a, b in zip(old.tobytes(), new)))
    back = pico_cart.read_cart_from_image(png)
    ctx.prove("it is the byte the writer stored there", back.rom == cart.rom and back.code == cart.code and back.version_id == cart.version_id)

@unit("C04", params=[True, False], loops=LOOPS)
def stego(ctx, template_only):
    """png: an arbitrary pixel through the writer's and the reader's loop bodies"""
    import pico_process, pico_cart
    if not ctx.symbolic: concrete_png(ctx); return
    G.ctx, G.cart = ctx, pico_cart
    G.x, G.y = ctx.int("x", 0, W - 1), ctx.int("y", 0, H - 1)
    G.output = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("rom"), W * H, 0, 255, "bytes")
    G.pixels = GPixels(ctx, []); G.rpixels = None
    ctx.contract("pico_cart", "write_cart_to_rom", lambda a: out_rom(a), bound=True)
    def out_rom(a):
        ctx.prove("the png holds the version", a["with_trailer"] == True)
        return G.output
    ctx.contract("pico_cart", "load_image_of_size", lambda a: (ctx.prove("size of a cart image", tuple(a["valid_size"]) == (W, H)), GImage(G.rpixels if G.rpixels else G.pixels))[1], bound=True)
    ctx.contract("pico_cart", "surface_pixels_to_screenshot", lambda a: "label", bound=True)
    def read_rom(a):
        ctx.prove("the data read is the data written", a["buffer"] is G.data)
        ctx.prove("all of it", G.data.n == W * H)
        return pico_cart.Cart()
    ctx.contract("pico_cart", "read_cart_from_rom", read_rom, bound=True)
    cart = pico_cart.Cart(); cart.meta["title"] = []
    ctx.prove("the image holds a rom with its version exactly", pico_cart.k_cart_size + pico_cart.k_trailer_size == W * H)
    WO.active = WI.active = True
    try: r = pico_cart.write_cart_to_image(cart, template_only=template_only, optimize_image=ctx.choose([False, True], "opt"))
    finally: WO.active = WI.active = False

# ------------------------------------------------------------------ rom layout
class Block:
    """bytes of known length with unknown content"""
    __pv_sym__ = True
    def __init__(m, name, n): m.name, m.n = name, n
    def pv_len(m): return m.n
    def __eq__(m, o): return m is o
    def __ne__(m, o): return not (m is o)
    __hash__ = None
class File:
    """a file of non-overlapping spans"""
    def __init__(m, ctx, size): m.ctx, m.size, m.spans = ctx, size, {}
    def put(m, pos, n, v):
        for p, (k, _) in list(m.spans.items()):
            m.ctx.prove("never overwrites what was written", p + k <= pos or pos + n <= p)
        m.ctx.prove("inside the file", 0 <= pos and pos + n <= m.size)
        m.spans[pos] = (n, v)
    def get(m, pos, n):
        m.ctx.prove("reads what was written, in the same units", pos in m.spans and m.spans[pos][0] == n)
        return m.spans[pos][1]
class Cut:
    """the content of a file up to a position"""
    __pv_sym__ = True
    def __init__(m, f, n, spans): m.f, m.n, m.spans = f, n, spans
    def pv_len(m): return m.f.size if m.n is None else m.n
    def __getitem__(m, s):
        if isinstance(s, slice) and s.start is None and s.step is None: return Cut(m.f, s.stop, {k: v for k, v in m.spans.items() if k < s.stop})
        raise Exception("slice")
    def same(m, o): return m.n == o.n and m.spans.keys() == o.spans.keys() and all(m.spans[k] is o.spans[k] or m.spans[k] == o.spans[k] for k in m.spans)
class IO:
    def __init__(m, buf=None):
        if isinstance(buf, Cut): m.file = buf.f
        else: m.file = File(G.ctx, len(buf) if buf is not None else 0)
    def getvalue(m): return Cut(m.file, None, dict(m.file.spans))
class Stream:
    def __init__(m, io, big_end=False): m.f, m.p = io.file, 0; G.ctx.prove("big endian", big_end == True)
    def __enter__(m): return m
    def __exit__(m, *a): pass
    def setpos(m, p): m.p = p
    def pos(m): return m.p
    def len(m): return m.f.size
class Writer(Stream):
    def put(m, n, v): m.f.put(m.p, n, v); m.p += n
    def u8(m, v): G.ctx.prove("a byte", G.ctx.and_(v >= 0, v <= 255)); m.put(1, v)
    def bytes(m, v):
        from pyver import hooks
        m.put(hooks.m_len(v), v)
class Reader(Stream):
    def u8(m): v = m.f.get(m.p, 1); m.p += 1; return v
    def bytes(m, n, allow_eof=False): v = m.f.get(m.p, n); m.p += n; return v
class Sha:
    def __init__(m, cut): m.cut = cut
    def digest(m):
        for o, b in G.shas:
            if o.same(m.cut): return b
        b = Block("sha1", 20); G.shas.append((m.cut, b)); return b
class HashLib:
    @staticmethod
    def sha1(x): return Sha(x)

@unit("C04", params=[(t, k) for t in (True, False) for k in (True, False)])
def rom_layout(ctx, p):
    """rom: what write_cart_to_rom stores is what read_cart_from_rom reads, field by field; nothing overlaps"""
    trailer, keep = p
    import pico_process, pico_cart
    pc = pico_cart
    vid = ctx.int("vid", 0, 255); vt = tuple(ctx.int(f"v{i}", 0, 255) for i in range(4)); plat = ctx.str("plat", 1)
    if not ctx.symbolic:
        import random
        rng = random.Random(vid)
        cart = pc.Cart(code="x=1"); cart.rom.replace(rng.randbytes(len(cart.rom)))
        cart.version_id, cart.version_tuple, cart.platform = vid, vt, plat
        buf = pc.write_cart_to_rom(cart, with_trailer=trailer, keep_compression=keep)
        back = pc.read_cart_from_rom(buf, keep_compression=keep)
        ctx.prove("same cart", back.rom == cart.rom and back.code == cart.code and (not trailer or (back.version_id, back.version_tuple, back.platform) == (vid, vt, plat)))
        return
    G.ctx, G.shas = ctx, []
    for n, o in (("BytesIO", IO), ("BinaryWriter", Writer), ("BinaryReader", Reader), ("hashlib", HashLib)): ctx.replace("pico_cart", n, o)
    rom = Block("rom", pc.k_rom_size); code = Block("code", None); code_rom = Block("code rom", pc.k_code_size)
    cart = pc.Cart()
    cart.rom, cart.code, cart.version_id, cart.version_tuple, cart.platform = rom, code, vid, vt, plat
    have = ctx.choose([True, False], "code_rom kept") if keep else False
    cart.code_rom = code_rom if have else None
    def compress(a):
        ctx.prove("compresses the cart's code", a["code"] is code)
        ctx.prove("a whole code area is left for it", not a["force_compress"])
        a["w"].put(pc.k_code_size, ("compressed", code))     # C01, C02: at most k_code_size bytes, the rest of the area stays zero
    def uncompress(a):
        v = a["r"].f.get(a["r"].p, pc.k_code_size)
        return v[1] if isinstance(v, tuple) else code         # the kept area was the compressed form of the code
    ctx.contract("pico_compress", "compress_code", compress, bound=True)
    ctx.contract("pico_compress", "uncompress_code", uncompress, bound=True)
    class Mem:
        def __init__(m, n=None): m.v = None
        def replace(m, v): m.v = v
        def set_block(m, pos, v): ctx.prove("at the start", pos == 0); m.v = v
    buf = pc.write_cart_to_rom(cart, with_trailer=trailer, keep_compression=keep)
    ctx.prove("size of the file", buf.f.size == 0x8000 + (32 if trailer else 0) and buf.n is None)
    ctx.prove("the rom is at 0, the code behind it", buf.f.spans[0][1] is rom and pc.k_rom_size in buf.f.spans)
    ctx.contract("pico_defs", "mem_create_rom", lambda: Mem())
    ctx.replace("pico_cart", "Memory", Mem)
    back = pc.read_cart_from_rom(buf, keep_compression=keep, allow_tiny=ctx.choose([False, True], "allow tiny"))
    ctx.prove("same memory", back.rom.v is rom)
    ctx.prove("same code", back.code is code)
    if have: ctx.prove("same compressed code", back.code_rom.v is code_rom)
    if trailer:
        ctx.prove("same version", ctx.and_(back.version_id == vid, *[a == b for a, b in zip(back.version_tuple, vt)]) if len(back.version_tuple) == 4 else False)
        ctx.prove("same platform", back.platform == plat)
        ctx.prove("known version", not back.default_version)
