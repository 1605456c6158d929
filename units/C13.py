"""C13 contracts: the url format's run-length coder coupled with its decoder, the url text, and label / spritesheet images

gfx: from an arbitrary state of the writer's outer loop (pixels 0..p-1 encoded, the next pixel fetched), the run found by the inner loop
(loop invariant: all pixels p..q-1 have the run's colour), and every chunk emitted for it (loop invariant: r pixels of the run are left) is
run through the reader's loop body, which sets exactly the chunk's pixels to its colour (loop invariant: the first k are set), consumes
exactly the chunk's characters, and leaves the rest of the memory alone.  When the writer stops, either all 16384 pixels are encoded or the
remaining ones are 0, which is what the reader starts from.  iter_rect is used by contract (the pixels row by row), verified on its own.
url: writer and reader of the text around the two values, by contract of the tiny rom, base64 and the code decompressor (C01/C02/C04).
images: the palette's colours are told apart by the reader, and an arbitrary cell is drawn and read back (loops cut at an arbitrary cell)."""
from pyver.unit import unit
from units.C17 import mem, snap
N = 128 * 128
class G: pass

class Rect:
    """contract of iter_rect(128, 128): the cells row by row"""
    __pv_sym__ = True
    def __init__(m, pos): m.pos = pos
    def __iter__(m): return m
    def __next__(m):
        if not bool(m.pos < N):
            if G.phase == "read": G.ctx.prove("no more pixels than the image has", False)
            raise StopIteration
        p = m.pos; m.pos = p + 1
        return p % 128, p // 128
class Txt:
    """a text made of literal pieces and opaque values (which contain none of ? & and = only as base64 padding)"""
    __pv_sym__ = True
    def __init__(m, parts): m.parts = parts
    def pv_str(m): return m
    def pv_len(m):
        n = 0
        for p in m.parts: n = n + (len(p) if isinstance(p, str) else p.n)
        return n
    def mk(m, parts):
        parts = [p for p in parts if p != ""]
        return "".join(parts) if all(isinstance(p, str) for p in parts) else Txt(parts)
    def __add__(m, o): return Txt(m.parts + (o.parts if isinstance(o, Txt) else [o]))
    def __radd__(m, o): return Txt([o] + m.parts)
    def __contains__(m, s): return any(isinstance(p, str) and s in p for p in m.parts)
    def __bool__(m): return True
    def split(m, sep, maxsplit=-1):
        out = [[]]
        for p in m.parts:
            if not isinstance(p, str):
                if sep in p.may and maxsplit != 0: raise G.ctx.sym.Unsupported("split of an opaque value")
                out[-1].append(p); continue
            while maxsplit != 0 and sep in p:
                a, p = p.split(sep, 1); out[-1].append(a); out.append([]); maxsplit -= 1
            out[-1].append(p)
        return [m.mk(o) for o in out]
class Val:
    def __init__(m, name, n, may=""): m.name, m.n, m.may = name, n, may

def pix(ctx, m, t):
    b = ctx.at(m, t >> 1) if not isinstance(t, int) else ctx.at(m, t // 2)
    return ctx.ite(t & 1 == 0, b & 15, b >> 4)

class Outer:
    active = False; keep = ("rect", "cart", "url_prefix", "raw_code", "code", "size_handler", "opts"); extra = ("gfx",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("entry: the first pixel", env["x"] == 0 and env["y"] == 0 and env["rect"] is G.rect and G.rect.pos == 1)
        ctx.prove("entry: nothing written", env["gfx"] == [] and env["done"] is False)
        G.done = ctx.bool("done")
        p = G.p; G.rect.pos = p + 1
        G.rest0 = ctx.implies(ctx.and_(G.t >= p, G.done), pix(ctx, G.rom, G.t) == 0)
        return {"x": p % 128, "y": p // 128, "done": G.done, "gfx": [G.prefix]}
    def end(m, lr, env):
        ctx = G.ctx; q = G.p + G.total
        ctx.prove("the whole run is one colour", ctx.implies(ctx.and_(G.t >= G.p, G.t < q), pix(ctx, G.rom, G.t) == G.color))
        ctx.prove("a run's pixels exist", q <= N)
        if env["done"]: ctx.prove("at the end the remaining pixels are 0", ctx.implies(G.t >= q, pix(ctx, G.rom, G.t) == 0))
        else:
            ctx.prove("the next pixel follows the run", ctx.and_(G.total >= 1, env["x"] == q % 128, env["y"] == q // 128, G.rect.pos == q + 1))
class Run:
    active = False; keep = Outer.keep + ("gfx", "color", "done")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("entry: one pixel so far", env["total_count"] == 1)
        ctx.prove("entry: its colour", env["color"] == pix(ctx, G.rom, G.p))
        ctx.prove("walks the remaining pixels", lr.it is G.rect and G.rect.pos == G.p + 1)
        G.color = env["color"]
        q = ctx.fresh("q", 1, N); m.q = q
        ctx.assume(q > G.p)
        ctx.assume(ctx.implies(ctx.and_(G.t >= G.p, G.t < q), pix(ctx, G.rom, G.t) == G.color))
        G.rect.pos = q
        return {"x": (q - 1) % 128, "y": (q - 1) // 128, "total_count": q - G.p}
    def more(m, lr): return G.rect.pos < N
    def next(m, lr): return next(G.rect)
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("one more pixel", ctx.and_(env["total_count"] == m.q + 1 - G.p, G.rect.pos == m.q + 1))
        ctx.prove("of the same colour", pix(ctx, G.rom, m.q) == G.color)
class Emit:
    active = False; keep = Outer.keep + ("color", "done", "x", "y", "next_color")
    def enter(m, lr, env, names):
        ctx = G.ctx
        G.total = env["total_count"]
        if "next_color" not in env: env["next_color"] = None
        ctx.prove("entry: a run of at least 0 pixels", G.total >= 0)
        ctx.prove("entry: nothing emitted yet", env["gfx"] == [G.prefix])
        m.r = ctx.fresh("left", 0, N)
        ctx.assume(m.r <= G.total)
        return {"total_count": m.r, "gfx": [G.prefix]}
    def end(m, lr, env):
        ctx = G.ctx
        chunk = env["gfx"][1:]
        r = env["total_count"]
        ctx.prove("some pixels are encoded", ctx.and_(r < m.r, r >= 0))
        ctx.prove("as one or two characters", len(chunk) in (1, 2) and all(ctx.sym.as_symstr(c) is not None and len(c) == 1 for c in chunk))
        read_chunk(chunk, G.p + (G.total - m.r), m.r - r)
class GfxText:
    __pv_sym__ = True
    def __init__(m, i, chars): m.i, m.chars, m.more = i, chars, G.ctx.fresh("morechars", 0, 100000)
    def pv_len(m): return m.i + len(m.chars) + m.more
    def __bool__(m): return True
    def __getitem__(m, i):
        for k, c in enumerate(m.chars):
            if bool(i == m.i + k): return c
        G.ctx.prove("reads only the chunk's characters", False)
        raise IndexError
class RLoop:
    active = False; keep = ("rect", "cart", "code"); extra = ("gfx",)
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("entry: the first character and pixel", env["i"] == 0 and env["rect"] is G.rrect and G.rrect.pos == 0)
        ctx.prove("entry: all pixels are 0", not any(bytes(env["cart"].rom[:0x2000])))
        G.i = ctx.fresh("i", 0, 100000)
        G.rrect.pos = G.P
        G.target = mem(ctx, "target", G.pc.k_rom_size); env["cart"].rom = G.target
        G.back = env["cart"]
        return {"i": G.i, "gfx": GfxText(G.i, G.chunk)}
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("exactly the chunk's characters are consumed", env["i"] == G.i + len(G.chunk))
        ctx.prove("exactly the chunk's pixels are consumed", G.rrect.pos == G.P + G.count)
class RRun:
    active = False; keep = RLoop.keep + ("color", "count", "gfx", "i")
    def enter(m, lr, env, names):
        ctx = G.ctx
        it = lr.it
        a, b = (it.a, it.b) if not isinstance(it, range) else (it.start, it.stop)
        ctx.prove("the decoded run is as long as the encoded one", ctx.and_(a == 0, b == G.count))
        ctx.prove("no pixel consumed yet", G.rrect.pos == G.P)
        m.k = ctx.fresh("k", 0, N); ctx.assume(m.k <= G.count)
        G.rrect.pos = G.P + m.k
        return {}
    def more(m, lr): return m.k < G.count
    def next(m, lr): m.before = snap(G.ctx, G.target); return m.k
    def end(m, lr, env):
        ctx = G.ctx; P = G.P + m.k
        ctx.prove("the next pixel", G.rrect.pos == P + 1)
        ctx.prove("gets the colour of the run", pix(ctx, G.target, P) == G.color)
        t = ctx.fresh("t2", 0, N - 1)
        ctx.prove("no other pixel changes", ctx.implies(t != P, pix(ctx, G.target, t) == pix(ctx, m.before, t)))
        j = ctx.fresh("j2", 0x2000, G.pc.k_rom_size - 1)
        ctx.prove("nothing after the graphics changes", ctx.at(G.target, j) == ctx.at(m.before, j))
LO, LR, LE, RL, RR = Outer(), Run(), Emit(), RLoop(), RRun()
LOOPS = {("pico_cart", "write_cart_to_url", 0): LO, ("pico_cart", "write_cart_to_url", 1): LR, ("pico_cart", "write_cart_to_url", 2): LE,
         ("pico_cart", "read_cart_from_url", 1): RL, ("pico_cart", "read_cart_from_url", 2): RR}

def read_chunk(chunk, P, count):
    G.chunk, G.P, G.count = chunk, P, count
    G.phase = "read"
    RL.active = RR.active = True
    try: G.pc.read_cart_from_url("x?g=A")
    except (KeyError, IndexError, ValueError): G.ctx.prove("every character is understood", False); raise
    finally: RL.active = RR.active = False; G.phase = "write"

def setup(ctx):
    import pico_process, pico_cart as pc
    G.ctx, G.pc = ctx, pc
    G.phase = "write"; G.made = []
    def rect(w, h):
        ctx.prove("the pixels of a 128x128 image", (w, h) == (128, 128))
        G.made.append(Rect(0)); 
        if G.phase == "write": G.rect = G.made[-1]
        else: G.rrect = G.made[-1]
        return G.made[-1]
    ctx.contract("pico_cart", "iter_rect", rect)
    return pc

def concrete_url(ctx):
    import random, pico_process, pico_cart as pc
    rng = random.Random(ctx.int("seed", 0, 1 << 30))
    cart = pc.Cart(code="x=%d" % rng.randrange(1000))
    p = 0
    while p < N and rng.random() < .98:
        n = rng.choice((1, 2, 3, 4, 5, 60, 66, 67, 68, 134, 135, 200, 4000)); c = rng.randrange(16)
        for t in range(p, min(N, p + n)): cart.rom[t >> 1] |= c << (4 * (t & 1))
        p += n
    try: url = pc.write_cart_to_url(cart)
    except Exception as ex:
        ctx.prove("refused only for its size", "too many characters" in str(ex)); return
    ctx.prove("fits", len(url) - pc.k_url_prefix_size <= pc.k_url_size)
    back = pc.read_cart_from_url(url)
    ctx.prove("same graphics", bytes(back.rom) == bytes(cart.rom[:0x2000]) + bytes(pc.Cart().rom[0x2000:]))
    ctx.prove("same code", back.code == cart.code)

@unit("C13", loops=LOOPS)
def url_gfx(ctx):
    """url: an arbitrary run of pixels through the run-length encoder and decoder"""
    if not ctx.symbolic: concrete_url(ctx); return
    pc = setup(ctx)
    G.rom = mem(ctx, "rom", pc.k_rom_size); G.p = ctx.int("p", 0, N - 1); G.t = ctx.int("t", 0, N - 1)
    G.prefix = Txt([Val("gfx", ctx.fresh("gfxlen", 1, 40000))])
    cart = pc.Cart(); cart.rom = G.rom
    ctx.contract("pico_cart", "write_cart_to_tiny_rom", lambda cart, **k: b"")
    LO.active = LR.active = LE.active = True
    try: url = pc.write_cart_to_url(cart)
    except pc.CheckError: return
    finally: LO.active = LR.active = LE.active = False

@unit("C13")
def rect(ctx):
    """iter_rect(128, 128) gives the 16384 cells row by row (complete); the 64 characters of the url alphabet are distinct and decode to their index (complete)"""
    import pico_process, pico_cart as pc
    ctx.prove("cells row by row", [tuple(c) for c in pc.iter_rect(128, 128)] == [(i % 128, i // 128) for i in range(N)])
    ctx.prove("64 characters", len(pc.k_base64_chars) == 64 and len(set(pc.k_base64_chars)) == 64 and not set(pc.k_base64_chars) & set("?&=#%/ "))
    for i, c in enumerate(pc.k_base64_chars): ctx.prove("decodes to its index", pc.k_base64_char_map[c] == i)
    import base64
    ctx.prove("the same alphabet for the code", pc.k_base64_alt_chars == pc.k_base64_chars[62:].encode() and pc.k_base64_chars[:62].encode() == base64.b64encode(base64.b64decode(pc.k_base64_chars[:60] + "89++"))[:62])

@unit("C13", params=["gfx", "nogfx"], loops=LOOPS)
def url_text(ctx, what):
    """url: the code's and the graphics' text come back whole, the code is padded to the size of the code area, and a url that is too long is refused"""
    if not ctx.symbolic: concrete_url(ctx); return
    pc = setup(ctx)
    raw = object()
    G.rom = mem(ctx, "rom", pc.k_rom_size)
    code = Val("code", ctx.int("codelen", 1, 40000), "="); gfx = Val("gfx", ctx.int("gfxlen", 1, 40000))
    class Enc:
        def decode(m, *a): return Txt([code])
    class Raw:
        def ljust(m, n, c):
            ctx.prove("padded with zeros to the code area", n == pc.k_code_size and c == b"\0")
            return G.padded
    G.padded = object()
    ctx.contract("pico_cart", "write_cart_to_tiny_rom", lambda a: (ctx.prove("of this cart", a["cart"] is cart), raw)[1], bound=True)
    ctx.contract("pico_cart", "pico_base64_encode", lambda data: (ctx.prove("the tiny rom is encoded", data is raw), Enc())[1])
    def dec(a):
        ctx.prove("the code's text is decoded", isinstance(a["data"], Txt) and a["data"].parts == [code]); return Raw()
    ctx.contract("pico_cart", "pico_base64_decode", dec, bound=True)
    class Stop:
        active = True; keep = ("rect", "cart", "url_prefix", "raw_code", "code", "size_handler", "opts", "x", "y", "color", "total_count", "next_color", "count", "val"); extra = ("gfx", "x", "y")
        def enter(m, lr, env, names): return {"done": True, "gfx": [Txt([gfx])] if what == "gfx" else []}
        def end(m, lr, env): pass
    from pyver import load
    cart = pc.Cart(); cart.rom = G.rom
    key = ("pico_cart", "write_cart_to_url", 0); load.LOOPS[key] = Stop()
    prefix = ctx.choose([None, "https://x.y/z", ""], "prefix")
    kw = {} if prefix is None else {"url_prefix": prefix}
    try: url = pc.write_cart_to_url(cart, **kw)
    except pc.CheckError:
        n = len(pc.k_url_prefix if prefix is None else prefix) + 4 + code.n + (3 + gfx.n if what == "gfx" else 0)
        ctx.prove("refused only when too long", n - pc.k_url_prefix_size > pc.k_url_size); return
    finally: load.LOOPS[key] = LO
    ctx.prove("fits", ctx.and_(url.pv_len() - pc.k_url_prefix_size <= pc.k_url_size))
    # reading it
    class RStop:
        active = True; keep = ("rect", "cart", "code", "gfx", "val", "color", "count", "x", "y")
        def enter(m, lr, env, names):
            G.seen = env["gfx"]; return {"i": 1 << 40}
        def end(m, lr, env): pass
    class F:
        def __init__(m, buf): ctx.prove("the padded code is read", buf is G.padded)
        def __enter__(m): return m
        def __exit__(m, *a): pass
    class R(F):
        def __init__(m, f, **k): ctx.prove("big endian, from that buffer", isinstance(f, F) and k.get("big_end") is True)
    ctx.replace("pico_cart", "BytesIO", F); ctx.replace("pico_cart", "BinaryReader", R)
    ctx.contract("pico_cart", "read_code_from_rom", lambda r, **k: ("CODE", "ROM"))
    G.seen = None; G.phase = "read"
    key = ("pico_cart", "read_cart_from_url", 1); load.LOOPS[key] = RStop()
    try: back = pc.read_cart_from_url(url)
    except pc.CheckError: ctx.prove("the url is understood", False); return
    finally: load.LOOPS[key] = RL
    ctx.prove("the code is decoded", back.code == "CODE")
    if what == "gfx": ctx.prove("the graphics' text is decoded", isinstance(G.seen, Txt) and G.seen.parts == [gfx])
    else: ctx.prove("no graphics", G.seen is None)

# ---- images
class Cells:
    def __init__(m): m.sets = []
    def __setitem__(m, k, v): m.sets.append(((k[0], k[1]), v))
    def __getitem__(m, k): return G.read(k)
class CLoop:
    """a loop over 0..127, cut at an arbitrary iteration"""
    active = False; keep = ("screenshot", "screenshot_surf", "screenshot_pixels", "pixels", "offset", "transparent", "spritesheet", "cart", "image", "y", "label")
    def __init__(m, which, last): m.which, m.last = which, last
    def enter(m, lr, env, names):
        if lr.it != range(128): G.ctx.prove("all 128 rows and columns", False)
        m.mark = len(G.cells.sets); return {}
    def more(m, lr): return G.ctx.bool("another " + m.which)
    def next(m, lr): return G.x if m.which == "x" else G.y
    def end(m, lr, env):
        if m.last: G.check(env, G.cells.sets[m.mark:])
CL = {}
for fn in ("surface_pixels_to_screenshot", "create_screenshot_surface", "read_cart_spritesheet", "write_cart_spritesheet"):
    CL["pico_cart", fn, 0] = CLoop("y", False); CL["pico_cart", fn, 1] = CLoop("x", True)
def on(fn, f):
    for n in (0, 1): CL["pico_cart", fn, n].active = True
    try: return f()
    finally:
        for n in (0, 1): CL["pico_cart", fn, n].active = False

@unit("C13", params=list(range(32)), loops=CL)
def label_cell(ctx, color):
    """label image: a cell of every colour at an arbitrary place is drawn as one pixel that reads back as that colour at that place"""
    import pico_process, pico_cart as pc
    G.ctx = ctx
    if not ctx.symbolic:
        cart = pc.Cart(label=pc.MultidimArray(pc.k_label_size, 0))
        x, y = ctx.int("x", 0, 127), ctx.int("y", 0, 127)
        cart.label[x, y] = color
        back = pc.read_cart_label(pc.write_cart_label(cart))
        ctx.prove("the same label", list(back.label.array) == list(cart.label.array)); return
    G.x, G.y = ctx.int("x", 0, 127), ctx.int("y", 0, 127); G.cells = Cells()
    class Lab:
        def __getitem__(m, k):
            ctx.prove("the cell of that pixel", ctx.and_(k[0] == G.x, k[1] == G.y)); return color
    class Surf:
        pixels = G.cells
    wrap_static(ctx, pc, Surf)
    G.px = None
    def drawn(env, sets):
        ctx.prove("one pixel at the same place", len(sets) == 1 and ctx.and_(sets[0][0][0] == G.x, sets[0][0][1] == G.y))
        G.px = tuple(sets[0][1])
        back()
    def back():
        off = pc.Point(ctx.choose([0, 16], "offx"), ctx.choose([0, 24], "offy"))
        def read(k):
            ctx.prove("the pixel of that cell", ctx.and_(k[0] == G.x + off.x, k[1] == G.y + off.y)); return G.px
        G.read = read; G.check = got
        G.cells = Cells()
        ctx.contract("utils", "MultidimArray", lambda *a: G.cells)
        ctx.replace("pico_cart", "MultidimArray", lambda *a: G.cells)
        on("surface_pixels_to_screenshot", lambda: pc.surface_pixels_to_screenshot(G.cells, off))
    def got(env, sets):
        ctx.prove("read back as the same colour at the same place", len(sets) == 1 and ctx.and_(sets[0][0][0] == G.x, sets[0][0][1] == G.y, sets[0][1] == color))
    G.check = drawn
    on("create_screenshot_surface", lambda: pc.create_screenshot_surface(Lab(), transparent=ctx.choose([True, False], "transparent")))

def wrap_static(ctx, pc, Surf):
    class S:
        @staticmethod
        def create(w, h, *a):
            ctx.prove("an image of 128x128", (w, h) == (128, 128)); return Surf()
    ctx.replace("pico_cart", "Surface", S)

@unit("C13", loops=CL)
def sprite_cell(ctx):
    """spritesheet image: an arbitrary cell of arbitrary graphics is drawn with its colour, and read back into the same cell, changing nothing else"""
    import pico_process, pico_cart as pc
    G.ctx = ctx
    if not ctx.symbolic:
        import random
        cart = pc.Cart(); rng = random.Random(ctx.int("seed", 0, 1 << 30)); cart.rom[:0x2000] = rng.randbytes(0x2000)
        back = pc.read_cart_spritesheet(pc.write_cart_spritesheet(cart))
        ctx.prove("the same graphics", bytes(back.rom) == bytes(cart.rom[:0x2000]) + bytes(pc.Cart().rom[0x2000:])); return
    G.x, G.y = ctx.int("x", 0, 127), ctx.int("y", 0, 127); G.cells = Cells()
    rom = mem(ctx, "rom", pc.k_rom_size); t = G.y * 128 + G.x
    cart = pc.Cart(); cart.rom = rom
    ctx.replace("pico_cart", "MultidimArray", lambda *a: G.cells)
    def drawn(env, sets):
        ctx.prove("the pixel's colour at the same place", len(sets) == 1 and ctx.and_(sets[0][0][0] == G.x, sets[0][0][1] == G.y, sets[0][1] == pix(ctx, rom, t)))
        G.check = got
        G.target = mem(ctx, "target", pc.k_rom_size); G.before = snap(ctx, G.target)
        def read(k):
            ctx.prove("the same cell", ctx.and_(k[0] == G.x, k[1] == G.y)); return sets[0][1]
        G.read = read
        def fresh(*a, **k):
            c = type("C", (), {})(); c.rom = G.target; return c
        ctx.replace("pico_cart", "Cart", fresh)
        ctx.contract("pico_cart", "load_image_of_size", lambda f, size, *a, **k: type("I", (), {"pixels": None})())
        ctx.contract("pico_cart", "surface_pixels_to_screenshot", lambda px, *a: G.cells)
        on("read_cart_spritesheet", lambda: pc.read_cart_spritesheet(b""))
    def got(env, sets):
        ctx.prove("gets its colour", pix(ctx, G.target, t) == pix(ctx, rom, t))
        u = ctx.fresh("u", 0, N - 1)
        ctx.prove("no other pixel changes", ctx.implies(u != t, pix(ctx, G.target, u) == pix(ctx, G.before, u)))
        j = ctx.fresh("j", 0x2000, pc.k_rom_size - 1)
        ctx.prove("nothing else changes", ctx.at(G.target, j) == ctx.at(G.before, j))
    G.check = drawn
    class S:
        def save(m): return b""
    ctx.contract("pico_cart", "create_screenshot_surface", lambda sheet, *a: (ctx.prove("the sheet that was filled", sheet is G.cells), S())[1])
    on("write_cart_spritesheet", lambda: pc.write_cart_spritesheet(cart))
