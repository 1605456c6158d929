"""C15 contracts: the Picotron containers, entry by entry

rom: an arbitrary file of an arbitrary cart goes through the body of the writer's loop, and what it wrote through the body of the reader's;
lz4 by contract (C14), typed reads and writes by C03.  png: an arbitrary pixel, as in C04, with 11 bits per pixel.
p64: an arbitrary file through the body of the writer's loop, and its lines through the body of the reader's (header line and an arbitrary
content line); that joining lines with newlines and splitting them again gives the same lines is the rule of bytes.join / splitlines for
lines without line breaks (trusted).  metadata removal: an arbitrary file.  Whole carts, filters and merges: bounded."""
from pyver.unit import unit
from units.C14 import Cat, Piece, same_bytes
import units.C14 as C14
MAXN = 1 << 20
class G: pass
def PC():
    import pico_process, picotron_cart
    return picotron_cart
def setup(ctx):
    G.ctx = C14.G.ctx = ctx
    if ctx.symbolic: C14.G.Unsupported = G.Unsupported = ctx.sym.Unsupported
    return PC()

class Path:
    """a path of any characters; only whether it ends in '/' is known"""
    __pv_sym__ = True
    def __init__(m, is_dir): m.is_dir = is_dir
    def endswith(m, s): 
        if s != "/": raise G.Unsupported("path suffix")
        return m.is_dir
    def __bool__(m): return True
    def __hash__(m): return id(m)
    def __eq__(m, o): return m is o
class Files:
    """cart.files of a ghost cart"""
    __pv_sym__ = True
    def items(m): return m
class Cart:
    def __init__(m, files, version): m.files, m.version_id = files, version

# ---------------------------------------------------------------- rom
class IW:
    """typed writer (C03): a list of what was written"""
    def __init__(m): m.f = m; m.items = []
    def __enter__(m): return m
    def __exit__(m, *a): pass
    def put(m, k, v): m.items.append((k, v))
    def zbytes(m, v): m.put("zbytes", v)
    def u8(m, v): G.ctx.prove("u8(): a byte", G.ctx.and_(v >= 0, v <= 255)); m.put("u8", v)
    def u32(m, v): G.ctx.prove("u32(): in range", G.ctx.and_(v >= 0, v < 1 << 32)); m.put("u32", v)
    def bytes(m, v): m.put("bytes", v)
class IO:
    """BytesIO of a writer"""
    __pv_sym__ = True
    def getvalue(m): return Written(m)
class Written:
    __pv_sym__ = True
    def __init__(m, io): m.io = io
    def pv_len(m): return G.clen
class IR:
    def __init__(m, items): m.items, m.k = items, 0
    def __enter__(m): return m
    def __exit__(m, *a): pass
    def take(m, k):
        G.ctx.prove("the reader reads what was written there", m.k < len(m.items) and m.items[m.k][0] == k)
        m.k += 1; return m.items[m.k - 1][1]
    def eof(m): return G.eof
    def zbytes(m): return m.take("zbytes")
    def u8(m): return m.take("u8")
    def u32(m): return m.take("u32")
    def bytes(m, n):
        v = m.take("bytes")
        G.ctx.prove("as many bytes as were written", n == (len(v) if isinstance(v, (bytes, str)) else v.pv_len())); return v
class RomW:
    active = False; keep = ("cart", "io", "w")
    def enter(m, lr, env, names):
        G.ctx.prove("all files", lr.it is G.files or lr.it is G.sorted); return {}
    def more(m, lr): return G.mode == "step"
    def next(m, lr): return G.path, G.file
    def end(m, lr, env):
        w = G.writers[0]
        G.rr = IR(w.items); G.eof = False
        RR.active = True
        try: PC().read_cart64_from_rom(Header())
        finally: RR.active = False
class RomR:
    active = False; keep = ("cart", "uncbuffer"); extra = ("r",)
    def enter(m, lr, env, names):
        m.cart = env["cart"]
        G.ctx.prove("starts with no files", m.cart.files == {})
        return {"r": G.rr}
    def end(m, lr, env):
        ctx = G.ctx; f = m.cart.files
        ctx.prove("exactly what was written is read", G.rr.k == len(G.rr.items))
        ctx.prove("one file, under its path", len(f) == 1 and list(f)[0] is G.path)
        got = f[G.path]
        ctx.prove("a directory or a file, as it was", got.is_dir == G.path.is_dir)
        if not G.path.is_dir: ctx.prove("the same contents", got.data is G.data)
class Header:
    """a rom buffer"""
    __pv_sym__ = True
RW, RR = RomW(), RomR()
ROM = {("picotron_cart", "write_cart64_to_rom", 0): RW, ("picotron_cart", "read_cart64_from_rom", 0): RR}
def concrete_cart(ctx, go):
    import random
    from bounded.C15 import rcart, snap
    cart = rcart(random.Random(ctx.int("seed", 0, 1 << 30))); got = go(PC(), cart)
    ctx.prove("the same files", snap(got) == snap(cart) and got.version_id == cart.version_id)
def rom_setup(ctx, is_dir, mode):
    pc = setup(ctx)
    G.mode, G.path = mode, Path(is_dir)
    G.data = None if is_dir else (b"" if ctx.choose([True, False], "empty") else Cat([Piece(ctx, "data")]))
    class F: pass
    G.file = F(); G.file.data = G.data; G.file.is_dir = is_dir
    G.files, G.sorted = Files(), Files(); G.clen = ctx.int("clen", 0, MAXN); G.writers = []
    ctx.replace("picotron_cart", "sorted", lambda x, key=None: G.sorted if x is G.files else None)
    def bw(*a, **k): w = IW(); w.args = a; w.kw = k; G.writers.append(w); return w
    ctx.replace("picotron_cart", "BinaryWriter", bw); ctx.replace("picotron_cart", "BytesIO", lambda *a: IO() if not a else ("io", a[0]))
    ctx.contract("pico_defs", "encode_luastr", lambda s: s); ctx.contract("pico_defs", "decode_luastr", lambda s: s)
    def lz(v, fast=False, debug=None):
        ctx.prove("everything written is compressed", isinstance(v, Written)); G.comp = Comp(); return G.comp
    ctx.contract("pico_export", "lz4_compress", lz)
    def unlz(v, debug=None):
        ctx.prove("exactly the compressed bytes are uncompressed", v is G.comp); return "unc"
    ctx.contract("pico_export", "lz4_uncompress", unlz)
    return pc
class Comp:
    __pv_sym__ = True
    def pv_len(m): return G.clen
class HR(IR):
    """the rom header, as it is laid out by the format"""
    def __init__(m): IR.__init__(m, [("bytes", b"p64"), ("u8", G.version), ("u32", G.clen), ("bytes", G.comp)])

@unit("C15", params=[(d, m) for d in (True, False) for m in ("step", "exit")], loops=ROM)
def rom_entry(ctx, dm):
    """rom: an arbitrary file or directory is written as an entry that the reader turns into the same file; the header around the entries"""
    is_dir, mode = dm
    if not ctx.symbolic:
        concrete_cart(ctx, lambda pc, c: pc.read_cart64_from_rom(pc.write_cart64_to_rom(c, padding=ctx.choose([0, 4], "padding")))); return
    pc = rom_setup(ctx, is_dir, mode)
    G.version = ctx.int("version", 0, 255); G.comp = Comp()
    ctx.replace("picotron_cart", "BinaryReader", lambda f, **k: HR() if isinstance(f[1], Header) else None if f[1] != "unc" else G.rr)
    padding = ctx.choose([0, 4], "padding")
    RW.active = True
    try: out = pc.write_cart64_to_rom(Cart(G.files, G.version), padding=padding)
    finally: RW.active = False
    w = G.writers[-1]
    ctx.prove("header, version, size, entries", len(w.items) == 4 + padding and w.items[0] == ("bytes", b"p64") and w.items[1][0] == "u8" and w.items[2][0] == "u32" and w.items[3][0] == "bytes" and w.items[3][1] is G.comp)
    ctx.prove("version and size as they are", ctx.and_(w.items[1][1] == G.version, w.items[2][1] == G.clen))
    ctx.prove("little endian throughout", not any(x.kw for x in G.writers))
    # the reader: header, then (entries: step); at the end the cart is returned
    G.rr = IR([]); G.eof = True
    c = pc.read_cart64_from_rom(Header())
    ctx.prove("the version is read back", c.version_id == G.version)

# ---------------------------------------------------------------- png
W, H = 512, 384
class GPixels:
    def __init__(m, ctx, known): m.ctx, m.known, m.sets = ctx, known, []
    def __getitem__(m, k):
        x, y = k[0], k[1]; ctx = m.ctx
        ctx.prove("pixel inside the image", ctx.and_(x >= 0, x < W, y >= 0, y < H))
        for (kx, ky), v in m.sets + m.known:
            if bool(ctx.and_(kx == x, ky == y)): return v
        v = tuple(ctx.fresh("px", 0, 255) for _ in range(4)); m.known.append(((x, y), v)); return v
    def __setitem__(m, k, v):
        m.ctx.prove("pixel inside the image", m.ctx.and_(k[0] >= 0, k[0] < W, k[1] >= 0, k[1] < H)); m.sets.insert(0, ((k[0], k[1]), v))
class GImage:
    def __init__(m, p): m.size, m.pixels = (W, H), p
    def draw(m, *a): pass
    def save(m, **k): return m
class Rows:
    active = False; keep = ("image", "width", "height", "pixels", "output", "end_pos", "br", "bw", "io", "cart", "data", "y")
    def __init__(m, n, what, w): m.n, m.what, m.w = n, what, w
    def enter(m, lr, env, names): 
        G.ctx.prove("all rows and columns", lr.it == range(m.n)); return {}
    def more(m, lr): return G.ctx.choose([True, False], m.what)
    def next(m, lr): return G.y if m.n == H else G.x
    def end(m, lr, env):
        if m.n == H: return
        ctx = G.ctx
        if m.w:
            px = G.pixels
            ctx.prove("exactly this pixel is written", len(px.sets) == 1 and ctx.and_(px.sets[0][0][0] == G.x, px.sets[0][0][1] == G.y))
            new = px.sets[0][1]; old = [v for k, v in px.known if k[0] is G.x and k[1] is G.y][0]
            for k, (a, b) in enumerate(zip(old, new)):
                bits = 3 if k == 3 else 7
                ctx.prove("only the low bits of the channel change", ctx.and_(b >= 0, b <= 255, (b | bits) == (a | bits)))
            G.stored = G.word if G.asked else 0
            ctx.prove("a word is taken exactly while data remains", G.asked == bool(G.pos < G.end))
            G.rpixels = GPixels(ctx, [((G.x, G.y), new)]); G.read = 0
            R0.active = R1.active = True
            try: PC().read_cart64_from_image("png")
            finally: R0.active = R1.active = False
        else: ctx.prove("one word of 11 bits is read", G.read == 1)
W0, W1, R0, R1 = Rows(H, "row", True), Rows(W, "column", True), Rows(H, "row2", False), Rows(W, "column2", False)
class GBR:
    def __enter__(m): return m
    def __exit__(m, *a): pass
    def pos(m): return G.pos
    def bits(m, n): 
        G.ctx.prove("11 bits per pixel", n == 11 and not G.asked); G.asked = True; return G.word
class GBW(GBR):
    def bits(m, n, v):
        G.ctx.prove("11 bits per pixel", n == 11); G.read += 1
        G.ctx.prove("the word read is the word stored", v == G.stored)
@unit("C15", loops={("picotron_cart", "write_cart64_to_image", 0): W0, ("picotron_cart", "write_cart64_to_image", 1): W1,
                    ("picotron_cart", "read_cart64_from_image", 0): R0, ("picotron_cart", "read_cart64_from_image", 1): R1})
def stego(ctx):
    """png: an arbitrary pixel through writer and reader: 11 bits, low bits only; words are taken until all but padding is stored"""
    if not ctx.symbolic:
        import random
        rng = random.Random(ctx.int("seed", 0, 1 << 30)); pc = PC(); c = pc.Cart64()
        c.files = {"label.png": pc.PicotronFile(b"notanimage"), "x": pc.PicotronFile(rng.randbytes(rng.randrange(4000)))}
        if rng.random() < .9: return
        got = pc.read_cart64_from_image(pc.write_cart64_to_image(c, template_only=True))
        ctx.prove("the word read is the word stored", {p: f.data for p, f in got.files.items()} == {p: f.data for p, f in c.files.items()}); return
    pc = setup(ctx)
    G.x, G.y = ctx.int("x", 0, W - 1), ctx.int("y", 0, H - 1)
    G.word, G.pos, G.n, G.asked = ctx.int("word", 0, 2047), ctx.int("pos", 0, MAXN), ctx.int("len", 12, MAXN), False
    G.end = G.n - 2
    class Out:
        __pv_sym__ = True
        def pv_len(m): return G.n
    G.pixels = GPixels(ctx, [])
    def rom(cart, padding=0, limit=None, **k):
        ctx.prove("at least one byte of padding follows the last word's", padding >= 3)
        ctx.prove("limited to what the picture can hold", limit is not None and (limit + 16) * 8 <= W * H * 11); return Out()
    ctx.contract("picotron_cart", "write_cart64_to_rom", rom)
    def back(data, **k): return pc.Cart64()
    ctx.contract("picotron_cart", "read_cart64_from_rom", lambda data, **k: (_ for _ in ()).throw(RuntimeError("whole picture")) )
    ctx.contract("pico_cart", "load_image_of_size", lambda f, size, *a, **k: GImage(G.rpixels if f == ("io", "png") else G.pixels))
    ctx.replace("picotron_cart", "BytesIO", lambda *a: ("io", a[0]) if a and isinstance(a[0], str) else IO())
    ctx.replace("picotron_cart", "BinaryBitReader", lambda f: GBR()); ctx.replace("picotron_cart", "BinaryBitWriter", lambda f: GBW())
    import contextlib
    ctx.replace("picotron_cart", "file_open", lambda p: contextlib.nullcontext("template"))
    W0.active = W1.active = True
    try:
        try: pc.write_cart64_to_image(Cart({}, 2), template_image="t", template_only=True)
        except RuntimeError: pass
    finally: W0.active = W1.active = False

# ---------------------------------------------------------------- p64 text
class Lines:
    """the lines of the file being read so far"""
    __pv_sym__ = True
    def __init__(m, whole): m.whole, m.new = whole, []
    def append(m, l): m.new.append(l)
    def pv_join(m, sep):
        G.ctx.prove("lines are joined by newlines", sep == b"\n" and not m.new); return m.whole
class P64W:
    active = False; keep = ("bad_p64_char_re", "cart"); extra = ("lines",)
    def enter(m, lr, env, names):
        G.ctx.prove("all files", lr.it is G.sorted)
        G.head = env["lines"]; m.lines = []
        return {"lines": m.lines}
    def more(m, lr): return G.mode == "step"
    def next(m, lr): return G.path, G.file
    def end(m, lr, env):
        ctx, l = G.ctx, m.lines
        ctx.prove("the header line comes first", len(l) >= 1 and l[0] == Cat([b":: ", G.enc]))
        if G.path.is_dir: ctx.prove("a directory has no lines", len(l) == 1); whole = None
        elif G.bad: ctx.prove("base64 lines follow", len(l) == 2 and l[1] is G.chunk); whole = G.b64text
        else: ctx.prove("the text follows as it is", len(l) == 2 and (l[1] is G.data)); whole = G.data
        read_p64(whole)
class P64R:
    active = False; keep = ("cart", "raw", "path", "line_i"); extra = ("fspath", "lines", "line_start")
    def enter(m, lr, env, names):
        G.ctx.prove("entry: no file yet", env["fspath"] is None and env["lines"] == [])
        m.cart = env["cart"]; m.lines = Lines(G.whole)
        return {"fspath": G.prev, "lines": m.lines, "line_start": 0}
    def more(m, lr): return G.line is not None
    def next(m, lr): return 0, G.line
    def end(m, lr, env):
        ctx, f = G.ctx, m.cart.files
        if G.kind == "content":
            ctx.prove("a content line belongs to the current file", env["fspath"] is G.prev and env["lines"] is m.lines and len(m.lines.new) == 1 and m.lines.new[0] is G.line and not f)
        elif G.kind == "version":
            ctx.prove("the version line", m.cart.version_id == 7 and env["fspath"] is None and not f and env["lines"] is m.lines and not m.lines.new)
        else:
            check_flush(f)
            ctx.prove("the header starts a new file", env["lines"] == [] and (env["fspath"] is (None if G.kind == "eoc" else G.path2)))
def check_flush(f):
    ctx = G.ctx
    if G.prev is None: ctx.prove("no file is invented", not f); return
    ctx.prove("the file before is complete, under its path", len(f) == 1 and list(f)[0] is G.prev)
    ctx.prove("a directory or a file, as it was", f[G.prev].is_dir == G.prev.is_dir)
    if not G.prev.is_dir: ctx.prove("the same contents", same_bytes(f[G.prev].data, G.data))
class Text:
    """the whole p64 text"""
    __pv_sym__ = True
    def startswith(m, p): return p == b"picotron cartridge"
    def splitlines(m): return ("lines",)
def read_p64(whole):
    """all kinds of lines after this file's lines"""
    ctx = G.ctx
    G.kind = ctx.choose(["header", "eoc", "content", "version", "end"], "line")
    G.whole, G.prev = whole, G.path
    if G.kind == "content":
        if G.path.is_dir: return
        G.line = Cat([Piece(ctx, "line", starts=lambda w, r: False)])
    elif G.kind == "version": G.prev = None; G.line = b"version 7"
    elif G.kind == "eoc": G.line = b":: [eoc]"
    elif G.kind == "header": G.line = Cat([b":: ", Enc(ctx, "path2")])
    else: G.line = None; G.prev = None
    PR.active = True
    try: c = PC().read_cart64_from_source(Text())
    finally: PR.active = False
    ctx.prove("the end of the text: nothing is added", not c.files)
class Enc(Piece):
    """an encoded path: no surrounding space, no line break"""
    def __init__(m, ctx, name): Piece.__init__(m, ctx, name, starts=lambda w, r: False)
def dec(b):
    if isinstance(b, bytes): return b.decode()
    p = b.parts
    G.ctx.prove("exactly the path is decoded", len(p) == 1 and isinstance(p[0], Enc))
    return G.path if p[0] is G.enc else G.path2
PW, PR = P64W(), P64R()
class Chunks:
    __pv_sym__ = True
    def __iter__(m): yield G.chunk
def strip(m): return m
Cat.strip = strip
P64 = {("picotron_cart", "write_cart64_to_source", 0): PW, ("picotron_cart", "read_cart64_from_source", 0): PR}
@unit("C15", params=[(d, a) for d in (True, False) for a in (True, False)], loops=P64)
def p64_entry(ctx, da):
    """p64: an arbitrary file as text or base64, or a directory; every kind of line after it"""
    is_dir, avoid = da
    if not ctx.symbolic: concrete_cart(ctx, lambda pc, c: pc.read_cart64_from_source(pc.write_cart64_to_source(c, avoid_base64=avoid))); return
    pc = setup(ctx)
    G.mode = "step"; G.path, G.path2 = Path(is_dir), Path(False); G.enc = Enc(ctx, "path")
    G.bad = False if is_dir else ctx.choose([True, False], "bad")
    class F: pass
    G.data = None if is_dir else Cat([Piece(ctx, "data", starts=lambda w, r: False)])
    G.file = F(); G.file.data = G.data; G.file.is_dir = is_dir
    G.files, G.sorted = Files(), Files()
    b64 = Piece(ctx, "b64"); G.b64text = Cat([b"b64$", b64]); G.chunk = object()
    class Re:
        M = MULTILINE = 8
        @staticmethod
        def search(p, s, flags=0):
            ctx.prove("the text is tested with one of the two patterns, line by line", p in (pc.k_min_bad_p64_char_re, pc.k_max_bad_p64_char_re) and flags == 8 and s is G.data)
            return object() if G.bad else None
    import re as _re
    Re.escape = _re.escape
    ctx.replace("picotron_cart", "re", Re)
    ctx.replace("picotron_cart", "sorted", lambda x, key=None: G.sorted if x is G.files else None)
    ctx.contract("pico_defs", "encode_luastr", lambda s: Cat([G.enc]) if s is G.path else s.encode()); ctx.contract("pico_defs", "decode_luastr", dec)
    def enc64(v): ctx.prove("the contents are encoded", v is G.data); return Cat([b64])
    def dec64(v): ctx.prove("exactly the encoding is decoded", same_bytes(v, Cat([b64]))); return G.data
    ctx.contract("pico_cart", "pico_base64_encode", enc64); ctx.contract("pico_cart", "pico_base64_decode", dec64)
    def chunk(v, n): ctx.prove("the base64 text is written in lines", same_bytes(v, G.b64text) and n >= 1); return Chunks()
    ctx.contract("utils", "list_chunk", chunk)
    PW.active = True
    try: pc.write_cart64_to_source(Cart(G.files, 7), avoid_base64=avoid)
    finally: PW.active = False

@unit("C15")
def p64_frame(ctx):
    """p64: prefix, version line and end mark around no files at all (any version)"""
    if not ctx.symbolic: concrete_cart(ctx, lambda pc, c: pc.read_cart64_from_source(pc.write_cart64_to_source(c))); return
    pc = setup(ctx)
    v = ctx.choose([0, 1, 2, 9, 10, 99, 255], "version")
    out = pc.write_cart64_to_source(Cart({}, v))
    ctx.prove("begins with the cart's mark", out.startswith(b"picotron cartridge"))
    c = pc.read_cart64_from_source(out)
    ctx.prove("version and no files", c.version_id == v and c.files == {})

@unit("C15")
def p64_text(ctx):
    """the patterns for text that must be encoded: whatever they pass is read back by its lines.  Complete for their form: a set of characters,
    a prefix at the beginning of a line and one at the beginning of the text; checked over all texts of up to 7 characters of an alphabet
    with every character class they distinguish"""
    import re, itertools
    pc = PC()
    alpha = [b":", b" ", b"b64$", b"\n", b"\r", b"x"]
    bad = []
    for rx in (pc.k_min_bad_p64_char_re, pc.k_max_bad_p64_char_re):
        for n in range(6):
            for t in itertools.product(alpha, repeat=n):
                d = b"".join(t)
                if re.search(rx, d, re.M): continue
                ls = d.split(b"\n")
                if d.startswith(b"b64$") or any(l.startswith(b":: ") for l in ls) or (b":: x\n" + d + b"\n").splitlines()[1:] != ls: bad.append(d)
        for c in range(256):
            d = b"a" + bytes([c]) + b"b"
            if not re.search(rx, d, re.M) and c != 10 and len((d + b"\n").splitlines()) != 1: bad.append(d)
    ctx.prove("text that is not encoded is read back by its lines", not bad, repr(bad[:5]))

# ---------------------------------------------------------------- metadata removal
class Metas:
    active = False; keep = ("glob", "key_glob"); extra = ("to_delete",)
    def enter(m, lr, env, names): m.td = []; return {"to_delete": m.td}
    def more(m, lr): return True
    def next(m, lr): return G.path, G.file
    def end(m, lr, env): check_meta(m.td)
def check_meta(td):
    ctx, f = G.ctx, G.file
    ctx.prove("the payload is never touched", f.payload_set == 0)
    if not G.selected or f.is_dir: ctx.prove("files not selected keep their metadata", f.sets == [] and td == []); return
    new = None
    if f.meta is not None:
        new = {k: v for k, v in f.meta.items() if G.keys[k]}
        if new: new.update({k: f.meta[k] for k in ("pod_format", "pod_type") if k in f.meta})
        elif f.is_raw: new = None
    if not new and G.path.info: ctx.prove("a metadata file without metadata is dropped", td == [G.path] and f.sets == [])
    else: ctx.prove("exactly the wanted metadata is kept", td == [] and len(f.sets) == 1 and f.sets[0] == new and type(f.sets[0]) is type(new))
ML = Metas()
@unit("C15", loops={("picotron_cart", "preproc_meta", 0): ML})
def strip_meta(ctx):
    """preproc_meta: an arbitrary file with any of the two format keys and another key, under any selection of files and keys"""
    pc = setup(ctx)
    if not ctx.symbolic: ctx.prove("bounded", True); return
    class F:
        sets = (); payload_set = 0
        def __init__(m, is_dir, is_raw, meta): m.__dict__.update(is_dir=is_dir, is_raw=is_raw, meta=meta, sets=[], payload_set=0)
        def __getattr__(m, n):
            if n == "metadata": return m.meta
            raise AttributeError(n)
        def __setattr__(m, n, v):
            if n == "metadata": m.sets.append(v)
            else: m.__dict__["payload_set"] += 1
    keys = ["pod_format", "pod_type", "other"]
    has = [k for k in keys if ctx.choose([True, False], "has_" + k)]
    meta = None if not has and ctx.choose([True, False], "no_meta") else {k: ("v", k) for k in has}
    G.file = F(ctx.choose([False, True], "is_dir"), ctx.choose([False, True], "is_raw"), meta)
    G.path = Path(False); G.path.info = ctx.choose([False, True], "info")
    G.selected = ctx.choose([False, True], "selected"); G.keys = {k: ctx.choose([False, True], "keep_" + k) for k in has}
    class Glob:
        def __init__(m, pats): m.pats = pats
        def matches(m, x):
            if m.pats == "files": ctx.prove("files are selected by path", x is G.path); return G.selected
            return G.keys[x]
    ctx.replace("picotron_cart", "Cart64Glob", Glob)
    ctx.contract("utils", "str_after_last", lambda s, m_, *a: ".info.pod" if G.path.info else "other.pod")
    ML.active = True
    try: pc.preproc_meta(Cart(Files(), 2), "files", "keys")
    finally: ML.active = False
