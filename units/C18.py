"""C18 contracts: edits of exports, over containers of any size

js: the cart data as a byte array of any number of carts; insert / replace / delete / rename at an arbitrary index leave every byte before
and after the edited cart as it was; the names list gets exactly the corresponding edit; the number text of arbitrary bytes through the
writer's loop body and the reader's.  pod: an arbitrary entry through insert_content / replace / rename / delete with the positions of an
arbitrary other entry, and the bytes of a written entry through the reader's loop body.  sysrom: an arbitrary entry through writer and
reader.  html: only the text between the quotes changes.  Roms by contract (C04/C15), typed access by C03, lz4 by C14, PIL trusted."""
from pyver.unit import unit
from units import C14
from units.C14 import Cat, Piece
MAXN = 1 << 20
class G: pass
def setup(ctx):
    G.ctx = C14.G.ctx = ctx
    if ctx.symbolic: C14.G.Unsupported = G.Unsupported = ctx.sym.Unsupported
    import pico_process, pico_export
    return pico_export
def random_ops(ctx, kinds, must=None):
    """the property on the real code (used when a proof is not available): random edits against a reference model"""
    import random
    from bounded.C18 import session
    bad = session(random.Random(ctx.int("seed", 0, 1 << 30)), kinds, must)
    ctx.prove("every other cart, name and byte is as before", not bad, repr(bad)[:600])

class GB(bytes):
    """a byte string of any length and content, known by identity"""
    __pv_sym__ = True
    pv_isa = (bytes, object)
    def pv_len(m): return m.n
    def __eq__(m, o): return m is o
    def __ne__(m, o): return m is not o
    def __hash__(m): return id(m)
def gb(ctx, name, n=None):
    b = GB(b"x"); b.name = name; b.lacks = (); b.n = ctx.fresh(name + "_len", 0, MAXN) if n is None else n
    return b
class P(Piece):
    def __init__(m, name, n): m.name, m.n, m.lacks, m.f = name, n, (), None
class Buf(Cat):
    """a bytearray given as pieces"""
    def __setitem__(m, sl, v):
        a, b = m[:sl.start], m[sl.stop:]
        G.ctx.prove("an ordered slice", sl.start <= sl.stop)
        m.parts = (a + (v if isinstance(v, Cat) else Cat([v]))).parts + b.parts
    def __delitem__(m, sl): m[sl] = Cat([])
    def plen(m, p): return p.n if isinstance(p, (Piece, GB)) else len(p)
    def cut(m, pos, dflt):
        """the piece at whose start a position lies"""
        if pos is None: return (0, 0) if dflt == 0 else (len(m.parts), 0)
        at = 0
        for k, p in enumerate(m.parts):
            if bool(at == pos) and not bool(m.plen(p) == 0): return (k, 0)
            at = at + m.plen(p)
        G.ctx.prove("the position is at the boundary of a cart or entry", at == pos)
        return (len(m.parts), 0)
    def __getitem__(m, sl):
        (k0, _), (k1, _) = m.cut(sl.start, 0), m.cut(sl.stop, None)
        return Cat(m.parts[k0:k1])
def is_parts(ctx, buf, parts):
    """the same pieces in the same order, not counting pieces of length 0"""
    def clean(ps): return [p for p in ps if isinstance(p, Piece) or isinstance(p, GB) or len(p)]
    a, b = clean(buf.parts), clean(parts)
    i = j = 0; ok = True
    while i < len(a) or j < len(b):
        if i < len(a) and j < len(b) and a[i] is b[j]: i += 1; j += 1; continue
        if j < len(b) and bool(Buf.plen(None, b[j]) == 0): j += 1; continue
        if i < len(a) and bool(Buf.plen(None, a[i]) == 0): i += 1; continue
        return False
    return True
class Names:
    """a list of any length; edits are recorded"""
    __pv_sym__ = True
    def __init__(m, n): m.n, m.ops = n, []
    def pv_len(m): return m.n
    def __iter__(m): return iter(())
    def insert(m, i, v): m.ops.append(("insert", i, v))
    def __delitem__(m, i): m.ops.append(("del", i))
    def __setitem__(m, i, v): m.ops.append(("set", i, v))

# ---------------------------------------------------------------- js
@unit("C18", params=["insert", "append", "replace", "delete", "rename", "read"])
def js_edit(ctx, op):
    """JsExport: an edit at an arbitrary index of any number of carts"""
    pe = setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("js",), "insert" if op == "append" else op); return
    js = object.__new__(pe.JsExport); SZ = 0x8000
    i = ctx.int("i", 0, MAXN); n = ctx.int("n", 1, MAXN); ctx.assume(i < n)
    before, cur, after = P("before", SZ * i), P("cart", SZ), P("after", SZ * (n - 1 - i))
    js.cartdata = Buf([before, cur, after]); js.cartnames = names = Names(n); done = []
    rom = gb(ctx, "rom", SZ); cart, opts = object(), {"fast": object()}
    def w(c, **o): ctx.prove("the rom of the cart, with the options", c is cart and o == opts); return rom
    ctx.contract("pico_cart", "write_cart_to_rom", w)
    ctx.contract("pico_cart", "read_cart_from_rom", lambda d, **o: ("cart", d, o))
    ctx.contract("pico_export", "JsExport.finish_write", lambda m: done.append((list(m.cartdata.parts), list(m.cartnames.ops))))
    data = js.cartdata
    if op == "insert": js.insert_impl(i, "new", cart, **opts); want, ops = [before, rom, cur, after], [("insert", i, "new")]
    elif op == "append": js.insert_impl(None, "new", cart, **opts); want, ops = [before, cur, after, rom], [("insert", n, "new")]
    elif op == "replace": js.replace_impl(i, cart, **opts); want, ops = [before, rom, after], []
    elif op == "delete": js.delete_impl(i); want, ops = [before, after], [("del", i)]
    elif op == "rename": js.rename_impl(i, "new"); want, ops = [before, cur, after], [("set", i, "new")]
    else:
        r = js.read_impl(i, **opts); want, ops = [before, cur, after], []
        ctx.prove("the cart's own bytes are read", r[0] == "cart" and is_parts(ctx, r[1], [cur]) and r[2] == opts)
    ctx.prove("all other carts are where they belong, byte for byte", js.cartdata is data and is_parts(ctx, data, want))
    got = names.ops
    ctx.prove("the names get exactly this edit", len(got) == len(ops) and all(a[0] == b[0] and bool(a[1] == b[1]) and a[2:] == b[2:] for a, b in zip(got, ops)))
    if op != "read": ctx.prove("the text is written once, after the edit", len(done) == 1 and len(done[0][0]) == len(data.parts) and len(done[0][1]) == len(ops))

class Chunks:
    active = False; keep = ("m", "cartdata_chunks", "cartnames_text"); extra = ()
    def enter(m, lr, env, names):
        ctx = G.ctx; c = env["cartdata_chunks"]
        ctx.prove("starts with a line break", c == ["\n"])
        m.first = ctx.choose([True, False], "first")
        if not m.first: c.append("...")
        m.c, m.n0 = c, len(c); return {}
    def more(m, lr): return G.mode == "step"
    def next(m, lr): return G.chunk
    def end(m, lr, env):
        new = m.c[m.n0:]; want = ",".join(map(str, G.values))
        G.ctx.prove("the chunk's numbers, after a comma unless it is the first", new == ([want] if m.first else [",\n", want]))
class Numbers:
    active = False; keep = ("m", "cartdata_text")
    def enter(m, lr, env, names): return {}
    def more(m, lr): return G.mode == "step"
    def next(m, lr): return G.i, G.token
    def end(m, lr, env): G.ctx.prove("byte i is the number of token i", G.stored == [(G.i, G.value)])
CH, NB = Chunks(), Numbers()

@unit("C18", params=["step", "exit"], loops={("pico_export", "JsExport.finish_write", 0): CH, ("pico_export", "JsExport.get_carts_impl", 1): NB})
def js_text(ctx, mode):
    """JsExport: the numbers of the cart data, written and read, for every byte; only the two lists of the text change"""
    pe = setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("js",)); return
    G.mode = mode
    class Text:
        __pv_sym__ = True
        def __init__(m, parts): m.parts = parts
        def __getitem__(m, sl):
            if sl.start is None: return Text(m.parts[:m.parts.index(sl.stop) + 1])
            return Text(m.parts[m.parts.index(sl.start):])
        def __add__(m, o): return Text(m.parts + (o.parts if isinstance(o, Text) else [o]))
    def match(text, a, b):
        class M:
            def span(m, k):
                ctx.prove("the text that is searched is the current one", js.text is text); return (a, b)
            def group(m, k): return G.group
        return M()
    js = pe.JsExport(Text(["t0", "<n", "names", "n>", "t1", "<d", "data", "d>", "t2"]))
    ctx.contract("pico_export", "JsExport.find_cartnames", lambda m: match(m.text, "<n", "n>"))
    ctx.contract("pico_export", "JsExport.find_cartdata", lambda m: match(m.text, "<d", "d>"))
    ctx.contract("utils", "str_replace_between", lambda s, a, b, what: Text(s.parts[:s.parts.index(a) + 1] + [what] + s.parts[s.parts.index(b):]))
    # every byte value, through writer and reader
    if True:
        js.text = Text(["t0", "<n", "names", "n>", "t1", "<d", "data", "d>", "t2"])
        js.cartnames = ["a", "b,c"]; data = object(); js.cartdata = data; G.values = G.chunk = tuple(range(256)) + (255, 7, 10)
        def chunks(src, n): ctx.prove("the whole data, in chunks", src is data and n > 0); return iter(())
        ctx.contract("utils", "iter_chunk", chunks)
        CH.active = True
        try: js.finish_write()
        finally: CH.active = False
        names = js.text.parts[2] if hasattr(js.text, "parts") else None
        ctx.prove("only the names and the data change", js.text.parts[:2] == ["t0", "<n"] and js.text.parts[3:6] == ["n>", "t1", "<d"] and js.text.parts[7:] == ["d>", "t2"])
        ctx.prove("a data list that starts like the first chunk", js.text.parts[6].startswith("\n"))
        if mode == "exit": ctx.prove("nothing follows the last chunk", js.text.parts[6] in ("\n", "\n..."))

@unit("C18", params=["step", "exit"], loops={("pico_export", "JsExport.get_carts_impl", 1): NB})
def js_numbers(ctx, mode):
    """JsExport: an arbitrary number of the data list is read into its own byte; the data has room for every cart"""
    pe = setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("js",)); return
    G.mode = mode; G.stored = []
    js = pe.JsExport("text"); n = ctx.int("n", 0, MAXN); G.i = ctx.int("i", 0, MAXN)
    G.value = ctx.choose(range(256), "value"); G.token = ctx.choose(["%d", "\n%d", " %d"], "form") % G.value
    class Data:
        __pv_sym__ = True
        def __setitem__(m, i, v): G.stored.append((i, v))
    def ba(size): ctx.prove("room for every cart", size == 0x8000 * n); G.stored.clear(); return Data()
    ctx.replace("pico_export", "bytearray", ba)
    class Toks: __pv_sym__ = True
    class Body:
        def __bool__(m): return True
        def strip(m): return m
        def split(m, sep): ctx.prove("split at commas", sep == ","); return Toks()
    class M:
        def __init__(m, b): m.b = b
        def group(m, k): return m.b
    ctx.contract("pico_export", "JsExport.find_cartnames", lambda m: (setattr(m, "cartnames", Names(n)), M(""))[1])
    ctx.contract("pico_export", "JsExport.find_cartdata", lambda m: M(Body()))
    ctx.replace("pico_export", "enumerate", lambda it: it)
    NB.active = True
    try: js.get_carts_impl()
    finally: NB.active = False

@unit("C18")
def js_names(ctx):
    """JsExport: the names list of any characters is read back as it was (each character, alone and with neighbours; complete below U+3000)"""
    pe = setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("js",)); return
    ctx.replace("pico_export", "k_cart_size", 1)
    bad = []
    def trip(names, data):
        js = pe.JsExport("x=1\nvar _cartname=[`old`];\nvar _cdpos=0;\nvar _cartdat=[\n0];\n// rest ] `,` [1,2]")
        js.cartnames, js.cartdata = list(names), bytearray(data); js.finish_write()
        if not (js.text.startswith("x=1\nvar _cartname=[") and js.text.endswith("];\n// rest ] `,` [1,2]") and js.text.count("_cartdat") == 1): return False
        js2 = pe.JsExport(js.text); carts = js2.get_carts_impl()
        return list(carts) == list(names) and list(carts.values()) == list(range(len(names))) and bytes(js2.cartdata) == bytes(data) and js.cartnames is None
    chars = [chr(c) for c in range(1, 0x3000)]
    for f in (lambda c: c, lambda c: "a" + c, lambda c: c + "b.p8", lambda c: c + c, lambda c: "\\" + c, lambda c: c + "x2c", lambda c: " " + c + " "):
        names = list(dict.fromkeys(f(c) for c in chars))
        if not trip(names, bytes(k % 256 for k in range(len(names)))): bad += [(n, ) for n in names if not trip([n], b"\7")][:5] or [("together", f("c"))]
    for n in list(range(0, 3)) + [255, 256, 257, 511, 512, 513, 1024, 1025]:
        if not trip([str(k) for k in range(n)], bytes((k * 37) % 256 for k in range(n))): bad.append(n)
    ctx.prove("the same names and data are read back", not bad, repr(bad[:5]))

@unit("C18", params=[(op, has, tgt) for op in ("insert", "replace", "delete", "rename", None) for has in (True, False) for tgt in (None, "first", "last", "missing")])
def dispatch(ctx, p):
    """CartExport.write_cart / read_cart: which cart is meant, and what is refused; nothing is touched when something is refused"""
    op, has, tgt = p
    pe = setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("js", "pod")); return
    import utils
    refs = {"first": 0, "mid": (1, b""), "last": 2}; calls = []
    m = pe.CartExport()
    m.get_carts_impl = lambda: dict(refs)
    for f in ("insert_impl", "replace_impl", "delete_impl", "rename_impl"):
        setattr(m, f, (lambda f: lambda *a, **k: calls.append((f, a, k)))(f))
    m.read_impl = lambda ref, **k: ("read", ref, k)
    class C: name = "cartname"
    cart = C(); given = ctx.choose([True, False], "named")
    name = ("mid" if has else "other") if given else None
    lop = None if op is None else getattr(pe.ListOp, op)
    try: m.write_cart(cart, name, lop, tgt, opt=1); err = False
    except utils.CheckError: err = True
    o = op or "insert"; known = {"first", "mid", "last"}
    if o == "insert":
        n = name if given else "cartname"
        if n in known or tgt == "missing": want = None
        else: want = ("insert_impl", (refs[tgt] if tgt else None, n, cart), {"opt": 1})
    else:
        n = name if given else "first"
        if n not in known: want = None
        elif o == "replace": want = ("replace_impl", (refs[n], cart), {"opt": 1})
        elif o == "delete": want = ("delete_impl", (refs[n],), {})
        else: want = None if tgt in known else ("rename_impl", (refs[n], tgt), {})
    if o == "delete" and calls: calls[0] = calls[0][:2] + ({},)
    ctx.prove("exactly the edit asked for, or an error and no edit", (err and not calls) if want is None else (not err and calls == [want]), repr((calls, want)))
    if op is None and tgt is None:
        if given and not has: ctx.prove("unknown carts are refused", ctx.raises(lambda: m.read_cart(name), utils.CheckError))
        else: ctx.prove("the named or the first cart is read", m.read_cart(name, o=2) == ("read", refs[name or "first"], {"path": name or "first", "o": 2}))

# ---------------------------------------------------------------- pod
class W:
    """typed writer: items with their sizes (C03)"""
    def __init__(m): m.f = m; m.items = []
    def __enter__(m): return m
    def __exit__(m, *a): pass
    def put(m, k, v, n): m.items.append((k, v, n))
    def str(m, s): m.put("str", s, len(s))
    def u32(m, v): m.put("u32", v, 4)
    def u8(m, v): m.put("u8", v, 1)
    def zstr(m, s, n): m.put("zstr", s, n)
    def bytes(m, b): m.put("bytes", b, b.n if isinstance(b, GB) else len(b))
    def pos(m):
        n = 0
        for i in m.items: n = n + i[2]
        return n
    def getvalue(m): p = P("entry", m.pos()); p.items = m.items; return p
class R:
    """typed reader of the items"""
    def __init__(m, items, at=0): m.items, m.k, m.at = items, 0, at
    def __enter__(m): return m
    def __exit__(m, *a): pass
    def take(m, k, n=None):
        if m.k >= len(m.items): G.ctx.prove("the reader reads no more than the entry", False)
        i = m.items[m.k]; G.ctx.prove("what is read was written so", i[0] == k and (n is None or bool(n == i[2])), repr((i[:1], k)))
        m.k += 1; m.at = m.at + i[2]; return i[1]
    def pos(m): return m.at
    def str(m, n): return m.take("str", n)
    def u32(m): return m.take("u32")
    def zstr(m, n): return m.take("zstr", n)
    def bytes(m, n): return m.take("bytes", n)
    def addpos(m, n): m.take("zstr", n)
class Ent:
    __pv_sym__ = True
    def __init__(m, header=None, pos=None, end_pos=None, name=None, content=None): m.header, m.pos, m.end_pos, m.name, m.content = header, pos, end_pos, name, content
class Entries:
    """the entries of a pod: any number of them; entry i and an arbitrary other one are known"""
    __pv_sym__ = True
    def __init__(m, n): m.n, m.ops = n, []
    def pv_len(m): return m.n
    def __getitem__(m, i):
        if isinstance(i, slice):
            G.ctx.prove("a tail of the list", i.stop is None and i.step is None); return ("tail", m, i.start)
        if bool(i == G.i) and not any(o[0] == "del" for o in m.ops): return G.ent
        if bool(i == -1) or bool(i == m.n - 1): return G.last
        raise G.Unsupported("some other entry")
    def __delitem__(m, i): m.ops.append(("del", i)); m.n = m.n - 1
    def insert(m, i, x): m.ops.append(("insert", i, x)); m.n = m.n + 1
    def append(m, x): m.ops.append(("insert", m.n, x)); m.n = m.n + 1
class Shift:
    active = False; keep = ("m", "i", "delta")
    def enter(m, lr, env, names):
        it = lr.it; ctx = G.ctx
        ctx.prove("the shift goes over the entries from i on", isinstance(it, tuple) and it[1] is G.entries)
        G.shifts.append((it[2], env["delta"], G.entries.n))
        m.run = len(G.shifts); return {}
    def more(m, lr): return G.mode == "step"
    def next(m, lr): m.e = Ent(); m.p, m.q = G.ctx.fresh("pos", 0, MAXN), G.ctx.fresh("end", 0, MAXN); m.e.pos, m.e.end_pos = m.p, m.q; return m.e
    def end(m, lr, env):
        d = G.shifts[-1][1]
        G.ctx.prove("an arbitrary later entry moves by delta", G.ctx.and_(m.e.pos == m.p + d, m.e.end_pos == m.q + d))
SH = Shift()
class ReadAll:
    active = False; keep = ("m", "r", "count"); extra = ("palette",)
    def enter(m, lr, env, names):
        G.ctx.prove("an empty list, before the first entry", env["m"].entries == [] and env["palette"] is None)
        G.m = env["m"]; return {"palette": None}
    def more(m, lr): return G.mode == "step"
    def next(m, lr): return G.ctx.fresh("i", 0, MAXN)
    def end(m, lr, env):
        ctx = G.ctx; r = G.reader
        ctx.prove("the entry is read to its end", r.k == len(r.items))
        ctx.prove("one entry", len(G.m.entries) == 1); e = G.m.entries[0]
        ctx.prove("header, position, end, name and content are those of the entry",
                  e.header == G.want[0] and ctx.and_(e.pos == G.want[1], e.end_pos == G.want[2]) and e.name == G.want[3] and (e.content is G.want[4] or e.content == ("surf", G.want[4])))
class ReadHdr(R):
    inside = False
    def take(m, k, n=None):
        if not m.inside and m.k == len(G.hdr): m.inside = True; m.k = 0; m.items = G.body; m.at0 = m.at; return R.take(m, k, n)
        return R.take(m, k, n)
RA = ReadAll()
POD = {("pico_export", "PodFile.shift_entry_positions", 0): SH, ("pico_export", "PodFile.read_all", 0): RA}

def pod_setup(ctx, pe, mode):
    G.mode = mode; G.shifts = []; G.counts = []; G.zwrites = []
    i = G.i = ctx.int("i", 0, MAXN); n = ctx.int("n", 1, MAXN); ctx.assume(i < n)
    head, cur, rest = P("before", ctx.fresh("before_len", 0x50, MAXN)), P("entry", ctx.fresh("entry_len", 0x50, MAXN)), P("after", ctx.fresh("after_len", 0, MAXN))
    ctx.assume(ctx.implies(i == n - 1, rest.n == 0)); ctx.assume(ctx.implies(i < n - 1, rest.n > 0))
    pod = object.__new__(pe.PodExport); pod.data = Buf([head, cur, rest])
    G.content = gb(ctx, "content")
    G.ent = Ent("CFIL", head.n, head.n + cur.n, "cart", G.content)
    G.last = Ent("CFIL", None, head.n + cur.n + rest.n, "last", None)
    G.entries = pod.entries = Entries(n)
    ctx.contract("pico_export", "PodFile.init_write", lambda m: None)
    pe_writers = []
    def bw(*a, **k): w = W(); pe_writers.append(w); return w
    ctx.replace("pico_export", "BinaryWriter", bw)
    class BB:
        def __init__(m, buf): ctx.prove("the pod's own data", buf is pod.data)
        def w_u32(m, at, v): G.counts.append((at, v, len(pod.data.parts)))
        def w_zstr(m, at, v, n): G.zwrites.append((at, v, n))
    ctx.replace("pico_export", "BinaryBuffer", BB)
    return pod, i, n, head, cur, rest
def lz(ctx):
    memo = {}
    def c(d, fast=False, debug=None): r = gb(ctx, "lz4"); memo[id(r)] = (r, d); return r
    def u(d, debug=None): ctx.prove("what was compressed is uncompressed", id(d) in memo); return memo[id(d)][1]
    ctx.contract("pico_export", "lz4_compress", c); ctx.contract("pico_export", "lz4_uncompress", u)

@unit("C18", params=[(op, m) for op in ("insert", "append", "delete", "replace", "replace-other", "rename") for m in ("step", "exit")], loops=POD)
def pod_edit(ctx, om):
    """PodFile: an edit at an arbitrary entry: bytes and positions of all other entries, the count"""
    op, mode = om
    pe = setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("pod",), {"append": "insert", "replace-other": "replace"}.get(op, op)); return
    pod, i, n, head, cur, rest = pod_setup(ctx, pe, mode); lz(ctx)
    data, new = pod.data, gb(ctx, "new"); ents = G.entries
    SH.active = True
    def shifted(k, start, delta, size): return len(G.shifts) > k and ctx.and_(G.shifts[k][0] == start, ctx.or_(G.shifts[k][1] == delta))
    try:
        if op in ("insert", "append"):
            at = i if op == "insert" else n
            if op == "append": cut = head.n + cur.n + rest.n; 
            pod.insert_content(at, "new", new, **({"compress": True} if ctx.choose([True, False], "compress") else {}))
            put = [p for p in data.parts if getattr(p, "name", None) == "entry" and p is not cur]
            ctx.prove("one entry is written", len(put) == 1); size = put[0].n
            ctx.prove("all other bytes stay", is_parts(ctx, data, [head, put[0], cur, rest] if op == "insert" else [head, cur, rest, put[0]]))
            ctx.prove("one entry is listed there", len(ents.ops) == 1 and ents.ops[0][0] == "insert" and bool(ents.ops[0][1] == at))
            e = ents.ops[0][2]; pos = head.n if op == "insert" else head.n + cur.n + rest.n
            ctx.prove("with its place", ctx.and_(e.pos == pos, e.end_pos == pos + size) and e.name == "new" and e.content is new)
            ctx.prove("the entries after it move by its size", len(G.shifts) == 1 and ctx.and_(G.shifts[0][0] == at + 1, G.shifts[0][1] == size) and G.shifts[0][2] is not None)
            ctx.prove("the count", len(G.counts) == 1 and G.counts[0][0] == 0x2c and bool(G.counts[0][1] == n + 1))
        elif op == "delete":
            pod.delete_content(i)
            ctx.prove("all other bytes stay", is_parts(ctx, data, [head, rest]))
            ctx.prove("the entry is unlisted", len(ents.ops) == 1 and ents.ops[0][0] == "del" and bool(ents.ops[0][1] == i))
            ctx.prove("the entries after it move back by its size", len(G.shifts) == 1 and ctx.and_(G.shifts[0][0] == i, G.shifts[0][1] == -cur.n))
            ctx.prove("the count", len(G.counts) == 1 and G.counts[0][0] == 0x2c and bool(G.counts[0][1] == n - 1))
        elif op == "replace":                                       # same size: in place
            ctx.assume(cur.n == 0x4c + G.content.n); ctx.assume(G.content.n > 0)
            hdr, body = P("header", 0x4c), P("body", G.content.n); data.parts = [head, hdr, body, rest]; new.n = G.content.n
            pod.replace_content(i, new)
            ctx.prove("only the content changes", is_parts(ctx, data, [head, hdr, new, rest]) and not G.shifts and not ents.ops and not G.counts)
            ctx.prove("the entry has the new content", G.ent.content is new and G.ent.name == "cart")
        elif op == "replace-other":                                 # compressed or of another size: deleted and inserted
            if ctx.choose([True, False], "compressed"): G.ent.header = "cFIL"
            else: ctx.assume(new.n != G.content.n)
            ins = []
            ctx.contract("pico_export", "PodFile.delete_content", lambda m, k: ins.append(("delete", k)))
            ctx.contract("pico_export", "PodFile.insert_content", lambda m, k, name, c, compress=False: ins.append(("insert", k, name, c)))
            pod.replace_content(i, new)
            ctx.prove("deleted, and inserted again at the same place under the same name", len(ins) == 2 and ins[0][0] == "delete" and bool(ins[0][1] == i) and ins[1][0] == "insert" and bool(ins[1][1] == i) and ins[1][2] == "cart" and ins[1][3] is new)
        else:
            pod.rename_content(i, "other")
            ctx.prove("only the name field is written", G.zwrites and len(G.zwrites) == 1 and bool(G.zwrites[0][0] == head.n + 0xc) and G.zwrites[0][1:] == ("other", 0x40) and is_parts(ctx, data, [head, cur, rest]))
            ctx.prove("the entry has the new name", G.ent.name == "other" and G.ent.content is G.content)
    finally: SH.active = False

class Surf:
    width = height = None
    def __init__(m, ctx, bpp):
        class F: pass
        m.format = F(); m.format.bpp = bpp; m.width, m.height = ctx.int("w", 0, 1000), ctx.int("h", 0, 1000); m.data = gb(ctx, "pixels")
        m.asked = None
    def to_data(m, fmt, **k): m.asked = fmt; return m.data

@unit("C18", params=[(k, c) for k in ("file", "bmp8", "bmp32") for c in (False, True)], loops=POD)
def pod_entry(ctx, kc):
    """PodFile: a written entry (file or bitmap, plain or compressed) through the reader's loop body; the layout of the header"""
    kind, compress = kc
    pe = setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("pod",)); return
    pod, i, n, head, cur, rest = pod_setup(ctx, pe, "exit"); lz(ctx)
    made = []
    class SurfaceCls(Surf):
        @staticmethod
        def from_data(w, h, fmt, data): made.append((w, h, fmt, data)); s = ("surf", content); return type("S", (), {"__eq__": lambda m, o: o == ("surf", content), "palette": None})()
    ctx.replace("pico_export", "Surface", SurfaceCls)
    if kind == "file": content = gb(ctx, "content2")
    else: content = object.__new__(SurfaceCls); Surf.__init__(content, ctx, 8 if kind == "bmp8" else 32)
    SH.active = True
    try: pod.insert_content(i, "new", content, compress=compress)
    finally: SH.active = False
    put = [p for p in pod.data.parts if getattr(p, "name", None) == "entry" and p is not cur][0]
    # the header of a pod, as create() writes it
    G.hdr = [("str", "CPOD", 4), ("u32", 0x44, 4), ("u32", 1, 4), ("zstr", "name", 0x20), ("u32", n + 1, 4), ("zstr", "", 0x1c)]
    ctx.prove("the count is where it is updated", sum(h[2] for h in G.hdr[:4]) == 0x2c)
    G.body = put.items; G.mode = "step"
    G.reader = ReadHdr(list(G.hdr)); p0 = sum(h[2] for h in G.hdr)
    ctx.replace("pico_export", "BinaryReader", lambda f, **k: G.reader); ctx.replace("pico_export", "BytesIO", lambda d: d)
    heads = {("file", False): "CFIL", ("file", True): "cFIL", ("bmp8", False): "CBMP", ("bmp8", True): "cBMP", ("bmp32", False): "CBMP", ("bmp32", True): "cBMP"}
    G.want = (heads[kc], p0, p0 + put.n, "new" if kind == "file" else None, content)
    other = object.__new__(pe.PodExport); other.data = b""
    def fin():
        if kind != "file": 
            w, h, fmt, data = made[0]
            ctx.prove("the bitmap is made of the same data", ctx.and_(w == content.width, h == content.height) and fmt == content.asked and data is content.data)
    end = RA.end
    RA.active = True
    def end2(lr, env): end(lr, env); fin()
    RA.end = end2
    try: other.read_all()
    finally: RA.active = False; del RA.end

@unit("C18")
def pod_carts(ctx):
    """PodExport: which entries are carts, and what its operations do to them (entries by the contracts above)"""
    pe = setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("pod",)); return
    import utils
    pod = object.__new__(pe.PodExport); calls = []
    mk = lambda name, content: pe.PodFile.Entry("CFIL", 0, 0, name, content)
    pod.entries = [mk("", b"boot"), mk("a", b"A" * 4), mk(None, None), mk("b", b"B" * 4)]
    carts = pod.get_carts_impl()
    ctx.prove("the named files, in order", list(carts.items()) == [("a", (1, b"A" * 4)), ("b", (3, b"B" * 4))])
    for f in ("insert_content", "replace_content", "delete_content", "rename_content"):
        ctx.contract("pico_export", "PodFile." + f, (lambda f: lambda m, *a, **k: calls.append((f, a, k)))(f))
    rom = ctx.choose([b"R" * 4, b"R" * 5], "rom"); cart = object()
    def w(c, **o): ctx.prove("the rom of the cart, with the options", c is cart and o == {"o": 1}); return rom
    ctx.contract("pico_cart", "write_cart_to_rom", w); ctx.contract("pico_cart", "read_cart_from_rom", lambda d, **o: ("cart", d, o))
    ref = carts["b"]
    pod.insert_impl(ref, "n", cart, o=1); pod.insert_impl(None, "n", cart, o=1)
    ctx.prove("inserted before the target or at the end", calls == [("insert_content", (3, "n", rom), {}), ("insert_content", (4, "n", rom), {})])
    del calls[:]
    try: pod.replace_impl(ref, cart, o=1); ok = True
    except utils.CheckError: ok = False
    ctx.prove("replaced if it has the same size, refused otherwise", ok == (len(rom) == 4) and calls == ([("replace_content", (3, rom), {})] if ok else []))
    del calls[:]
    pod.delete_impl(ref); pod.rename_impl(ref, "z")
    ctx.prove("deleted, renamed", calls == [("delete_content", (3,), {}), ("rename_content", (3, "z"), {})])
    ctx.prove("the cart's own bytes are read", pod.read_impl(ref, o=1) == ("cart", b"B" * 4, {"o": 1}))

# ---------------------------------------------------------------- picotron
class SysW:
    active = False; keep = ("m", "w")
    def enter(m, lr, env, names): G.ctx.prove("all entries, in order", lr.it is G.list); return {}
    def more(m, lr): return G.mode == "step"
    def next(m, lr): return G.entry
    def end(m, lr, env):
        G.items = list(G.w.items); G.rd = R(list(G.items))
        G.rd.eof = lambda: False
        SR.active = True
        try: G.pe64.SysRom(b"data")
        finally: SR.active = False
class SysR:
    active = False; keep = ("m",); extra = ("r", "data")
    def enter(m, lr, env, names): G.m = env["m"]; G.ctx.prove("no entries yet", G.m.entries == []); return {"r": G.rd, "data": b"data"}
    def end(m, lr, env):
        G.ctx.prove("exactly the entry is read", G.rd.k == len(G.rd.items) and len(G.m.entries) == 1 and G.m.entries[0] is G.entry)
SW, SR = SysW(), SysR()
@unit("C18", params=["step", "exit"], loops={("picotron_export", "SysRom.to_bytes", 0): SW, ("picotron_export", "SysRom.__init__", 0): SR})
def sysrom(ctx, mode):
    """SysRom: an arbitrary entry is written and read back"""
    setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("sysrom",)); return
    import picotron_export as pe
    G.pe64, G.mode = pe, mode; G.w = W(); G.entry = gb(ctx, "entry")
    def bw(*a, **k): ctx.prove("big endian", k.get("big_end") is True); return G.w
    def br(f, **k): ctx.prove("big endian", k.get("big_end") is True); return G.rd
    ctx.replace("picotron_export", "BinaryWriter", bw); ctx.replace("picotron_export", "BinaryReader", br)
    ctx.replace("picotron_export", "BytesIO", lambda d: d)
    m = object.__new__(pe.SysRomExport64)
    class L: __pv_sym__ = True
    m.entries = G.list = L()
    SW.active = True
    try: r = m.to_bytes()
    finally: SW.active = False
    ctx.prove("nothing besides the entries", r.items == [])

@unit("C18", params=list(range(5)))
def sysrom_cart(ctx, n):
    """SysRomExport64 / HtmlExport64: the cart is replaced and nothing else (any number of entries, text of any content)"""
    setup(ctx)
    if not ctx.symbolic: random_ops(ctx, ("sysrom", "html")); return
    import picotron_export as pe, utils
    m = object.__new__(pe.SysRomExport64); old = [gb(ctx, f"e{k}") for k in range(n)]; m.entries = list(old)
    rom = gb(ctx, "rom"); cart = object()
    class Rom:
        def hex(m): return "0aFf"
    def w(c, **o): ctx.prove("the rom of the cart, with the options", c is cart and o == {"o": 1}); return G.rom
    G.rom = rom
    ctx.contract("picotron_cart", "write_cart64_to_rom", w); ctx.contract("picotron_cart", "read_cart64_from_rom", lambda d, **o: ("cart", d, o))
    m.set_cart(cart, o=1)
    want = (old + [b""] * 3)[:max(n, 3)]; want[2] = rom
    ctx.prove("only the cart's entry changes", len(m.entries) == len(want) and all(a is b or (type(b) is bytes and a == b == b"") for a, b in zip(m.entries, want)))
    r = m.get_cart(o=2)
    ctx.prove("and it is the one that is read", r[0] == "cart" and r[1] is rom and r[2] == {"o": 2})
    if n < 3:
        m.entries = list(old); ctx.prove("no cart: an error", ctx.raises(lambda: m.get_cart(), utils.CheckError))
    # html: all texts over an alphabet with the search string, its quotes and hex digits (the change is at one match; re.search is trusted)
    import itertools
    bad = []
    parts = ('p64cart_str="', '"', "a0", "g\r\n", 'p64cart_str=')
    G.rom = Rom()
    for k in range(4):
        for t in itertools.product(parts, repeat=k):
            pre = "".join(t)
            for post in ("", '"', "\nb", 'p64cart_str="12"'):
                for body in ("", "aBcd"):
                    text = pre + 'p64cart_str="' + body + '"' + post
                    h = pe.HtmlExport64(text); s = h.find_cart().span(1); before, after = text[:s[0]], text[s[1]:]
                    h.set_cart(cart, o=1)
                    if h.text != before + "0aFf" + after or h.get_cart() != ("cart", b"\x0a\xff", {}): bad.append(text)
    ctx.prove("html: only the cart's digits change, and they are read back", not bad, repr(bad[:3]))
