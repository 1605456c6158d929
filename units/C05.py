"""C05 contracts: every line the text writer emits, read back by the reader's loop body, restores exactly the row of memory it came from

For a section (gfx, map, gff, sfx, music) and an arbitrary row t of an arbitrary memory: get_needed_lines (loop invariant: every row from
'lines' on equals the default memory) either keeps row t, and then the writer's loop body for t, followed by the reader's loop body on the
line written, sets exactly the bytes of row t to what they were and nothing else; or row t equals the default, which is what the reader
starts from.  Label rows, code lines, header lines and the version line have their own units.  Splitting the text at its line breaks gives
back the lines (re.split at \\n, for lines without line breaks): trusted, and exercised by the bounded suites."""
from pyver.unit import unit
from units.C17 import mem, snap
#       section: rows, address of the row's first byte, bytes per row
ROWS = {"gfx": (128, lambda t: t * 64, 64), "map": (32, lambda t: 0x2000 + t * 128, 128), "gff": (2, lambda t: 0x3000 + t * 128, 128),
        "music": (64, lambda t: 0x3100 + t * 4, 4), "sfx": (64, lambda t: 0x3200 + t * 68, 68)}
LOOPNO = {"gfx": 0, "map": 1, "gff": 2, "sfx": 3, "music": 4, "label": 5}

class G: pass
class Needed:
    """get_needed_lines: for y in reversed(range(max_lines))"""
    active = False; keep = ("max_lines", "addr_func", "size")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("walks the rows from the last", list(lr.it) == list(reversed(range(G.rows))))
        ctx.prove("entry: no row dropped yet", env["lines"] == G.rows)
        m.L = ctx.fresh("lines", 0, G.rows)
        ctx.assume(ctx.implies(G.t >= m.L, G.rowdefault))
        return {"lines": m.L}
    def more(m, lr): return m.L > 0
    def next(m, lr): return m.L - 1
    def end(m, lr, env):
        G.ctx.prove("one row fewer", env["lines"] == m.L - 1)
        G.ctx.prove("every row from 'lines' on equals the default", G.ctx.implies(G.t >= env["lines"], G.rowdefault))
class Write:
    """for y in range(needed): lines.append(...)"""
    active = False; keep = ("cart", "lines", "defrom", "gfx_lines", "map_lines", "gff_lines", "sfx_lines", "music_lines")
    def __init__(m, sec): m.sec = sec
    def enter(m, lr, env, names):
        ctx = G.ctx
        from pyver import hooks
        it = lr.it
        a, b = (it.a, it.b) if isinstance(it, hooks.SymRange) else (it.start, it.stop)
        ctx.prove("rows 0 to the last needed one", ctx.and_(a == 0, b == G.needed[0]))
        ctx.prove("after its header", env["lines"][-1] == f"__{m.sec}__")
        G.count = len(env["lines"])
        return {}
    def more(m, lr):
        return bool(G.t < G.needed[0])
    def next(m, lr): return G.t
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("one line per row", len(env["lines"]) == G.count + 1)
        read_line(m.sec, env["lines"][-1])
class Read:
    """the reader's main loop"""
    active = False; keep = ("cart", "raw", "data"); extra = ("code", "header", "y", "code_line")
    def enter(m, lr, env, names):
        ctx = G.ctx
        ctx.prove("entry: no header unless raw", env["header"] is None and env["y"] == 0 and env["code"] == [])
        m.y = G.state["y"]
        G.back = env["cart"]
        for k, v in G.setup.items(): setattr(env["cart"], k, v)
        return dict(G.state)
    def more(m, lr): return True
    def next(m, lr): return G.line_i, G.line
    def end(m, lr, env): G.check(env)
N_, R_ = Needed(), Read()
WS = {s: Write(s) for s in ROWS}
LOOPS = {("pico_cart", "write_cart_to_source.get_needed_lines", 0): N_, ("pico_cart", "read_cart_from_source", 0): R_}
for s in ROWS: LOOPS[("pico_cart", "write_cart_to_source", LOOPNO[s])] = WS[s]

def run_reader(header, y, line, check, setup=None, code=None, code_line=0, line_i=0):
    """one arbitrary iteration of read_cart_from_source's loop"""
    G.state = {"header": header, "y": y, "code": code if code is not None else [], "code_line": code_line}
    G.line, G.line_i, G.check, G.setup = line, line_i, check, setup or {}
    R_.active = True
    try: G.pc.read_cart_from_source(G.pc.k_p8_prefix + "\n")
    except ValueError: G.ctx.prove("every line is read without an error", False)
    except Exception as ex:
        if "p8 file" in str(ex): G.ctx.prove("every line is read without an error", False, str(ex))
        raise
    finally: R_.active = False

def read_line(sec, line):
    ctx = G.ctx
    target = mem(ctx, "target", G.pc.k_rom_size); before = snap(ctx, target)
    rows, base, size = ROWS[sec]
    lo = base(G.t)
    def check(env):
        ctx.prove("the next row", env["y"] == G.t + 1)
        ctx.prove("the section goes on", env["header"] == sec)
        for k in range(size): ctx.prove("every byte of the row is restored", ctx.at(target, lo + k) == ctx.at(G.rom, lo + k))
        j = ctx.fresh("j", 0, G.pc.k_rom_size - 1)
        ctx.prove("no other byte changes", ctx.implies(ctx.or_(j < lo, j >= lo + size), ctx.at(target, j) == ctx.at(before, j)))
    run_reader(sec, G.t, line, check, setup={"rom": target})

def concrete(ctx, sec=None):
    """the real writer and reader on a random cart"""
    import random, pico_process, pico_cart as pc
    from bounded.carts import rand_cart, text_code, rand_label
    rng = random.Random(ctx.int("seed", 0, 1 << 30))
    cart = rand_cart(rng); cart.code = text_code(cart.code)
    if sec == "label": cart.label = rand_label(rng, 32)
    back = pc.read_cart_from_source(pc.write_cart_to_source(cart))
    ctx.prove("same memory", bytes(back.rom) == bytes(cart.rom))
    ctx.prove("same code", back.code == cart.code)
    ctx.prove("same version", back.version_id == cart.version_id)
    if cart.label and any(cart.label.array): ctx.prove("same label", bool(back.label) and list(back.label.array) == list(cart.label.array))
    else: ctx.prove("no label", back.label is None)

@unit("C05", params=list(ROWS), loops=LOOPS)
def rows(ctx, sec):
    """an arbitrary row of the section through trimming, writer and reader"""
    if not ctx.symbolic: concrete(ctx); return
    import pico_process, pico_cart as pc
    G.ctx, G.pc = ctx, pc
    G.rows, base, size = ROWS[sec]
    G.t = ctx.int("row", 0, G.rows - 1)
    G.rom = mem(ctx, "rom", pc.k_rom_size)
    G.rowdefault = ctx.bool("row equals the default")
    G.needed = []
    default = pc.mem_create_rom()
    cart = pc.Cart(); cart.rom = G.rom
    def cmpeq(real, this, src, size, other_memory=None):
        a = dict(m=this, src=src, size=size, other_memory=other_memory)
        y = N_.L - 1
        ctx.prove("compares a whole row of this section", ctx.and_(a["src"] == base(y), a["size"] == ROWS[sec][2]))
        ctx.prove("with the default memory", a["m"] is G.rom and bytes(a["other_memory"]) == bytes(default))
        r = ctx.bool("row is default")
        ctx.assume(ctx.implies(ctx.and_(r, y == G.t), G.rowdefault))
        return r
    def needed(real, *a):
        N_.active = True
        try: r = real(*a)
        finally: N_.active = False
        G.needed.append(r)
        ctx.prove("rows left out equal the default", ctx.implies(G.t >= r, G.rowdefault))
        return r
    wrap(ctx, "pico_defs", "Memory.cmpeqwith8", cmpeq)
    wrap(ctx, "pico_cart", "write_cart_to_source.get_needed_lines", needed)
    WS[sec].active = True
    try: pc.write_cart_to_source(cart, sections=[sec])
    finally: WS[sec].active = False
    ctx.prove("the section is left out only if no row is needed", ctx.or_(G.needed[0] == 0, ctx.not_(G.t < G.needed[0])))

def wrap(ctx, module, qual, fn):
    from pyver import hooks, load
    def c(real, *a, **k): return fn(real, *a, **k)
    c.name = f"{module}.{qual}"
    hooks.CONTRACTS_BY_CODE[(load.REPO + "/" + module.replace(".", "/") + ".py", qual)] = c

class Line:
    """a line of the text that is not a section header; its content is opaque"""
    __pv_sym__ = True
    def __init__(m, name): m.name = name
    def strip(m): return m
    def startswith(m, s): G.ctx.prove("only the header test looks at the line", s == "__"); return False
    def __bool__(m): return True
    def pv_str(m): return m
    def pv_len(m): return 128

@unit("C05", params=["lua", "raw"], loops=LOOPS)
def code_line(ctx, how):
    """an arbitrary line of code: appended unchanged, separated by one line break from the line before; the first line's number is noted"""
    if not ctx.symbolic: concrete(ctx); return
    import pico_process, pico_cart as pc
    G.ctx, G.pc = ctx, pc
    y = ctx.int("y", 0, 1 << 20); i = ctx.int("line", 0, 1 << 20); first = ctx.int("first", 0, 1 << 20)
    code = ["before"]; line = Line("code")
    def conv(real, s, *a, **k):
        ctx.prove("the line itself is converted", s is line); return "P8"
    wrap(ctx, "pico_defs", "to_p8str", conv)
    def check(env):
        ctx.prove("the line, after a line break unless it is the first", ctx.ite(y == 0, env["code"] == ["before", "P8"], env["code"] == ["before", "\n", "P8"]) if not isinstance(env["code"], list) else
                  (env["code"] == ["before", "P8"] and bool(y == 0)) or (env["code"] == ["before", "\n", "P8"] and bool(y > 0)))
        ctx.prove("next line", env["y"] == y + 1)
        ctx.prove("still code", env["header"] == "lua")
        ctx.prove("the number of the first code line", env["code_line"] == ctx.ite(y == 0, i, first))
    run_reader("lua", y, line, check, code=code, code_line=first, line_i=i)

@unit("C05", params=list(ROWS) + ["lua", "label", "meta:title"], loops=LOOPS)
def header_line(ctx, sec):
    """a header line, after whatever section: the section begins, at its first row, and nothing of the cart changes"""
    if not ctx.symbolic: concrete(ctx, sec); return
    import pico_process, pico_cart as pc
    G.ctx, G.pc = ctx, pc
    prev = ctx.choose([None, "lua", "gfx", "map", "gff", "sfx", "music", "label", "meta:x"], "previous section")
    y = ctx.int("y", 0, 1 << 20)
    target = mem(ctx, "target", pc.k_rom_size); before = target.arr
    code = ["c"]
    def check(env):
        ctx.prove("the section begins", env["header"] == sec)
        ctx.prove("at its first row", env["y"] == 0)
        ctx.prove("the cart is unchanged", target.arr is before and env["code"] == ["c"] and not env["cart"].meta and env["cart"].label is None)
    run_reader(prev, y, f"__{sec}__" + ctx.choose(["", " ", "\t"], "trailing blanks"), check, setup={"rom": target}, code=code)

@unit("C05", loops=LOOPS)
def version_line(ctx):
    """the version line that the writer emits sets the version; the line before it is ignored"""
    if not ctx.symbolic: concrete(ctx); return
    import pico_process, pico_cart as pc
    G.ctx, G.pc = ctx, pc
    v = ctx.int("version", 0, 255)
    cart = pc.Cart(); cart.version_id = v
    def tup(real, id): ctx.prove("version tuple of the version", id == v); return (0, 0, 0, 0)
    text = pc.write_cart_to_source(cart, sections=[])
    u = ctx.sym.as_symstr(text).cs; nl = [k for k, c in enumerate(u) if c == 10 or (not isinstance(c, int) and bool(c == 10))]
    ctx.prove("two lines", len(nl) == 2 and nl[1] == len(u) - 1)
    lines = [ctx.sym.mkstr(u[:nl[0]]), ctx.sym.mkstr(u[nl[0] + 1:nl[1]])]
    ctx.prove("recognised as a cart", lines[0].startswith(pc.k_p8_prefix))
    wrap(ctx, "pico_defs", "get_pico8_version_tuple", tup)
    which = ctx.choose([0, 1], "line")
    def check(env):
        ctx.prove("no header yet", env["header"] is None and env["code"] == [])
        if which: ctx.prove("same version", ctx.and_(env["cart"].version_id == v, not env["cart"].default_version))
        else: ctx.prove("ignored", env["cart"].default_version == True)
    wrap(ctx, "pico_defs", "get_default_pico8_version", lambda real: 41)
    wrap(ctx, "pico_defs", "get_pico8_version_tuple", lambda real, id: (0, 0, 0, 0))
    run_reader(None, 0, lines[which], check)

@unit("C05", params=["code", "caps", "label", "nolabel", "meta"], loops=LOOPS)
def written(ctx, what):
    """what the writer puts between the headers: the code's text, the label's rows in order, the meta lines"""
    if not ctx.symbolic: concrete(ctx, "label"); return
    import pico_process, pico_cart as pc
    from pyver.rope import Rope, Src
    G.ctx, G.pc = ctx, pc
    cart = pc.Cart(); cart.version_id = 41
    if what in ("code", "caps"):
        code = object(); cart.code = code; text = Line("text")
        def conv(real, s, unicaps=False, **k):
            ctx.prove("the cart's code is converted", s is code and unicaps == (what == "caps")); return "<code>"
        wrap(ctx, "pico_defs", "from_p8str", conv)
        r = pc.write_cart_to_source(cart, unicode_caps=what == "caps", sections=["lua"])
        ctx.prove("header, code, final line break", r == f"{pc.k_p8_prefix} // http://www.pico-8.com\nversion 41\n__lua__\n<code>\n")
    elif what == "meta":
        cart.meta["title"] = ["one", "two"]; cart.meta["x"] = [""]
        r = pc.write_cart_to_source(cart, sections=["meta:title", "meta:x"])
        ctx.prove("every meta section and line", r.split("\n", 2)[2] == "__meta:title__\none\ntwo\n__meta:x__\n\n")
        ctx.prove("only the asked sections", pc.write_cart_to_source(cart, sections=["meta:x"]).split("\n", 2)[2] == "__meta:x__\n\n")
    else:
        cells = {}
        class Label:
            array = [1 if what == "label" else 0]
            def __getitem__(m, k):
                v = cells.get(k)
                if v is None: v = cells[k] = object()
                return v
        cart.label = Label()
        rows_ = []
        def ext(real, data):
            xs = list(data); rows_.append(xs); return f"<{len(rows_) - 1}>"
        wrap(ctx, "pico_cart", "write_cart_to_source.ext_nybbles", ext)
        r = pc.write_cart_to_source(cart, sections=["label"])
        if what == "nolabel": ctx.prove("no label section", r.split("\n", 2)[2] == ""); return
        ctx.prove("128 rows of 128 cells, in order", len(rows_) == 128 and all(len(r) == 128 and all(c is cells[x, y] for x, c in enumerate(r)) for y, r in enumerate(rows_)))
        ctx.prove("one line each", r.split("\n", 2)[2] == "__label__\n" + "".join(f"<{k}>\n" for k in range(128)))

class Cells:
    """the reader's loop over the cells of a label line"""
    active = False; keep = ("cart", "line", "clean", "y", "header"); extra = ("x",)
    def enter(m, lr, env, names):
        G.ctx.prove("cells are counted from 0", env["x"] == 0)
        ctx = G.ctx
        m.it = lr.it
        return {"x": G.x}
    def more(m, lr): return G.ctx.bool("another cell")
    def next(m, lr): return G.cell
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("the cell is stored at its place", G.sets == [((G.x, G.y), G.cell)] if len(G.sets) != 1 else ctx.and_(G.sets[0][0][0] == G.x, G.sets[0][0][1] == G.y, G.sets[0][1] == G.cell))
        ctx.prove("next cell", env["x"] == G.x + 1)
C_ = Cells()
LABEL_LOOPS = dict(LOOPS); LABEL_LOOPS[("pico_cart", "read_cart_from_source", 7)] = C_

@unit("C05", loops=LABEL_LOOPS)
def label_cell(ctx):
    """an arbitrary cell of the label: its character reads back as its colour, stored at the same place"""
    if not ctx.symbolic: concrete(ctx, "label"); return
    import pico_process, pico_cart as pc
    G.ctx, G.pc = ctx, pc
    G.x, G.y = ctx.int("x", 0, 127), ctx.int("y", 0, 127)
    v = ctx.int("colour", 0, 31)
    texts = []
    class Label:
        array = [1]
        def __getitem__(m, k): return v
    cart = pc.Cart(); cart.label = Label(); cart.version_id = 41
    class Stop(Exception): pass
    def ext(real, data):
        s = real([v]); texts.append(s); raise Stop()     # the text of one cell (a line is the concatenation of its cells' texts)
    wrap(ctx, "pico_cart", "write_cart_to_source.ext_nybbles", ext)
    try: pc.write_cart_to_source(cart, sections=["label"])
    except Stop: pass
    s = ctx.sym.as_symstr(texts[0])
    ctx.prove("one character", len(s.cs) == 1)
    c = s.cs[0]
    ctx.prove("which is no blank, line break or underscore", ctx.or_(ctx.and_(c >= 48, c <= 57), ctx.and_(c >= 97, c <= 122)))
    line = Line("label row")
    def rext(real, l):
        ctx.prove("the cells of this line", l is line)
        xs = list(real(s)); ctx.prove("one cell per character", len(xs) == 1)
        G.cell = xs[0]; ctx.prove("reads back as the colour", G.cell == v)
        return xs
    wrap(ctx, "pico_cart", "read_cart_from_source.ext_nybbles", rext)
    G.sets = []
    class Target:
        def __setitem__(m, k, val): G.sets.append((k, val))
    def check(env): ctx.prove("next row", env["y"] == G.y + 1)
    wrap(ctx, "utils", "MultidimArray", lambda real, *a: Target())
    have = ctx.choose([False, True], "label begun")
    if not have: ctx.replace("pico_cart", "MultidimArray", lambda size, value=None: (ctx.prove("a blank label of the right size", tuple(size) == (128, 128) and value == 0), Target())[1])
    C_.active = True
    try: run_reader("label", G.y, line, check, setup={"label": Target()} if have else {})
    finally: C_.active = False

@unit("C05", params=[0, 1, 5], loops=LOOPS)
def meta_line(ctx, n):
    """a line of a meta section (arbitrary characters other than a line break, not a header): appended unchanged to that section"""
    if not ctx.symbolic: concrete(ctx); return
    import pico_process, pico_cart as pc
    G.ctx, G.pc = ctx, pc
    cs = [ctx.int(f"c{k}", 0, 0xffff) for k in range(n)]
    for c in cs: ctx.assume(c != 10)
    line = ctx.sym.mkstr(cs)
    if n >= 2: ctx.assume(ctx.not_(ctx.and_(cs[0] == 95, cs[1] == 95)))
    y = ctx.int("y", 0, 1 << 20)
    def check(env):
        ctx.prove("one section, one more line", list(env["cart"].meta) == ["x"] and len(env["cart"].meta["x"]) == 2 and env["cart"].meta["x"][0] == "before")
        got = ctx.sym.as_symstr(env["cart"].meta["x"][1])
        ctx.prove("as long", len(got.cs) == n)
        ctx.prove("the line itself", ctx.and_(*[a == b for a, b in zip(got.cs, cs)]))
        ctx.prove("still that section", env["header"] == "meta:x")
    import collections
    run_reader("meta:x", y, line, check, setup={"meta": collections.defaultdict(list, {"x": ["before"]})})
