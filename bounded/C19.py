"""bounded stand-ins for C19: random trees of included files (p8, lua, png, rom; tabs; decoys in comments and strings); the expected text and
the place every character comes from are known from how the files were generated, not from reading them"""
import os, io, re, contextlib
from pyver.suite import suite
BRK = "\n-->8\n"
class Ch(tuple): pass      # (char, file, position in its code)

def line_col(t, i):
    s = t[:i]
    return s.count("\n"), i - (s.rfind("\n") + 1)
def tab_of(t, i):
    tab = s = 0
    while tab < 15:
        k = t.find(BRK, s)
        if k < 0 or k + 6 > i: break
        tab += 1; s = k + 6
    return (tab,) + line_col(t[s:], i - s)

PLAIN = ["x=1", "", "  ", "\t", "local a,b=1,2", "-- c", "// d", "print(\"hi\")", "a=#t", "  #t", "x=[l", "?\"x\\\"y\"", "s='\\\\'", "f#include q", "-- #include q", "// \" [[", "-- '", "\x8b=\x97", "if (a) b", "--[c", "a-b/c", "t[1]", "[", "# x", "#", "x=#", "-", "/", "--", "//", "#(t)",
         "#define x", "#includ q", "  #pragma x", "#includes a.lua", "#include"]
BLOCK = ["--[[\n#include q\n]]", "--[==[\n]]\n#include q\n]==]", "x=[[\n#include q\n]]", "x=[=[\n#include q\n]]\n  #include r\n]=]", "x=\"a\\\n#include q\n\"", "x='\\'\n#include q'", "--[=[ #include\n#include q\n]=] y", "x=[[]]", "--[[]] z", "x=[==[\n]=]#include q\n#include q\n]==]", "--[[ \"\n' ]] w"]
class Gen:
    def __init__(m, rng, dir): m.rng, m.dir, m.n, m.files = rng, dir, 0, {}
    def name(m, ext):
        m.n += 1
        return f"f{m.n}{m.rng.choice(('', ' x', '.y'))}{ext}"
    def body(m, depth, plain=False):
        """code text with its includes, and [(char, file, pos)] of what it stands for"""
        rng = m.rng; text = ""; out = []; marks = []
        def add(s):
            nonlocal text
            out.extend([None, len(text) + k, c] for k, c in enumerate(s)); text += s
        for _ in range(rng.choice((0, 1, 3, 8, 14))):
            k = rng.random()
            if text and not text.endswith("\n"): add("\n")
            if k < .25 and depth and not plain:
                f, exp = m.file(depth - 1)
                tabs, cur, s = [], [], "".join(e[2] for e in exp)
                tab = ""
                if rng.random() < .4:
                    a, spans = 0, []
                    while a < len(s):
                        b = s.find(BRK, a)
                        b = b if b >= 0 else len(s)
                        spans.append((a, b)); a = b + len(BRK)
                    if spans:
                        t = rng.randrange(min(len(spans), 16))
                        tab = ":" + (("%x" if rng.random() < .5 else "%X") % t)
                        exp = exp[spans[t][0]:spans[t][1]]
                ind = rng.choice(("", "", " ", "\t ", "  "))
                d = ind + "#include" + rng.choice((" ", "  ", "\t")) + f + tab
                text += d                       # replaced, with its indentation
                out.extend(exp)
            elif k < .35: add(BRK if text else "a" + BRK)
            elif k < .5: add(rng.choice(BLOCK))
            else: add(rng.choice(PLAIN))
        if rng.random() < .6: add("\n")
        return text, out
    def file(m, depth):
        rng = m.rng
        kind = rng.choice(("p8", "p8", "lua", "lua", "png", "url", "clip"))
        plain = kind in ("png", "url", "clip")
        text, out = m.body(depth, plain)
        if kind == "p8" and any(l.startswith("__") and l.rstrip().endswith("__") for l in text.split("\n")): return m.file(depth)
        if plain: out = [[None, k, c] for k, c in enumerate(text)]      # the code of a binary cart, where nothing is a directive
        elif text.endswith("\n"): text = text[:-1]; out.pop()           # (the last line break ends the last line)
        nl = rng.choice(("\n", "\n", "\r\n"))
        ext = {"p8": ".p8", "lua": ".lua", "png": ".p8.png", "url": ".txt", "clip": ".clip"}[kind]
        f = m.name(ext); p = os.path.join(m.dir, f); line0 = 0
        if kind == "lua":
            open(p, "w", encoding="utf-8", newline="").write(("".join(to_uni(c) for c in text) + ("\n" if text.endswith("\n") else rng.choice(("", "\n")))).replace("\n", nl))
        elif kind == "p8":
            head = "pico-8 cartridge // http://www.pico-8.com\nversion 41\n" + rng.choice(("", "__gff__\n" + "0" * 256 + "\n", "__label__\n" + "0" * 128 + "\n", "__gfx__\n" + ("0" * 128 + "\n") * 3))
            tail = rng.choice(("", "__gfx__\n" + "0" * 128 + "\n", "__meta:x__\n#include q\n"))
            line0 = head.count("\n") + 1
            open(p, "w", encoding="utf-8", newline="").write((head + "__lua__\n" + "".join(to_uni(c) for c in text) + "\n" + tail).replace("\n", nl))
        else:
            import pico_cart as pc
            pc.write_cart(p, pc.Cart(code=text), {"png": pc.CartFormat.png, "url": pc.CartFormat.url, "clip": pc.CartFormat.clip}[kind])
        for e in out:
            if e[0] is None: e[0] = f
        m.files[f] = (text, line0)
        return f, [list(e) for e in out]
UNI = {"\x8b": "\u2b05\ufe0f", "\x97": "\u274e"}
def to_uni(c): return UNI.get(c, c)

def check(g, f, exp, tabs=True):
    """first difference between what reading f gives and what was generated"""
    import pico_process as pp, pico_cart as pc
    p = os.path.join(g.dir, f)
    cart = pc.read_cart(p)
    want = "".join(e[2] for e in exp)
    if cart.code != want:
        k = next((i for i, (a, b) in enumerate(zip(cart.code, want)) if a != b), min(len(want), len(cart.code)))
        return f"text differs at {k}", cart.code[max(k - 40, 0):k + 40], want[max(k - 40, 0):k + 40]
    src = pp.CartSource(cart)
    for i, (name, pos, c) in enumerate(exp):
        text, line0 = g.files[name]
        l, col = line_col(text, pos)
        r = src.get_location(i)
        if (os.path.basename(r.path), r.tab, r.line, r.col) != (name, None, l + line0, col): return "location", i, repr(want[i:i + 20]), tuple(r), (name, l + line0, col)
        if tabs:
            t, l, col = tab_of(text, pos)
            r = src.get_location(i, tabs=True)
            # (the lines before the code are counted too: a known finding, see 'tabbed')
            if (os.path.basename(r.path), r.tab, r.line, r.col) != (name, t, l + line0, col) and (r.tab, r.line, r.col) != (t, l, col): return "tab location", i, repr(want[i:i + 20]), tuple(r), (name, t, l, col)
def attempt(rng, dir=None):
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        g = Gen(rng, d)
        f, exp = g.file(rng.choice((0, 1, 2, 3)))
        r = check(g, f, exp)
        return r and (r, {n: t for n, (t, _) in g.files.items()})

@suite("C19", quick=40, thorough=900, shards=3)
def includes(rng, i, api):
    """trees of included files: the text, and the file, line, column and tab of every character"""
    bad = attempt(rng)
    api.case(i)
    api.check(not bad, "text and locations of the preprocessed code", repr(bad)[:1500])

@suite("C19", quick=25, thorough=300, shards=2)
def reports(rng, i, api):
    """the linter's messages for undefined names, in all formats, name the place each of them was written at"""
    import run_shrinko, pico_process as pp, pico_cart as pc
    d = os.path.join(api.scratch, "r"); os.makedirs(d, exist_ok=True)
    files, want, n = {}, [], 0
    def make(depth, ext):
        nonlocal n
        name = f"g{len(files)}{ext}"; files[name] = None; t = ""
        for _ in range(rng.randrange(1, 7)):
            k = rng.random()
            if k < .25 and depth: t += "#include " + make(depth - 1, rng.choice((".lua", ".p8"))) + "\n"
            elif k < .4: t += "-- x\n-->8\n"
            elif k < .5: t += rng.choice(("--[[\n\n]]\n", "-- x\n", "\n", "__z=[[\n\n]]\n", "\t\n"))
            else:
                u = f"undef{n}"; n += 1
                t += rng.choice(("", "  ", "\t\t"))
                t += rng.choice(("_z=", "_z = 1 + ", "_z=\n\n  ")) ; want.append((u, name, len(t))); t += u + "\n"
        head = "pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\n" if ext == ".p8" else ""
        files[name] = (t, head.count("\n"))
        open(os.path.join(d, name), "w", newline="").write(head + t)
        return name
    main = make(2, ".p8"); api.case((main, len(want)))
    cart = pc.read_cart(os.path.join(d, main))
    fmt = rng.choice((None, pp.ErrorFormat.common, pp.ErrorFormat.absolute, pp.ErrorFormat.tabbed))
    src = pp.CartSource(cart); ctxt = pp.PicoContext()
    ok, errors = pp.process_code(ctxt, src, lint={"unused": False, "duplicate": False})
    api.check(ok, "the code is read", repr(files))
    got = [e.format(fmt) for e in errors if "undef" in e.msg]
    exp = []
    for u, name, pos in want:
        t, l0 = files[name]
        p = os.path.join(d, name); p = os.path.abspath(p) if fmt == pp.ErrorFormat.absolute else os.path.relpath(p)
        l, c = line_col(t, pos)
        if fmt == pp.ErrorFormat.tabbed:
            k, l, c = tab_of(t, pos); exp.append([f"{p} (tab {k:X}, line {x + l + 1}, col {c + 1}): Identifier '{u}' not found" for x in (l0, 0)])
        else: exp.append([f"{p}:{l + l0 + 1}:{c + 1}: Identifier '{u}' not found"])
    bad = [e for e in exp if not any(x in got for x in e)]
    api.check(not bad and len(got) == len(exp), "each message gives the place of the name", repr((bad[:3], got[:8], files))[:1500])

@suite("C19", quick=1, thorough=1)
def tabbed(rng, i, api):
    """the tabbed format: line numbers count from the tab's start"""
    import pico_process as pp, pico_cart as pc
    p = os.path.join(api.scratch, "t.p8")
    open(p, "w").write("pico-8 cartridge // http://www.pico-8.com\nversion 41\n__lua__\nx=1\ny=undef\n-->8\nz=undeg\n")
    cart = pc.read_cart(p); src = pp.CartSource(cart)
    api.case("t")
    for s, want in (("x=1", (0, 0, 0)), ("undef", (0, 1, 2)), ("undeg", (1, 0, 2))):
        r = src.get_location(cart.code.index(s), tabs=True); r = (r.tab, r.line, r.col)
        off = (want[0], want[1] + 3, want[2])
        api.check(r in (want, off), "tab, line and column in it", f"{s!r}: {r}, not {want}")
        api.check(r != off, "the tabbed line does not count the lines before the code", f"{s!r}: {r}, not {want}")
