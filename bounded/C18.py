"""bounded stand-ins for C18: random edits of js, pod, sysrom, html and full exports, compared with a plain model of the export"""
import os, re, struct
from pyver.suite import suite

NAMES = ("a.p8", "b", "game", "x,y.p8", "a]b", "[z", "it's", 'q"q', "b`t", "back\\slash", "\\x2c", "${v}", " sp ", "\u3042", "n" * 0x20, "0", "var _cartname=[", ",", "d.p8.png", "#", "\\", "é\u200b", "A.P8", "a.P8")
def rcart(rng, name=""):
    import pico_process, pico_cart as pc
    c = pc.Cart(name=name, code="".join(rng.choice("abcdefgh =1\n,]`[") for _ in range(rng.choice((0, 1, 20, 200)))))
    for _ in range(rng.randrange(20)): c.rom[rng.randrange(0x4300)] = rng.randrange(256)
    return c
def rcart64(rng):
    import pico_process, picotron_cart as pc
    c = pc.Cart64()
    for n in rng.sample(("main.lua", "a.txt", "b/", "b/c", "x.pod"), rng.randint(1, 4)):
        c.files[n] = pc.PicotronDir() if n.endswith("/") else pc.PicotronFile(rng.randbytes(rng.choice((0, 1, 30, 255, 300))))
    return c
def rom(c):
    import pico_cart; return pico_cart.write_cart_to_rom(c)

# ------------------------------------------------------------ independent readers of the formats
def js_model(text):
    """names and roms of a js export, and the text around them, as javascript sees it"""
    a = re.search(r"var\s+_cartname\s*=\s*\[", text).end()
    i, names = a, []
    while text[i] != "]":
        if text[i] in " ,\n\t\r": i += 1; continue
        q = text[i]; assert q in "`'\"", ("quote", text[i:i + 20]); i += 1; s = ""
        while text[i] != q:
            if text[i] == "\\":
                if text[i + 1] == "x": s += chr(int(text[i + 2:i + 4], 16)); i += 4
                else: s += text[i + 1]; i += 2
            else:
                assert not (q == "`" and text[i:i + 2] == "${"), "template"
                s += text[i]; i += 1
        i += 1; names.append(s)
    b = i; m = re.compile(r"var\s+_cartdat\s*=\s*\[").search(text, b); c = m.end(); d = text.index("]", c)
    body = text[c:d].strip(); data = bytes(int(x) for x in body.split(",")) if body else b""
    return names, [data[k:k + 0x8000] for k in range(0, len(data), 0x8000)], (text[:a], text[b:c], text[d:])
def pod_model(data):
    assert data[:4] == b"CPOD"; hs, one = struct.unpack_from("<II", data, 4); n, = struct.unpack_from("<I", data, 0x2c); at = 0x4c; out = []
    for _ in range(n):
        h = data[at:at + 4]; size, = struct.unpack_from("<I", data, at + 8 if h in (b"CFIL", b"cFIL") else at + 4)
        if h == b"CFIL": name = data[at + 12:at + 76].split(b"\0")[0].decode(); end = at + 76 + size; out.append((h, name, data[at + 76:end]))
        elif h == b"cFIL":
            name = data[at + 12:at + 76].split(b"\0")[0].decode(); cs, = struct.unpack_from("<I", data, at + 76); end = at + 80 + cs; out.append((h, name, data[at + 80:end]))
        elif h == b"CBMP": end = at + 8 + size; out.append((h, None, data[at + 8:end]))
        elif h == b"cBMP": cs, = struct.unpack_from("<I", data, at + 28); end = at + 32 + cs; out.append((h, None, data[at + 8:end]))
        elif h == b"CPAL": end = at + 8 + size; out.append((h, None, data[at + 8:end]))
        else: raise AssertionError(("header", h))
        assert end <= len(data), "truncated"; at = end
    assert at == len(data), "trailing bytes"
    return data[:0x2c] + data[0x30:0x4c], out
def sys_model(data):
    out, at = [], 0
    while at < len(data):
        n, = struct.unpack_from(">I", data, at); out.append(data[at + 4:at + 4 + n]); at += 4 + n
    assert at == len(data); return out

def some(rng):
    """names of the carts of an export: mostly few, sometimes as many as one can hold, or more"""
    r = rng.sample(("first.p8", "two", "three.p8"), rng.randrange(4))
    return r + [f"c{k}.p8" for k in range(rng.choice((12, 14, 16, 17)))] if rng.random() < .03 else r
def new_js(rng):
    import pico_process, pico_export as pe
    nl = rng.choice(("\n", "\r\n")); names = some(rng); q = rng.choice("`'\"")
    roms = [rom(rcart(rng)) for _ in names]
    data = ",".join(str(b) for r in roms for b in r)
    return pe.JsExport(f"// head [1,2] é{nl}var _cartname{rng.choice(('=', ' = '))}[" + rng.choice((", ", ",", "," + nl)).join(q + n + q for n in names) + f"];{nl}var _cdpos=0; var iii=0;{nl}var _cartdat=[{rng.choice(('', nl))}{data}];{nl}fileData0.push.apply(fileData0, [1,2,3]);{nl}x=[`a,b`]")
def new_pod(rng):
    import pico_process, pico_export as pe
    p = pe.PodFile.create(rng.choice((None, "nm")))
    p.append_content("", b"boot" * rng.randrange(3))
    if rng.random() < .6: p.append_content(None, pe.Surface.create(4, 3, pe.PixelFormat.bgra8), compress=rng.random() < .5)
    if rng.random() < .3: p.append_content(None, p.default_palette)
    for n in some(rng): p.append_content(n, rom(rcart(rng)), compress=rng.random() < .2)
    if rng.random() < .3: p.append_content("", b"tail")
    return pe.PodExport(bytes(p.data))
def state(kind, ex):
    """(carts, everything else)"""
    if kind == "js":
        names, roms, rest = js_model(ex.text); return list(zip(names, roms)), rest
    head, es = pod_model(bytes(ex.data))
    import pico_export
    un = lambda h, d: pico_export.lz4_uncompress(d) if h == b"cFIL" else d
    return [(n, un(h, d)) for h, n, d in es if n], (head, [(k - sum(1 for x in es[:k] if x[1]), e) for k, e in enumerate(es) if not e[1]])
def reread(kind, ex):
    import pico_export as pe
    return pe.JsExport(ex.text) if kind == "js" else pe.PodExport(bytes(ex.data))
def edits(rng, kind, must=None, steps=6):
    """random edits; None or a description of what went wrong"""
    import pico_process, pico_export as pe, pico_cart as pc, utils
    ex = new_js(rng) if kind == "js" else new_pod(rng)
    carts, rest = state(kind, ex)
    for step in range(rng.randint(1, steps)):
        op = must if must and must != "read" and step == 0 else rng.choice(("insert", "insert", "replace", "delete", "rename", "reread", "read"))
        names = [n for n, _ in carts]; before = list(carts); want = list(carts)
        pick = rng.choice(names + ["missing"] + names[-1:] * (len(names) > 9) * len(names)) if names and rng.random() < .9 else None
        if op == "reread": ex = reread(kind, ex); got = state(kind, ex)
        elif op == "read":
            for n, r in carts:
                c = ex.read_cart(n); ref = pc.read_cart_from_rom(r)
                if bytes(c.rom) != bytes(ref.rom) or c.code != ref.code: return ("read", n)
            got = state(kind, ex)
        else:
            cart = rcart(rng, rng.choice(NAMES)); new = rng.choice(NAMES); args = {}
            try:
                if op == "insert":
                    n = rng.choice((new, new, None)); tgt = rng.choice((pick, None))
                    final = n if n is not None else cart.name
                    ok = final not in names and tgt in names + [None]
                    if ok: want.insert(names.index(tgt) if tgt is not None else len(names), (final, rom(cart)))
                    ex.write_cart(cart, n, rng.choice((pe.ListOp.insert, None)), tgt)
                else:
                    n = pick if pick is not None else (names[0] if names else None); ok = n in names; k = names.index(n) if ok else None
                    if op == "replace":
                        if ok: want[k] = (n, rom(cart))
                        ex.write_cart(cart, pick, pe.ListOp.replace)
                    elif op == "delete":
                        if ok: del want[k]
                        ex.write_cart(None, pick, pe.ListOp.delete)
                    else:
                        ok = ok and new not in names
                        if ok: want[k] = (new, want[k][1])
                        ex.write_cart(None, pick, pe.ListOp.rename, new)
                if not ok: return (op, "not refused", pick, new)
            except utils.CheckError:
                if ok: return (op, "refused", pick, new)
                want = before
            try: got = state(kind, ex)
            except Exception as e: return (op, "broken export", repr(e), pick, new, names)
        if got != (want, rest): return (op, pick, [n for n, _ in got[0]], [n for n, _ in want], got[1] == rest, got[0] == want)
        again = reread(kind, ex)
        if list(again.list_carts()) != [n for n, _ in want] or (state(kind, again) != (want, rest)): return (op, "reread", list(again.list_carts()))
        if list(ex.list_carts()) != [n for n, _ in want]: return (op, "list", list(ex.list_carts()))
        carts = want
    return None
def edits64(rng, kind):
    import pico_process, picotron_export as pe, picotron_cart as pc
    if kind == "sysrom":
        entries = [rng.randbytes(rng.choice((0, 1, 300))) for _ in range(rng.choice((0, 1, 2, 3, 5, 9)))]
        data = b"".join(struct.pack(">I", len(x)) + x for x in entries)
        s = pe.SysRomExport64(data)
        if s.to_bytes() != data or sys_model(s.to_bytes()) != entries: return ("unedited",)
        for _ in range(2):
            cart = rcart64(rng); s.set_cart(cart)
            want = (entries + [b""] * 3)[:max(len(entries), 3)]; got = sys_model(s.to_bytes())
            if len(got) != len(want) or any(a != b for k, (a, b) in enumerate(zip(got, want)) if k != 2): return ("other entries",)
            back = pe.SysRomExport64(s.to_bytes()).get_cart()
            if {p: f.data for p, f in back.files.items()} != {p: f.data for p, f in cart.files.items()}: return ("cart",)
            entries = got
        return None
    nl = rng.choice(("\n", "\r\n")); pre, post = f'<html>{nl}p64cart_str=x "a" p64cart_st="', f';{nl}"q"; p64cart_str="zz' + rng.choice(("", '"'))
    h = pe.HtmlExport64(pre + 'p64cart_str="' + rng.choice(("", "00ff")) + '"' + post)
    for _ in range(2):
        cart = rcart64(rng); h.set_cart(cart)
        if not (h.text.startswith(pre + 'p64cart_str="') and h.text.endswith('"' + post)): return ("text",)
        back = pe.HtmlExport64(h.text).get_cart()
        if {p: f.data for p, f in back.files.items()} != {p: f.data for p, f in cart.files.items()}: return ("cart",)
    return None
def session(rng, kinds, must=None):
    for kind in kinds:
        bad = edits(rng, kind, must, 3) if kind in ("js", "pod") else edits64(rng, kind)
        if bad: return (kind,) + tuple(bad)

@suite("C18", quick=25, thorough=400, shards=2)
def p8(rng, i, api):
    """random edits of js and pod exports against independent readers of the formats"""
    kind = ("js", "pod", "pod")[i % 3]; api.case((kind, i, rng.random()))
    bad = edits(rng, kind)
    api.check(not bad, kind + ": only what was asked for changes", repr(bad)[:600])

@suite("C18", quick=8, thorough=100)
def p64(rng, i, api):
    """sysrom and html exports"""
    kind = ("sysrom", "html")[i % 2]; api.case((kind, i, rng.random()))
    bad = edits64(rng, kind); api.check(not bad, kind + ": only the cart changes", repr(bad)[:600])

def fake_dat(rng):
    """a pico8.dat with just the files that exports need"""
    import pico_export as pe, pico_cart as pc
    def pod(files):
        p = pe.PodFile.create("p")
        for n, c in files: p.append_content(n, c, compress=isinstance(c, pe.Surface) and rng.random() < .5)
        return bytes(p.data)
    bmp = lambda fmt=pe.PixelFormat.i8: pe.Surface.create(64, 2, fmt)
    js = lambda s: f"// {s}\nfileData0.push.apply(fileData0, [1,2]);\n".encode()
    exe = bytearray(0x40) + b"PE\0\0" + struct.pack("<HHIIIHH", 0, 1, 0, 0, 0, 0xe0, 0) + struct.pack("<H", 0x10b) + bytes(110) + struct.pack("<I", 0x9000) + bytes(0xe0 - 116) + bytes(40); exe[0:2] = b"MZ"; exe[0x3c:0x40] = struct.pack("<I", 0x40)
    exe += b"<?xml %s <key>CFBundleExecutable</key>\0"
    D = pe.PodFile.create("dat")
    D.append_content("pod/pico8_boot.p8", pc.write_cart_to_source(pc.Cart(code="boot")).encode())
    D.append_content("pod/gfx1.pod", pod([("", bmp()) for _ in range(8)]))
    D.append_content("pod/f_pico8.pod", pod([("f.txt", b"hello"), ("g", b"")]))
    D.append_content("pod/f_html5.pod", pod([("src/shell.html", b"<##js_file##>##label_file##"), ("src/pico8.js", js("js")), ("src/pico8_wasm.js", js("pico8_wasm.wasm")), ("src/pico8_wasm.wasm", b"\0asm")]))
    D.append_content("pod/f_bin.pod", pod([("bin/pico8.exe", bytes(exe)), ("bin/SDL2.dll", b"dll"), ("bin/pico8_dyn.amd64", b"elf"), ("builds/pi_builds/pico8_player", b"pi"), ("builds/pi_builds/pico8_player.64", b"pi64"), ("builds/osx_builds/pico8.icns", b"icns"), ("builds/osx_builds/pico8_player", b"mac"), ("builds/osx_builds/sdl2_framework.pod", pod([("./", b""), ("./a.dll", b"dl"), ("./_CodeSignature", b"n"), ("", b"u")]))]))
    return D

@suite("C18", quick=15, thorough=200)
def full(rng, i, api):
    """creating js, pod and full (bin) exports from a synthetic pico8.dat, with extra carts, and reading them back from disk"""
    import pico_process, pico_export as pe, pico_cart as pc, shutil, io, zipfile
    D = fake_dat(rng); fmt = (pc.CartFormat.bin, pc.CartFormat.js, pc.CartFormat.pod)[i % 3]
    names = rng.sample([n for n in NAMES if "/" not in n], 3); carts = [rcart(rng, n) for n in names]; api.case((str(fmt), names, i))
    want = [(n, rom(c)) for n, c in zip(names, carts)]
    path = os.path.join(api.scratch, "exp"); shutil.rmtree(path, ignore_errors=True)
    if os.path.isfile(path): os.remove(path)
    pe.write_to_cart_export(path, carts[0], fmt, extra_carts=carts[1:], export_name="my game", pico_dat=D)
    def look(kind, ex, what):
        got, _ = state(kind, ex); api.check(got == want, what + ": every cart under its name", repr([n for n, _ in got]))
        api.check(list(ex.list_carts()) == names, what + ": listed")
    if fmt != pc.CartFormat.bin:
        kind = str(fmt); ex = pe.read_cart_export(path, fmt); look(kind, ex, kind)
        before = open(path, "rb").read(); pe.write_cart_export(path, ex); api.check(open(path, "rb").read() == before, "an unedited export is unchanged")
        one = pe.read_from_cart_export(path, fmt, names[1]); ref = pc.read_cart_from_rom(want[1][1]); api.check(bytes(one.rom) == bytes(ref.rom) and one.code == ref.code, "the cart that was put in")
        extra = []; main = pe.read_from_cart_export(path, fmt, extra_carts=extra)
        api.check([c.code for c in [main] + extra] == [c.code for c in carts], "all carts, in order")
        new = rcart(rng, "new"); pe.write_to_cart_export(path, new, fmt, cart_name=names[2], cart_op=pe.ListOp.replace, target_export=pe.read_cart_export(path, fmt))
        want[2] = (names[2], rom(new)); look(kind, pe.read_cart_export(path, fmt), kind + " edited on disk")
        return
    files = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f); data = open(p, "rb").read(); files[os.path.relpath(p, path)] = data
            if f.endswith(".zip"):
                with zipfile.ZipFile(io.BytesIO(data)) as z:
                    for n in z.namelist(): files[os.path.relpath(p, path) + "!" + n] = z.read(n)
    pods = [n for n in files if n.endswith("data.pod")]; jss = [n for n in files if n.endswith(".js")]
    api.check(len(pods) == 4 and len(jss) == 2, "a pod for each of the four systems and two js files", repr(sorted(files)))
    for n in pods: look("pod", pe.PodExport(files[n]), n)
    for n in jss: look("js", pe.JsExport(files[n].decode()), n)
    by = {n.split("/")[-1]: d for n, d in files.items()}
    api.check(by["SDL2.dll"] == b"dll" and by["my game.wasm"] == b"\0asm" and by["my game.64"] == b"pi64" and files["my game_linux.zip!my game_linux/my game"] == b"elf", "the players are copied as they are")
