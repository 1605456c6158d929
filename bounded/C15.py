"""bounded stand-ins for C15: whole Picotron carts through every container, and the operations on sets of files"""
import os, re
from pyver.suite import suite
from bounded.C14 import rval, same, data

NAMES = ("main.lua", "a", "b.lua", "gfx", "0.gfx", "x.pod", ".info.pod", "sp ace", "[eoc", "a!b", "[x]", "*", "\xe9\u3042", "...", "label.txt", "readme", "-- x", "version 3", "1.map", "UP.LUA", "b64$", "::", ":: x"[1:], "~", "a.b.c", "%s", "\"q'", "\\n")
PIECES = (b"", b"a=1\n", b"\r\n", b"\r", b"\n", b":: x", b"::", b" :: x\n", b"b64$", b"b64$AAAA", b"version 7\n", b"[eoc]", b":: [eoc]\n", b"\t", b"\x7f", b"\xff", b"\0", b"\x0b", b"\x1c", b"\x85", b"--[[pod]]", b"--[[pod,x=1]]{}", b"picotron cartridge", b"#include x\n", b"p64\2")
def fdata(rng):
    k = rng.randrange(6)
    if k == 0: return b"".join(rng.choice(PIECES) for _ in range(rng.randrange(5)))
    if k == 1: return data(rng)
    if k == 2: return (b"abc d\n" * 60)[:rng.choice((253, 254, 255, 256, 257, 300))]
    if k == 3: return rng.choice(PIECES) + b"print(1)\n" + rng.choice(PIECES)
    if k == 4: return bytes(rng.choice(b"ab \n\t:") for _ in range(rng.randrange(40)))
    return rng.randbytes(rng.choice((57, 58, 113, 114, 115, 1000))) if rng.random() < .7 else b""
def rcart(rng, fs_safe=False, label=False, content=fdata):
    import picotron_cart as pc, picotron_fs as pf
    c = pc.Cart64(); dirs = [""]; c.version_id = rng.choice((2, 2, 1, 3, 200))
    for _ in range(rng.randrange(9)):
        d = rng.choice(dirs); n = rng.choice(NAMES)
        if n == "[eoc]" or n != n.strip(): n = "z"
        p = d + n
        if p in c.files or p + "/" in c.files: continue
        if rng.random() < .3: c.files[p + "/"] = pf.PicotronDir(); dirs.append(p + "/")
        else: c.files[p] = pf.PicotronFile(content(rng))
    if label: c.files["label.qoi"] = pf.PicotronFile(b"notanimage")
    items = list(c.files.items()); rng.shuffle(items); c.files = dict(items)
    return c
def snap(c): return {p: None if f.is_dir else bytes(f.data) for p, f in c.files.items()}
def brief(c): return (c.version_id, sorted((p, None if f.is_dir else f.data[:400]) for p, f in c.files.items()))
def compare(api, got, cart, name, version=True):
    a, b = snap(got), snap(cart)
    api.check(set(a) == set(b), name + ": same paths", repr((sorted(set(a) ^ set(b))))[:500])
    for p in b: api.check(a[p] == b[p], name + ": same contents", repr((p, a[p], b[p]))[:800])
    api.check(all(f.is_dir == p.endswith("/") for p, f in got.files.items()), name + ": directories")
    if version: api.eq(got.version_id, cart.version_id, name + ": version")

@suite("C15", quick=25, thorough=400)
def text_rom(rng, i, api):
    """p64 text and rom, in memory and through files"""
    import pico_process, picotron_cart as pc
    cart = rcart(rng); api.case(brief(cart))
    before = snap(cart)
    ab = rng.random() < .4
    compare(api, pc.read_cart64_from_source(pc.write_cart64_to_source(cart, avoid_base64=ab)), cart, "p64")
    compare(api, pc.read_cart64_from_rom(pc.write_cart64_to_rom(cart, fast_compress=rng.random() < .5, padding=rng.choice((0, 4)))), cart, "rom")
    if i % 8 == 0:
        path = os.path.join(api.scratch, "x"); fmt = rng.choice((pc.Cart64Format.p64, pc.Cart64Format.rom))
        pc.write_cart64(path, cart, fmt)
        compare(api, pc.read_cart64(path, rng.choice((None, fmt, pc.Cart64Format.auto))), cart, str(fmt) + " file")
    api.check(snap(cart) == before, "writing does not change the cart")

@suite("C15", quick=25, thorough=300)
def png(rng, i, api):
    """png: everything is read back from the low bits; a cart without a label gains the picture's"""
    import pico_process, picotron_cart as pc
    cart = rcart(rng, label=rng.random() < .8, content=(lambda r: r.randbytes(r.choice((1000, 30000, 60000)))) if i % 3 == 0 else fdata)
    if i % 4 == 1:
        big = 0x40000 - rng.choice((3000, 2500, 1500)); cart.files = {"label.qoi": pc.PicotronFile(b"notanimage"), "r": pc.PicotronFile(rng.randbytes(big))}
    if rng.random() < .15:
        lab = pc.Surface.create(480, 270); px = lab.pixels
        for k in range(480): px[k, rng.randrange(270)] = (rng.randrange(256), 7, 255, 255)
        cart.files["label.png"] = pc.PicotronFile(lab.save()); cart.files.pop("label.qoi", None)
    api.case(brief(cart))
    had = any(f in cart.files for f in pc.k_label_files)
    try: img = pc.write_cart64_to_image(cart)
    except Exception as ex: api.check("too much compressed space" in str(ex), "refused only for its size", repr(ex)); return
    got = pc.read_cart64_from_image(img)
    if not had:
        extra = [p for p in got.files if p not in cart.files]
        api.check(len(extra) == 1 and extra[0] in pc.k_label_files, "the label is taken from the picture", extra); del got.files[extra[0]]
    compare(api, got, cart, "png")

@suite("C15", quick=20, thorough=300)
def directory(rng, i, api):
    """directories on disk, new or replaced; also after a filter"""
    import pico_process, picotron_cart as pc
    cart = rcart(rng); api.case(brief(cart))
    path = os.path.join(api.scratch, "d%d" % (i % 7))
    if rng.random() < .3:
        pats = [rng.choice(("*.lua", "*", "a/*", "*/a", "!*.pod", "*x*", "gfx/*"))]
        pc.filter_cart64(cart, pats)
        want = {p for p in cart.files}
    pc.write_cart64(path, cart, pc.Cart64Format.dir, delete_existing=True)
    compare(api, pc.read_cart64(path, rng.choice((pc.Cart64Format.dir, pc.Cart64Format.auto, pc.Cart64Format.fs))), cart, "directory", version=False)
    if i % 5 == 0:
        files = [p for p, f in cart.files.items() if not f.is_dir]
        if files:
            p = rng.choice(files); out = os.path.join(api.scratch, "one")
            if os.path.isdir(out): return
            pc.write_cart64(out, cart, pc.Cart64Format.fs, fspath=p)
            api.check(open(out, "rb").read() == cart.files[p].data, "one extracted file")

def glob(pats):
    """! excludes, whatever else matches; otherwise any pattern"""
    import fnmatch
    def m(p):
        if any(x.startswith("!") and fnmatch.fnmatchcase(p, x[1:]) for x in pats): return False
        return any(not x.startswith("!") and fnmatch.fnmatchcase(p, x) for x in pats)
    return m
PATS = ("*", "*.lua", "a/*", "*/a", "!*.pod", "*x*", "gfx/*", "main.lua", "!main.lua", "?", "[ab]*", "!a/*", "*.info.pod", "nothing", "a")
def meta_file(rng):
    import picotron_fs as pf
    k = rng.randrange(4)
    if k == 0: return pf.PicotronFile(fdata(rng).replace(b"--[[pod", b"--[[nod"))
    m = {x: rng.choice((1, "t", "]]", {1: 2})) for x in ("pod_type", "icon", "created", "runtime", "x y", "title") if rng.random() < .4}
    if k == 1:
        m["pod_format"] = "raw"; return pf.PicotronFile.create(fdata(rng).replace(b"--[[pod", b"--[[nod"), m)
    return pf.PicotronFile.create(rval(rng, pf, 2), m)

@suite("C15", quick=20, thorough=300)
def operations(rng, i, api):
    """filter, merge, metadata removal and recompression touch exactly what they select"""
    import pico_process, picotron_cart as pc, picotron_fs as pf
    cart = rcart(rng)
    for p in list(cart.files):
        if not p.endswith("/"): cart.files[p] = meta_file(rng)
    before = snap(cart); pats = [rng.choice(PATS) for _ in range(rng.randint(1, 3))]; sel = glob(pats)
    api.case((brief(cart), pats, i % 4))
    if i % 4 == 0:
        pc.filter_cart64(cart, pats)
        kept = {p for p in before if sel(p)}
        want = {p: d for p, d in before.items() if p in kept or (d is None and any(k.startswith(p) for k in kept))}
        api.check(snap(cart) == want, "filter keeps exactly the selected files and their directories", repr(sorted(set(snap(cart)) ^ set(want))))
    elif i % 4 == 1:
        src = rcart(rng); sb = snap(src); s = rng.choice((None, pats))
        pc.merge_cart64(cart, src, s)
        want = dict(before)
        for p in sb:
            if s is None or sel(p):
                want[p] = sb[p]
                parts = p.rstrip("/").split("/")[:-1]
                for k in range(len(parts)): want.setdefault("/".join(parts[:k + 1]) + "/", None)
        api.check(snap(cart) == want, "merge adds exactly the selected files", repr(sorted(set(snap(cart)) ^ set(want))))
        api.check(snap(src) == sb, "the source cart is left as it was")
    elif i % 4 == 2:
        keys = [rng.choice(("icon", "*", "runtime", "!title", "t*", "nothing")) for _ in range(rng.randint(0, 2))]; ks = glob(keys)
        metas = {p: None if f.is_dir else f.metadata for p, f in cart.files.items()}
        raw = {p: None if f.is_dir else f.is_raw for p, f in cart.files.items()}
        pays = {p: None if f.is_dir else f.raw_payload for p, f in cart.files.items()}
        pc.preproc_meta(cart, pats, keys)
        for p, d in before.items():
            f = cart.files.get(p)
            if d is None or not sel(p): api.check(f is not None and f.data == d, "unselected files are left as they were", p); continue
            m = metas[p]; new = None
            if m is not None:
                new = {k: v for k, v in m.items() if ks(k)} if True else None
                if new: new.update({k: m[k] for k in ("pod_format", "pod_type") if k in m})
                elif raw[p]: new = None
            if not new and p.split("/")[-1] == ".info.pod": api.check(f is None, "metadata-only files without metadata are dropped"); continue
            api.check(f is not None and f.raw_payload == pays[p], "payload is left as it was", p)
            g = pf.PicotronFile(f.data)
            api.check(g.raw_payload == pays[p] and same(g.metadata, new), "metadata is what is kept", repr((p, g.metadata, new))[:500])
            api.check(g.is_raw == raw[p], "raw stays raw")
    else:
        pays = {p: None if f.is_dir else f.payload for p, f in cart.files.items()}
        metas = {p: None if f.is_dir else f.metadata for p, f in cart.files.items()}
        kw = rng.choice((dict(), dict(uncompress_pods=True), dict(need_pod_compression=True), dict(keep_pod_compression=True), dict(uncompress_pods=True, base64_pods=True)))
        kw = dict(kw, delete_label=rng.random() < .3)
        pc.preproc_cart64(cart, **kw)
        for p, d in before.items():
            if kw["delete_label"] and p in pc.k_label_files: api.check(p not in cart.files, "the label is deleted"); continue
            if d is None: api.check(cart.files[p].is_dir, "directories stay"); continue
            g = pf.PicotronFile(cart.files[p].data)
            api.check(same(g.payload, pays[p]), "recompression keeps the payload", repr((p, kw, g.payload, pays[p]))[:800])
            api.check(same(g.metadata, metas[p]), "recompression keeps the metadata", p)
