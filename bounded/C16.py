"""bounded stand-ins for C16: hostile carts written as files; every file-system event of the process is seen (and those outside refused) by
an audit hook before it happens, so nothing outside the scratch directory can be touched"""
import os, sys
from pyver.suite import suite

STATE = dict(on=False, root=None, out=[], events=0)
class Escape(Exception): pass
def hook(ev, args):
    if not STATE["on"]: return
    paths = ()
    if ev == "open":
        p, mode, flags = args
        if isinstance(p, int) or not (isinstance(mode, str) and any(c in mode for c in "wax+") or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))): return
        paths = (p,)
    elif ev in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate", "os.chmod", "os.utime", "os.chown", "shutil.rmtree", "os.chdir"): paths = args[:1]
    elif ev in ("os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile", "shutil.copytree"): paths = args[:2]
    elif ev in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn"): paths = ("/" ,)
    for p in paths:
        if isinstance(p, bytes): p = os.fsdecode(p)
        if not isinstance(p, (str, os.PathLike)): continue
        STATE["events"] += 1
        fd = args[1] if ev in ("os.remove", "os.rmdir") else args[2] if ev == "os.mkdir" else -1
        try: base = os.readlink(f"/proc/self/fd/{fd}") if isinstance(fd, int) and fd >= 0 else os.getcwd()
        except OSError: base = "/"
        a = os.path.normpath(os.path.join(base, os.fspath(p)))
        if not (a == STATE["root"] or a.startswith(STATE["root"] + "/")) and not (ev == "os.mkdir" and STATE["root"].startswith(a + "/")):
            STATE["out"].append((ev, a)); raise Escape(f"{ev} {a}")
INSTALLED = []
def watch(root, f):
    if not INSTALLED: sys.addaudithook(hook); INSTALLED.append(1)
    STATE.update(on=True, root=os.path.abspath(root), out=[])
    cwd = os.getcwd()
    try: f()
    finally: STATE["on"] = False; os.chdir(cwd)
    return list(STATE["out"])

COMP = ("..", ".", "", "a", "b.lua", "...", "..a", " ..", "~", "C:", "..\\x", "\\", "a b", "..;", "%2e%2e", "-", "\u2025", "target", "victim")
def rpath(rng, scratch):
    k = rng.randrange(8)
    if k == 0: return rng.choice((scratch + "/victim/x", scratch + "/victim/", "/", "//", "../victim/x", "../", "..", "a/../../victim/x", "./../victim/", "//" + scratch + "/victim/x", "../target/x", "../target2/", "../target2", "../targetx/"))
    if k == 1: return "../" * rng.randrange(1, 4) + rng.choice(COMP) + rng.choice(("", "/"))
    if k == 2: return rng.choice(("a/", "a//", "a/./", "a/../", "a/..", "a/.", "./", ".", "a//x", "a//x/", "/a", "/a/", "a/b/../../../victim/", "../victim//", ".//", "..//"))
    if k == 3: return scratch + rng.choice(("/victim", "/victim/", "/targetx", "/targetx/", "/target/ok", "/target/../victim/"))
    return "/".join(rng.choice(COMP) for _ in range(rng.randint(1, 4))) + rng.choice(("", "/"))

def build(rng, scratch):
    import picotron_cart as pc, picotron_fs as pf
    cart = pc.Cart64()
    for _ in range(rng.randint(1, 7)):
        p = rpath(rng, scratch)
        if rng.random() < .5:                                   # also the directories that lead there
            parts = p.rstrip("/").split("/")[:-1]
            for k in range(len(parts)): cart.files["/".join(parts[:k + 1]) + "/"] = pf.PicotronDir()
        cart.files[p] = pf.PicotronDir() if p.endswith("/") else pf.PicotronFile(b"data")
    if rng.random() < .5:
        d = list(cart.files.items()); rng.shuffle(d); cart.files = dict(d)
    via = rng.randrange(3)
    if via == 1: cart = pc.read_cart64_from_rom(pc.write_cart64_to_rom(cart, fast_compress=True))
    if via == 2: cart = pc.read_cart64_from_source(pc.write_cart64_to_source(cart))
    return cart
def tree(root):
    return sorted((os.path.relpath(os.path.join(d, x), root), None if x in ds else open(os.path.join(d, x), "rb").read()) for d, ds, fs in os.walk(root) for x in ds + fs)
def scenario(rng, scratch):
    """write a hostile cart to <scratch>/target (of any spelling); returns events outside and whether the bystanders are unchanged"""
    import pico_process, picotron_cart as pc, shutil
    for d in ("victim", "targetx", "target"): shutil.rmtree(os.path.join(scratch, d), ignore_errors=True)
    for d in ("victim", "targetx"):
        os.mkdir(os.path.join(scratch, d)); open(os.path.join(scratch, d, "x"), "w").write("keep")
    cart = build(rng, scratch)
    mode = rng.randrange(4); target = os.path.join(scratch, "target")
    spell = rng.choice((target, target + "/", os.path.join(scratch, "victim", "..", "target"), os.path.join(scratch, ".", "target")))
    if rng.random() < .3: os.makedirs(os.path.join(target, rng.choice(("a", "b.lua", "victim"))))
    def go():
        try:
            if mode == 3:
                import picotron_export as pe
                rom = pc.write_cart64_to_rom(cart, fast_compress=True); s = pe.SysRomExport64(); s.entries = [b"", rom, rom, b"x"]
                os.makedirs(target, exist_ok=True); s.dump_contents(spell, pc.Cart64Format.dir)
            else: pc.write_cart64(spell, cart, pc.Cart64Format.dir, delete_existing=mode == 1)
        except Escape: pass
        except Exception: pass
    bad = watch(target, go)
    bad += [(d, t) for d in ("victim", "targetx") for t in [tree(os.path.join(scratch, d))] if t != [("x", b"keep")]]
    return bad, sorted(cart.files), mode, spell
def attempt(rng):
    import tempfile
    with tempfile.TemporaryDirectory() as t: return scenario(rng, t)[0]

@suite("C16", quick=25, thorough=400, shards=2)
def hostile(rng, i, api):
    """hostile paths, written by the dir format (new, existing or replaced target) and by dumping an export"""
    scratch = os.path.join(api.scratch, "s"); os.makedirs(scratch, exist_ok=True)
    n0 = STATE["events"]
    bad, paths, mode, spell = scenario(rng, scratch)
    api.case((paths, mode, spell))
    api.check(not bad, "nothing outside the target is created, overwritten or deleted", repr(bad[:5]))
    if i > 200: api.check(STATE["events"] > 0, "the audit hook sees the writes")

@suite("C16", quick=5, thorough=60)
def benign(rng, i, api):
    """odd but harmless names are written (the check does not refuse what is inside)"""
    import pico_process, picotron_cart as pc, picotron_fs as pf, shutil
    names = [rng.choice(("..a", "...", "a..", " ..", "~", "-x", "..a/", ".../", "a b")) for _ in range(3)]
    cart = pc.Cart64()
    for n in names:
        if n + "/" in cart.files or n.rstrip("/") in cart.files: continue
        cart.files[n] = pf.PicotronDir() if n.endswith("/") else pf.PicotronFile(b"d")
    api.case(names)
    t = os.path.join(api.scratch, "t"); shutil.rmtree(t, ignore_errors=True)
    pc.write_cart64(t, cart, pc.Cart64Format.dir)
    got = sorted(p + ("/" if d is None else "") for p, d in tree(t))
    api.check(got == sorted(cart.files), "all files are written", got)
