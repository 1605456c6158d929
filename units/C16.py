"""C16 contracts: every file-system effect of writing a cart as files is at a path that has passed the containment check

write_cart64_to_fs is verified recursively: its precondition is that 'path' is inside the target (true of the target itself); its own effects
are at 'path' (or at a child of it with a plain name), and every recursive call must establish the precondition again: the path has passed
path_is_inside against the parent.  inside() is transitive, so by induction on the recursion nothing outside the target is touched.
path_is_inside is verified for every relative path that os.path.relpath (trusted library) can return."""
from pyver.unit import unit
import os
class G: pass
def PC():
    import pico_process, picotron_cart
    return picotron_cart
class P:
    """a file-system path; 'inside' once it is known to lie in the target"""
    __pv_sym__ = True
    def __init__(m, name, inside): m.name, m.inside = name, inside
    def __repr__(m): return m.name
    def pv_str(m): return m.name
class FsPath:
    """a path in the cart, of any characters"""
    __pv_sym__ = True
    def __init__(m, name): m.name = name
    def startswith(m, p):
        k = ("starts", m.name)
        if k not in G.known: G.known[k] = G.ctx.choose([True, False], "starts")
        return G.known[k]
    def endswith(m, s): return m.is_dir if hasattr(m, "is_dir") else True
    def pv_len(m): return m.len if hasattr(m, "len") else 3
    def __getitem__(m, sl): return Child(m)
    def __bool__(m): return True
    def __add__(m, s): return m
    def __eq__(m, o): return m is o
    def __ne__(m, o): return m is not o
    def __hash__(m): return id(m)
    def pv_str(m): return "?"
class Child:
    """the part of it below the directory being written, of any characters"""
    __pv_sym__ = True
    def __init__(m, of): m.of = of; m.slashes = None
    def count(m, s): 
        if m.slashes is None: m.slashes = G.ctx.int("slashes", 0, 5)
        return m.slashes
    def pv_str(m): return "?"
    def __bool__(m): return True
class Files:
    __pv_sym__ = True
    def items(m): return m
    def get(m, p, d=None): return G.file if G.ctx.choose([True, False], "has_file") else None
class Cart:
    pass
class Loop:
    active = False; keep = ("cart", "path", "is_dir", "fspath", "file", "opts", "delete_existing")
    def enter(m, lr, env, names): return {}
    def more(m, lr): return G.ctx.choose([True, False], "more")
    def next(m, lr): return G.child, G.file
    def end(m, lr, env): pass
L = Loop()

def concrete(ctx):
    import random
    from bounded.C16 import attempt
    bad = attempt(random.Random(ctx.int("seed", 0, 1 << 30)))
    ctx.prove("an effect only at a path known to be inside the target", not bad, repr(bad)[:500])

@unit("C16", params=[True, False, None], loops={("picotron_cart", "write_cart64_to_fs", 0): L})
def guarded(ctx, is_dir):
    """write_cart64_to_fs: any directory, any file, any cart: effects and recursive calls only at contained paths"""
    if not ctx.symbolic: concrete(ctx); return
    pc = PC(); G.ctx, G.known = ctx, {}
    top = ctx.choose([True, False], "top")
    class F: pass
    G.file = F(); G.file.is_dir = ctx.choose([True, False], "file_is_dir"); G.file.data = b"" ; G.child = FsPath("child")
    G.dir = FsPath("dir"); G.dir.is_dir = ctx.choose([True, False], "slash")
    path = P("path", True)
    def join(a, b):
        ctx.prove("joined to the directory being written", a is path)
        r = P("join", False)
        r.plain = isinstance(b, str) and b == "BASENAME"       # a single component: see 'plain_name'
        return r
    def inside(p, base):
        ok = ctx.choose([True, False], "inside")
        if ok and isinstance(base, P) and base.inside and isinstance(p, P): p.inside = True
        return ok
    def effect(p, *a, **k):
        ctx.prove("an effect only at a path known to be inside the target", p.inside or getattr(p, "plain", False))
    def mkdir(p, delete_existing=False):
        effect(p); ctx.prove("existing files are deleted only where the caller asked for it", not delete_existing or (top and p is path))
    ctx.replace("picotron_cart", "path_join", join); ctx.replace("picotron_cart", "path_basename", lambda p: "BASENAME")
    ctx.replace("picotron_cart", "path_is_dir", lambda p: ctx.choose([True, False], "exists_as_dir"))
    ctx.contract("utils", "path_is_inside", inside)
    ctx.replace("picotron_cart", "dir_create", mkdir); ctx.replace("picotron_cart", "file_write", effect)
    class Check(Exception): pass
    def check(c, *a):
        if not c: raise Check
    ctx.replace("picotron_cart", "check", check)
    real = pc.write_cart64_to_fs; depth = [0]
    def rec(cart, p, is_dir=None, fspath=None, delete_existing=False, **opts):
        if depth[0] == 0:
            depth[0] = 1
            return pc_call(cart, p, is_dir, fspath, delete_existing, opts)
        ctx.prove("a recursive call only for a path that was found to be inside", p.inside)
        ctx.prove("nothing is deleted in recursive calls", not delete_existing)
    def pc_call(cart, p, is_dir, fspath, delete_existing, opts):
        return real(cart, p, is_dir, fspath, delete_existing, **opts)
    ctx.contract("picotron_cart", "write_cart64_to_fs", lambda *a, **k: rec(*a, **k))
    cart = Cart(); cart.files = Files()
    depth[0] = 1
    L.active = True
    try:
        try: real(cart, path, is_dir, None if top else G.dir, **({"delete_existing": True} if top else {}))
        except Check: pass
    finally: L.active = False

@unit("C16", params=list(range(8)))
def inside_rule(ctx, n):
    """path_is_inside: for every relative path of n characters that relpath can return, the answer is 'not .. and not below ..'"""
    import utils
    if ctx.symbolic:
        cs = [ctx.int(f"c{k}", 1, 0x10ffff) for k in range(n)]; rel = ctx.sym.mkstr(cs)
    else: rel = "".join(ctx.choose(["/", ".", "a", ".."], f"c{k}") for k in range(n))
    fails = ctx.choose([False, True], "fails")
    def rp(p, base=None, fallback=True):
        ctx.prove("relative to the base; errors are not hidden", p == "P" and base == "B" and not fallback)
        if fails: raise ValueError
        return rel
    if ctx.symbolic:
        ctx.contract("utils", "path_relative", rp)
        r = utils.path_is_inside("P", "B")
        up = ctx.or_(n == 2 and ctx.and_(cs[0] == 46, cs[1] == 46), n > 2 and ctx.and_(cs[0] == 46, cs[1] == 46, cs[2] == 47))
        ctx.prove("inside exactly if the relative path does not go up", (r is False) if fails else (ctx.not_(up) if r else up))
    else:
        p = "/t/base/" + rel; want = os.path.normpath(p); want = want == "/t/base" or want.startswith("/t/base/")
        ctx.prove("inside exactly if the relative path does not go up", utils.path_is_inside(p, "/t/base") == want)

@unit("C16")
def plain_name(ctx):
    """lemma of the 'good default': a child that passed the check and is written below a directory of its own name has a plain name.
    All names of up to 4 characters over '.', '/', a letter and backslash (posixpath looks at no other distinction)"""
    import itertools
    pc = PC(); import utils
    bad = []
    for n in range(1, 6):
        for t in itertools.product("./a\\", repeat=n):
            c = "".join(t); base = "/t/base"
            p = os.path.join(base, c)
            norm = os.path.normpath(p)
            want = norm == base or norm.startswith(base + "/")
            if utils.path_is_inside(p, base) != want: bad.append(("check", c))
            if want and "/" not in c:
                q = os.path.normpath(os.path.join(p, os.path.basename(c)))
                if not (q == base or q.startswith(base + "/")): bad.append(("default", c))
    ctx.prove("contained", not bad, repr(bad[:5]))
