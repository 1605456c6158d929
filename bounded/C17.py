"""bounded stand-ins for C17: sequences of memory operations against a plain list of bytes; merge_cart on real carts"""
from pyver.suite import suite
from pyver.real import constants_pool

def pick(rng, hi):
    """a number in [0, hi], often special"""
    k = rng.random()
    if k < .3: v = rng.randint(0, hi)
    elif k < .5: v = rng.choice((0, 1, 2, hi, hi - 1, hi // 2))
    elif k < .75: v = rng.choice(constants_pool()) + rng.choice((-1, 0, 0, 1))
    else: v = (1 << rng.randrange(15)) * rng.randint(1, 4) + rng.choice((-1, 0, 0, 0, 1))
    return min(max(v, 0), hi)

@suite("C17", quick=10, thorough=600, shards=2)
def memory_histories(rng, i, api):
    """any sequence of Memory operations equals the same operations on a list of bytes"""
    from pico_defs import Memory, mem_create_rom
    n = rng.choice((0x4300, 0x4300, 0x8000, 0x100, 9))
    m = Memory(rng.randbytes(n)); o = Memory(rng.randbytes(n)); ref, oref = list(m), list(o)
    log = []
    for _ in range(60):
        op = rng.choice(("set8", "set16", "set32", "set4", "bits", "set_block", "copy", "copy_other", "copyfrom", "fill", "cmp", "get"))
        w = {"set16": 2, "set32": 4}.get(op, 1)
        a = pick(rng, n - w)
        log.append((op, a)); api.case(log)
        if op in ("set8", "set16", "set32"):
            v = rng.getrandbits(8 * w) if rng.random() < .8 else rng.choice((0, (1 << 8 * w) - 1, 1 << (8 * w - 1)))
            getattr(m, op)(a, v); ref[a:a + w] = v.to_bytes(w, "little")
            api.eq(getattr(m, "get" + op[3:])(a), v, "read back")
        elif op == "set4":
            h, v = rng.randrange(2), rng.randrange(16)
            m.set4((a, h), v); ref[a] = (ref[a] & (0x0f if h else 0xf0)) | (v << 4 if h else v)
            api.eq(m.get4((a, h)), v, "read back")
        elif op == "bits":
            sh = rng.randrange(8); wd = rng.randint(1, 8 - sh); mask = (1 << wd) - 1; v = rng.getrandbits(wd)
            m.set8_bits(a, sh, mask, v); ref[a] = (ref[a] & ~(mask << sh)) | (v << sh)
            api.eq(m.get8_bits(a, sh, mask), v, "read back")
        elif op == "get":
            c = pick(rng, n - a); api.eq(bytes(m.get_block(a, c)), bytes(ref[a:a + c]), "get_block")
        else:
            b = pick(rng, n)
            if op == "copy" and rng.random() < .5: b = min(max(a + rng.choice((-1, 1)) * pick(rng, n // 2), 0), n)
            c = pick(rng, n - max(a, b)); log[-1] += (b, c)
            if op == "set_block": m.set_block(a, bytes(oref[b:b + c])); ref[a:a + c] = oref[b:b + c]
            elif op == "copy": m.copy8(a, b, c); ref[a:a + c] = ref[b:b + c]
            elif op == "copy_other": m.copy8(a, b, c, o); ref[a:a + c] = oref[b:b + c]
            elif op == "copyfrom": m.copyfrom8(a, c, o); ref[a:a + c] = oref[a:a + c]
            elif op == "fill": v = rng.randrange(256); m.fill8(a, v, c); ref[a:a + c] = [v] * c
            elif op == "cmp": api.eq(bool(m.cmpeq8(a, b, c, o)), ref[a:a + c] == oref[b:b + c], "cmpeq8")
        api.check(bytes(m) == bytes(ref), "memory", f"{log[-1]}")
        api.check(bytes(o) == bytes(oref), "other memory", f"{log[-1]}")

@suite("C17", quick=8, thorough=200)
def merges(rng, i, api):
    """merge_cart on real carts, several sections at once"""
    from pico_cart import Cart, merge_cart
    from pico_defs import Memory
    from utils import MultidimArray
    def cart():
        c = Cart(code="".join(rng.choice("ab\n") for _ in range(5)), rom=Memory(rng.randbytes(0x4300)))
        c.label = MultidimArray((128, 128), rng.randrange(16))
        for k in ("title", "x"): c.meta[k] = [str(rng.random())]
        return c
    d, s = cart(), cart()
    names = dict(gfx=(0, 0x2000), map=(0x2000, 0x3000), gff=(0x3000, 0x3100), music=(0x3100, 0x3200), sfx=(0x3200, 0x4300))
    sections = [x for x in [*names, "lua", "label", "meta:title", "meta:x"] if rng.random() < .3]
    rng.shuffle(sections)
    want = bytearray(d.rom)
    for x in sections:
        if x in names: a, b = names[x]; want[a:b] = s.rom[a:b]
    code = s.code if "lua" in sections else d.code; label = s.label.array if "label" in sections else d.label.array
    meta = {k: (s if "meta:" + k in sections else d).meta[k] for k in ("title", "x")}
    src = bytes(s.rom), s.code, s.label.array[:], dict(s.meta)
    api.case((i, sections))
    merge_cart(d, s, sections)
    api.check(bytes(d.rom) == bytes(want), "rom"); api.eq(d.code, code, "code"); api.check(d.label.array == label, "label"); api.eq(dict(d.meta), meta, "meta")
    api.check(src == (bytes(s.rom), s.code, s.label.array[:], dict(s.meta)), "source unchanged")
    if i % 10 == 0:
        from utils import CheckError
        try: merge_cart(d, s, ["nosuch"]); ok = False
        except CheckError: ok = True
        api.check(ok, "unknown section refused")
