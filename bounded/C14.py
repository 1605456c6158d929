"""bounded stand-ins for C14: whole pod values and byte strings through the Picotron coders, and files with metadata"""
from pyver.suite import suite

def ref_unlz4(d):
    """an independent lz4 block decoder"""
    out = bytearray(); i = 0
    while i < len(d):
        h = d[i]; i += 1
        n = h >> 4
        if n == 15:
            while True:
                n += d[i]; i += 1
                if d[i - 1] != 255: break
        out += d[i:i + n]; i += n
        assert i <= len(d)
        if i == len(d): break
        o = d[i] | d[i + 1] << 8; i += 2
        n = h & 15
        if n == 15:
            while True:
                n += d[i]; i += 1
                if d[i - 1] != 255: break
        assert 1 <= o <= len(out)
        for _ in range(n + 4): out.append(out[-o])
    return bytes(out)
LENS = (0, 1, 4, 5, 11, 12, 13, 14, 15, 16, 18, 19, 20, 254, 255, 256, 269, 270, 271, 272, 273, 274, 524, 525, 529, 530)
def data(rng):
    d = bytearray()
    for _ in range(rng.choice((1, 2, 3, 8))):
        k = rng.randrange(6)
        if k == 0: d += rng.randbytes(rng.choice(LENS))
        elif k == 1: d += bytes([rng.randrange(256)]) * (rng.choice(LENS) + rng.randrange(2))
        elif k == 2 and d: o = rng.randint(1, len(d)); d += (d[-o:] * 300)[:rng.choice(LENS)]
        elif k == 3: d += bytes(rng.choice(b"ab") for _ in range(rng.choice(LENS)))
        elif k == 4: d += (rng.randbytes(rng.choice((1, 2, 3, 7))) * 300)[:rng.choice(LENS)]
        else: d += bytes(rng.randrange(256) for _ in range(rng.randrange(6)))
    return bytes(d)

@suite("C14", quick=20, thorough=300)
def lz4(rng, i, api):
    """lz4 of any bytes, read by the tool and by an independent decoder; end-of-block rules of the format"""
    import pico_process, pico_export as pe
    if i < 40: d = bytes([7]) * i
    elif i % 50 == 0: d = rng.randbytes(300) + bytes(rng.choice((65535, 65536, 65540))) + rng.randbytes(9) + b"abcdefghijklmnop" ; d = d[:300] + rng.randbytes(rng.choice((65200, 65235, 65236, 65300))) + d[:300]
    else: d = data(rng)
    api.case(d if len(d) < 2000 else ("long", len(d), d[:200]))
    c = pe.lz4_compress(d, fast=rng.random() < .5)
    api.check(pe.lz4_uncompress(c) == d, "reads back")
    api.check(ref_unlz4(c) == d, "an independent decoder reads it back")

KEYS = ("end", "goto", "a b", "", "\xe9", "_ENV", "1a", "nil", "true", "and", "userdata", "x", "pod", "\u2b05\ufe0f", "]]", "\0", "a\"'\\")
def rstr(rng):
    k = rng.randrange(6)
    if k == 0: return rng.choice(KEYS)
    if k == 1: return "".join(rng.choice("]]\\\"'\r\n\0[=1093axpu") for _ in range(rng.randrange(12)))
    if k == 2: return "".join(chr(rng.randrange(256)) for _ in range(rng.randrange(12)))
    if k == 3: return rng.choice(("pxu\0", "b64:", "lz4\0", "userdata()", "--[[pod]]", "]]", "\\93]", "hex:00", "\n\r", "\r\n", "\\", "\x7f", "\x80\xff", "\ud7ff\ue000\uffff", "\U0001f431"))
    if k == 4: return rng.choice(("ab", "\0")) * rng.choice((1, 20, 400))
    return "".join(chr(rng.choice((rng.randrange(128), rng.randrange(128, 2000)))) for _ in range(rng.randrange(8)))
def rnum(rng):
    k = rng.randrange(6)
    if k == 0: return rng.randrange(-20, 20)
    if k == 1: return rng.choice((2**63 - 1, -2**63, -2**63 + 1, 2**31, -2**31, 2**53, 2**62, 0x7fff_ffff, 10**18, 65536, 32768, -32768))
    if k == 2: return rng.choice((0.5, -1.5, 1e300, -1e300, 5e-324, 1e15, 1e16, 123456789012345678.0, 2.0**63, -2.0**63, 0.1, 1 / 3, 1.0, -1.0, 0.0, 1e100, 1.7976931348623157e308, 1e21, 1e22, 12345.678))
    if k == 3: return rng.getrandbits(64) - 2**63
    if k == 4:
        import struct, math
        f = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
        return f if math.isfinite(f) else 2.5
    return rng.uniform(-100, 100)
def rud(rng, fs):
    t = rng.choice(("u8", "u8", "i16", "i16", "i32", "f64", "i64"))
    nyb = {"u8": 2, "i16": 4, "i32": 8, "f64": 16, "i64": 16}[t]
    w, h = rng.choice(((0, 0), (1, 0), (3, 0), (3, 1), (16, 2), (255, 0), (256, 0), (300, 0), (1, 256), (4, 300), (17, 5), (256, 3), (1, 1), (40, 0), (0, 3)))
    n = w * (h or 1); vals = []
    while len(vals) < n:
        v = rng.getrandbits(nyb * 4) if rng.random() < .4 else rng.randrange(20)
        vals += [v] * rng.choice((1, 1, 2, 3, 15, 16, 17, 31, 255, 256, 257, 270, 271, 272, 510, 511, 526))
    return fs.UserData(t, w, h, "".join(f"{v:0{nyb}x}" for v in vals[:n]))
def rval(rng, fs, depth=3):
    k = rng.randrange(9)
    if k == 0: return rng.choice((True, False))
    if k in (1, 2): return rnum(rng)
    if k in (3, 4): return rstr(rng)
    if k == 5: return rud(rng, fs)
    if depth == 0: return {}
    t = {}
    n = rng.randrange(6)
    if rng.random() < .5:
        for j in range(1, n + 1): t[j] = rval(rng, fs, depth - 1)
    for _ in range(rng.randrange(5)):
        key = rng.choice((rstr(rng), rstr(rng), rng.randrange(-2, 9), rng.choice((True, False)), rng.choice((1.5, 0.1, -2.5))))
        t[key] = rval(rng, fs, depth - 1)
    if True in t and isinstance(next(k for k in t if k == 1), bool) and rng.random() < .5: t = {**{k: v for k, v in t.items() if k != 1}, True: "x"}
    if rng.random() < .2: t = dict(sorted(t.items(), key=lambda _: rng.random()))
    return t
def same(a, b):
    """same type and value (the console's equality), userdata and tables included"""
    if type(a) is not type(b): return False
    if isinstance(a, dict):
        ka = sorted(((type(k).__name__, repr(k)), v) for k, v in ((k, None) for k in a)); kb = sorted(((type(k).__name__, repr(k)), v) for k, v in ((k, None) for k in b))
        return ka == kb and all(same(a[k], b[k]) for k in a)
    if type(a).__name__ == "UserData": return (a.type, a.width, a.height, a.data) == (b.type, b.width, b.height, b.data)
    if isinstance(a, float): return repr(a) == repr(b)
    return a == b

@suite("C14", quick=35, thorough=600, shards=2)
def pods(rng, i, api):
    """any pod value in plain, compressed, pxu and base64 form reads back with the same types, keys and values"""
    import pico_process, picotron_fs as fs
    v = rval(rng, fs)
    kw = dict(compress=rng.random() < .5, use_pxu=rng.random() < .6, use_base64=rng.random() < .3)
    if rng.random() < .2: kw["runtime"] = rng.choice((10, 20, 21, 22))
    api.case((repr(v)[:3000], kw))
    b = fs.write_pod(v, **kw)
    api.check(isinstance(b, bytes), "bytes are written")
    if kw["use_base64"]: api.check(b.startswith(b"b64:"), "base64 as asked")
    api.check(same(fs.read_pod(b), v), "reads back", repr(fs.read_pod(b))[:1500])

@suite("C14", quick=15, thorough=300)
def files(rng, i, api):
    """files: metadata and payload written and changed in any order, on the file itself and on its reloaded bytes"""
    import pico_process, picotron_fs as fs
    def meta():
        if not raw and rng.random() < .2: return {}
        m = {}
        for _ in range(rng.randrange(4)):
            m[rng.choice(("pod_type", "created", "icon", "a b", "]]", rng.choice(KEYS), 1))] = rval(rng, fs, 1)
        m.pop("pod_format", None)
        if raw: m["pod_format"] = "raw"
        elif rng.random() < .2: m["pod_format"] = rng.choice((1, "pod"))
        if "pod_format" in m and rng.random() < .5: m = dict(reversed(m.items()))
        return m
    raw = rng.random() < .4
    def pay(): return (rng.choice((b"", b"]]", b"\0\xff--[[pod]]", b"b64:aa")) if rng.random() < .4 else data(rng)) if raw else rval(rng, fs, 2)
    m, p = meta(), pay()
    f = fs.PicotronFile.create(p, m)
    log = [("create", repr(m)[:300], repr(p)[:300])]
    for _ in range(rng.randrange(4)):
        if rng.random() < .5: m = meta(); f.metadata = m; log.append(("metadata", repr(m)[:300]))
        else: p = pay(); f.payload = p; log.append(("payload", repr(p)[:300]))
        if rng.random() < .3: f = fs.PicotronFile(f.data)
    api.case(log)
    for g in (f, fs.PicotronFile(f.data)):
        api.check(same(g.metadata, m), "metadata", repr(g.metadata)[:500])
        api.check(same(g.payload, p), "payload", repr(g.payload)[:500])
        api.check(g.is_raw == raw, "raw or pod")
