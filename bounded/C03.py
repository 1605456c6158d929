"""C03 bounded: random sequences of mixed writes, read back on the real classes"""
from pyver.suite import suite
import io, struct

def gen_ops(rng):
    ops = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(["u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "f32", "f64", "nat", "int", "bool", "float", "bytes", "nbytes", "zbytes", "zbytesn", "str", "wstr", "zstr", "wzstr", "align", "fill", "list", "struct"])
        if k[0] in "us" and k[1:].isdigit():
            n = int(k[1:]); lo, hi = (0, (1 << n) - 1) if k[0] == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            v = rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), max(lo, -1)])
        elif k == "f32": v = struct.unpack("<f", struct.pack("<f", rng.uniform(-1e6, 1e6)))[0]
        elif k in ("f64", "float"): v = rng.choice([0.0, -0.0, 1e300, rng.uniform(-1, 1)])
        elif k == "nat": v = rng.getrandbits(rng.randint(0, 200))
        elif k == "int": v = rng.getrandbits(rng.randint(0, 200)) * rng.choice([1, -1])
        elif k == "bool": v = rng.random() < .5
        elif k in ("bytes", "nbytes"): v = rng.randbytes(rng.choice([0, 1, 5, 127, 128, 300]))
        elif k == "zbytes": v = bytes(rng.randint(1, 255) for _ in range(rng.randint(0, 40)))
        elif k == "zbytesn": n = rng.randint(0, 20); v = (bytes(rng.randint(1, 255) for _ in range(rng.randint(0, n))), n)
        elif k in ("str", "zstr"): v = "".join(chr(rng.choice([65, 233, 0x3bb, 0x1f600])) for _ in range(rng.randint(0, 9)))
        elif k in ("wstr", "wzstr"): v = "".join(chr(rng.choice([65, 233, 0x100, 0x3bb, 0xff01])) for _ in range(rng.randint(0, 9)))
        elif k == "align": v = (rng.choice([1, 2, 4, 16]), rng.randint(0, 3), rng.randint(0, 255))
        elif k == "fill": v = (rng.randint(0, 255), rng.randint(0, 5))
        elif k == "list": v = [rng.randint(0, 0xffff) for _ in range(rng.randint(0, 4))]
        elif k == "struct": v = (rng.randint(0, 255), rng.randint(-5, 5))
        ops.append((k, v))
    return ops
ST = struct.Struct("<Bh")

@suite("C03", quick=6, thorough=60)
def sequences(rng, i, api):
    """sequences of mixed typed writes read back in order, positions agree, earlier bytes survive"""
    import utils
    ops = gen_ops(rng); be = rng.random() < .5
    api.case((be, ops))
    pre = rng.randbytes(rng.randint(0, 6))
    f = io.BytesIO(pre); f.seek(0, 2)
    w = utils.BinaryWriter(f, big_end=be, wenc="utf-16-le")
    pos = [w.pos()]; snap = pre
    for k, v in ops:
        if k == "zbytesn": w.zbytes(*v)
        elif k == "align": w.align(*v)
        elif k == "fill": w.fill(*v)
        elif k == "list": w.list(w.u16, v)
        elif k == "struct": w.struct(ST, v)
        else: getattr(w, k)(v)
        api.check(f.getvalue()[:len(snap)] == snap, "earlier bytes are kept", k)
        snap = f.getvalue(); pos.append(w.pos())
        api.eq(pos[-1], len(snap), "position", k)
    f.seek(len(pre))
    r = utils.BinaryReader(f, big_end=be, wenc="utf-16-le")
    for n, (k, v) in enumerate(ops):
        if k == "zbytesn": api.eq(r.zbytes(v[1]), v[0], "zbytes fixed")
        elif k == "align": r.align(v[0], v[1])
        elif k == "fill": api.eq(r.bytes(v[1]), bytes([v[0]]) * v[1], "fill")
        elif k == "list": api.eq(r.list(r.u16, len(v)), v, "list")
        elif k == "struct": api.eq(r.struct(ST), v, "struct")
        elif k == "bytes": api.eq(r.bytes(len(v)), v, k)
        elif k == "str": api.eq(r.str(len(v.encode())), v, k)
        elif k == "wstr": api.eq(r.wstr(len(v)), v, k)
        elif k in ("f32", "f64", "float"): api.check(struct.pack("<d", getattr(r, k)()) == struct.pack("<d", v), k)
        else: api.eq(getattr(r, k)(), v, k)
        api.eq(r.pos(), pos[n + 1], "read consumes what was written", k)
    api.check(r.eof(), "eof")

@suite("C03", quick=5, thorough=60)
def bit_sequences(rng, i, api):
    """sequences of bit fields of 0..40 bits in either order, mixed with peeks, advances and alignment"""
    import utils
    be = rng.random() < .5
    fields = [(n, rng.getrandbits(n) if n else 0) for n in (rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 40]) for _ in range(rng.randint(1, 25)))]
    api.case((be, fields))
    f = io.BytesIO(); w = utils.BinaryBitWriter(f, be); tot = 0
    for n, v in fields:
        w.bit(v) if n == 1 and rng.random() < .5 else w.bits(n, v)
        tot += n
        api.eq(w.bit_position, tot, "writer bit position")
    w.flush(); data = f.getvalue()
    api.eq(len(data), (tot + 7) // 8, "bytes written")
    bits = "".join((format(v, f"0{n}b") if be else format(v, f"0{n}b")[::-1]) if n else "" for n, v in fields)
    bits += "0" * (-len(bits) % 8)
    want = bytes(int(bits[k:k + 8] if be else bits[k:k + 8][::-1], 2) for k in range(0, len(bits), 8))
    api.eq(data, want, "bit layout")
    f.seek(0); r = utils.BinaryBitReader(f, be); p = 0
    for n, v in fields:
        c = rng.random()
        if c < .2: api.eq(r.peek_bits(n), v, "peek"); r.advance_bits(n)
        elif c < .3: r.advance_bits(n)
        elif n == 1 and c < .6: api.eq(r.bit(), v != 0, "bit")
        else: api.eq(r.bits(n), v, "bits")
        p += n
        api.eq(r.bit_position, p, "reader bit position")

@suite("C03", quick=5, thorough=40)
def stream_views(rng, i, api):
    """PartialIO, SegmentedIO and ByteArrayIO behave like the byte ranges they expose"""
    import utils
    base = bytearray(rng.randbytes(40)); ref = bytearray(base)
    fs = [io.BytesIO(base), io.BytesIO(rng.randbytes(30))]; refs = [ref, bytearray(fs[1].getvalue())]
    kind = rng.choice(["partial", "segmented", "bytearray"])
    arr = bytearray(base)
    if kind == "partial":
        off = rng.randint(0, 20); ln = rng.randint(0, 20); v = utils.PartialIO(fs[0], off, ln); m = [(0, off + k) for k in range(ln)]
    elif kind == "segmented":
        v = utils.SegmentedIO(); m = []
        for _ in range(rng.randint(1, 4)):
            j = rng.randint(0, 1); o = rng.randint(0, 20); n = rng.randint(0, 10); v.add(fs[j], o, n); m += [(j, o + k) for k in range(n)]
    else: v = utils.ByteArrayIO(arr); m = None
    ops = []
    pos = 0; mem = bytearray(base)
    for _ in range(rng.randint(1, 8)):
        o = rng.choice("rws"); n = rng.randint(0, 12); ops.append((o, n)); api.case((kind, ops))
        size = len(mem) if m is None else len(m)
        if o == "s": pos = rng.randint(0, size); v.seek(pos)
        elif o == "r":
            got = v.read(n)
            want = bytes(mem[pos:pos + n]) if m is None else bytes(refs[j][k] for j, k in m[pos:pos + n])
            api.eq(bytes(got), want, "read"); pos += len(want)
        else:
            d = rng.randbytes(n); c = v.write(d)
            if m is None: mem[pos:pos + n] = d; api.eq(c, n, "write count"); pos += n
            else:
                for x, (j, k) in zip(d, m[pos:pos + n]): refs[j][k] = x
                api.eq(c, min(n, max(size - pos, 0)), "write count"); pos += c
    if m is None: api.eq(arr, mem, "content")
    else:
        for j in (0, 1): api.eq(fs[j].getvalue(), bytes(refs[j]), "content")
