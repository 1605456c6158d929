"""C03 contracts: binary and bit-level I/O (utils.py).

Streams are arbitrary: any content, any length, any position (ctx.stream).  A write must change exactly the bytes at
[pos, pos+n) - stated for one arbitrary index k, so for every byte -, and the matching read, started at the same
position, must return the value and stop where the write stopped.
"""
from pyver.unit import unit

def U():
    import pico_process, utils
    return utils

INTS = {"u8": (1, 0), "u16": (2, 0), "u32": (4, 0), "u64": (8, 0), "s8": (1, 1), "s16": (2, 1), "s32": (4, 1), "s64": (8, 1)}
def rng(n, signed):
    b = 8 * n
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)

def byte_of(v, i): return (v >> (8 * i)) & 0xff

@unit("C03", params=[(n, be) for n in INTS for be in (False, True)])
def fixed_ints(ctx, param):
    """BinaryWriter.<int>: writes exactly its bytes in the given order; BinaryReader.<int> returns the value"""
    name, be = param
    size, signed = INTS[name]
    u = U()
    f = ctx.stream("f"); old = f.snapshot(); p = f.tell()
    v = ctx.int("v", *rng(size, signed))
    k = ctx.index("k")
    w = u.BinaryWriter(f, big_end=be)
    getattr(w, name)(v)
    ctx.prove("advances by the size of the type", f.tell() == p + size)
    for i in range(size):
        ctx.prove("bytes in the declared order", f.byte(p + i) == byte_of(v, size - 1 - i if be else i))
    ctx.prove("no other byte is changed", ctx.or_(ctx.and_(k >= p, k < p + size), f.byte(k) == old(k)))
    w.setpos(p)
    r = u.BinaryReader(f, big_end=be)
    ctx.prove("reads back the value", getattr(r, name)() == v)
    ctx.prove("read consumes what the write produced", r.pos() == p + size)

@unit("C03", params=[(n, e) for n in INTS if n not in ("u8", "s8") for e in ("le", "be")])
def fixed_int_explicit_endian(ctx, param):
    """BinaryReader.<int>le/be decode the bytes in the named order, whatever the stream's own order"""
    name, e = param
    size, signed = INTS[name]
    u = U()
    f = ctx.stream("f"); p = f.tell()
    v = ctx.int("v", *rng(size, signed))
    u.BinaryWriter(f, big_end=e == "be").__getattribute__(name)(v)
    f.seek(p)
    r = u.BinaryReader(f, big_end=ctx.bool("other"))
    ctx.prove("reads back the value", getattr(r, name + e)() == v)
    ctx.prove("consumes the type's size", f.tell() == p + size)

@unit("C03", params=["u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64"])
def range_errors(ctx, name):
    """values that do not fit are rejected, nothing is written"""
    import struct
    size, signed = INTS[name]
    lo, hi = rng(size, signed)
    u = U()
    f = ctx.stream("f"); p = f.tell(); old = f.snapshot(); k = ctx.index("k")
    v = ctx.int("v", -(1 << 70), 1 << 70)
    ctx.assume(ctx.or_(v < lo, v > hi))
    ctx.prove("rejected", ctx.raises(lambda: getattr(u.BinaryWriter(f, big_end=ctx.bool("be")), name)(v), struct.error))
    ctx.prove("nothing written", ctx.and_(f.tell() == p, f.byte(k) == old(k)))

@unit("C03", params=list(INTS))
def wrap_functions(ctx, name):
    """u8(n)..s64(n) wrap any integer into the type's range, congruent modulo its size"""
    size, signed = INTS[name]
    u = U()
    v = ctx.int("v", -(1 << 80), 1 << 80)
    r = getattr(u, name)(v)
    lo, hi = rng(size, signed)
    ctx.prove("in range", ctx.and_(r >= lo, r <= hi))
    ctx.prove("congruent", (r - v) & ((1 << (8 * size)) - 1) == 0)

@unit("C03")
def bool_(ctx):
    """bool round trip"""
    u = U()
    f = ctx.stream("f"); p = f.tell()
    v = ctx.bool("v")
    u.BinaryWriter(f).bool(v)
    q = f.tell()
    f.seek(p)
    r = u.BinaryReader(f).bool()
    ctx.prove("reads back", ctx.and_(r, v) if v else ctx.not_(r))
    ctx.prove("one byte", ctx.and_(q == p + 1, f.tell() == q))

@unit("C03")
def nat(ctx):
    """nat: 7-bit groups, for every natural below 2^70"""
    u = U()
    f = ctx.stream("f"); p = f.tell(); old = f.snapshot(); k = ctx.index("k")
    v = ctx.int("v", 0, (1 << 70) - 1)
    u.BinaryWriter(f).nat(v)
    q = f.tell()
    ctx.prove("no byte outside is changed", ctx.or_(ctx.and_(k >= p, k < q), f.byte(k) == old(k)))
    f.seek(p)
    ctx.prove("reads back", u.BinaryReader(f).nat() == v)
    ctx.prove("consumes what was written", f.tell() == q)

@unit("C03")
def int_(ctx):
    """int: sign in the low bit, for |v| < 2^62"""
    u = U()
    f = ctx.stream("f"); p = f.tell()
    v = ctx.int("v", -(1 << 62) + 1, (1 << 62) - 1)
    u.BinaryWriter(f).int(v)
    q = f.tell()
    f.seek(p)
    ctx.prove("reads back", u.BinaryReader(f).int() == v)
    ctx.prove("consumes what was written", f.tell() == q)

@unit("C03")
def nat_rejects_negative(ctx):
    """nat refuses negative numbers"""
    u = U()
    f = ctx.stream("f")
    v = ctx.int("v", -(1 << 70), -1)
    ctx.prove("rejected", ctx.raises(lambda: u.BinaryWriter(f).nat(v), AssertionError))

# ------------------------------------------------------------------ bit streams
# The bit sequence a writer has produced is: the bits of the bytes [0, pos) followed by its pending bits.
# The bit sequence a reader will produce starts at bit_position.

def sbit(ctx, byte, t, be):
    """bit number t of a byte sequence"""
    b = byte(t >> 3)
    return (b >> ((7 - (t & 7)) if be else (t & 7))) & 1

def writer_state(ctx, u, f, be, name="w"):
    """a bit writer in any state its class invariant allows: fewer than 8 pending bits"""
    w = u.BinaryBitWriter(f, be)
    nb = ctx.choose(range(8), name + "_nbits")
    w._nbits = nb
    w._bits = ctx.int(name + "_bits", 0, (1 << nb) - 1)
    return w

def writer_bit(ctx, w, f, byte, pos, t, be):
    """bit t of the writer's bit sequence"""
    if t < pos * 8: return sbit(ctx, byte, t, be)
    i = t - pos * 8
    n = w[1]
    return (w[0] >> ((n - 1 - i) if be else i)) & 1

BITN = list(range(0, 18)) + [24, 32]
@unit("C03", params=[(be, n) for be in (False, True) for n in BITN], limit=60)
def bit_writer(ctx, param):
    """BinaryBitWriter.bits(n, v): appends exactly the n bits of v, changes no earlier bit, keeps the class invariant"""
    be, n = param
    u = U()
    f = ctx.stream("f"); p0 = f.tell(); old = f.snapshot(); k = ctx.index("k")
    w = writer_state(ctx, u, f, be)
    b0, n0 = w._bits, w._nbits
    v = ctx.int("v", 0, (1 << n) - 1)
    w.bits(n, v)
    ctx.prove("class invariant: fewer than 8 pending bits", ctx.and_(w._nbits >= 0, w._nbits < 8, w._bits >= 0, (w._bits >> w._nbits) == 0))
    ctx.prove("bit position advances by n", w.bit_position == p0 * 8 + n0 + n)
    ctx.prove("bytes outside are unchanged", ctx.or_(ctx.and_(k >= p0, k < f.tell()), f.byte(k) == old(k)))
    ctx.prove("file position", f.tell() == p0 + ((n0 + n) >> 3))
    p1 = f.tell(); st = (w._bits, w._nbits)
    for t in range(n0 + n):
        got = writer_bit_rel(f, st, p0, p1, t, be)
        want = ((b0 >> ((n0 - 1 - t) if be else t)) & 1) if t < n0 else ((v >> ((n - 1 - (t - n0)) if be else (t - n0))) & 1)
        ctx.prove("pending bits and then the new bits, in order", got == want)

def writer_bit_rel(f, st, p0, p1, t, be):
    """bit t counted from byte p0 (t concrete), in the bytes [p0,p1) or the pending bits"""
    nb = t >> 3
    bits, n = st
    total_bytes = p1 - p0
    if nb < total_bytes:
        b = f.byte(p0 + nb)
        return (b >> ((7 - (t & 7)) if be else (t & 7))) & 1
    i = t - 8 * total_bytes
    return (bits >> ((n - 1 - i) if be else i)) & 1

@unit("C03", params=[(be, nb) for be in (False, True) for nb in range(8)])
def bit_flush(ctx, param):
    """flush: pads with zero bits to a whole byte, keeps every bit written, changes nothing else; byte_align/close do the same"""
    be, nb = param
    u = U()
    how = ctx.choose(["flush", "byte_align", "close"], "how")
    f = ctx.stream("f"); p0 = f.tell(); old = f.snapshot(); k = ctx.index("k")
    w = u.BinaryBitWriter(f, be); w._nbits = nb; w._bits = b0 = ctx.int("bits", 0, (1 << nb) - 1)
    if how == "close":
        class Keep:   # closing must not lose data: keep the file readable
            def __init__(m, f): m.f = f
            def write(m, d): return m.f.write(d)
            def tell(m): return m.f.tell()
            def close(m): pass
        w.f = Keep(f)
    getattr(w, how)()
    ctx.prove("no pending bits", ctx.and_(w._nbits == 0, w._bits == 0))
    ctx.prove("file position", f.tell() == p0 + (1 if nb else 0))
    ctx.prove("bytes outside are unchanged", ctx.or_(ctx.and_(k >= p0, k < f.tell()), f.byte(k) == old(k)))
    if nb:
        for t in range(8):
            got = (f.byte(p0) >> ((7 - t) if be else t)) & 1
            want = ((b0 >> ((nb - 1 - t) if be else t)) & 1) if t < nb else 0
            ctx.prove("pending bits then zeros", got == want)

def reader_state(ctx, u, f, be, maxn=7):
    """a bit reader in any state its invariant allows: its buffered bits are the last _nbits bits before the file position"""
    nb = ctx.choose(range(maxn + 1), "r_nbits")
    p = f.tell()
    need = (nb + 7) // 8
    ctx.assume(p >= need)
    ctx.assume(p <= 1 << 39)
    r = u.BinaryBitReader(f, be)
    r._nbits = nb
    r._bits = stream_bits(ctx, f, p, nb, nb, be)
    return r

def stream_bits(ctx, f, p, nb, n, be):
    """the value of the n bits that start nb bits before byte p"""
    need = (nb + 7) // 8
    total = (8 * need - nb + n + 7) // 8     # whole bytes that hold these bits
    word = 0
    for i in range(total):
        b = f.byte(p - need + i)
        word = ((word << 8) | b) if be else (word | (b << (8 * i)))
    start = 8 * need - nb
    return (word >> (8 * total - start - n if be else start)) & ((1 << n) - 1)

def prove_reader_inv(ctx, f, r, be, name):
    nb = r._nbits
    ctx.prove(f"{name}: buffered bits are the bits just before the file position", ctx.and_(nb >= 0, r._bits == stream_bits(ctx, f, f.tell(), nb, nb, be)))

@unit("C03", params=[(be, n) for be in (False, True) for n in BITN], limit=60)
def bit_reader(ctx, param):
    """BinaryBitReader.bits(n): the next n bits of the stream, advancing by exactly n"""
    import struct
    be, n = param
    u = U()
    f = ctx.stream("f")
    r = reader_state(ctx, u, f, be)
    p, nb = f.tell(), r._nbits
    bp = r.bit_position
    ctx.prove("bit position", bp == p * 8 - nb)
    ctx.assume(p * 8 - nb + n <= f.length * 8 if ctx.symbolic else p * 8 - nb + n <= len(f.getvalue()) * 8)
    want = stream_bits(ctx, f, p, nb, n, be)
    v = r.bits(n)
    ctx.prove("the next n bits", v == want)
    ctx.prove("advances by n", r.bit_position == bp + n)
    ctx.prove("class invariant: fewer than 8 buffered bits", r._nbits < 8)
    prove_reader_inv(ctx, f, r, be, "after bits")

@unit("C03", params=[(be, n) for be in (False, True) for n in (0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16)], limit=60)
def bit_peek_advance(ctx, param):
    """peek_bits returns the next bits without moving; advance_bits moves without reading; byte_align drops the rest of the byte"""
    be, n = param
    u = U()
    f = ctx.stream("f")
    r = reader_state(ctx, u, f, be)
    p, nb = f.tell(), r._nbits
    bp = r.bit_position
    ctx.assume(p * 8 - nb + n <= f.length * 8 if ctx.symbolic else p * 8 - nb + n <= len(f.getvalue()) * 8)
    want = stream_bits(ctx, f, p, nb, n, be)
    if ctx.bool("peek"):
        ctx.prove("peek returns the next n bits", r.peek_bits(n) == want)
        ctx.prove("peek does not move", r.bit_position == bp)
        prove_reader_inv(ctx, f, r, be, "after peek")
        m = ctx.choose(range(n + 1), "m")
        r.advance_bits(m)
        ctx.prove("advance after peek", r.bit_position == bp + m)
        prove_reader_inv(ctx, f, r, be, "after peek and advance")
        if ctx.bool("align"):
            r.byte_align()
            ctx.prove("aligned to the next byte boundary", r.bit_position == ((bp + m + 7) >> 3) * 8)
    else:
        r.advance_bits(n)
        ctx.prove("advance_bits advances by n", r.bit_position == bp + n)
        prove_reader_inv(ctx, f, r, be, "after advance")

@unit("C03", params=[False, True])
def bit_and_bool(ctx, be):
    """bit(v)/bit(): one bit, as a truth value"""
    u = U()
    f = ctx.stream("f"); p0 = f.tell()
    w = writer_state(ctx, u, f, be)
    bp = w.bit_position; n0 = w._nbits
    v = ctx.bool("v")
    w.bit(v)
    w.flush()
    f.seek(p0)
    r = u.BinaryBitReader(f, be)
    r.bits(n0)
    got = r.bit()
    ctx.prove("reads back", ctx.and_(got) if v else ctx.not_(got))
    ctx.prove("position", r.bit_position == bp + 1)

@unit("C03", params=[(be, n, m) for be in (False, True) for n in (1, 3, 5, 8, 10, 15) for m in (0, 1, 3, 8, 15)], limit=60)
def bit_roundtrip(ctx, param):
    """composition: write n bits after any pending bits, m more bits, flush; the reader gets the same values back"""
    be, n, m = param
    u = U()
    f = ctx.stream("f"); p0 = f.tell()
    w = writer_state(ctx, u, f, be)
    n0 = w._nbits
    v = ctx.int("v", 0, (1 << n) - 1); x = ctx.int("x", 0, (1 << m) - 1)
    w.bits(n, v); w.bits(m, x); w.flush()
    end = f.tell()
    f.seek(p0)
    r = u.BinaryBitReader(f, be)
    r.bits(n0)
    ctx.prove("first value", r.bits(n) == v)
    ctx.prove("second value", r.bits(m) == x)
    ctx.prove("stays within the bytes written", f.tell() <= end)

# ------------------------------------------------------------------ positions
@unit("C03")
def positions(ctx):
    """pos/setpos/addpos/subpos/swappos/align/len/remaining move as documented and change no byte"""
    u = U()
    f = ctx.stream("f"); old = f.snapshot(); k = ctx.index("k"); p = f.tell()
    r = u.BinaryReader(f)
    a = ctx.int("a", 0, 1 << 30); b = ctx.int("b", 0, 1 << 30)
    r.setpos(a); ctx.prove("setpos", ctx.and_(r.pos() == a, r.position == a))
    r.addpos(b); ctx.prove("addpos", r.pos() == a + b)
    ctx.prove("swappos returns the old position", r.swappos(b) == a + b)
    ctx.prove("swappos moves", r.pos() == b)
    r.addpos(a); r.subpos(b); ctx.prove("subpos", r.pos() == a)
    n = r.len()
    ctx.prove("len keeps the position", r.pos() == a)
    ctx.prove("remaining", r.remaining() == n - a)
    ctx.prove("eof", ctx.and_(r.eof()) if a == n else ctx.not_(r.eof()))
    size = ctx.choose([1, 2, 4, 16, 0x30], "size"); start = ctx.int("start", 0, 64)
    ctx.assume(start <= a)
    r.align(size, start)
    ctx.prove("align: next multiple", ctx.and_((r.pos() - start) % size == 0, r.pos() >= a, r.pos() < a + size))
    ctx.prove("no byte changed", f.byte(k) == old(k))

@unit("C03", params=[1, 2, 4, 16])
def writer_align_fill(ctx, size):
    """BinaryWriter.align pads with the value up to the next multiple; nothing else changes"""
    u = U()
    f = ctx.stream("f"); old = f.snapshot(); p = f.tell(); k = ctx.index("k")
    v = ctx.int("v", 0, 255); start = ctx.int("start", 0, 64); ctx.assume(start <= p)
    u.BinaryWriter(f).align(size, start, v)
    q = f.tell()
    ctx.prove("next multiple", ctx.and_((q - start) % size == 0, q >= p, q < p + size))
    ctx.prove("bytes", ctx.ite(ctx.and_(k >= p, k < q), f.byte(k) == v, f.byte(k) == old(k)))

# ------------------------------------------------------------------ byte strings
class ZLoop:
    """loop contract of _read_zbytes (terminator mode): after j rounds result == S[:j] and the position is p0+j,
    where S is the zero-free string stored at p0 and followed by a zero"""
    active = False; keep = ()
    def enter(m, lr, env, names):
        ctx = m.ctx
        ctx.prove("loop: holds on entry", len(env["result"]) == 0)
        ctx.prove("loop: position on entry", m.f.tell() == m.p0)
        m.j = ctx.fresh("j", 0, 1 << 40)
        ctx.assume(m.j <= m.n)
        m.f.seek(m.p0 + m.j)
        return {"result": ctx.sym.SymArr(m.S.arr, m.j, 0, 255, m.S.off, "bytes")}
    def end(m, lr, env):
        ctx = m.ctx
        r = env["result"]
        ctx.prove("loop: one byte further", ctx.and_(r.length == m.j + 1, m.j + 1 <= m.n, m.f.tell() == m.p0 + m.j + 1))
        t = ctx.fresh("t", 0, 1 << 40)
        ctx.prove("loop: result is the prefix read so far", ctx.implies(t <= m.j, r.raw(t) == m.S.raw(t)))
ZL = ZLoop()

@unit("C03", loops={("utils", "_read_zbytes", 0): ZL})
def zbytes_terminated(ctx):
    """zbytes/zstr without a size: reads back any zero-free string of any length, and stops behind its terminator"""
    u = U()
    if ctx.symbolic:
        f = ctx.stream("f"); p0 = f.tell()
        n = ctx.int("n", 0, 1 << 39)
        S = ctx.sym.SymArr(f.arr.arr, n, 0, 255, p0, "bytes")     # the string lies in the stream at p0 ...
        ctx.assume(p0 + n < f.length); ctx.assume(f.byte(p0 + n) == 0)   # ... followed by a zero
        ctx.note("ghost: the zero-free string S[0..n) stored at p0, followed by a zero byte (what the writer unit proves is written)")
        ZL.ctx, ZL.f, ZL.p0, ZL.n, ZL.S, ZL.active = ctx, f, p0, n, S, True
        orig = f.read
        def read(k):     # S has no zero byte: instantiated at the position being read
            i = f.p
            ctx.assume(ctx.implies(ctx.and_(i >= p0, i < p0 + n), f.byte(i) != 0))
            return orig(k)
        f.read = read
        try: r = u.BinaryReader(f).zbytes()
        finally: ZL.active = False
        t = ctx.index("t")
        ctx.prove("length", (r.length if hasattr(r, "length") else len(r)) == n)
        if hasattr(r, "raw"): ctx.prove("content", ctx.implies(t < n, r.raw(t) == f.byte(p0 + t)))
        ctx.prove("position behind the terminator", f.tell() == p0 + n + 1)
    else:
        f = ctx.stream("f"); p0 = f.tell()
        n = min(ctx.int("n", 0, 1 << 39), 300)
        data = bytes(1 + (i * 7 + p0) % 255 for i in range(n))
        u.BinaryWriter(f).zbytes(data); q = f.tell(); f.seek(p0)
        ctx.prove("content", u.BinaryReader(f).zbytes() == data)
        ctx.prove("position behind the terminator", f.tell() == q)

@unit("C03", params=[(n, c, size) for c in (1, 2) for n in range(0, 4) for size in (None, 0, 1, 3, 4)])
def zbytes_written(ctx, param):
    """zbytes: what is written for every string of up to 3 characters, in terminated and in fixed-size mode, reads back"""
    import struct
    n, c, size = param
    u = U()
    f = ctx.stream("f"); p0 = f.tell(); old = f.snapshot(); k = ctx.index("k")
    v = ctx.bytes("v", n * c)
    for i in range(n): ctx.assume(ctx.or_(*[v[i * c + j] != 0 for j in range(c)]))
    w = u.BinaryWriter(f)
    if size is not None and n > size:
        ctx.prove("too long is rejected", ctx.raises(lambda: w.zbytes(v, size, c), struct.error))
        return
    w.zbytes(v, size, c)
    q = f.tell()
    ctx.prove("bytes used", q == p0 + (n + 1 if size is None else size) * c)
    for i in range(n * c): ctx.prove("content bytes", f.byte(p0 + i) == v[i])
    ctx.prove("zero padding", ctx.implies(ctx.and_(k >= p0 + n * c, k < q), f.byte(k) == 0))
    ctx.prove("nothing else changed", ctx.or_(ctx.and_(k >= p0, k < q), f.byte(k) == old(k)))
    f.seek(p0)
    ctx.prove("reads back", u.BinaryReader(f).zbytes(size, c) == v)
    ctx.prove("consumes what was written", f.tell() == q)

@unit("C03", params=[0, 1, 2, 5])
def nbytes_bytes(ctx, n):
    """nbytes (length-prefixed) and bytes: read back, consume exactly what was written"""
    import struct
    u = U()
    f = ctx.stream("f"); p0 = f.tell(); old = f.snapshot(); k = ctx.index("k")
    v = ctx.bytes("v", n)
    w = u.BinaryWriter(f); w.nbytes(v); w.bytes(v)
    q = f.tell()
    ctx.prove("nothing else changed", ctx.or_(ctx.and_(k >= p0, k < q), f.byte(k) == old(k)))
    f.seek(p0)
    r = u.BinaryReader(f)
    ctx.prove("nbytes reads back", r.nbytes() == v)
    ctx.prove("bytes reads back", r.bytes(n) == v)
    ctx.prove("consumes what was written", f.tell() == q)

@unit("C03", params=[0, 1, 2, 4, 8])
def short_read(ctx, n):
    """reading past the end raises unless allow_eof, and then returns exactly what is left"""
    import struct
    u = U()
    f = ctx.stream("f"); p0 = f.tell()
    L = f.length if ctx.symbolic else len(f.getvalue())
    allow = ctx.bool("allow")
    r = u.BinaryReader(f)
    if L - p0 >= n: 
        ctx.prove("full", len(r.bytes(n, allow_eof=allow)) == n); ctx.prove("position", f.tell() == p0 + n)
    elif allow: ctx.prove("rest", len(r.bytes(n, allow_eof=True)) == L - p0)
    else: ctx.prove("raises", ctx.raises(lambda: r.bytes(n), struct.error))

# ------------------------------------------------------------------ in-place buffers
@unit("C03", params=list(INTS))
def buffer_ints(ctx, name):
    """BinaryBuffer.r_/w_<int>: little-endian, in place; no other byte changes, the length never changes"""
    import struct
    size, signed = INTS[name]
    u = U()
    buf = ctx.buffer("buf"); n = ctx.length(buf); old = ctx.snap(buf)
    a = ctx.index("a"); k = ctx.index("k")
    ctx.assume(k < n)
    v = ctx.int("v", *rng(size, signed))
    B = u.BinaryBuffer(buf)
    w, r = getattr(B, "w_" + name), getattr(B, "r_" + name)
    if a + size > n:
        ctx.prove("outside is rejected", ctx.raises(lambda: w(a, v), struct.error, IndexError))
        ctx.prove("nothing changed", ctx.at(B.buf, k) == ctx.at(old, k))
        return
    if name == "s8" or name == "u8": ctx.assume(v >= 0) if name == "u8" else None
    w(a, v)
    ctx.prove("reads back", r(a) == v)
    ctx.prove("length kept", ctx.length(B.buf) == n)
    for i in range(size): ctx.prove("little endian", ctx.at(B.buf, a + i) == byte_of(v, i))
    ctx.prove("no other byte changes", ctx.or_(ctx.and_(k >= a, k < a + size), ctx.at(B.buf, k) == ctx.at(old, k)))

@unit("C03")
def buffer_blocks(ctx):
    """BinaryBuffer.w_bytes / w_from / r_bytes: block copies of any size move exactly the given bytes"""
    u = U()
    buf = ctx.buffer("buf"); n = ctx.length(buf); old = ctx.snap(buf)
    src = ctx.buffer("src"); sn = ctx.length(src)
    a = ctx.index("a"); b = ctx.index("b"); c = ctx.index("c"); k = ctx.index("k")
    ctx.assume(ctx.and_(k < n, a + c <= n, b + c <= sn))
    B, S = u.BinaryBuffer(buf), u.BinaryBuffer(src)
    if ctx.bool("from"):
        B.w_from(a, S, b, c)
    else:
        data = S.r_bytes(b, c)
        ctx.prove("r_bytes length", ctx.length(data) == c)
        B.w_bytes(a, data)
    ctx.prove("length kept", ctx.length(B.buf) == n)
    want = ctx.ite(ctx.and_(k >= a, k < a + c), ctx.at(src, b + (k - a)), ctx.at(old, k)) if ctx.symbolic else (src[b + k - a] if a <= k < a + c else old[k])
    ctx.prove("exactly the block is replaced", ctx.at(B.buf, k) == want)

@unit("C03")
def buffer_self_copy(ctx):
    """BinaryBuffer.w_from with itself: overlapping ranges behave like memmove"""
    u = U()
    buf = ctx.buffer("buf"); n = ctx.length(buf); old = ctx.snap(buf)
    a = ctx.index("a"); b = ctx.index("b"); c = ctx.index("c"); k = ctx.index("k")
    ctx.assume(ctx.and_(k < n, a + c <= n, b + c <= n))
    B = u.BinaryBuffer(buf)
    B.w_from(a, B, b, c)
    want = ctx.ite(ctx.and_(k >= a, k < a + c), ctx.at(old, b + (k - a)), ctx.at(old, k)) if ctx.symbolic else (old[b + k - a] if a <= k < a + c else old[k])
    ctx.prove("exactly the block is replaced", ctx.at(B.buf, k) == want)

@unit("C03")
def buffer_reads_short(ctx):
    """r_bytes beyond the end: struct.error, or the remaining bytes when allowed"""
    import struct
    u = U()
    buf = ctx.buffer("buf"); n = ctx.length(buf)
    a = ctx.index("a"); c = ctx.index("c")
    ctx.assume(a + c > n); ctx.assume(a <= n)
    B = u.BinaryBuffer(buf)
    ctx.prove("raises", ctx.raises(lambda: B.r_bytes(a, c), struct.error))
    ctx.prove("rest", ctx.length(B.r_bytes(a, c, allow_eof=True)) == n - a)

@unit("C03", params=range(0, 4))
def buffer_zbytes_fill(ctx, n):
    """w_zbytes/r_zbytes (fixed size) and w_fill/w_zero touch exactly their bytes"""
    u = U()
    buf = ctx.buffer("buf"); L = ctx.length(buf); old = ctx.snap(buf)
    a = ctx.index("a"); k = ctx.index("k")
    ctx.assume(ctx.and_(a + 4 <= L, k < L))
    v = ctx.bytes("v", n)
    for c in v: ctx.assume(c != 0)
    B = u.BinaryBuffer(buf)
    mode = ctx.choose(["z", "fill", "zero"], "mode")
    if mode == "z":
        B.w_zbytes(a, v, 4)
        ctx.prove("reads back", B.r_zbytes(a, 4) == v)
    elif mode == "fill":
        x = ctx.int("x", 0, 255)
        B.w_fill(a, x, n)
        for i in range(n): ctx.prove("filled", ctx.at(B.buf, a + i) == x)
    else:
        B.w_zero(a, n)
        for i in range(n): ctx.prove("zeroed", ctx.at(B.buf, a + i) == 0)
    w = 4 if mode == "z" else n
    ctx.prove("nothing else changed", ctx.or_(ctx.and_(k >= a, k < a + w), ctx.at(B.buf, k) == ctx.at(old, k)))
    ctx.prove("length kept", ctx.length(B.buf) == L)
