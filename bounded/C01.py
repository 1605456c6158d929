"""C01 bounded: real compressor against an independent decoder, and the real decoder"""
from pyver.suite import suite
from bounded import ref_compress as R
import io

def roundtrip(api, code, fast, old):
    import pico_compress as pc, utils
    w = utils.BinaryWriter(io.BytesIO(), big_end=True)
    pc.compress_code(w, code, force_compress=True, fail_on_error=False, fast_compress=fast, old_compress=old)
    data = w.f.getvalue()
    try: got, facts = (R.old if old else R.pxa)(data)
    except (R.BadStream, IndexError) as ex: api.check(False, "a PICO-8 decoder accepts the stream", f"{ex} {data[:40]!r}")
    api.eq(got, code.encode("latin-1"), "a PICO-8 decoder restores the code")
    api.eq(pc.uncompress_code(utils.BinaryReader(io.BytesIO(data + bytes(8)), big_end=True)), code, "decompression restores the code")
    api.eq(pc.uncompress_code(utils.BinaryReader(io.BytesIO(data), big_end=True)), code, "decompression restores the code (nothing behind it)")
    if not old: api.eq(pc.get_compressed_size(utils.BinaryReader(io.BytesIO(data + bytes(8)), big_end=True)), len(data), "compressed size")
    return data, facts

@suite("C01", quick=14, thorough=200, shards=2)
def roundtrips(rng, i, api):
    """compress, decompress with the real and with an independent decoder"""
    code = R.gen_code(rng); fast = rng.random() < .4
    api.case((fast, code))
    roundtrip(api, code, fast, False)

@suite("C01", quick=15, thorough=120)
def far(rng, i, api):
    """distances around 32768, literal blocks met by long matches"""
    code = R.far_code(rng); fast = i % 2 == 0
    api.case((fast, len(code), code[-100:]))
    roundtrip(api, code, fast, False)

@suite("C01", quick=3, thorough=20)
def limits(rng, i, api):
    """oversized code is refused, fitting code is accepted; short code is stored plainly"""
    import pico_compress as pc, utils
    n = rng.choice([0, 1, 100, 0x3cfe, 0x3cff, 0x3d00, 0x3d01])
    code = "".join(chr(rng.randint(1, 255)) for _ in range(n)) if rng.random() < .5 else "ab" * (n // 2)
    api.case((n, code[:50]))
    w = utils.BinaryWriter(io.BytesIO(), big_end=True)
    try: pc.compress_code(w, code, fast_compress=True); refused = False
    except utils.CheckError: refused = True
    data = w.f.getvalue()
    if refused: api.check(len(data) > 0x3d00, "refused only when it does not fit", len(data))
    else:
        api.check(len(data) <= 0x3d00, "accepted only when it fits", len(data))
        api.eq(pc.uncompress_code(utils.BinaryReader(io.BytesIO(data.ljust(0x3d00, b"\0")), big_end=True)), code, "restored")
