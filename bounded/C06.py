"""bounded stand-ins for C06"""
from pyver.suite import suite, Done

@suite("C06", quick=60, thorough=60)
def pairs(rng, i, api):
    """every pair of PICO-8 characters, both capital modes (exhaustive)"""
    from pico_defs import to_p8str, from_p8str
    if i >= 256: raise Done
    for c in range(256):
        s = chr(i) + chr(c)
        for caps in (False, True):
            u = from_p8str(s, unicaps=caps)
            api.input = (s, caps); api.check(to_p8str(u) == s, "round trip of a pair", f"{s!r} {u!r}")
    api.case(i)

@suite("C06", quick=10, thorough=600)
def strings(rng, i, api):
    """random strings; byte coding; luastr coding"""
    from pico_defs import to_p8str, from_p8str, encode_p8str, decode_p8str, encode_luastr, decode_luastr
    special = [c for c in range(256) if len(from_p8str(chr(c))) > 1] + [65, 90, 97, 0, 13, 255]
    s = "".join(chr(rng.choice(special) if rng.random() < .5 else rng.randrange(256)) for _ in range(rng.choice((0, 1, 3, 10, 60, 1000))))
    caps = rng.random() < .5
    api.case((s, caps))
    api.eq(to_p8str(from_p8str(s, unicaps=caps)), s, "round trip")
    b = s.encode("latin-1")
    api.eq(bytes(encode_p8str(s)), b, "encode_p8str"); api.eq(decode_p8str(b), s, "decode_p8str")
    t = rng.choice((b, "".join(chr(rng.choice((65, 0xe9, 0x3bb, 0x1f431, 0xfe0f))) for _ in range(9)).encode(), b + b"\xf0\x9f"))
    api.eq(bytes(encode_luastr(decode_luastr(t))), bytes(t), "luastr coding inverts")
