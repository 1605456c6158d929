"""bounded stand-ins for C04: whole carts through rom and png files, with random carriers, labels and titles"""
import io, os
from pyver.suite import suite
from bounded.carts import rand_cart, rand_code, rand_label, rand_rom, brief, diff

def same(api, cart, back, what, version=True):
    api.check(bytes(back.rom) == bytes(cart.rom), what + ": same memory", diff(back.rom, cart.rom))
    api.eq(back.code, cart.code, what + ": same code")
    if version: api.eq((back.version_id, tuple(back.version_tuple), back.platform), (cart.version_id, tuple(cart.version_tuple), cart.platform), what + ": same version")

def opts_of(rng):
    o = {}
    if rng.random() < .3: o["force_compress"] = True
    if rng.random() < .6: o["fast_compress"] = True
    if rng.random() < .2: o["old_compress"] = True
    return o

@suite("C04", quick=20, thorough=400, shards=2)
def rom(rng, i, api):
    """rom files with and without the version trailer, kept compression, tiny roms"""
    import pico_cart as pc
    cart = rand_cart(rng)
    if rng.random() < .1: cart.code = "".join(chr(rng.randint(1, 255)) for _ in range(rng.choice((0x3cfe, 0x3cff, 0x3d00, 0x3d01, 0x3000))))
    if rng.random() < .1: cart.code = "abcdefgh" * rng.choice((1952, 1951, 1953, 1960))
    o = opts_of(rng); trailer = rng.random() < .6
    if len(cart.code) > 3000: o["fast_compress"] = True
    if len(cart.code) > 3000: o.pop("old_compress", 0)      # (quadratic there)
    api.case((brief(cart), o, trailer))
    try: buf = pc.write_cart_to_rom(cart, with_trailer=trailer, **o)
    except Exception as ex:
        api.check("compressed" in str(ex) or "long" in str(ex) or "size" in str(ex) or "chars" in str(ex), "refused only for its size", repr(ex)); return
    api.eq(len(buf), 0x8000 + (32 if trailer else 0), "file size")
    api.check(bytes(buf[:0x4300]) == bytes(cart.rom), "the memory comes first")
    back = pc.read_cart_from_rom(buf); same(api, cart, back, "rom", trailer)
    # keeping the compressed code: writing the read cart again gives the same file
    kept = pc.read_cart_from_rom(buf, keep_compression=True, allow_tiny=True); same(api, cart, kept, "rom, compression kept", trailer)
    api.eq(bytes(pc.write_cart_to_rom(kept, with_trailer=trailer, keep_compression=True)), bytes(buf), "rewriting with kept compression")
    if trailer:
        # a damaged cart is not accepted silently
        pos = rng.randrange(0x8000); bad = bytearray(buf); bad[pos] ^= rng.randrange(1, 256)
        try: pc.read_cart_from_rom(bytes(bad)); ok = False
        except Exception: ok = True
        api.check(ok, "a damaged rom is rejected", pos)
    try: tiny = pc.write_cart_to_tiny_rom(cart, **{k: v for k, v in o.items() if k != "force_compress"})
    except Exception as ex: api.check("compressed space" in str(ex), "refused only for its size", repr(ex)); return
    if len(tiny) < 0x8000:
        api.eq(pc.read_cart_from_rom(tiny, allow_tiny=True).code, cart.code, "tiny rom: same code")
        t2 = pc.write_cart_to_tiny_rom(kept, keep_compression=True)
        api.eq(pc.read_cart_from_rom(t2, allow_tiny=True).code, cart.code, "tiny rom, compression kept: same code")

@suite("C04", quick=25, thorough=500, shards=2)
def png(rng, i, api):
    """png files over random carriers; only the low two bits of the carrier change"""
    import pico_cart as pc
    from PIL import Image
    W, H = 160, 205
    cart = rand_cart(rng); o = opts_of(rng)
    if len(cart.code) > 2000: o["fast_compress"] = True
    label = rng.random() < .5
    if label: cart.label = rand_label(rng)
    if rng.random() < .5: cart.title = "title %d\nby me" % rng.randrange(100)
    template_only = rng.random() < .5
    carrier = None
    if rng.random() < .8:
        mode = rng.choice(("RGBA", "RGBA", "RGB"))
        carrier = Image.frombytes(mode, (W, H), rng.randbytes(W * H * len(mode)) if rng.random() < .7 else bytes([rng.choice((0, 255, 3, 252))]) * (W * H * len(mode)))
        path = os.path.join(api.scratch, "t.png"); carrier.save(path); o["template_image"] = path
    api.case((brief(cart), {k: v for k, v in o.items() if k != "template_image"}, label, template_only, carrier and carrier.mode))
    data = pc.write_cart_to_image(cart, template_only=template_only, optimize_image=rng.random() < .1, **o)
    back = pc.read_cart_from_image(data); same(api, cart, back, "png")
    if carrier:
        new = Image.open(io.BytesIO(data)).convert("RGBA"); old = carrier.convert("RGBA")
        a, b = old.load(), new.load()
        for y in range(H):
            for x in range(W):
                if not template_only and (16 <= x < 144 and 24 <= y < 152 or 18 <= x < 142 and 167 <= y < 183): continue
                p, q = a[x, y], b[x, y]
                if any(s | 3 != t | 3 for s, t in zip(p, q)): api.check(False, "only the low two bits change", ((x, y), p, q))
        api.check(True, "only the low two bits change")
    clip = pc.write_raw_to_clip(data)
    api.check(pc.read_raw_from_clip(clip) == data, "clipboard text holds the png")
