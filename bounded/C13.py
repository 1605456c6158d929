"""bounded stand-ins for C13: whole carts through url, clipboard, label and spritesheet files"""
import os
from pyver.suite import suite
from bounded.carts import rand_cart, rand_code, rand_label, brief, diff

def rand_gfx(rng, rom):
    p = 0; N = 128 * 128; runs = 0
    for i in range(0x2000): rom[i] = 0
    lens = rng.choice(((1, 2, 3, 4, 5), (3, 4, 66, 67, 68, 69, 133, 134, 135, 1000), (128, 8192, 5000, 67), (1, 16384), (4000, 67 * 61, 67 * 61 + 1)))
    pal = rng.choice(((0, 1), (0, 15), range(16), (7, 8)))
    while p < N and runs < rng.choice((3, 50, 300)):
        n = rng.choice(lens); c = rng.choice(pal)
        for t in range(p, min(N, p + n)): rom[t >> 1] |= c << (4 * (t & 1))
        p += n; runs += 1
    if rng.random() < .2: rom[0x1fff] = rng.choice((0x10, 0x01, 0xff))

@suite("C13", quick=25, thorough=600, shards=2)
def url(rng, i, api):
    """urls, also through files: same code and graphics, or refused because it is too long"""
    import pico_cart as pc
    cart = pc.Cart(code=rand_code(rng, max_len=600) if rng.random() < .8 else "".join(chr(rng.randint(1, 255)) for _ in range(rng.choice((1, 5, 1400, 1480, 1500, 1520, 1530, 1540)))))
    if rng.random() < .8: rand_gfx(rng, cart.rom)
    fast = rng.random() < .5
    api.case((brief(cart), fast))
    path = os.path.join(api.scratch, "t.url")
    try:
        if rng.random() < .3: pc.write_cart(path, cart, pc.CartFormat.url, fast_compress=fast); url = None
        else: url = pc.write_cart_to_url(cart, fast_compress=fast)
    except Exception as ex:
        api.check("too many characters" in str(ex), "refused only for its size", repr(ex)); return
    if url is None:
        back = pc.read_cart(path) if rng.random() < .5 else pc.read_cart(path, pc.CartFormat.url); url = open(path).read().rstrip()
    else: back = pc.read_cart_from_url(url)
    api.check(len(url) <= 2044, "fits", len(url))
    api.check(all(33 <= ord(c) < 127 for c in url), "one line of plain characters")
    api.eq(back.code, cart.code, "same code")
    want = bytes(cart.rom[:0x2000]) + bytes(pc.Cart().rom[0x2000:])
    api.check(bytes(back.rom) == want, "same graphics", diff(back.rom, want))

@suite("C13", quick=20, thorough=300)
def clip(rng, i, api):
    """clipboard text holds the whole png cart; labels and spritesheets are images that read back the same"""
    import pico_cart as pc
    raw = rng.randbytes(rng.randrange(200))
    if i % 3 == 0: api.case(raw); api.eq(pc.read_raw_from_clip(pc.write_raw_to_clip(raw)), raw, "raw clipboard data"); return
    cart = rand_cart(rng)
    if len(cart.code) > 1000: cart.code = cart.code[:1000]
    cart.label = rand_label(rng, 32); sheet = rng.random() < .5
    api.case((brief(cart), sheet))
    if i % 3 == 1:
        path = os.path.join(api.scratch, "t.clip")
        pc.write_cart(path, cart, pc.CartFormat.clip, fast_compress=True)
        back = pc.read_cart(path) if rng.random() < .5 else pc.read_cart(path, pc.CartFormat.clip)
        api.check(bytes(back.rom) == bytes(cart.rom), "clip: same memory", diff(back.rom, cart.rom))
        api.eq(back.code, cart.code, "clip: same code")
        api.eq((back.version_id, tuple(back.version_tuple)), (cart.version_id, tuple(cart.version_tuple)), "clip: same version")
    elif sheet:
        path = os.path.join(api.scratch, "s.png"); pc.write_cart(path, cart, pc.CartFormat.spritesheet)
        back = pc.read_cart(path, pc.CartFormat.spritesheet)
        api.check(bytes(back.rom[:0x2000]) == bytes(cart.rom[:0x2000]), "spritesheet: same graphics", diff(back.rom, cart.rom))
    else:
        path = os.path.join(api.scratch, "l.png"); pc.write_cart(path, cart, pc.CartFormat.label)
        back = pc.read_cart(path, pc.CartFormat.label)
        api.check(list(back.label.array) == list(cart.label.array), "label: same label")
