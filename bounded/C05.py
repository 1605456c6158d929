"""bounded stand-ins for C05: whole carts through .p8, .lua and code files"""
import os
from pyver.suite import suite
from bounded.carts import rand_cart, rand_code, rand_label, rand_rom, text_code, brief, diff

META = ["x", "note", "title", "a_b", "x y"]
def rand_meta(rng):
    return {k: ["".join(rng.choice("ab \t_'\"\\=é\U0001f171") for _ in range(rng.randrange(8))) if rng.random() < .8 else "" for _ in range(rng.choice((1, 2, 5)))] for k in rng.sample(META, rng.choice((0, 0, 1, 3)))}

@suite("C05", quick=25, thorough=500, shards=2)
def p8(rng, i, api):
    """random carts as .p8 text and through a .p8 file"""
    import pico_cart as pc
    cart = rand_cart(rng); cart.code = text_code(cart.code)
    if rng.random() < .4: cart.label = rand_label(rng, 32)
    for k, v in rand_meta(rng).items():
        v = [l for l in v if not l.startswith("__")]
        if v: cart.meta[k] = v
    caps = rng.random() < .3
    api.case((brief(cart), caps, cart.label is not None, dict(cart.meta)))
    if rng.random() < .3:
        path = os.path.join(api.scratch, "t.p8"); pc.write_cart(path, cart, pc.CartFormat.p8, unicode_caps=caps)
        back = pc.read_cart(path) if rng.random() < .5 else pc.read_cart(path, pc.CartFormat.p8)
    else: back = pc.read_cart_from_source(pc.write_cart_to_source(cart, unicode_caps=caps))
    api.check(bytes(back.rom) == bytes(cart.rom), "same memory", diff(back.rom, cart.rom))
    api.eq(back.code, cart.code, "same code")
    api.eq(back.version_id, cart.version_id, "same version")
    lab = cart.label.array if cart.label and any(cart.label.array) else None
    api.check((back.label.array if back.label else None) == lab, "same label")
    api.eq(dict(back.meta), dict(cart.meta), "same meta sections")

@suite("C05", quick=15, thorough=300)
def sections(rng, i, api):
    """writing only some sections carries exactly these; Windows line ends and trailing blanks do not matter"""
    import pico_cart as pc
    cart = rand_cart(rng); cart.code = text_code(cart.code)
    names = ["lua", "gfx", "map", "gff", "sfx", "music"]
    sel = rng.sample(names, rng.randrange(len(names) + 1))
    api.case((brief(cart), sel))
    text = pc.write_cart_to_source(cart, sections=sel)
    if rng.random() < .5: text = text.replace("\n", "\r\n")
    back = pc.read_cart_from_source(text)
    want = pc.Cart(); pc.merge_cart(want, cart, sel)
    exp = bytearray(pc.Cart().rom)
    for n, a, b in (("gfx", 0, 0x2000), ("map", 0x2000, 0x3000), ("gff", 0x3000, 0x3100), ("music", 0x3100, 0x3200), ("sfx", 0x3200, 0x4300)):
        if n in sel: exp[a:b] = bytes(cart.rom)[a:b]
    api.check(bytes(back.rom) == bytes(exp), "the written sections", diff(back.rom, exp))
    api.eq(back.code, cart.code if "lua" in sel else "", "the code")

@suite("C05", quick=8, thorough=120)
def raw(rng, i, api):
    """plain source and code files"""
    import pico_cart as pc
    code = text_code(rand_code(rng)); caps = rng.random() < .3
    api.case((code, caps))
    cart = pc.Cart(code=code)
    # (a text file does not record whether its last line ends in a line break)
    ok = (code, code[:-1]) if code.endswith("\n") else (code,)
    def same(back, what): api.check(back in ok, what, repr(back[:200]))
    same(pc.read_cart_from_source(pc.write_cart_to_raw_source(cart, unicode_caps=caps), raw=True).code, "plain source")
    path = os.path.join(api.scratch, "t.lua"); pc.write_cart(path, cart, pc.CartFormat.lua, unicode_caps=caps)
    same(pc.read_cart(path, pc.CartFormat.lua).code, "lua file")
    path = os.path.join(api.scratch, "u.code"); pc.write_cart(path, cart, pc.CartFormat.code, unicode_caps=caps)
    same(pc.read_cart(path, pc.CartFormat.code).code, "code file")
    same(pc.read_cart(path).code, "code file, format detected")
