"""random carts for the cart suites"""
import os
SECTIONS = [("gfx", 0, 0x2000, 64), ("map", 0x2000, 0x1000, 128), ("gff", 0x3000, 0x100, 128), ("music", 0x3100, 0x100, 4), ("sfx", 0x3200, 0x1100, 68)]

def rand_rom(rng, rom):
    """fills a rom: each section empty, sparse (single cells, often the last non-empty row), or random"""
    for name, lo, n, row in SECTIONS:
        k = rng.random()
        if k < .25: continue
        if k < .6:
            for _ in range(rng.choice((1, 1, 2, 5))):
                r = rng.choice((0, n // row - 1, n // row - 2, n // row // 2, rng.randrange(n // row)))
                c = rng.choice((0, row - 1, row - 2, 1, rng.randrange(row)))
                rom[lo + r * row + c] = rng.choice((1, 0x10, 0x80, 0x40, 0xff, 0x0f, 0xf0, rng.randrange(256)))
        elif k < .8:
            m = rng.choice((row, row * 2, n - row, n - 1, rng.randrange(1, n)))
            rom[lo:lo + m] = rng.randbytes(m)
        elif k < .9: rom[lo:lo + n] = bytes([rng.randrange(256)]) * n
        else: rom[lo:lo + n] = rng.randbytes(n)
    if rng.random() < .1: rom[:] = bytes(len(rom))

WORDS = ["x=1", "print(\"hi\")", "local a,b = 1,2", "-- note", "function f() end", "", "  ", "\t", "-->8", "if a then b() end", "s=\"\\65\"", "[[", "]]", "a //= 2", "?\"x\"", "__x", "x__", "_ _", "#t", "pico-8 cartridge", "version 8", "meta:x", "abc"]
def rand_code(rng, chars=None, max_len=3000):
    k = rng.random()
    if k < .1: return ""
    if k < .25: return rng.choice(("\n", "a", "a\n", "\n\na", "a\n\n", " ", "\n \n", "-->8\n", "--title\n--author\nx=1"))
    lines = []
    for _ in range(rng.choice((1, 3, 10, 40))):
        l = rng.choice(WORDS)
        if rng.random() < .4: l += "".join(chr(rng.randint(1, 255)) if rng.random() < .5 else rng.choice("ab\"'\\=\x80\x97\x8b\x7f^") for _ in range(rng.randrange(12)))
        lines.append(l)
    c = "\n".join(lines)
    if k > .9: c += "x" * rng.randrange(200) + "".join(rng.choice(WORDS) for _ in range(rng.randrange(max_len // 8))) + "".join(chr(rng.randint(1, 255)) for _ in range(rng.randrange(200)))
    return c

def text_code(code):
    """into the domain of the text formats: no line breaks other than \\n, no section header lines, no includes"""
    code = code.replace("\r", "")
    return "\n".join(l for l in code.split("\n") if not (l.startswith("__") and l.rstrip().endswith("__")) and "#include" not in l)

def rand_label(rng, colors=16):
    from pico_cart import MultidimArray, k_label_size
    lab = MultidimArray(k_label_size, 0)
    k = rng.random()
    pts = range(128 * 128) if k < .3 else [rng.choice((0, 127, 128, 16383, rng.randrange(16384))) for _ in range(rng.choice((0, 1, 2, 50)))]
    for p in pts: lab[p % 128, p // 128] = rng.randrange(colors)
    return lab

VERSIONS = [8, 16, 29, 33, 36, 37, 38, 41, 42, 43]
def rand_cart(rng, code=None):
    import pico_process
    from pico_cart import Cart
    cart = Cart(code=rand_code(rng) if code is None else code)
    rand_rom(rng, cart.rom)
    if rng.random() < .8:
        cart.set_version(rng.choice(VERSIONS))
        if rng.random() < .5: cart.version_tuple = tuple(rng.randrange(256) for _ in range(4)); cart.platform = chr(rng.randrange(256))
    return cart
def brief(cart): return (cart.code[:300], bytes(cart.rom).hex()[:40], cart.version_id)
def diff(a, b):
    return [(hex(i), x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y][:6] + ([("length", len(a), len(b))] if len(a) != len(b) else [])
