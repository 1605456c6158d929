"""independent decoders of PICO-8's two code compression formats (written from the published format, not from /repo)"""
class BadStream(Exception): pass

def pxa(data):
    """-> (code, bytes used, facts); raises BadStream where a PICO-8 decoder would not accept or read outside"""
    if data[:4] != b"\0pxa": raise BadStream("header")
    unc = data[4] << 8 | data[5]; com = data[6] << 8 | data[7]
    pos = 64
    def bit():
        nonlocal pos
        if pos >> 3 >= len(data): raise BadStream("past the end")
        b = data[pos >> 3] >> (pos & 7) & 1; pos += 1
        return b
    def bits(n): return sum(bit() << k for k in range(n))
    mtf = list(range(256)); out = bytearray(); facts = dict(blocks=0, matches=0, literals=0, maxoff=0)
    while len(out) < unc:
        if bit():
            n = 0
            while bit():
                n += 1
                if n > 4: raise BadStream("literal index too large")
            i = bits(4 + n) + ((1 << n) - 1) * 16
            if i > 255: raise BadStream("literal index too large")
            c = mtf.pop(i); mtf.insert(0, c); out.append(c); facts["literals"] += 1
        else:
            ol = 15 if not bit() else (10 if not bit() else 5)
            off = bits(ol) + 1
            if ol == 10 and off == 1:
                facts["blocks"] += 1
                while True:
                    c = bits(8)
                    if c == 0: break
                    out.append(c)
            else:
                n = 3
                while True:
                    p = bits(3); n += p
                    if p < 7: break
                if off > len(out): raise BadStream(f"offset {off} at {len(out)}")
                if off > 32768: raise BadStream("offset too large")
                facts["matches"] += 1; facts["maxoff"] = max(facts["maxoff"], off)
                for _ in range(n): out.append(out[-off])
    if len(out) != unc: raise BadStream(f"length {len(out)} instead of {unc}")
    used = (pos + 7) // 8
    if used != com: raise BadStream(f"compressed size field {com}, used {used}")
    if com != len(data): raise BadStream(f"compressed size field {com}, written {len(data)}")
    return bytes(out), facts

OLD = b"\0\n 0123456789abcdefghijklmnopqrstuvwxyz!#%(){}[]<>+=/*:;.,~_"
def old(data):
    if data[:4] != b":c:\0": raise BadStream("header")
    unc = data[4] << 8 | data[5]
    if data[6:8] != b"\0\0": raise BadStream("size field")
    out = bytearray(); p = 8; facts = dict(matches=0, escapes=0, table=0)
    while len(out) < unc:
        if p >= len(data): raise BadStream("past the end")
        c = data[p]; p += 1
        if c == 0: out.append(data[p]); p += 1; facts["escapes"] += 1
        elif c <= 0x3b: out.append(OLD[c]); facts["table"] += 1
        else:
            off = (c - 0x3c) * 16 + (data[p] & 15); n = (data[p] >> 4) + 2; p += 1
            if off > len(out) or off < 1: raise BadStream(f"offset {off} at {len(out)}")
            if n > off: raise BadStream("overlapping copy")
            facts["matches"] += 1
            for _ in range(n): out.append(out[-off])
    if len(out) != unc: raise BadStream("length")
    if p != len(data): raise BadStream(f"{len(data)} bytes written, {p} used")
    return bytes(out), facts

def gen_code(rng, cap=1 << 20):
    """code-like text: aimed at offsets, counts, literal blocks and match tables at their limits"""
    from units.lz77 import gen_text
    k = rng.random()
    if k < .62: s = gen_text(rng, rng.choice([0, 1, 2, 3, 4, 8, 40, 200, 700, 3000]))
    elif k < .72:  # exact distances
        d = rng.choice([1, 2, 31, 32, 33, 34, 1023, 1024, 1025, 3134, 3135, 3136, 3137])
        x = "".join(chr(rng.randint(97, 122)) for _ in range(rng.choice([3, 4, 9, 10, 16, 17, 18, 19, 40])))
        s = x + ";".join(f"{k * 7919 % 10007:04X}" for k in range(d // 5 + 2))[:max(d - len(x), 0)] + x + "end"
    elif k < .82:  # literal blocks near matches
        U, W = ["".join(rng.choice("abcdefghijklmnop") for _ in range(rng.randint(4, 70))) for _ in "ab"]
        V = "".join(rng.sample([chr(c) for c in range(128, 256)], rng.randint(20, 126)))
        s = "".join(rng.choice([U, V, W, "a=1\n" * rng.randint(1, 40), U + V + W, V[::-1]]) for _ in range(rng.randint(2, 9)))
    elif k < .92:  # many occurrences of the same three characters (sub-tables)
        a = rng.choice(["AAA", "abc", "a\n ", "\xff\xff\xff", "aab"])
        s = "".join(a + rng.choice(["", chr(c)]) for c in range(40, 40 + rng.randint(6, 40)) for _ in range(rng.randint(1, 12)))
        s += "".join(rng.choice(["?xAB", "?x", a, a[0], a[:2], "y", "zz"]) for _ in range(rng.randint(1, 30)))
    else: s = "".join(chr(rng.randint(1, 255)) for _ in range(rng.choice([1, 5, 33, 64, 300])))
    return s.replace("\0", "0")[-cap:]

def far_code(rng):
    """long text with copies at distances around 32768 and a match running over a literal block"""
    V = "".join(map(chr, range(130, 256)))
    U, W = ["".join(rng.choice("abcdefghijklmnop") for _ in range(60)) for _ in "ab"]
    k = rng.randint(0, 2)
    if k == 0: return V + "a=1\n" * 800 + U + "a=1\n" + W + "a=1\n" * 400 + U + V + W + "b=2\n" * 7000 + U + V + W + "b=3\n" * 10
    x = "".join(rng.sample("abcdefghijklmnopqrstuvwxyzABCDEFG", 20))
    d = 32768 + rng.choice([-1, 0, 0, 1])
    return x + "=" * (d - 20) + x + U
