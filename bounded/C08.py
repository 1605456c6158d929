"""bounded stand-ins for C08: every fraction through every spelling, shortest spelling, literals through the whole minifier, Picotron numbers"""
import math, struct
from fractions import Fraction
from pyver.suite import suite, Done
M = 0xffffffff
def ref_fixnum(s):
    """value of a PICO-8 numeral (with a leading - or ~) by exact rational arithmetic, or None if malformed"""
    s = s.lower(); sign = ""
    if s[:1] in ("-", "~"): sign, s = s[0], s[1:]
    base, ok = 10, "0123456789"
    if s[:2] == "0x": base, ok, s = 16, ok + "abcdef", s[2:]
    elif s[:2] == "0b": base, ok, s = 2, "01", s[2:]
    i, dot, f = s.partition(".")
    if not (i + f) or any(c not in ok for c in i + f): return None
    v = Fraction(int(i or "0", base)) + (Fraction(int(f, base), base ** len(f)) if f else 0)
    v = math.floor(v * 65536)
    return (v if not sign else -v if sign == "-" else ~v) & M
def shortest_decimal(v):
    """length of the shortest unsigned decimal numeral of a value in 0..0xffffffff: the value's interval is [v, v+1) / 65536"""
    for k in range(0, 7):
        n = -(-v * 10 ** k // 65536)            # ceil
        if n * 65536 < (v + 1) * 10 ** k:
            i, f = divmod(n, 10 ** k)
            if i >= 65536: continue
            return len(str(i)) if k == 0 else (len(str(i)) if i else 0) + 1 + k
def shortest_hex(v):
    i, f = v >> 16, v & 0xffff
    return 2 + (len("%x" % i) if i or not f else 0) + (1 + len(("%04x" % f).rstrip("0")) if f else 0)
def candidates(v, signs=True):
    best = min(shortest_decimal(v), shortest_hex(v))
    if signs and v & 0x80000000 and v != 0x80000000:
        for w in (-v & M, ~v & M): best = min(best, 1 + shortest_decimal(w), 1 + shortest_hex(w))
    return best
IPARTS = [0, 1, 9, 10, 99, 255, 999, 1000, 4095, 9999, 32767, 32768, 32769, 65535, 65534, 61440, 65526]

@suite("C08", quick=45, thorough=700)
def spellings(rng, i, api):
    """every 16-bit fraction (at integer part 0 and others): every option reads back, and the default is the shortest spelling"""
    from pico_output import format_fixnum
    from pico_tokenize import parse_fixnum
    if i >= 65536: raise Done
    f = (i * 40503) & 0xffff
    for v in {f, (IPARTS[i % len(IPARTS)] << 16) | f, (rng.randrange(65536) << 16) | f, i << 16}:
        api.case(hex(v))
        for sign in (None, "", "-", "~"):
            for base in ((None, 10, 16) if sign is None or i % 8 == 0 else (None,)):
                s = format_fixnum(v, sign=sign, base=base)
                api.input = (hex(v), sign, base, s)
                api.eq(ref_fixnum(s), v, "the numeral's value")
                api.eq(parse_fixnum(s), v, "parse_fixnum(s)")
                if sign is not None: api.check((s[:1] == sign) if sign else s[:1] not in "-~", "exactly the asked sign")
        api.check(len(format_fixnum(v)) <= candidates(v), "no allowed spelling is shorter", (format_fixnum(v), candidates(v)))
        api.check(len(format_fixnum(v, sign="")) <= candidates(v, False), "no unsigned spelling is shorter", format_fixnum(v, sign=""))

def rand_value(rng):
    k = rng.random()
    if k < .3: return rng.choice(IPARTS) << 16 | rng.choice((0, 0, 1, 0x8000, 0x4000, 0xffff, 0xfff0, rng.randrange(65536)))
    if k < .5: return (rng.randrange(65536) << 16)
    if k < .7: return rng.randrange(65536)
    return rng.randrange(1 << 32)
def rand_numeral(rng):
    """a spelling a programmer may use"""
    k = rng.random()
    if k < .35: s = str(rng.choice((0, 1, 5, 10, 100, 255, 32767, 65535, rng.randrange(65536))))
    elif k < .6: s = rng.choice(("%d.%s", "%d.", ".%s", "0.%s", "00%d.%s0"))
    elif k < .85: s = "0x" + rng.choice(("%x" % rng.randrange(65536), "%04X" % rng.randrange(65536), "%x.%x" % (rng.randrange(65536), rng.randrange(65536)), ".%04x" % rng.randrange(65536), "0.8", "ffff", "F.", "ffff.ffff", "7fff.ffff", "8000"))
    else: s = "0b" + rng.choice((bin(rng.randrange(65536))[2:], bin(rng.randrange(256))[2:] + "." + bin(rng.randrange(65536))[2:].rjust(16, "0"), "1", ".1", "0001"))
    f = rng.choice((rng.choice("123456789"), "5", "25", "0001", "999999", str(rng.randrange(1000)), "%06d" % rng.randrange(1000000)))
    if "%" in s: s = s % ((rng.randrange(65536), f) if s.count("%") == 2 else rng.randrange(65536) if "%d" in s else f)
    return s if rng.random() < .8 else s.upper().replace("0B", "0b") if rng.random() < .5 else s

def numerals(out):
    """the numerals of the output of the forms below, with an attached sign"""
    import re
    return [m.group(0) for m in re.finditer(r"(?<![\w.])[-~]?(0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*|0[bB][01]*\.?[01]*|[0-9]+\.?[0-9]*|\.[0-9]+)", out)]

@suite("C08", quick=25, thorough=500)
def minified(rng, i, api):
    """literals of a source through the minifier: same values, never longer, still the same operands"""
    from bounded.tool import minify
    lits = [rand_numeral(rng) for _ in range(rng.choice((1, 2, 6)))]
    forms = [rng.choice(("f(%s)", "x=%s", "?%s", "t[%s]=a", "x=a^%s", "x=a-%s", "x=-%s", "x=~%s", "x=-%s^a", "x=%s^a", "x=a<%s", "return %s", "x=a*-%s", "x=- -%s", "x=a .. %s", "x=%s .. a")) for _ in lits]
    focus = rng.choice(([], ["chars"], ["compressed"], ["tokens"], ["chars", "tokens"]))
    src = "\n".join(("%s" if f[0] == "?" else "do %s end") % (f.replace("%s", l)) for f, l in zip(forms, lits))
    api.case((src, focus))
    try: out = minify(src, focus=focus)
    except Exception as ex: raise Exception(repr(src) + str(ex))
    api.input = (src, focus, out)
    api.eq(shape(out), shape(src), "same program, numbers by value")
    if "tokens" not in focus and "~" not in src and "-" not in src: api.check(len(out) <= len(src), "never longer", (len(out), len(src)))

def shape(code):
    """token stream with numerals replaced by their value; a negative numeral is the value at its place, so signs directly before a numeral
    (not after an operand) are applied, unless the numeral is the base of a power (which binds tighter than the sign)"""
    import re
    toks = re.findall(r"0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*|0[bB][01]*(?:\.(?!\.))?[01]*|[0-9]+(?:\.(?!\.)[0-9]*)?|\.[0-9]+|\w+|\.\.|\S", code)
    toks = [t for t in toks if t not in ";"]
    out = []
    for k, t in enumerate(toks):
        if re.match(r"\.?[0-9]", t):
            v = ref_fixnum(t)
            if not (k + 1 < len(toks) and toks[k + 1] == "^"):
                while out and out[-1] in ("-", "~") and (len(out) < 2 or isinstance(out[-2], str) and (not re.match(r"[\w\)\]]", out[-2]) or out[-2] == "return")):
                    v = (-v if out[-1] == "-" else ~v) & M; out.pop()
            out.append(v)
        else: out.append(t)
    return out

def lua_ref(s):
    """value of a Picotron numeral by exact arithmetic: int (wrapped to 64 bits, as Lua's integers) or float"""
    neg = s.startswith("-"); bnot = s.startswith("~"); t = s[1:] if neg or bnot else s
    t = t.lower()
    if t.startswith("(") : return lua_ref(t[1:-1])
    wrap = lambda v: (v + (1 << 63)) % (1 << 64) - (1 << 63)
    if t.startswith("0x"):
        if "." in t or "p" in t:
            man, _, ex = t[2:].partition("p"); a, _, b = man.partition(".")
            v = Fraction(int((a + b) or "0", 16), 16 ** len(b))
            ex = int(ex or "0")
            if ex > 2000: v = math.inf
            else: v = to_float(v * (Fraction(2) ** ex))
        else: v = wrap(int(t, 16))
    elif "." in t or "e" in t: v = float(t)
    else:
        v = int(t)
        if v >= 1 << 63: v = float(v)
    if neg: v = wrap(-v) if isinstance(v, int) else -v
    if bnot: v = ~v
    return v
def to_float(fr):
    try: return fr.numerator / fr.denominator
    except OverflowError: return math.inf
def bits(v): return ("i", v) if isinstance(v, int) else ("f", struct.pack(">d", v))

@suite("C08", quick=20, thorough=400)
def picotron(rng, i, api):
    """64-bit integers and floats of Picotron: written numbers are the same number of the same type"""
    from pico_output import format_luanum
    from pico_tokenize import parse_luanum
    k = rng.random()
    if k < .35: v = rng.choice((0, 1, -1, 9, 10, 255, 1 << 31, 1 << 32, (1 << 53) + 1, (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, rng.randrange(-1 << 63, 1 << 63), rng.randrange(-1000, 1000)))
    elif k < .6: v = struct.unpack(">d", struct.pack(">Q", rng.randrange(1 << 64)))[0]
    elif k < .8: v = rng.choice((-1, 1)) * rng.randrange(1 << rng.choice((1, 8, 30, 53))) / rng.choice((1, 2, 3, 10, 100, 1000, 1 << 20))
    else: v = rng.choice((0.0, -0.0, 1.0, 0.1, -0.5, 1e21, 1e22, 1e-3, 1e-4, 1e24, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, math.inf, -math.inf, 9.5, 99.9999, 0.9999999999999999, 1e15, 123456789012345680.0))
    if v != v: return
    api.case(repr(v))
    for sign in (None, "", "-", "~"):
        if sign == "~" and not isinstance(v, int): continue
        for base in (None, 10, 16):
            for allow_not in (True, False):
                if base == 16 and v == 0 and isinstance(v, float): continue                  # never asked for by the tool
                s = format_luanum(v, sign=sign, base=base, allow_not=allow_not)
                api.input = (repr(v), sign, base, allow_not, s)
                if isinstance(v, int) and base == 10 and sign is not None and "x" not in s and int(s.lstrip("-~")) >= 1 << 63: continue    # the asked form cannot say it
                r = lua_ref(s)
                api.eq(bits(r), bits(v), "the numeral's value")
                if s[:1] not in "~(-": api.eq(bits(parse_luanum(s)), bits(v), "parse_luanum")
