"""bounded stand-ins for C09: whole strings through formatter, tokenizer, parser and the minifier, against an independent reading of Lua literals"""
import itertools
from pyver.suite import suite, Done

SIMPLE = {"a": "\a", "b": "\b", "t": "\t", "n": "\n", "v": "\v", "f": "\f", "r": "\r", "\\": "\\", '"': '"', "'": "'", "\n": "\n",
          "*": "\1", "#": "\2", "-": "\3", "|": "\4", "+": "\5", "^": "\6"}
def ref_string(s, i=0):
    """(value, end) of the literal starting at s[i], by the Lua manual and PICO-8's P8SCII escapes; None if malformed"""
    if s[i] == "[":
        j = i + 1
        while s[j:j + 1] == "=": j += 1
        if s[j:j + 1] != "[": return None
        close = "]" + "=" * (j - i - 1) + "]"
        e = s.find(close, j + 1)
        if e < 0: return None
        v = s[j + 1:e].replace("\r\n", "\n").replace("\n\r", "\n").replace("\r", "\n")
        return (v[1:] if v.startswith("\n") else v), e + len(close)
    q = s[i]; i += 1; out = ""
    while True:
        if i >= len(s) or s[i] == "\n": return None
        c = s[i]; i += 1
        if c == q: return out, i
        if c != "\\": out += c; continue
        if i >= len(s): return None
        c = s[i]; i += 1
        if c in SIMPLE: out += SIMPLE[c]
        elif c == "z":
            while i < len(s) and s[i] in " \t\r\n": i += 1
        elif c == "x": out += chr(int(s[i:i + 2], 16)); i += 2
        elif c.isdigit():
            d = c
            while len(d) < 3 and i < len(s) and s[i] in "0123456789": d += s[i]; i += 1
            if int(d) > 255: return None
            out += chr(int(d))
        else: return None

CH = "\0\n\r\"'\\]=[0z9xa \t\x01\x06\x0e\x0f\x1f\x7f\x80\xffn-"
def rand_value(rng):
    k = rng.random()
    if k < .4: return "".join(rng.choice("]=[\n\"'") for _ in range(rng.randrange(9)))
    n = rng.choice((0, 1, 2, 3, 5, 8, 30))
    return "".join(rng.choice(CH) if rng.random() < .8 else chr(rng.randrange(256)) for _ in range(n))

@suite("C09", quick=25, thorough=400)
def formatted(rng, i, api):
    """every option of format_string_literal; all strings of up to 3 special characters first"""
    from pico_output import format_string_literal
    from pico_tokenize import parse_string_literal, tokenize
    from pico_process import Source
    vs = api.cache.get("vs")
    if vs is None: vs = api.cache["vs"] = ["".join(t) for n in range(4) for t in itertools.product("\0\n\r\"'\\]=[05z\x0e", repeat=n)]
    v = vs[i] if i < len(vs) else rand_value(rng)
    api.case(v)
    for kw in (dict(), dict(use_complex_long=False), dict(long=True), dict(long=False), dict(use_ctrl_chars=False), dict(long=False, quote='"', use_ctrl_chars=False), dict(long=False, quote="'"), dict(long=True, use_complex_long=False)):
        lit = format_string_literal(v, **kw)
        api.input = (v, kw, lit)
        r = ref_string(lit + " ..x")
        api.check(r is not None and r == (v, len(lit)), "the literal means the value", r)
        api.eq(parse_string_literal(lit), v, "parse(format(v)) == v")
        api.check(kw.get("use_complex_long", True) or not lit.startswith("[="), "no complex brackets", lit)
        toks, errs = tokenize(Source("x", lit + " ..x"))
        api.check(not errs and [t.value for t in toks] == [lit, "..", "x"], "one token")

def rand_literal(rng):
    """a random literal of the source language"""
    if rng.random() < .3:
        eq = "=" * rng.choice((0, 0, 1, 2))
        body = "".join(rng.choice("]=[\n\"'\\ax") for _ in range(rng.randrange(9)))
        lit = f"[{eq}[{body}]{eq}]"
        return lit if ref_string(lit) and ref_string(lit)[1] == len(lit) else '""'
    q = rng.choice("'\""); out = ""
    for _ in range(rng.choice((0, 1, 2, 4, 12))):
        k = rng.random()
        if k < .35: c = rng.choice([c for c in CH + "abc1 " if c not in q + "\\\n\0\r"])
        elif k < .6: c = "\\" + rng.choice(list(SIMPLE))
        elif k < .7: c = "\\z" + rng.choice(("", " ", " \n ", "\t"))
        elif k < .85: c = "\\x%02x" % rng.randrange(256) if rng.random() < .5 else "\\x%02X" % rng.randrange(256)
        else: c = "\\" + rng.choice(("%d", "%03d", "%02d")) % rng.randrange(256)
        out += c
    lit = q + out + q
    r = ref_string(lit)
    return lit if r and r[1] == len(lit) else q + q

@suite("C09", quick=25, thorough=600)
def minified(rng, i, api):
    """literals of a source through the parser and the minifier (all focuses, old and new versions)"""
    from pico_tokenize import parse_string_literal
    from bounded.tool import minify
    lits = [rand_literal(rng) for _ in range(rng.choice((1, 2, 5)))]
    focus = rng.choice(([], ["chars"], ["compressed"], ["tokens"], ["chars", "tokens"]))
    ver = rng.choice((8, 39, 40, 42))
    api.case((lits, focus, ver))
    want = [ref_string(l)[0] for l in lits]
    for l, w in zip(lits, want): api.eq(parse_string_literal(l), w, "parse of a literal", l)
    form = rng.choice(("f(%s)", "x=%s", "?%s", "f%s", "t[ %s ]=1", "x=y..%s"))
    src = "\n".join(form % l for l in lits)
    out = minify(src, focus=focus, version=ver)
    got = []; p = 0
    while p < len(out):
        c = out[p]
        if c in "'\"" or (c == "[" and out[p + 1:p + 2] in ("[", "=")):
            r = ref_string(out, p)
            api.check(r is not None, "well-formed literal in the output", out)
            got.append(r[0]); p = r[1]
        else: p += 1
    api.input = (lits, focus, ver, out)
    api.eq(got, want, "strings of the minified program")
