"""C09 contracts: format_string_literal / parse_string_literal / parse_char_escape / the tokenizer's string scanner, for values of any length

Quoted literals.  One arbitrary iteration of the formatter's loop at element c (any character, any following character d, any position)
appends the units E.  E is either the character itself (then it may not be a quote of this kind, a backslash, a line break, a return or a
NUL) or starts with a backslash; then, with r >= 0 raw characters before it and the next element's first unit n1 after it, one arbitrary
iteration of parse_string_literal's loop must append exactly these r characters and c, and stop right after E.  Induction over the
elements gives parse(format(v)) == v.  The tokenizer's scanner gets the same text and must stop at the closing quote only.
Long brackets.  get_long_brackets_equals's exit condition is shown to imply that the closing bracket's first occurrence is the one that
the formatter writes (for any value, any number of '='); with that contract, scanner and parser give back the value."""
from pyver.unit import unit
MAXN = 1 << 40

class G: pass
def mods():
    import pico_process, pico_tokenize, pico_output
    return pico_output, pico_tokenize

# ------------------------------------------------------------------ what Lua / PICO-8 define
SIMPLE = {"a": 7, "b": 8, "t": 9, "n": 10, "v": 11, "f": 12, "r": 13, "\\": 92, '"': 34, "'": 39, "\n": 10,
          "*": 1, "#": 2, "-": 3, "|": 4, "+": 5, "^": 6}
def spec_escape(ctx, cs):
    """value and length of the escape whose units after the backslash are cs (None: end of literal); forks.  None: not an escape"""
    def is_(c, ch): return c is not None and bool(c == ord(ch))
    def dig(c): return c is not None and bool(ctx.and_(c >= 48, c <= 57))
    def hexd(c):
        if c is None: return None
        if bool(ctx.and_(c >= 48, c <= 57)): return c - 48
        if bool(ctx.and_(c >= 97, c <= 102)): return c - 87
        if bool(ctx.and_(c >= 65, c <= 70)): return c - 55
        return None
    c = cs[0]
    if bool(ctx.or_(*[c == ord(k) for k in SIMPLE])):
        r = 0
        for k, v in SIMPLE.items(): r = ctx.ite(c == ord(k), v, r)
        return r, 1
    if is_(c, "x"):
        a = hexd(cs[1]); b = hexd(cs[2]) if a is not None else None
        return None if b is None else (a * 16 + b, 3)
    if dig(c):
        v, n = c - 48, 1
        while n < 3 and dig(cs[n]): v = v * 10 + (cs[n] - 48); n += 1
        return None if bool(v > 255) else (v, n)
    return None

def langval(ctx, lang_p8, v):
    """the character a string of the language uses for byte v"""
    if lang_p8: return v
    return ctx.ite(v < 0x80, v, v + 0xdc00)

# ------------------------------------------------------------------ quoted literals
class FmtLoop:
    """format_string_literal: for i, ch in enumerate(value)"""
    active = False; keep = ("value", "quote", "exclude_esc", "char_escapes_rev", "strlong", "use_ctrl_chars"); extra = ("litparts",)
    def enter(m, lr, env, names):
        from pyver.rope import Rope, Acc
        ctx = G.ctx
        ctx.prove("entry: nothing written", isinstance(env["litparts"], list) and len(env["litparts"]) == 0)
        if G.at is None: return {"litparts": Acc(Rope([G.lit]))}
        return {"litparts": Acc(Rope([]))}
    def more(m, lr): return G.at is not None
    def next(m, lr): return G.i + G.at, G.ctx.sym.mkstr([G.cs[G.at]])
    def end(m, lr, env):
        t = env["litparts"].text().norm()
        cs = G.ctx.sym.as_symstr(t).cs if t != "" else []
        G.ctx.prove("an element is written as 1 to 4 units", 1 <= len(cs) <= 4)
        G.units[G.at] = cs
        G.then()
F_ = FmtLoop()

class Value:
    """the string value, seen at the elements cs from position i on"""
    __pv_sym__ = True
    def pv_str(m): return m
    def pv_len(m): return G.n
    def count(m, s): return G.ctx.fresh("count", 0, MAXN)
    def __getitem__(m, k):
        d = k - G.i
        for j, c in enumerate(G.cs):
            if bool(d == j): return G.ctx.sym.mkstr([c])
        raise G.ctx.sym.Unsupported("value accessed elsewhere")
    def __iter__(m): raise G.ctx.sym.Unsupported("value iterated")

class ParseLoop:
    """parse_string_literal: while start < len(str)"""
    active = False; keep = ("str", "lang"); extra = ("litparts", "start")
    def enter(m, lr, env, names):
        from pyver.rope import Rope, Acc
        ctx = G.ctx
        ctx.prove("entry: nothing parsed", ctx.and_(env["start"] == 0, len(env["litparts"]) == 0))
        G.acc = Acc(Rope([G.done]))
        return {"litparts": G.acc, "start": G.base}
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("the parser goes on right after the escape", env["start"] == G.base + G.r + len(G.E))
        c = langval(ctx, G.p8, G.c) if G.viaspec else G.c
        from pyver.rope import Rope, Blob
        ctx.prove("exactly the raw characters and the escaped one are added", env["litparts"].text().same(Rope([Blob(G.body, G.base, G.r), ctx.sym.mkstr([c])] if c is not None else [Blob(G.body, G.base, G.r)])))
P_ = ParseLoop()

class Body:
    """text of the literal between the quotes, around position base: r raw characters, the units E, then the next element"""
def lit_text(quote):
    from pyver.rope import Rope, Src, Blob
    ctx = G.ctx
    rest = ctx.fresh("rest", 0, MAXN)
    raw = Src("raw", G.base + G.r, excl="\\" + quote + "\n")
    G.body = raw
    parts = [quote, Blob(raw, 0, G.base + G.r), ctx.sym.mkstr(G.E)]
    if G.n1 is not None:
        parts += [ctx.sym.mkstr(G.n1), Src("rest", rest)]
    return Rope(parts + [quote])

def couple_parse(ctx, quote, lang):
    """one iteration of the parser at an escape"""
    out, tok = mods()
    from pyver.rope import Src
    G.base = ctx.fresh("base", 0, MAXN); G.r = ctx.fresh("r", 0, MAXN)
    G.done = Src("done", ctx.fresh("donelen", 0, MAXN))
    P_.active = True
    try: tok.parse_string_literal(lit_text(quote), lang)
    finally: P_.active = False
    ctx.prove("the parser goes through the escape", False)

PARAMS = [(q, ctrl) for q in ('"', "'") for ctrl in (True, False)]
LOOPS = {("pico_output", "format_string_literal", 0): F_, ("pico_tokenize", "parse_string_literal", 0): P_}

@unit("C09", params=[(q, ctrl, lang) for q, ctrl in PARAMS for lang in ("pico8", "picotron")], loops=LOOPS)
def quoted(ctx, p):
    """format one element, parse it back: any character, any neighbours"""
    quote, ctrl, lang = p
    out, tok = mods()
    L = getattr(tok.Language, lang); top = 255 if lang == "pico8" else 0xfffe
    if not ctx.symbolic:
        v = ctx.str("s", ctx.int("len", 0, 8), 0, 255)
        lit = out.format_string_literal(v, use_ctrl_chars=ctrl, long=False, quote=quote)
        if lang == "pico8": ctx.prove("parse(format(v)) == v", tok.parse_string_literal(lit, L) == v, repr((v, lit)))
        ctx.prove("quoted", lit[0] == quote and lit[-1] == quote and len(lit) >= 2); return
    G.ctx, G.p8, G.viaspec = ctx, lang == "pico8", False
    k = ctx.choose([1, 2], "elements seen")
    G.cs = [ctx.int(f"c{j}", 0, top) for j in range(k)]
    G.i = ctx.int("i", 0, MAXN); G.n = G.i + k + (ctx.int("more", 0, MAXN) if k == 2 else 0)
    G.c = G.cs[0]; G.units = {}; G.at = 0
    def fmt():
        F_.active = True
        try: out.format_string_literal(Value(), use_ctrl_chars=ctrl, long=False, quote=quote)
        finally: F_.active = False
    def after0():
        E = G.units[0]
        ctx.prove("a backslash starts an escape; other characters stand for themselves",
            ctx.or_(E[0] == 92, ctx.and_(len(E) == 1, E[0] == G.c)))
        ctx.prove("raw characters are not special", ctx.or_(E[0] == 92, ctx.and_(*[E[0] != ord(x) for x in quote + "\\\n\r\0"])))
        if bool(E[0] != 92): return
        G.E = E
        G.n1 = None
        if k == 2:
            # what was just proved of every element holds for the next one too: its first unit is a backslash or the character itself
            if ctx.choose([False, True], "next is escaped"): G.n1 = [92]
            else:
                d = G.cs[1]; ctx.assume(ctx.and_(*[d != ord(x) for x in quote + "\\\n\r\0"]))
                G.n1 = [d]
        # the escape must also be right by the definition of the language
        w = (G.E[1:] + (G.n1 or []) + [None] * 4)[:4]
        s = spec_escape(ctx, w)
        ctx.prove("the escape is defined by the language, as this character and with this length", s is not None and bool(ctx.and_(s[0] == G.c, s[1] == len(G.E) - 1)) if s else False)
        couple_parse(ctx, quote, L)
    G.then = after0
    fmt()
    ctx.prove("the formatter visits the element", False)

@unit("C09", params=PARAMS, loops=LOOPS)
def quoted_frame(ctx, p):
    """start and end: the literal is the quote, the elements and the quote; the parser's tail"""
    quote, ctrl = p
    out, tok = mods()
    if not ctx.symbolic: return
    from pyver.rope import Src, Rope, Blob
    G.ctx = ctx; G.at = None; G.n = ctx.int("n", 0, MAXN); G.cs = []; G.i = 0
    G.lit = Src("lit", ctx.int("m", 0, MAXN))
    F_.active = True
    try: r = out.format_string_literal(Value(), use_ctrl_chars=ctrl, long=False, quote=quote)
    finally: F_.active = False
    ctx.prove("quote, elements, quote", Rope.of(r).same(Rope([quote, G.lit, quote])))
    # parser: no backslash in the rest
    tail = ctx.int("tail", 0, MAXN); G.base = ctx.int("base", 0, MAXN)
    raw = Src("raw", G.base + tail, excl="\\"); G.done = Src("done", ctx.int("donelen", 0, MAXN))
    P_.active = True
    try: v = tok.parse_string_literal(Rope([quote, raw, quote]))
    finally: P_.active = False
    ctx.prove("the tail is taken as it is", Rope.of(v).same(Rope([G.done, Blob(raw, G.base, tail)])))

@unit("C09", loops=LOOPS)
def quote_choice(ctx):
    """without a given quote the formatter takes one of the two and escapes for it"""
    out, tok = mods()
    if not ctx.symbolic:
        v = ctx.str("s", ctx.int("len", 0, 8), 0, 255)
        ctx.prove("parse(format(v)) == v", tok.parse_string_literal(out.format_string_literal(v, long=False)) == v); return
    from pyver.rope import Src, Rope
    G.ctx = ctx; G.n = ctx.int("n", 1, MAXN); G.i = ctx.int("i", 0, MAXN)
    G.units = {}
    if ctx.choose([False, True], "exit"):
        G.at = None; G.cs = []; G.lit = Src("lit", ctx.int("m", 0, MAXN))
        F_.active = True
        try: r = out.format_string_literal(Value(), long=False)
        finally: F_.active = False
        r = Rope.of(r)
        q = ctx.choose(['"', "'"], "q")
        ctx.prove("one of the quotes", r.same(Rope(['"', G.lit, '"'])) or r.same(Rope(["'", G.lit, "'"])))
        return
    c = ctx.choose([34, 39, 92, 65], "c"); G.at = 0; G.cs = [c, ctx.int("d", 0, 255)]
    ctx.assume(G.i + 2 <= G.n)
    seen = []
    class Spy(FmtLoop): pass
    def then():
        E = G.units[0]
        q = G.quote
        ctx.prove("the quote itself is escaped, the other one may stay", ctx.implies(c == ord(q), E[0] == 92))
        ctx.prove("an escaped character is right", ctx.implies(E[0] == 92, ctx.and_(len(E) == 2, E[-1] == c)) if len(E) > 1 else E[0] == c)
    G.then = then
    old = F_.end
    def end(lr, env): G.quote = env["quote"]; ctx.prove("one of the quotes", env["quote"] in ('"', "'")); old(lr, env)
    F_.active = True; F_.end = end
    try: out.format_string_literal(Value(), long=False)
    finally: F_.active = False; del F_.end
    ctx.prove("the formatter visits the element", False)

# ------------------------------------------------------------------ escapes
@unit("C09", params=["pico8", "picotron"])
def escapes(ctx, lang):
    """parse_char_escape on any four units after the backslash gives what the language defines"""
    out, tok = mods()
    L = getattr(tok.Language, lang)
    k = ctx.choose(range(1, 6), "k")
    lead = ctx.choose(["", "ab"], "lead")
    top = 255 if lang == "pico8" or not ctx.symbolic else 0xfffe
    cs = [ctx.int(f"c{j}", 0, top) for j in range(k)]
    ctx.assume(cs[0] != ord("z"))
    if lang == "picotron": ctx.assume(cs[0] != ord("u"))
    if ctx.symbolic: s = ctx.sym.mkstr([ord(x) for x in lead + "\\"] + cs)
    else: s = lead + "\\" + "".join(map(chr, cs))
    want = spec_escape(ctx, (cs + [None] * 4)[:4])
    if want is None: return   # not an escape of the language: the tool may reject or accept it
    ch, end = tok.parse_char_escape(s, len(lead), L)
    w = langval(ctx, lang == "pico8", want[0]) if want[1] > 1 or bool(ctx.and_(cs[0] >= 48, cs[0] <= 57)) else want[0]
    ctx.prove("value of the escape", len(ch) == 1 and bool((ctx.sym.as_symstr(ch).cs[0] if ctx.symbolic else ord(ch)) == w))
    ctx.prove("length of the escape", end == len(lead) + 1 + want[1])

class ZLoop:
    """parse_char_escape: the loop of a \\z escape"""
    active = False; keep = ("str", "pos", "lang", "esc"); extra = ("end",)
    def enter(m, lr, env, names):
        G.ctx.prove("entry: right after the z", env["end"] == G.pos + 2)
        return {"end": G.e}
    def end(m, lr, env):
        ctx = G.ctx
        ctx.prove("only whitespace is skipped, one by one", ctx.and_(env["end"] == G.e + 1, G.e < G.n, ctx.or_(*[G.u == ord(x) for x in " \t\n\r"])))
Z_ = ZLoop()
@unit("C09", loops={("pico_tokenize", "parse_char_escape", 0): Z_})
def escape_z(ctx):
    """\\z skips whitespace and adds nothing"""
    out, tok = mods()
    if not ctx.symbolic:
        s = "\\z" + "".join(ctx.choose(" \t\nab", "w") for _ in range(ctx.int("n", 0, 6)))
        ch, e = tok.parse_char_escape(s, 0, tok.Language.pico8)
        ctx.prove("skips", ch == "" and e == 2 + len(s[2:]) - len(s[2:].lstrip(" \t\n"))); return
    from pyver.rope import Rope, Src
    G.ctx = ctx; G.pos = ctx.int("pos", 0, MAXN); G.n = ctx.int("n", 0, MAXN); G.e = ctx.int("e", 0, MAXN); G.u = ctx.int("u", 0, 255)
    ctx.assume(ctx.and_(G.pos + 2 <= G.n, G.e >= G.pos + 2, G.e <= G.n))
    def at(i):
        if bool(i == G.e): return G.u
        if bool(i == G.pos + 1): return ord("z")
        raise ctx.sym.Unsupported("text accessed elsewhere")
    Z_.active = True
    try: ch, end = tok.parse_char_escape(Rope([Src("text", G.n, at=at)]), G.pos, tok.Language.pico8)
    finally: Z_.active = False
    ctx.prove("nothing is added", len(ch) == 0)
    ctx.prove("stops where whitespace ends", ctx.and_(end == G.e, ctx.or_(G.e == G.n, ctx.and_(*[G.u != ord(x) for x in " \t\n\r"]))))

@unit("C09", params=[1, 2, 4, 5, 6, 7, 8])
def escape_u(ctx, k):
    """picotron \\u{...} of 1 to 8 digits: the UTF-8 bytes of the code point"""
    out, tok = mods()
    ds = [ctx.int(f"d{j}", 0, 15) for j in range(k)]
    up = ctx.choose([55, 87], "case") if k <= 2 else 87
    v = 0
    for d in ds: v = v * 16 + d
    ctx.assume(v < 1 << 31)
    cs = [ctx.ite(d < 10, d + 48, d + up) for d in ds]
    s = ctx.sym.mkstr([92, 117, 123] + cs + [125, 48]) if ctx.symbolic else "\\u{" + "".join(map(chr, cs)) + "}0"
    r, end = tok.parse_char_escape(s, 0, tok.Language.picotron)
    rs = (list(ctx.sym.as_symstr(r).cs) if ctx.symbolic else [ord(x) for x in r])
    ctx.prove("length", end == 4 + k)
    if bool(v < 0x80): want = [v]
    else:
        n = next(n for n in range(2, 7) if v < (0x800, 0x10000, 0x200000, 0x4000000, 0x80000000)[n - 2])
        want = [((0x100 - (0x100 >> n)) & 0xff) | (v >> (6 * (n - 1)))] + [0x80 | ((v >> (6 * j)) & 0x3f) for j in range(n - 2, -1, -1)]
        want = [0xdc00 + w for w in want]
    ctx.prove("bytes of the code point", len(rs) == len(want) and bool(ctx.and_(*[a == b for a, b in zip(rs, want)])))

# ------------------------------------------------------------------ the tokenizer's scanner
class ScanLoop:
    """tokenize.tokenize_string: while True"""
    active = False; keep = ("orig_idx", "quote", "off"); extra = ("idx",)
    def enter(m, lr, env, names):
        G.ctx.prove("entry: right after the opening quote", env["idx"] == 1)
        return {"idx": G.base}
    def end(m, lr, env):
        G.ctx.prove("the scanner stays inside the literal", G.mode != "close")
        G.ctx.prove("the scanner skips one raw character or one escape's first two units", env["idx"] == G.base + (1 if G.mode == "raw" else 2))
S_ = ScanLoop()
class PadLoop:
    """tokenize.tokenize_long_brackets: while accept('=')"""
    active = False; keep = ("orig_idx", "pad_idx", "off"); extra = ("idx",)
    def enter(m, lr, env, names):
        G.ctx.prove("entry: after the first bracket", env["idx"] == 1)
        G.t = G.ctx.fresh("t", 0, MAXN); G.ctx.assume(G.t <= G.eqs)
        return {"idx": 1 + G.t}
    def end(m, lr, env):
        G.ctx.prove("one '=' at a time", G.ctx.and_(env["idx"] == 2 + G.t, G.t < G.eqs))
PD_ = PadLoop()
TOKL = {("pico_tokenize", "tokenize.tokenize_string", 0): S_, ("pico_tokenize", "tokenize.tokenize_long_brackets", 0): PD_}

def scan(ctx, text, lang, contract):
    import pico_process
    out, tok = mods()
    contract.active = True
    try: return tok.tokenize(pico_process.Source("x", text), lang=lang)
    finally: contract.active = False

@unit("C09", params=[(q, m) for q in ('"', "'") for m in ("raw", "escape", "close")], loops=TOKL)
def scan_quoted(ctx, p):
    """the tokenizer takes the literal as one token: it goes over raw characters and escapes, and stops at the closing quote"""
    quote, mode = p
    out, tok = mods()
    if not ctx.symbolic:
        import pico_process
        v = ctx.str("s", ctx.int("len", 0, 8), 0, 255)
        for ctrl in (True, False):
            lit = out.format_string_literal(v, use_ctrl_chars=ctrl, long=False, quote=quote)
            toks, errs = tok.tokenize(pico_process.Source("x", lit + " y"))
            ctx.prove("one token", not errs and toks[0].value == lit and toks[0].type == tok.TokenType.string and toks[1].value == "y", repr(lit))
        return
    from pyver.rope import Rope, Src
    G.ctx, G.mode = ctx, mode
    G.base = ctx.int("base", 1, MAXN)
    before = Src("before", G.base - 1); after = Src("after", ctx.int("after", 0, MAXN))
    lang = tok.Language.pico8 if ctx.choose([True, False], "p8") else tok.Language.picotron
    if mode == "raw":
        c = ctx.int("c", 0, 255); ctx.assume(ctx.and_(*[c != ord(x) for x in quote + "\\\n"]))
        text = Rope([quote, before, ctx.sym.mkstr([c]), after, quote])
    elif mode == "escape":
        e = ctx.int("e", 0, 255); ctx.assume(e != ord("z"))
        text = Rope([quote, before, ctx.sym.mkstr([92, e]), after, quote])
    else: text = Rope([quote, before, quote])
    toks, errs = scan(ctx, text, lang, S_)
    ctx.prove("the scan ends at the closing quote only", mode == "close")
    ctx.prove("one string token", len(toks) == 1 and toks[0].type == tok.TokenType.string and not errs)
    ctx.prove("it is the whole literal", Rope.of(toks[0].value).same(text))

# ------------------------------------------------------------------ long brackets
class EqLoop:
    """get_long_brackets_equals: for i in itertools.count()"""
    active = False; keep = ("value",)
    def enter(m, lr, env, names): return {}
    def more(m, lr): return True
    def next(m, lr): return G.i
    def end(m, lr, env):
        # not returned: there must be an occurrence
        ctx = G.ctx
        ctx.prove("goes on only if this number of '=' closes early", G.q0 is not None)
        k = ctx.fresh("k", 0, MAXN); ctx.assume(k < G.i + 2)
        ctx.prove("an early closing bracket exists", ctx.and_(G.q0 >= 0, G.q0 < G.n))
        ctx.prove("it matches", closed(ctx, G.q0 + k) == pat_at(ctx, k))
E_ = EqLoop()
def pat_at(ctx, k): return ctx.ite(ctx.or_(k == 0, k == G.i + 1), 93, 61)
def closed(ctx, i):
    """character i of value + ']' + '=' * i + ']'"""
    return ctx.ite(i < G.n, G.V.raw(i), pat_at(ctx, i - G.n))

@unit("C09", loops={("pico_output", "get_long_brackets_equals", 0): E_})
def brackets_equals(ctx):
    """the number of '=' is the smallest with which the closing bracket's first occurrence is at the end of the value"""
    out, tok = mods()
    if not ctx.symbolic:
        v = "".join(ctx.choose("]=a", "c") for _ in range(ctx.int("len", 0, 9)))
        e = out.get_long_brackets_equals(v)
        ok = lambda k: (v + "]" + "=" * k + "]").find("]" + "=" * k + "]") == len(v)
        ctx.prove("smallest fitting", set(e) <= {"="} and ok(len(e)) and not any(ok(k) for k in range(len(e))), repr(v)); return
    from pyver.rope import Rope, Src
    G.ctx = ctx; G.n = ctx.int("n", 0, MAXN); G.i = ctx.int("i", 0, MAXN)
    G.V = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("V"), G.n, 0, 255, "str")
    G.q0 = None
    v = Rope([Src("V", G.n, at=lambda i: G.V.raw(i))])
    q = ctx.int("q", 0, MAXN); ctx.assume(q < G.n)       # an arbitrary candidate for an early closing bracket
    bad = ctx.fresh("bad", 0, MAXN)                       # where the text differs from the bracket there, if it does
    def contains(rope, pat, start):
        """'pat in rope' as first order facts, instantiated at q and at bad"""
        pat = Rope.of(pat); L = pat.pv_len(); n = rope.pv_len()
        if not bool(ctx.and_(start == 0, L == G.i + 2)): raise ctx.sym.Unsupported("unexpected search")
        if ctx.choose([False, True], "occurs"):
            G.q0 = ctx.fresh("q0", 0, MAXN); ctx.assume(G.q0 + L <= n)
            G.inst = lambda k: ctx.assume(at(rope, G.q0 + k) == at(pat, k))
            return G.q0
        if bool(q + L <= n):
            ctx.assume(bad < L)
            ctx.assume(at(rope, q + bad) != at(pat, bad))
            G.no = True
        return -1
    def at(r, i): return ctx.sym.as_symstr(Rope.of(r)[i]).cs[0]
    v.find_facts = [contains]; G.no = False
    # in 'end' the occurrence is used at an arbitrary k
    old = ctx.fresh
    def fresh(name, lo, hi):
        r = old(name, lo, hi)
        if name == "k": ctx.assume(r < G.i + 2); G.inst(r)
        return r
    ctx.fresh = fresh
    E_.active = True
    try: r = out.get_long_brackets_equals(v)
    finally: E_.active = False; del ctx.fresh
    ctx.prove("the result is that many '='", Rope.of(r).same("=" * G.i))
    # suppose the closing bracket occurred at q < n in the finished text: contradiction
    ctx.prove("an early occurrence would have been found", G.no)
    ctx.assume(closed(ctx, q + bad) == pat_at(ctx, bad))
    ctx.prove("no early occurrence", False)

@unit("C09", params=[True, False], loops={**TOKL, **LOOPS})
def long_brackets(ctx, complex_long):
    """a long-bracket literal is scanned as one token and parses back to the value"""
    out, tok = mods()
    if not ctx.symbolic:
        v = "".join(ctx.choose("]=a\n[\"'", "c") for _ in range(ctx.int("len", 0, 9)))
        import pico_process
        lit = out.format_string_literal(v, use_complex_long=complex_long, long=True)
        toks, errs = tok.tokenize(pico_process.Source("x", lit + " y"))
        ctx.prove("one token, same value", not errs and toks[0].value == lit and toks[0].parsed_value == v and len(toks) == 2, repr((v, lit)))
        ctx.prove("simple brackets only, if asked for", complex_long or not lit.startswith("[=")); return
    from pyver.rope import Rope, Src, Rep, Blob
    G.ctx = ctx; n = ctx.int("n", 0, MAXN)
    arr = ctx.sym.SymArr.fresh(ctx.sym.ENG.fresh_name("V"), n, 0, 255, "str")
    class CRope(Rope):
        def count(m, ch): return ctx.fresh("count", 0, MAXN)
    src = Src("V", n, at=lambda i: arr.raw(i))
    eqs = G.eqs = ctx.int("eqs", 0, MAXN)
    simple = []
    def facts(rope, pat, start):
        p = rope.parts
        if isinstance(pat, str) and len(pat) == 1 and len(p) == 1 and getattr(p[0], "src", None) is src and bool(ctx.and_(p[0].n == n, start == 0)):
            if pat in src.excl: return -1
            if ctx.choose([False, True], "has " + repr(pat)): return ctx.fresh("at", 0, MAXN)
            src.excl.add(pat); return -1
        if isinstance(pat, str) and pat == "]]" and bool(start == 0) and rope.same(Rope([src, "]"])):
            # the smallest fitting number of '=' is 0 exactly if ']]' is not in value + ']'
            if bool(eqs == 0): simple.append(True); return -1
            return ctx.fresh("at", 0, MAXN)
        # proved in brackets_equals: the closing bracket's first occurrence is right after the value
        after = Rope(rope.split(start)[1])
        if isinstance(pat, str) and len(pat) == 1: return None
        want = Rope(["]", Rep("=", eqs), "]"])
        if Rope.of(pat).same(want) and after.same(Rope([src]) + want): return start + n
        if Rope.of(pat).same(want) and after.parts and after.startswith("\n") and Rope(after.split(1)[1]).same(Rope([src]) + want): return start + 1 + n
        return None
    v = CRope([src]); v.find_facts = [facts]
    eqrope = Rope([Rep("=", eqs)])
    ctx.contract("pico_output", "get_long_brackets_equals", lambda value: eqrope if Rope.of(value).same(Rope([src])) else (_ for _ in ()).throw(ctx.sym.Unsupported("other value")))
    G.at = None; G.cs = []; G.i = 0; G.n = n; G.lit = Src("lit", ctx.fresh("litlen", 0, MAXN))
    mode = ctx.choose([True, None], "long")
    F_.active = True
    try: r = out.format_string_literal(v, use_complex_long=complex_long, long=mode)
    finally: F_.active = False
    r = Rope.of(r)
    if not r.startswith("["):
        ctx.prove("otherwise quoted", r.same(Rope(['"', G.lit, '"'])) or r.same(Rope(["'", G.lit, "'"]))); return
    if not complex_long: ctx.prove("simple brackets only, if asked for", eqs == 0)
    ctx.prove("characters that long brackets cannot hold", "\0" in src.excl and "\r" in src.excl)
    if not r.find_facts: r.find_facts = [facts]
    toks, errs = scan(ctx, r, tok.Language.pico8 if ctx.choose([True, False], "p8") else tok.Language.picotron, PD_)
    ctx.prove("one string token", len(toks) == 1 and toks[0].type == tok.TokenType.string and not errs)
    ctx.prove("it is the whole literal", Rope.of(toks[0].value).same(r))
    ctx.prove("it parses to the value", Rope.of(tok.parse_string_literal(r)).same(Rope([src])))
