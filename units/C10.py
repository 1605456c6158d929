"""C10 contracts: need_whitespace_between over any two tokens, and the writer (output_node): what is between any two tokens, whatever
their places, lines, sources and the comments and shorthand ends between them. The tokenizer is used by contract (it decides, C09/C10
suites compare it with an independent lexer)."""
from pyver.unit import unit
from pyver.duck import Duck
class G: pass
def mods():
    import pico_process, pico_output, pico_tokenize, pico_parse, pico_defs
    return pico_output, pico_tokenize, pico_parse, pico_defs

class Val:
    """the text of a token: any string"""
    __pv_sym__ = True
    def __init__(m, name, ends=""): m.name, m.ends = name, ends
    def __add__(m, o): return ("both", m, o)
    def endswith(m, x): return m.ends != "" and m.ends in (x if isinstance(x, tuple) else (x,))
@unit("C10")
def joined(ctx):
    """need_whitespace_between: two tokens may be joined only if their texts, joined, read as exactly these two tokens; a comment may follow
    a token only if no other comment begins earlier"""
    if not ctx.symbolic: concrete_joined(ctx); return
    po, pt, pp, pd = mods()
    K = pt.TokenType; ctxt = Duck(); ctxt.lang = object()
    a, b = Val("a", ctx.choose(["", "-", "/", "x"], "ends")), Val("b")
    class C(pt.Comment):
        def __init__(m, v): m.value = v
    C.value = None
    class T: pass
    def tok(v, t): r = T(); r.value, r.type = v, t; return r
    def comment(v): r = C.__new__(C); r.__dict__["value"] = v; return r
    ta, tb = K.number, K.ident
    pc, nc = ctx.choose([True, False], "prev is a comment"), ctx.choose([True, False], "next is a comment")
    p = comment(a) if pc else tok(a, ta); n = comment(b) if nc else tok(b, tb)
    seen = []
    def tokenize(source, c=None, lang=None, **k):
        ctx.prove("the joined text is read, in the program's language", source.text == ("both", a, b) and lang is ctxt.lang)
        ts = [tok(ctx.choose([a, b, Val("other")], "v1"), ctx.choose([ta, K.punct], "t1")), tok(ctx.choose([a, b, Val("other")], "v2"), ctx.choose([tb, K.punct], "t2")), tok(b, tb)][:ctx.choose([0, 1, 2, 3], "tokens")]
        err = ctx.choose([[], ["error"]], "errors")
        seen.append(not err and [(t.value, t.type) for t in ts] == [(a, ta), (b, tb)])
        return ts, err
    ctx.contract("pico_tokenize", "tokenize", tokenize)
    class Source:
        def __init__(m, name, text, *x): m.text = text
    ctx.replace("pico_output", "Source", Source)
    r = po.need_whitespace_between(ctxt, p, n)
    if pc: ctx.prove("a comment ends where it ends", not seen)
    elif nc: ctx.prove("a comment is separated from what would begin another", bool(r) or a.ends not in ("-", "/"))
    else:
        ctx.prove("tokens are separated unless they read as themselves", bool(r) or seen == [True])
        ctx.prove("and only then", not r or seen == [False])
def concrete_joined(ctx):
    po, pt, pp, pd = mods()
    from bounded import lua
    from utils import Dynamic
    import pico_process
    words = ["a", "and", "1", "1.5", "0x1", "-", "~", "/", "..", ".", "=", "<", "'s'", "[[x]]", "[", "!=", "...", ">>", ">", "^", "\\", "x1", "0b1", "0xe", "if"]
    a, b = ctx.choose(words, "a"), ctx.choose(words, "b")
    def tok(v): return pt.tokenize(pico_process.Source("x", v))[0][0]
    r = po.need_whitespace_between(Dynamic(lang=pd.Language.pico8), tok(a), tok(b))
    try: both = [t.text for t in lua.lex(a + b)] == [a, b]
    except lua.LuaError: both = False
    ctx.prove("joined only if they read as themselves", r or both, (a, b))

# ---- the writer

class Root(Duck):
    """a program whose traversal is the unit's scenario"""
    def __init__(m, f): m.f = f
    def traverse_nodes(m, pre=None, post=None, tokens=None, extra=False):
        G.traversed += 1
        m.f(pre, post, tokens)
class Nd(Duck):
    def __init__(m, short): m.short = short
MODES = [(w, l, c) for w in (True, False) for l in (True, False) for c in (True, False)]
@unit("C10", params=MODES, limit=200)
def writer(ctx, mode):
    """output_node: after any token, whatever shorthand has ended, whatever (kept) comment comes first: the next token is separated if
    the two do not read as themselves when joined, begins a new line if a one-line shorthand has ended, and stays on the line otherwise"""
    wspace, lines, comments = mode
    po, pt, pp, pd = mods(); K = pt.TokenType; H = pt.CommentHint
    lang = pd.Language.pico8
    class Src:
        text = ""
    s1, s2 = Src(), Src()
    G.traversed = 0; need = {}; orig = {}
    com = ctx.choose([None, "line", "block", "block2", "dropped"], "comment")
    def tok(name, vline):
        i = ctx.int(name + "_idx", 0, 1 << 20); e = ctx.int(name + "_end", 0, 1 << 20)
        return pt.Token(K.ident, name, ctx.choose([s1, s2], "src") if name == "Q" and not com else s1, i, e, vline, lang, modified=not com and ctx.choose([False, True], name + "_mod"))
    v1 = ctx.int("line", 0, 1 << 20)
    same = ctx.choose([True, False], "same line")
    v2 = v1 if same else ctx.int("line2", 0, 1 << 20)
    if not same: ctx.assume(v1 != v2)
    P, Q = tok("P", v1), tok("Q", v2)
    ended = ctx.choose(["nothing", "short", "inner short", "nested short", "long", "short, erased"], "what ended")
    C = None
    if com:
        text = {"line": "--ckeep:\n", "block": "--[[c$keep:]]", "block2": "--[[c\n]]", "dropped": "--d\n"}[com]
        keep = com != "dropped"; prefix = "$" if com == "block" else ""
        C = pt.Comment(com.startswith("block"), H.keep if keep and comments else H.none, None, prefix, s1, ctx.int("c_idx", 0, 1 << 20), ctx.int("c_end", 0, 1 << 20), v2, False)
        C.__class__ = type("C", (pt.Comment,), {"value": text.replace("--", "--" + prefix + "keep:", 1) if keep and comments else text})
        Q.children = [C]
    def needed(c, a, b):
        k = (getattr(a, "value", None), getattr(b, "value", None))
        if k not in need: need[k] = ctx.choose([True, False], f"need")
        return need[k]
    def wsp(a, b, c, allow, needlb=False):
        r = ctx.choose(["\n", " \n"] if needlb else ["", "\n\n"] if allow else ["", "  "], "original")
        return r
    saved = []
    if ctx.symbolic:
        ctx.contract("pico_output", "need_whitespace_between", needed); ctx.contract("pico_output", "get_orig_wspace", wsp)
    else:
        for n, f in (("need_whitespace_between", needed), ("get_orig_wspace", wsp)): saved.append((n, getattr(po, n))); setattr(po, n, f)
    outer, inner = Nd(True), Nd(pp.k_nested if ended == "nested short" else True)
    erased = pt.Token(None, None, s1, 0, 0, v1, lang)
    def scenario(pre, post, tokens):
        if ended == "nothing": tokens(P); tokens(Q)
        elif ended == "short": pre(outer); tokens(P); post(outer); tokens(Q)
        elif ended == "short, erased": pre(outer); tokens(P); post(outer); tokens(erased); tokens(Q)
        elif ended == "long": n = Nd(False); pre(n); tokens(P); post(n); tokens(Q)
        else: pre(outer); pre(inner); tokens(P); post(inner); tokens(Q); post(outer)
    try: out = po.output_node(Root(scenario), Duck(), None, wspace, lines, comments)
    finally:
        for n, f in saved: setattr(po, n, f)
    ctx.prove("traversed once", G.traversed == 1)
    i = out.index("P"); j = out.rindex("Q"); mid = out[i + 1:j]
    ctx.prove("the tokens, once each and in order, and white space around them", out[:i].strip() == "" and out[j + 1:] == "" and out.count("P") == 1 and out.count("Q") == 1)
    shown = com and not (com == "dropped" and comments)
    ctext = None
    if shown:
        ctx.prove("one comment", mid.count("--") == 1)
        k = mid.index("--"); e = mid.index("]]") + 2 if "]]" in mid else mid.index("\n", k) + 1
        before, ctext, after = mid[:k], mid[k:e], mid[e:]
        ctx.prove("its own text (on one line, inside a line)", ctext.strip() in ("--ckeep:", "--[[c$keep:]]", "--[[c\n]]", "--d", "--[[c ]]", "--[[d]]", "--[[ckeep:]]"))
        ctx.prove("and white space around it", before.strip() == "" and after.strip() == "" and "\n" not in before if same else True)
        body_break = "\n" in ctext and not ctext.startswith("--[")
    else: ctx.prove("white space between them", mid.strip() == "")
    pending = ended in ("short", "short, erased")
    breaks = ("\n" in before or body_break or "\n" in after) if shown else "\n" in mid
    if pending: ctx.prove("a one-line shorthand's line ends before the next token", breaks)
    elif same: ctx.prove("no line break on the same line", "\n" not in mid or (shown and comments))
    if wspace and lines and not pending and not shown: ctx.prove("no needless line break", "\n" not in mid)
    if not shown and mid == "":
        adjacent = wspace and not (P.modified or Q.modified) and P.source is Q.source and P.endidx == Q.idx
        ctx.prove("joined only if they read as themselves, or were joined in the program as it was", ctx.or_(adjacent, need.get(("P", "Q")) is False))
    if wspace and not shown and mid not in ("", "\n"): ctx.prove("no needless space", mid == " " and need.get(("P", "Q")) is True)
