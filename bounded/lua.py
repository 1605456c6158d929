"""An independent reader of PICO-8 Lua (lexer, parser with Lua's scoping, normal form, token counter), written from the
Lua 5.2 manual and the PICO-8 manual, sharing no code with the tool. Tuples are the syntax; variables are resolved."""
import re
from bounded.C09 import ref_string
from bounded.C08 import ref_fixnum

KEYWORDS = set("and break do else elseif end false for function goto if in local nil not or repeat return then true until while".split())
OPS = sorted(""">>>= <<>= >><= ...  ..= >>> <<> >>< ^^= >>= <<= .. == ~= != <= >= << >> ^^ :: += -= *= /= \\= %= ^= &= |=
 + - * / \\ % & | ^ < > = ~ # ( ) [ ] { } ; , ? @ $ . :""".split(), key=len, reverse=True)
OP_RE = re.compile("|".join(map(re.escape, OPS)))
NAME_RE = re.compile("[A-Za-z_\x1e\x1f\x80-\xff][A-Za-z0-9_\x1e\x1f\x80-\xff]*")
NUM_RE = re.compile("0[xX][0-9a-fA-F.]*|0[bB][01.]*|[0-9.]+")

class LuaError(Exception): pass
class Tok:
    __slots__ = ("kind", "text", "val", "idx", "end", "line")
    def __init__(t, kind, text, val, idx, line): t.kind, t.text, t.val, t.idx, t.end, t.line = kind, text, val, idx, idx + len(text), line
    def key(t): return (t.kind, t.val)
    def __repr__(t): return f"{t.kind}:{t.text}"

def lex(s, comments=None):
    """tokens; line counts the line breaks outside strings and comments (what ends a one-line shorthand)"""
    out = []; i = 0; line = 0
    while i < len(s):
        c = s[i]
        if c in " \t\r\n":
            if c == "\n": line += 1
            i += 1; continue
        if s.startswith("--", i) or s.startswith("//", i):
            if c == "-":
                m = re.compile(r"\[(=*)\[").match(s, i + 2)
                if m:
                    e = s.find("]" + m[1] + "]", m.end())
                    if e < 0: raise LuaError("unterminated comment")
                    i = e + 2 + len(m[1])
                    continue
            e = s.find("\n", i); i = len(s) if e < 0 else e
            continue
        if c in "'\"" or (c == "[" and re.compile(r"\[=*\[").match(s, i)):
            r = ref_string(s, i)
            if r is None: raise LuaError("bad string at %d" % i)
            t = Tok("str", s[i:r[1]], r[0], i, line)
        elif c.isdigit() and c in "0123456789" or (c == "." and s[i + 1:i + 2] and s[i + 1] in "0123456789"):
            m = NUM_RE.match(s, i)[0]
            v = ref_fixnum(m)
            if v is None: raise LuaError("bad number " + m)
            t = Tok("num", m, v, i, line)
        else:
            m = NAME_RE.match(s, i)
            if m: t = Tok("kw" if m[0] in KEYWORDS else "name", m[0], m[0], i, line)
            else:
                m = OP_RE.match(s, i)
                if not m: raise LuaError("bad character %r at %d" % (c, i))
                t = Tok("op", m[0], "~=" if m[0] == "!=" else m[0], i, line)
        out.append(t); i = t.end
    return out

# --- token count: PICO-8 manual: commas, periods, LOCALs, semi-colons, ENDs, comments and colons are free;
# a pair of brackets counts as one; unary minus or complement attached to a number is part of it
def count(toks):
    n = 0
    for i, t in enumerate(toks):
        if t.kind == "str" or t.kind == "num": n += 1; continue
        if t.kind == "op" and t.text in (",", ".", ":", ";", "::", ")", "]", "}"): continue
        if t.kind == "kw" and t.text in ("end", "local"): continue
        if t.kind == "op" and t.text in ("-", "~") and i + 1 < len(toks) and toks[i + 1].kind == "num" and toks[i + 1].idx == t.end and i > 0:
            p = toks[i - 1]
            operand = p.kind in ("num", "str", "name") or (p.kind == "op" and p.text in (")", "]", "}", ";")) or (p.kind == "kw" and p.text == "end")
            if not operand: continue
        n += 1
    return n

# --- parser
PREC = {"or": 1, "and": 2, "<": 3, ">": 3, "<=": 3, ">=": 3, "~=": 3, "==": 3, "|": 4, "~": 5, "^^": 5, "&": 6,
        "<<": 7, ">>": 7, ">>>": 7, "<<>": 7, ">><": 7, "..": 8, "+": 9, "-": 9, "*": 10, "/": 10, "\\": 10, "%": 10, "^": 12}
UNARY = {"-", "~", "not", "#", "@", "%", "$"}
UPREC = 11
class Var:
    """a declared local (or label)"""
    def __init__(v, name, tok, kind="local", depth=0): v.name, v.tok, v.kind, v.uses, v.depth = name, tok, kind, [], depth
    def __repr__(v): return f"<{v.name}>"
class Occ:
    """an occurrence of a name: var is its declaration or None (global); role: local global member label"""
    def __init__(o, tok, role, var=None, decl=False, assign=False, implicit=False, scope=None):
        o.tok, o.role, o.var, o.decl, o.assign, o.implicit, o.scope = tok, role, var, decl, assign, implicit, scope
    @property
    def name(o): return o.tok.text if o.tok else "print" if o.role == "global" else "self"

class Parser:
    def __init__(p, toks, shorthand=True):
        p.t, p.i = toks, 0; p.occs = []; p.scope = {}; p.limit = None; p.labels = []; p.depth = 0; p.end_line = (toks[-1].line + 1) if toks else 0
    def peek(p, k=0):
        j = p.i + k
        if j < len(p.t) and (p.limit is None or p.t[j].line <= p.limit): return p.t[j]
        return Tok("eof", "", None, 0, 0)
    def take(p): t = p.peek(); p.i += 1; return t
    def at(p, *texts): t = p.peek(); return t.kind in ("op", "kw") and t.text in texts
    def accept(p, text):
        if p.at(text): p.i += 1; return True
        return False
    def require(p, text):
        if not p.accept(text): raise LuaError(f"expected {text} at token {p.i} ({p.peek()!r})")
    def name(p):
        t = p.take()
        if t.kind != "name": raise LuaError("name expected, got %r" % t)
        return t
    # scopes are chained dicts: name -> Var
    def push(p): p.scope = {"^": p.scope}
    def pop(p): p.scope = p.scope["^"]
    def find(p, name):
        s = p.scope
        while s is not None:
            if name in s: return s[name]
            s = s.get("^")
    def visible(p):
        r = {}; s = p.scope
        while s is not None:
            for k, v in s.items():
                if k != "^": r.setdefault(k, v)
            s = s.get("^")
        return r
    def use(p, tok, implicit=None):
        v = p.find(implicit or tok.text)
        o = Occ(tok, "local" if v else "global", v, implicit=bool(implicit), scope=p.scope)
        if v: v.uses.append(o)
        p.occs.append(o); return ("var", o)
    def member(p, tok): o = Occ(tok, "member"); p.occs.append(o); return o
    def declare(p, tok, implicit=False):
        v = Var(tok.text if tok else "self", tok, depth=p.depth); p.scope[v.name] = v
        o = Occ(tok, "local", v, decl=True, implicit=implicit, scope=p.scope); p.occs.append(o); return o
    def pending(p, tok): # declared later (local x = x)
        return tok
    # expressions
    def primary(p):
        t = p.peek()
        if t.kind == "num": p.i += 1; return ("num", t.val)
        if t.kind == "str": p.i += 1; return ("str", t.val)
        if p.at("nil", "true", "false"): p.i += 1; return ("const", t.text)
        if p.at("..."): p.i += 1; return ("varargs",)
        if p.at("{"): return p.table()
        if p.at("function"): p.i += 1; return p.funcbody()
        return p.prefix()
    def prefix(p):
        t = p.peek()
        if p.accept("("):
            e = p.expr(); p.require(")"); e = ("paren", e)
        elif t.kind == "name": p.i += 1; e = p.use(t)
        else: raise LuaError("unexpected %r at token %d" % (t, p.i))
        while True:
            if p.accept("."): e = ("member", e, p.member(p.name()))
            elif p.accept("["):
                k = p.expr(); p.require("]"); e = ("index", e, k)
            elif p.at("(", "{") or p.peek().kind == "str": e = ("call", e, p.args())
            elif p.accept(":"):
                m = p.member(p.name()); e = ("method", e, m, p.args())
            else: return e
    def args(p):
        if p.accept("("):
            if p.accept(")"): return []
            l = p.exprs(); p.require(")"); return l
        if p.at("{"): return [p.table()]
        t = p.take()
        if t.kind != "str": raise LuaError("arguments expected")
        return [("str", t.val)]
    def table(p):
        p.require("{"); items = []
        while not p.accept("}"):
            if p.accept("["):
                k = p.expr(); p.require("]"); p.require("="); items.append(("[]", k, p.expr()))
            elif p.peek().kind == "name" and p.peek(1).kind == "op" and p.peek(1).text == "=":
                k = p.member(p.name()); p.require("="); items.append((".", k, p.expr()))
            else: items.append(("+", p.expr()))
            if not (p.accept(",") or p.accept(";")): p.require("}"); break
        return ("table", items)
    def expr(p, limit=0):
        if p.peek().kind in ("op", "kw") and p.peek().text in UNARY:
            op = p.take().text; e = ("un", op, p.expr(UPREC))
        else: e = p.primary()
        while True:
            t = p.peek()
            op = t.val if t.kind in ("op", "kw") else None
            if op not in PREC or not (PREC[op] > limit): return e
            p.i += 1
            e = ("bin", op, e, p.expr(PREC[op] - 1 if op in ("^", "..") else PREC[op]))
    def exprs(p):
        l = [p.expr()]
        while p.accept(","): l.append(p.expr())
        return l
    def funcbody(p, self=False):
        p.require("("); p.push(); old = p.limit; p.depth += 1
        params = [p.declare(None, True)] if self else []
        va = False
        if not p.accept(")"):
            while True:
                if p.accept("..."): va = True; break
                params.append(p.declare(p.name()))
                if not p.accept(","): break
            p.require(")")
        b = p.block(); p.require("end"); p.depth -= 1; p.pop()
        return ("func", params, va, b)
    # statements
    def block(p, new=True, until=False):
        if new: p.push()
        outer = p.scope; p.scope = {"^": outer}   # locals declared in sequence each extend the scope
        p.labels.append({})
        out = []
        while p.peek().kind != "eof" and not p.at("end", "else", "elseif", "until"):
            s = p.stmt()
            if s: out.append(s)
            if s and s[0] == "return": break
        p.labels.pop()
        u = None
        if until: p.require("until"); u = p.expr()
        while p.scope is not outer: p.scope = p.scope["^"]
        if new: p.pop()
        return (out, u) if until else out
    def short_block(p, line):
        old, p.limit = p.limit, line if p.limit is None else min(line, p.limit)
        b = p.block(); p.limit = old
        return b
    def stmt(p):
        t = p.peek()
        if p.accept(";"): return None
        if p.accept("do"): b = p.block(); p.require("end"); return ("do", b)
        if p.accept("if"): return p.if_()
        if p.accept("while"):
            start = p.t[p.i]; c = p.expr(); last = p.t[p.i - 1]
            if p.accept("do"): b = p.block(); p.require("end")
            elif start.text == "(" and last.text == ")": b = p.short_block(last.line)
            else: raise LuaError("do expected")
            return ("while", c, b)
        if p.accept("repeat"):
            b, u = p.block(until=True); return ("repeat", b, u)
        if p.accept("for"):
            names = [p.name()]
            if p.accept("="):
                e = [p.expr()]; p.require(","); e.append(p.expr())
                if p.accept(","): e.append(p.expr())
                p.require("do"); p.push(); v = p.declare(names[0]); b = p.block(); p.require("end"); p.pop()
                return ("for", v, e, b)
            while p.accept(","): names.append(p.name())
            p.require("in"); e = p.exprs(); p.require("do"); p.push(); v = [p.declare(n) for n in names]; b = p.block(); p.require("end"); p.pop()
            return ("forin", v, e, b)
        if p.accept("break"): return ("break",)
        if p.accept("return"):
            if p.peek().kind == "eof" or p.at("end", "else", "elseif", "until", ";"): e = []
            else: e = p.exprs()
            p.accept(";")
            return ("return", e)
        if p.accept("goto"):
            n = p.name(); o = Occ(n, "label", scope=p.scope); p.occs.append(o); return ("goto", o)
        if p.accept("::"):
            n = p.name(); p.require("::"); o = Occ(n, "label", decl=True, scope=p.scope); p.occs.append(o); return ("label", o)
        if p.accept("local"):
            if p.accept("function"):
                p.scope = {"^": p.scope}; v = p.declare(p.name()); return ("localfunc", v, p.funcbody())
            names = [p.name()]
            while p.accept(","): names.append(p.name())
            at = len(p.occs)
            e = p.exprs() if p.accept("=") else []
            p.scope = {"^": p.scope}
            v = [p.declare(n) for n in names]
            return ("local", v, e)
        if p.accept("function"):
            e = p.use(p.name()); e[1].assign = True; self = False
            while p.accept("."): e = ("member", e, p.member(p.name())); 
            if p.accept(":"): e = ("member", e, p.member(p.name())); self = True
            if e[0] == "member": # the variable itself is only read
                b = e
                while b[0] == "member": b = b[1]
                b[1].assign = False
            return ("assign", [e], [p.funcbody(self)])
        if p.at("?"):
            p.i += 1
            old, p.limit = p.limit, t.line if p.limit is None else min(t.line, p.limit)
            f = p.use(None, "print"); a = [] if p.peek().kind == "eof" else p.exprs()
            if p.peek().kind != "eof": raise LuaError("end of line expected after a print shorthand at token %d" % p.i)
            p.limit = old
            return ("callstmt", ("call", f, a))
        e = p.prefix()
        if p.at("=", ","):
            targets = [e]
            while p.accept(","): targets.append(p.prefix())
            p.require("=")
            for x in targets:
                if x[0] not in ("var", "member", "index"): raise LuaError("cannot assign")
                if x[0] == "var": x[1].assign = True
            return ("assign", targets, p.exprs())
        n = p.peek()
        if n.kind == "op" and n.text.endswith("=") and n.text not in ("==", "<=", ">=", "~=", "!="):
            p.i += 1
            if e[0] not in ("var", "member", "index"): raise LuaError("cannot assign")
            if e[0] == "var": e[1].assign = True
            return ("opassign", n.text[:-1], e, p.expr())
        if e[0] not in ("call", "method"): raise LuaError("statement expected at token %d" % p.i)
        return ("callstmt", e)
    def if_(p, short=True):
        start = p.t[p.i] if p.i < len(p.t) else p.peek(); c = p.expr(); last = p.t[p.i - 1]
        if p.accept("then") or p.accept("do"):
            b = p.block()
            if p.accept("elseif"): return ("if", c, b, [p.if_(False)])
            e = None
            if p.accept("else"): e = p.block()
            p.require("end")
            return ("if", c, b, e or [])
        if not (short and start.text == "(" and last.text == ")"): raise LuaError("then expected")
        line = last.line
        b = p.short_block(line); e = []
        old, p.limit = p.limit, line if p.limit is None else min(line, p.limit)
        if p.accept("else"): e = p.short_block(line)
        p.limit = old
        return ("if", c, b, e)
    def chunk(p):
        p.push(); b = p.block(new=False)
        if p.i < len(p.t): raise LuaError("unexpected %r at token %d" % (p.t[p.i], p.i))
        return b

def parse(s):
    """(block, occurrences in order, tokens)"""
    toks = lex(s); p = Parser(toks); b = p.chunk()
    return b, p.occs, toks

# --- normal form: two programs with equal normal forms execute the same (identifiers by the given naming)
def norm(block, name=lambda o: o.name, fold_sign=True):
    def multi(e): return e[0] in ("call", "method", "varargs")
    def one(e): # only the first value is used
        while e[0] == "paren": e = e[1]
        return ex(e)
    def lst(l, want=None):
        """a list of expressions whose last one may give any number of values (want: how many are used)"""
        r = [one(e) for e in l[:-1]]
        if l:
            e = l[-1]
            if want is not None and want <= len(l): r.append(one(e))
            else:
                inner = e
                while inner[0] == "paren": inner = inner[1]
                r.append(("first", ex(inner)) if e[0] == "paren" and multi(inner) else ex(inner))
        return r
    def ex(e):
        k = e[0]
        if k in ("num", "str", "const", "varargs"): return e
        if k == "var": return ("var", e[1].role, name(e[1]))
        if k == "paren": return one(e)
        if k == "un":
            c = one(e[2])
            if fold_sign and c[0] == "num" and e[1] in "-~": return ("num", (-c[1] if e[1] == "-" else ~c[1]) & 0xffffffff)
            return ("un", e[1], c)
        if k == "bin": return ("bin", "~" if e[1] == "^^" else e[1], one(e[2]), one(e[3]))
        if k == "member": return ("member", one(e[1]), name(e[2]))
        if k == "index": return ("index", one(e[1]), one(e[2]))
        if k == "call": return ("call", one(e[1]), lst(e[2]))
        if k == "method": return ("method", one(e[1]), name(e[2]), lst(e[3]))
        if k == "func": return ("func", [name(o) for o in e[1]], e[2], bl(e[3]))
        if k == "table":
            r = []
            for j, it in enumerate(e[1]):
                if it[0] == "[]": r.append(("[]", one(it[1]), one(it[2])))
                elif it[0] == ".": r.append((".", name(it[1]), one(it[2])))
                else: r.append(("+", lst([it[1]])[0] if j == len(e[1]) - 1 else one(it[1])))
            return ("table", r)
        raise AssertionError(k)
    def bl(b): return [st(s) for s in b]
    def st(s):
        k = s[0]
        if k == "do": return ("do", bl(s[1]))
        if k == "if": return ("if", one(s[1]), bl(s[2]), bl(s[3]))
        if k == "while": return ("while", one(s[1]), bl(s[2]))
        if k == "repeat": return ("repeat", bl(s[1]), one(s[2]))
        if k == "for": return ("for", name(s[1]), [one(e) for e in s[2]], bl(s[3]))
        if k == "forin": return ("forin", [name(o) for o in s[1]], lst(s[2], 3), bl(s[3]))
        if k in ("break",): return s
        if k == "return": return ("return", lst(s[1]))
        if k in ("goto", "label"): return (k, name(s[1]))
        if k == "local": return ("local", [name(o) for o in s[1]], lst(s[2], len(s[1])))
        if k == "localfunc": return ("localfunc", name(s[1]), ex(s[2]))
        if k == "assign": return ("assign", [ex(t) for t in s[1]], lst(s[2], len(s[1])))
        if k == "opassign": return ("opassign", "~" if s[1] == "^^" else s[1], ex(s[2]), one(s[3]))
        if k == "callstmt": return ("callstmt", ex(s[1]))
        raise AssertionError(k)
    return bl(block)
