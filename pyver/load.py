"""pyver.load - runs the *current source* of /repo through a mechanical instrumentation and imports it.

What the instrumentation changes (nothing is dropped; every statement of the function is executed):
  * f(args)        -> pv__call(f, args)      so that calls can be checked against contracts / builtin models
  * a in b         -> pv__in(a, b)           (native 'in' would force the answer to a concrete bool; same meaning)
  * a[i] (load)    -> pv__get(a, i)          symbolic indices into concrete containers
  * a % b          -> pv__mod(a, b)          '%' formatting with symbolic arguments
  * f"..."         -> pv__fstr(...)
  * (e for x in s) -> pv__gen(s, lambda it: (e for x in it))  so that a ghost sequence of any length can be mapped at once
  * loops listed in a unit's loop contracts are cut at their head: check invariant; havoc; assume invariant; then
    one arbitrary iteration (re-checking the invariant, path ends) or the exit.
"""
import ast, copy, sys, os, types, builtins, importlib.abc, importlib.machinery, importlib.util

REPO = os.environ.get("PV_REPO", "/repo")
NOHOOK = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "pv__call", "__import__", "NameError"}

LOOPS = {}      # (module, qualname, ordinal) -> contract object
CONTRACTS = {}  # (module, qualname) -> callable(real, *args, **kw)
MATCHED = set()

class Instr(ast.NodeTransformer):
    def __init__(m, module):
        m.module, m.stack, m.loopno = module, [], []
        m.tmp = 0
    def qual(m): return ".".join(m.stack)

    def visit_ClassDef(m, n):
        m.stack.append(n.name)
        n.body = [m.visit(x) for x in n.body]
        n.decorator_list = [m.visit(x) for x in n.decorator_list]
        n.bases = [m.visit(x) for x in n.bases]
        m.stack.pop()
        return n
    def visit_FunctionDef(m, n):
        n.decorator_list = [m.visit(x) for x in n.decorator_list]
        n.args.defaults = [m.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [m.visit(x) if x else None for x in n.args.kw_defaults]
        m.stack.append(n.name); m.loopno.append(0)
        m.hoist(n)
        n.body = m.body(n.body)
        m.loopno.pop(); 
        # inner functions are reported to the engine when they are created, so that units can reach closures
        q = m.qual()
        m.stack.pop()
        if m.stack:
            n.decorator_list.append(ast.Call(ast.Name("pv__def", ast.Load()), [ast.Constant(q)], []))
        return n
    def hoist(m, fn):
        """nonlocal and global declarations go to the function's start (the same meaning; a loop that is cut assigns before them)"""
        found = []
        class H(ast.NodeTransformer):
            def visit_Nonlocal(v, x): found.append(x); return ast.copy_location(ast.Pass(), x)
            visit_Global = visit_Nonlocal
            def visit_FunctionDef(v, x): return x
            visit_ClassDef = visit_Lambda = visit_FunctionDef
        fn.body = [H().visit(x) for x in fn.body]
        fn.body[:0] = found
    def body(m, stmts):
        out = []
        for s in stmts:
            r = m.visit(s)
            if isinstance(r, list): out += r
            elif r is not None: out.append(r)
        return out

    def visit_Call(m, n):
        n = m.generic_visit(n)
        if isinstance(n.func, ast.Name) and (n.func.id in NOHOOK or n.func.id.startswith("pv__")): return n
        return ast.copy_location(ast.Call(ast.Name("pv__call", ast.Load()), [n.func] + n.args, n.keywords), n)
    def visit_Compare(m, n):
        n = m.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("pv__in" if isinstance(n.ops[0], ast.In) else "pv__notin", ast.Load()), [n.left, n.comparators[0]], [])
            return ast.copy_location(c, n)
        return n
    def visit_Subscript(m, n):
        n = m.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            sl = n.slice
            if isinstance(sl, ast.Slice):
                nn = lambda x: x if x is not None else ast.Constant(None)
                sl = ast.Call(ast.Name("slice", ast.Load()), [nn(sl.lower), nn(sl.upper), nn(sl.step)], [])
                sl.func = ast.Name("pv__slice", ast.Load())
            return ast.copy_location(ast.Call(ast.Name("pv__get", ast.Load()), [n.value, sl], []), n)
        return n
    def visit_GeneratorExp(m, n):
        """(elt for x in it) -> pv__gen(it, lambda pv__it: (elt for x in pv__it)): the same generator, but a ghost sequence may summarise it"""
        n = m.generic_visit(n)
        g = n.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(n)): return n
        it = g[0].iter
        g[0].iter = ast.Name("pv__it", ast.Load())
        lam = ast.Lambda(ast.arguments([], [ast.arg("pv__it")], None, [], [], None, []), n)
        return ast.copy_location(ast.Call(ast.Name("pv__gen", ast.Load()), [it, lam], []), n)
    def visit_BinOp(m, n):
        n = m.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("pv__mod", ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_JoinedStr(m, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = m.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(ast.Tuple([m.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("pv__fstr", ast.Load()), parts, []), n)

    def loopkey(m):
        if not m.loopno: return None
        k = (m.module, m.qual(), m.loopno[-1])
        m.loopno[-1] += 1
        return k
    def assigned(m, nodes, extra=()):
        names = []
        class V(ast.NodeVisitor):
            def visit_Name(v, x):
                if isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in names: names.append(x.id)
            def visit_FunctionDef(v, x):
                if x.name not in names: names.append(x.name)
            def visit_Lambda(v, x): pass
            def visit_ListComp(v, x):
                for g in x.generators: v.visit(g.iter)
            visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
            def visit_NamedExpr(v, x): v.visit(x.target); v.visit(x.value)
        for n in nodes: V().visit(n)
        for x in extra:
            if x not in names: names.append(x)
        return names
    def call(m, f, *args): return ast.Call(f, list(args), [])
    def visit_While(m, n): return m.loop(n)
    def visit_For(m, n): return m.loop(n)
    def loop(m, n):
        key = m.loopkey()
        contract = LOOPS.get(key)
        names = m.assigned(n.body + [n.test] if isinstance(n, ast.While) else n.body + [n.target], getattr(contract, "extra", ()) if contract else ())
        if isinstance(n, ast.While):
            n.test = m.visit(n.test)
        else:
            n.iter = m.visit(n.iter)
        n.body = m.body(n.body)
        n.orelse = m.body(n.orelse)
        if contract is None: return n
        MATCHED.add(key)
        m.tmp += 1
        L = f"pv__L{m.tmp}"
        ld = lambda: ast.Name(L, ast.Load())
        loc = ast.Call(ast.Name("locals", ast.Load()), [], [])
        out = []
        out.append(ast.Assign([ast.Name(L, ast.Store())], m.call(ast.Name("pv__loop", ast.Load()), ast.Constant(key[0]), ast.Constant(key[1]), ast.Constant(key[2]),
                   n.iter if isinstance(n, ast.For) else ast.Constant(None))))
        out.append(ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())] if names else [ast.Name("pv__u", ast.Store())],
                   m.call(ast.Attribute(ld(), "enter", ast.Load()), loc, ast.Constant(tuple(names)))))
        end = ast.Expr(m.call(ast.Attribute(ld(), "end", ast.Load()), loc))
        once = ast.For(ast.Name("pv__once", ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()), n.body, [end])
        if isinstance(n, ast.While):
            cond, pre = n.test, []
        else:
            cond = m.call(ast.Attribute(ld(), "more", ast.Load()))
            pre = [ast.Assign([n.target], m.call(ast.Attribute(ld(), "next", ast.Load())))]
        out.append(ast.If(cond, pre + [once], n.orelse or [ast.Pass()]))
        # the loop is cut only while a unit has activated its contract; otherwise it runs as written
        act = m.call(ast.Name("pv__active", ast.Load()), ast.Constant(key[0]), ast.Constant(key[1]), ast.Constant(key[2]))
        out = [ast.If(act, copy.deepcopy(out), [n])]
        for o in out: ast.copy_location(o, n); ast.fix_missing_locations(o)
        return out

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(m, name, path=None, target=None):
        p = os.path.join(REPO, *name.split(".")) + ".py"
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(name, p, loader=m)
        return None
    def create_module(m, spec): return None
    def exec_module(m, module):
        from . import hooks
        path = module.__spec__.origin
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        tree = Instr(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__.update(hooks.NAMES)
        exec(compile(tree, path, "exec"), module.__dict__)

def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
    if REPO in sys.path: sys.path.remove(REPO)
