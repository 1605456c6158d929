"""registry of units (contract harnesses)"""
UNITS = {}   # prop -> list of Unit

class Unit:
    def __init__(m, prop, name, fn, params, limit, thorough_only, deps, loops, desc, random_runs):
        m.prop, m.name, m.fn, m.params, m.limit = prop, name, fn, params, limit
        m.thorough_only, m.deps, m.loops, m.desc, m.random_runs = thorough_only, deps, loops, desc, random_runs
    def tasks(m):
        if m.params is None: return [(m.name, None)]
        return [(f"{m.name}[{i}]", i) for i in range(len(m.params))]
    def call(m, ctx, i):
        if i is None: m.fn(ctx)
        else: m.fn(ctx, m.params[i])

def unit(prop, params=None, limit=100, thorough_only=False, deps=(), loops=None, desc=None, name=None, random_runs=300):
    """prop: property id(s); params: optional list of parameter values (one task each);
    loops: {(module, qualname, ordinal): LoopContract} cut points used by this unit (deductive mode only)"""
    def deco(fn):
        for p in ((prop,) if isinstance(prop, str) else prop):
            UNITS.setdefault(p, []).append(Unit(p, name or fn.__name__, fn, params, limit, thorough_only, deps, loops or {}, desc or (fn.__doc__ or "").strip(), random_runs))
        return fn
    return deco

class LoopContract:
    """base class of a loop contract: a unit subclasses it
       inv(env)   -> list of (name, condition) over the loop's locals
       havoc(env) -> dict of fresh values for every local the loop may change (others become unusable)
       more/next  -> for 'for' loops: whether another element exists, and the next element"""
    extra = (); keep = ()
    def __init__(m, ctx_ref): m.ctx_ref = ctx_ref
