"""bounded runtime-contract suites: run the real code on generated inputs (labelled bounded, never counted as proved)"""
SUITES = {}
class Suite:
    def __init__(m, prop, name, fn, quick, thorough, shards, desc): m.prop, m.name, m.fn, m.quick, m.thorough, m.shards, m.desc = prop, name, fn, quick, thorough, shards, desc
class Bad(Exception):
    def __init__(m, name, detail, input=None): m.name, m.detail, m.input = name, detail, input
class Done(Exception): pass

def suite(prop, quick=15, thorough=150, shards=1, name=None):
    """fn(rng, i, api) runs case number i; raises Done when an enumeration is exhausted"""
    def deco(fn):
        for p in ((prop,) if isinstance(prop, str) else prop):
            SUITES.setdefault(p, []).append(Suite(p, name or fn.__name__, fn, quick, thorough, shards, (fn.__doc__ or "").strip()))
        return fn
    return deco

class Api:
    """per-process services for suites"""
    def __init__(m, tier, scratch): m.tier, m.scratch, m.input, m.evals, m.keys, m.samples, m.cache = tier, scratch, None, 0, set(), [], {}
    def case(m, input, key=None):
        """declare the input of the current case (for reports); key: what makes it distinct"""
        m.input = input
        if key is None: key = hash(repr(input)[:4000])
        if len(m.keys) < 2000000: m.keys.add(key)
        if len(m.samples) < 3: m.samples.append(repr(input)[:400])
    def check(m, cond, name, detail=""):
        m.evals += 1
        if not cond: raise Bad(name, str(detail)[:3000], m.input)
    def eq(m, a, b, name, detail=""):
        m.evals += 1
        if a != b or (type(a) != type(b) and not (isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)))):
            raise Bad(name, f"{detail} got {repr(a)[:1200]} expected {repr(b)[:1200]}", m.input)
