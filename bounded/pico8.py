"""Runs PICO-8 code in lupaz8 (the PICO-8 Lua runtime, an implementation independent of the tool) and records what it
prints: an execution oracle for bounded suites."""
class Fuel(Exception): pass
K_LINES = 400
K_STEPS = 30

def fmt(v):
    try:
        import lupaz8
        t = lupaz8.lua_type(v)
    except Exception: t = None
    if t: return "<%s>" % t
    return "%s:%r" % (type(v).__name__, v)

def run(code):
    """the list of printed lines; a syntax error gives ['<syntax> message'], a runtime error ends with '<error>'"""
    import lupaz8
    rt = lupaz8.LuaRuntime(encoding="latin-1", source_encoding="latin-1")
    lines = []
    def out(*a):
        lines.append(",".join(map(fmt, a)))
        if len(lines) > K_LINES: raise Fuel()
    g = rt.globals()
    g["printh"] = out; g["print"] = out
    # (a count of a PICO-8 number is limited to 32767)
    rt.execute("local c=0 debug.sethook(function() c+=1 if c>%d then error('<pv-fuel>') end end,'',10000)" % K_STEPS)
    try: rt.execute(code)
    except lupaz8.LuaSyntaxError as ex: return ["<syntax> " + str(ex)[:200]]
    except Fuel: lines.append("<fuel>")
    except Exception as ex: lines.append("<fuel>" if "<pv-fuel>" in str(ex) else "<error>")
    return lines

def same(a, b):
    """whether two runs agree, as far as both got"""
    if a[-1:] == ["<fuel>"] or b[-1:] == ["<fuel>"]:
        a, b = [x[:-1] if x[-1:] == ["<fuel>"] else x for x in (a, b)]
        n = min(len(a), len(b))
        return a[:n] == b[:n]
    return a == b
