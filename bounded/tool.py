"""drives the real tool from the suites: one source text in, processed text out"""
class ToolError(Exception): pass

def context(version=None, lang="pico8", **kw):
    import pico_process
    from pico_process import PicoContext
    if lang == "picotron":
        from picotron_defs import PicotronContext
        return PicotronContext(**kw)
    if version is not None: kw["version"] = version
    return PicoContext(**kw)

def run(src, ctxt=None, version=None, lang="pico8", **opts):
    """process_code on one source; returns (output text, errors/warnings); ToolError if it does not parse"""
    import pico_process
    from pico_process import Source, process_code
    ctxt = ctxt or context(version, lang)
    s = Source("t.lua", src)
    ok, errs = process_code(ctxt, s, **opts)
    if not ok: raise ToolError("; ".join(map(str, errs)))
    return s.text, errs

def minify(src, version=None, lang="pico8", rename=False, ctxt=None, **opts):
    opts.setdefault("focus", ["compressed"])
    return run(src, ctxt, version, lang, minify=opts, rename=rename)[0]
