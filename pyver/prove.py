"""deductive part: python3-vt -m pyver.prove PROP TIER OUT.json"""
import sys, os, json, time, importlib, multiprocessing as mp, traceback, signal, resource

def load_all(prop):
    from . import load
    load.install()
    mod = importlib.import_module(f"units.{prop}")
    from .unit import UNITS
    for u in UNITS.get(prop, []):
        for k, v in u.loops.items():
            if k in load.LOOPS and load.LOOPS[k] is not v: raise Exception(f"two loop contracts for {k}")
            load.LOOPS[k] = v
    import pico_process, pico_constfold, pico_compress, pico_output, pico_tokenize, pico_cart, picotron_fs, picotron_cart, pico_export, picotron_export, run_shrinko
    return UNITS.get(prop, [])

def watch_functions(out):
    """record every function of /repo whose (instrumented) body is executed symbolically"""
    from . import load
    mon = sys.monitoring; pre = load.REPO + "/"
    try: mon.use_tool_id(2, "pyver")
    except ValueError: pass
    def start(code, off):
        if code.co_filename.startswith(pre) and not code.co_name.startswith("<"):
            out.add(code.co_filename[len(pre):-3] + "." + code.co_qualname.replace(".<locals>", ""))
        return mon.DISABLE
    mon.register_callback(2, mon.events.PY_START, start)
    mon.set_events(2, mon.events.PY_START)
    mon.restart_events()

def run_task(u, i, tier, limit):
    from . import sym, ctx, hooks, load
    t0 = time.time()
    res = dict(unit=u.name, index=i, desc=u.desc, status="?", obligations=0, discharged=0)
    eng = sym.Engine(deadline=t0 + limit, vc_timeout=int(limit * 700))
    hooks.EXECUTED.clear()
    watch_functions(hooks.EXECUTED)
    c = ctx.SymCtx()
    def body():
        from .unit import UNITS
        try:
            u.call(c, i)
        except (sym.PathEnd, sym.Unsupported, ctx.Skip): raise
        except RecursionError as ex:
            raise sym.Unsupported("recursion")
        except Exception as ex:
            if isinstance(ex, Exception) and traceback.extract_tb(ex.__traceback__)[-1].filename.startswith(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/units/"):
                raise sym.Unsupported(f"the contract does not fit the current code: {type(ex).__name__}: {ex}")
            if isinstance(ex, (AttributeError, TypeError)) and any(k in str(ex) for k in ("Sym", "LoopRun", "Unbound", "Ghost", "Rope", "Acc", "Src", "Blob", "Value")):
                raise sym.Unsupported(f"{type(ex).__name__}: {ex}")
            tb = traceback.extract_tb(ex.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
            if eng.replaying(): raise sym.Unsupported("exception while replaying")
            # is this exception reachable?  (path constraints satisfiable)
            import z3
            r = eng.check()
            name = f"no {type(ex).__name__}"
            ob = eng.obligations.setdefault(name, [0, 0]); ob[0] += 1
            if r == z3.sat:
                eng.failures.append(sym.Failure(name, eng.model_inputs(eng.solver.model()), f"{type(ex).__name__}: {ex} at {where}"))
                eng.exc = True
                raise sym.PathEnd()
            elif r == z3.unsat: raise sym.PathEnd()
            else: raise sym.Unsupported(f"exception {type(ex).__name__} on undecided path")
    eng.exc = False
    for k in u.loops:
        if k not in load.MATCHED:
            res["status"] = "undecided"; res["reason"] = f"loop contract target {k} not found in current source"
    if res["status"] == "?":
        try:
            eng.run(body)
            if eng.failures: res["status"] = "failed"
            elif eng.unknowns: res["status"] = "undecided"; res["reason"] = "solver gave no answer for: " + ", ".join(sorted(set(eng.unknowns)))
            else: res["status"] = "proved"
        except sym.Unsupported as ex:
            res["status"] = "failed" if eng.failures else "undecided"; res["reason"] = f"outside the verifier's subset: {ex}"
        except (sym.PathEnd, ctx.Skip):
            res["status"] = "undecided"; res["reason"] = "stray path end"
        except Exception as ex:
            res["status"] = "undecided"; res["reason"] = "engine: " + "".join(traceback.format_exception_only(ex)).strip() + " @ " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(ex.__traceback__)[-3:])
    nob = sum(v[0] for v in eng.obligations.values()); nd = sum(v[1] for v in eng.obligations.values())
    if res["status"] == "proved":
        if nob == 0 or eng.completed_paths + eng.cut_paths == 0:
            res["status"] = "undecided"; res["reason"] = "vacuous: no obligation or no complete path"
        bad = [k for k, v in eng.covers.items() if not v]
        if bad: res["status"] = "undecided"; res["reason"] = "vacuous: unreachable cover point " + ", ".join(bad)
    res.update(obligations=nob, discharged=nd, paths=eng.paths, solver_s=round(eng.solver_s, 3), backends=eng.backends,
               names={k: v for k, v in eng.obligations.items()}, covers=len(eng.covers), assumptions=sorted(eng.assumptions),
               functions=sorted(hooks.EXECUTED), contracts=sorted(eng.used_contracts), wall=round(time.time() - t0, 2),
               loops=[".".join(map(str, k)) for k in u.loops],
               failures=[dict(name=f.name, model=f.model, detail=f.detail) for f in eng.failures[:5]], exception=eng.exc)
    return res

def child(conn, u, i, tier, limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(4000)
        devnull = os.open(os.devnull, os.O_WRONLY); os.dup2(devnull, 1)
        r = run_task(u, i, tier, limit)
        json.dumps(r, default=str)
    except BaseException as ex:
        r = dict(unit=u.name, index=i, status="undecided", reason=f"engine crash: {type(ex).__name__} {ex}", obligations=0, discharged=0)
    conn.send(json.dumps(r, default=str))
    conn.close()
    os._exit(0)

def main():
    prop, tier, out = sys.argv[1:4]
    only = sys.argv[4:] 
    units = load_all(prop)
    tasks = []
    for u in units:
        if u.thorough_only and tier != "thorough" and not only: continue
        for n, i in u.tasks():
            if only and u.name not in only and n not in only: continue
            tasks.append((u, i))
    jobs = int(os.environ.get("PV_JOBS", "7"))
    results = []; running = []
    mp.set_start_method("fork")
    queue = list(tasks)
    while queue or running:
        while queue and len(running) < jobs:
            u, i = queue.pop(0)
            limit = u.limit * (4 if tier == "thorough" else 1)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(b, u, i, tier, limit)); p.start(); b.close()
            running.append((p, a, u, i, time.time() + limit * 1.3 + 15))
        done = []
        for r in running:
            p, a, u, i, dl = r
            if a.poll():
                try: results.append(json.loads(a.recv()))
                except EOFError: results.append(dict(unit=u.name, index=i, status="undecided", reason="worker died", obligations=0, discharged=0))
                p.join(); done.append(r)
            elif not p.is_alive():
                results.append(dict(unit=u.name, index=i, status="undecided", reason="worker died", obligations=0, discharged=0)); done.append(r)
            elif time.time() > dl:
                p.kill(); p.join()
                results.append(dict(unit=u.name, index=i, status="undecided", reason="time limit", obligations=0, discharged=0)); done.append(r)
        for r in done: running.remove(r)
        if not done: time.sleep(0.01)
    json.dump(results, open(out, "w"), indent=1, default=str)
    if os.environ.get("PV_VERBOSE"):
        for r in results:
            print(r["unit"], r["index"], r["status"], f"{r['discharged']}/{r['obligations']}", "paths", r.get("paths"), "t", r.get("wall"), r.get("reason", ""), r.get("failures") or "")

if __name__ == "__main__":
    main()
