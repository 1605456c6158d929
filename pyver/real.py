"""runs on the real, uninstrumented code (/opt/venv python): replays of solver models and bounded suites
   real.py suites PROP TIER SEED OUT.json | replay PROP UNIT INDEX MODEL.json | random PROP UNIT INDEX SEED RUNS | case PROP SUITE SEED I"""
import sys, os, json, time, random, importlib, traceback, multiprocessing as mp, tempfile, shutil, resource, ast, re
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(1, REPO)
from pyver import ctx as C
from pyver.unit import UNITS
from pyver.suite import SUITES, Bad, Done, Api

def in_repo(tb):
    """is the innermost frame (outside the standard library) in /repo?"""
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        if f.filename.startswith(REPO + "/"): return True
        if f.filename.startswith(VERIF + "/"): return False
    return False
def brief(ex):
    return f"{type(ex).__name__}: {ex} @ " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in traceback.extract_tb(ex.__traceback__)[-5:])

_pool = None
def constants_pool():
    """integer literals of the current source: values a change may have made special"""
    global _pool
    if _pool is None:
        s = set()
        for fn in os.listdir(REPO):
            if fn.endswith(".py") and not fn.startswith(("run_", "test_")):
                for n in ast.walk(ast.parse(open(os.path.join(REPO, fn), encoding="utf-8").read())):
                    if isinstance(n, ast.Constant) and type(n.value) is int: s.add(n.value)
        _pool = sorted(s)
    return _pool

def preload():
    import pico_process, run_shrinko

def run_unit(prop, name, index, c):
    u = [u for u in UNITS[prop] if u.name == name][0]
    try:
        u.call(c, index)
    except C.Skip: return None
    except C.Violation as v: return dict(name=v.name, detail=v.detail, values=c.values)
    except Exception as ex:
        if in_repo(ex.__traceback__) and not isinstance(ex, (AttributeError, NameError, ImportError, TypeError)):
            return dict(name=f"no {type(ex).__name__}", detail=brief(ex), values=c.values)
        if isinstance(ex, (AttributeError, NameError, ImportError, TypeError)) and in_repo(ex.__traceback__) and c.__class__ is C.ReplayCtx:
            return dict(name=f"no {type(ex).__name__}", detail=brief(ex), values=c.values)
        raise
    return None

def limits():
    """how many cases the quick tier explores at most, so that it is the same on fast and on slow machines (see record_limits.py)"""
    try: return json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bounded", "limits.json")))
    except FileNotFoundError: return {}

def suite_proc(conn, prop, idx, shard, tier, seed, budget):
    s = SUITES[prop][idx]
    scratch = tempfile.mkdtemp(prefix="pv_suite_")
    os.chdir(scratch)
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    so = os.dup(1)
    log = os.open(os.path.join(scratch, ".log"), os.O_WRONLY | os.O_CREAT)
    os.dup2(log, 1); os.dup2(log, 2)
    api = Api(tier, scratch)
    res = dict(suite=s.name, shard=shard, desc=s.desc, cases=0, exhaustive=False, bad=None, error=None)
    t0 = time.time()
    i = shard
    top = limits().get(f"{prop}/{s.name}", 1 << 60) if tier == "quick" and seed == "1" and not os.environ.get("PV_NOLIMIT") else 1 << 60
    try:
        while time.time() - t0 < budget and i < top:
            rng = random.Random(f"{seed}/{s.name}/{i}")
            api.input = None
            try:
                s.fn(rng, i, api)
            except Done:
                res["exhaustive"] = True
                break
            except Bad as b:
                res["bad"] = dict(name=b.name, detail=b.detail, input=repr(b.input)[:6000], case=i)
                break
            except (KeyboardInterrupt, SystemExit) as ex:
                res["error"] = brief(ex); break
            except Exception as ex:
                if in_repo(ex.__traceback__):
                    if api.input is not None:
                        res["bad"] = dict(name=f"no {type(ex).__name__}", detail=brief(ex), input=repr(api.input)[:6000], case=i)
                    else: res["error"] = brief(ex)
                else: res["error"] = brief(ex)
                break
            res["cases"] += 1
            i += s.shards
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(top=i, evals=api.evals, distinct=len(api.keys), samples=api.samples, wall=round(time.time() - t0, 2))
    conn.send(json.dumps(res)); conn.close()
    os._exit(0)

def load_suites(prop):
    try: importlib.import_module(f"bounded.{prop}")
    except ModuleNotFoundError as ex:
        if ex.name != f"bounded.{prop}": raise

def main():
    mode, prop = sys.argv[1:3]
    if mode == "suites":
        tier, seed, out = sys.argv[3:6]
        only = sys.argv[6:]
        preload(); load_suites(prop)
        jobs = int(os.environ.get("PV_JOBS", "7"))
        queue = []
        for idx, s in enumerate(SUITES.get(prop, [])):
            if only and s.name not in only: continue
            for sh in range(s.shards): queue.append((idx, sh, s.thorough if tier == "thorough" else s.quick))
        queue.sort(key=lambda q: -q[2])
        scale = float(os.environ.get("PV_SCALE", "1"))
        mp.set_start_method("fork")
        running, results = [], []
        while queue or running:
            while queue and len(running) < jobs:
                idx, sh, budget = queue.pop(0)
                a, b = mp.Pipe(False)
                p = mp.Process(target=suite_proc, args=(b, prop, idx, sh, tier, seed, budget * scale)); p.start(); b.close()
                running.append((p, a, idx, time.time() + budget * scale * 2 + 60))
            done = []
            for r in running:
                p, a, idx, dl = r
                nm = SUITES[prop][idx].name
                if a.poll():
                    try: results.append(json.loads(a.recv()))
                    except EOFError: results.append(dict(suite=nm, cases=0, evals=0, distinct=0, samples=[], bad=None, error="suite process died"))
                    p.join(); done.append(r)
                elif not p.is_alive() or time.time() > dl:
                    p.kill(); results.append(dict(suite=nm, cases=0, evals=0, distinct=0, samples=[], bad=None, error="suite process died or hung")); done.append(r)
            for r in done: running.remove(r)
            if not done: time.sleep(0.02)
        json.dump(results, open(out, "w"))
        if os.environ.get("PV_VERBOSE"):
            for r in results: print(r["suite"], r.get("shard"), "cases", r["cases"], "evals", r.get("evals"), "distinct", r.get("distinct"), "exh", r.get("exhaustive"), "wall", r.get("wall"), "ERROR " + r["error"] if r["error"] else "", "BAD " + json.dumps(r["bad"]) if r["bad"] else "")
    elif mode in ("replay", "random"):
        name, index = sys.argv[3], (None if sys.argv[4] == "None" else int(sys.argv[4]))
        preload(); importlib.import_module(f"units.{prop}")
        real = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        out = None; runs = 0; err = None
        try:
            if mode == "replay":
                out = run_unit(prop, name, index, C.ReplayCtx(json.load(open(sys.argv[5])))); runs = 1
            else:
                rng = random.Random(f"{sys.argv[5]}/{prop}/{name}/{index}")
                t0 = time.time()
                for k in range(int(sys.argv[6])):
                    runs += 1
                    out = run_unit(prop, name, index, C.RandomCtx(rng, constants_pool()))
                    if out or time.time() - t0 > 20: break
        except Exception as ex:
            err = brief(ex)
        os.write(real, (json.dumps(dict(bad=out, runs=runs, error=err), default=str) + "\n").encode())
    elif mode == "all":     # development aid: every unit of the property, at random, on the real code
        preload(); importlib.import_module(f"units.{prop}")
        real = os.dup(1); os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        for u in UNITS[prop]:
            for _, index in u.tasks():
                rng = random.Random(f"{prop}/{u.name}/{index}"); evals = runs = 0; t0 = time.time()
                for k in range(int(sys.argv[3])):
                    c = C.RandomCtx(rng, constants_pool()); runs += 1
                    try: out = run_unit(prop, u.name, index, c)
                    except Exception as ex: out = "ERR " + brief(ex)
                    evals += c.evals
                    if out or time.time() - t0 > 10: break
                if out or not evals: os.write(real, f"{u.name}[{index}] runs {runs} evals {evals} {out}\n".encode())
        os.write(real, b"done\n")
    elif mode == "case":
        name, seed, i = sys.argv[3], sys.argv[4], int(sys.argv[5])
        preload(); load_suites(prop)
        s = [s for s in SUITES[prop] if s.name == name][0]
        scratch = tempfile.mkdtemp(prefix="pv_case_"); os.chdir(scratch)
        try: s.fn(random.Random(f"{seed}/{s.name}/{i}"), i, Api("quick", scratch)); print("case passes")
        except Bad as b: print("VIOLATED", b.name, b.detail, "\ninput:", repr(b.input)); sys.exit(1)
        finally: os.chdir("/"); shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    main()
