#!/usr/bin/env python3
"""check.py PROP   (VERIF_SEED, VERIF_TIER from the environment)
   exit 0: property held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no answer"""
import sys, os, json, subprocess, time, re, tempfile, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PV_REPO", "/repo")
VENV = "/opt/venv/bin/python"
VT = "python3-vt"
ENV = dict(os.environ, LANG="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONPATH=VERIF)

def known_findings(prop):
    out = []
    try: lines = open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8").read().splitlines()
    except FileNotFoundError: lines = []
    for l in lines:
        m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", l)
        if m and m[1] == prop: out.append((re.compile(m[2], re.S), m[3]))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="pv_check_")
    replays = os.path.join(VERIF, "evidence", "replays"); os.makedirs(replays, exist_ok=True)
    try:
        return run(prop, tier, seed, t0, work, replays)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, seed, t0, work, replays):
    manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
    entry = [c for c in manifest["checks"] if c["property"] == prop]
    level = entry[0]["level"] if entry else "proof"
    pout, sout = os.path.join(work, "p.json"), os.path.join(work, "s.json")
    tasks = {}
    limit = 840 if tier == "quick" else 6 * 3600
    has_units = os.path.exists(os.path.join(VERIF, "units", prop + ".py"))
    has_suites = os.path.exists(os.path.join(VERIF, "bounded", prop + ".py"))
    procs = []
    if has_units:
        procs.append(subprocess.Popen([VT, "-m", "pyver.prove", prop, tier, pout], cwd=VERIF, env=dict(ENV, PV_JOBS="4" if has_suites else "7"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    if has_suites:
        procs.append(subprocess.Popen([VENV, os.path.join(VERIF, "pyver", "real.py"), "suites", prop, tier, seed, sout], cwd=VERIF, env=dict(ENV, PV_JOBS="4" if has_units else "7"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    logs = []
    for p in procs:
        try: logs.append(p.communicate(timeout=max(1, limit - (time.time() - t0)))[0])
        except subprocess.TimeoutExpired: p.kill(); logs.append("(time limit)")
    for l in logs:
        if l and l.strip(): print(l.strip()[-3000:], file=sys.stderr)
    units = json.load(open(pout)) if os.path.exists(pout) else []
    suites = json.load(open(sout)) if os.path.exists(sout) else []

    violations = []   # (name, text, replay dict, found_input)
    # 1. refuted obligations: replay the solver's model on the real code
    def real(*args):
        r = subprocess.run([VENV, os.path.join(VERIF, "pyver", "real.py"), *map(str, args)], cwd=VERIF, env=ENV, capture_output=True, text=True, timeout=120)
        try: return json.loads(r.stdout.strip().splitlines()[-1])
        except Exception: return dict(bad=None, runs=0, error=(r.stderr or "")[-500:])
    standins = []
    failed_units = [u for u in units if u["status"] == "failed"]
    for u in failed_units[:12]:
        rep = None
        for f in u["failures"][:3]:
            mp = os.path.join(work, "model.json"); json.dump(f["model"], open(mp, "w"), default=str)
            try: r = real("replay", prop, u["unit"], u["index"], mp)
            except subprocess.TimeoutExpired: r = dict(bad=None)
            if r.get("bad"): rep = r["bad"]; break
        if not rep:
            try: r = real("random", prop, u["unit"], u["index"], seed, 2000)
            except subprocess.TimeoutExpired: r = dict(bad=None)
            rep = r.get("bad")
        f = u["failures"][0]
        info = dict(property=prop, unit=u["unit"], index=u["index"], desc=u.get("desc"), obligation=f["name"], solver_model=f["model"], solver_detail=f["detail"], functions=u.get("functions"))
        if rep:
            info.update(kind="contract violated on the real code", replayed=rep, how=f"{VENV} {VERIF}/pyver/real.py replay {prop} {u['unit']} {u['index']} <file with the 'values' object>")
            violations.append((f"{u['unit']}: {rep['name']}", rep["detail"], info, True))
        elif not u.get("exception"):
            info.update(kind="obligation refuted by the solver, not reproduced on the real code")
            violations.append((f"{u['unit']}: {f['name']}", f["detail"], info, False))
        else:
            u["status"] = "undecided"; u["reason"] = "reported exception did not replay: " + f["detail"]
    # 2. undecided units: bounded stand-in of the same contract on the real code
    for u in units:
        if u["status"] == "undecided":
            try: r = real("random", prop, u["unit"], u["index"], seed, 400 if tier == "quick" else 5000) if time.time() - t0 < limit - 150 else dict(bad=None, runs=0, error="no time")
            except subprocess.TimeoutExpired: r = dict(bad=None, runs=0, error="time limit")
            standins.append(dict(unit=u["unit"], index=u["index"], reason=u.get("reason"), runs=r.get("runs"), error=r.get("error")))
            if r.get("bad"):
                info = dict(property=prop, unit=u["unit"], index=u["index"], kind="contract violated on the real code (bounded stand-in)", replayed=r["bad"])
                violations.append((f"{u['unit']}: {r['bad']['name']}", r["bad"]["detail"], info, True))
    # 3. bounded suites
    for s in suites:
        if s["bad"]:
            b = s["bad"]
            info = dict(property=prop, suite=s["suite"], kind="bounded suite", seed=seed, **b, how=f"PYTHONPATH={VERIF} {VENV} {VERIF}/pyver/real.py case {prop} {s['suite']} {seed} {b['case']}")
            violations.append((f"{s['suite']}: {b['name']}", b["detail"], info, True))

    known = known_findings(prop); fresh = []; seen_known = set()
    for v in violations:
        text = f"{v[0]} :: {v[1]} :: {json.dumps(v[2], default=str)}"
        k = [t for rx, t in known if rx.search(text)]
        if k: seen_known.update(k)
        else: fresh.append(v)
    proved = [u for u in units if u["status"] == "proved"]
    funcs = sorted({f for u in proved for f in u.get("functions", [])})
    cov = dict(
        obligations=sum(u["obligations"] for u in units), discharged=sum(u["discharged"] for u in units),
        units=len(units), units_proved=len(proved), units_refuted=len([u for u in units if u["status"] == "failed"]),
        units_undecided=[dict(unit=u["unit"], index=u["index"], reason=u.get("reason")) for u in units if u["status"] == "undecided"],
        functions_under_contract=funcs, paths=sum(u.get("paths") or 0 for u in units),
        discharged_by={b: sum((u.get("backends") or {}).get(b, 0) for u in units) for b in ("trivial", "z3", "cvc5")},
        solver_s=round(sum(u.get("solver_s") or 0 for u in units), 2),
        loop_contracts=sorted({l for u in units for l in u.get("loops", [])}), callee_contracts=sorted({l for u in units for l in u.get("contracts", [])}),
        cover_points_reached=sum(u.get("covers") or 0 for u in units),
        checker_cmd=f"python3-vt -m pyver.prove {prop} {tier} OUT.json",
        trusted_base=["pyver (instrumentation, symbolic semantics of the Python subset, VC generation)", "z3", "cvc5", "CPython (runs the instrumented functions during symbolic execution)"],
        contracts=sorted({f"{u['unit']}: {u.get('desc')}" for u in units}),
        bounded_stand_ins=dict(note="bounded: executed on the real code, never counted as proved",
            unit_stand_ins=standins,
            suites=[dict(name=s["suite"], desc=s.get("desc"), cases=s["cases"], evaluations=s.get("evals"), distinct=s.get("distinct"), exhaustive=s.get("exhaustive"), wall_s=s.get("wall"), error=s["error"]) for s in suites]),
        evaluations=sum(s.get("evals") or 0 for s in suites), distinct_nontrivial=sum(s.get("distinct") or 0 for s in suites),
        rule="bounded suites: one case per generated input; distinct by content",
        samples=[x for s in suites for x in s.get("samples", [])[:1]][:8] or [dict(unit=u["unit"], obligations=u.get("names")) for u in units[:3]],
    )
    if level not in ("proof", "exploration"):
        cov["explanation"] = entry[0]["level_note"] if entry else ""
    ev = dict(property=prop, tier=tier, seed=int(seed) if re.fullmatch(r"-?\d+", seed) else 0, level=level, coverage=cov,
        assumptions=sorted({a for u in units for a in u.get("assumptions", [])} | {
            "functions outside 'functions_under_contract' are not proved; the bounded suites only sample them",
            "sequence lengths stay below 2^62 and the Python standard library behaves as documented (struct, BytesIO, str methods are modelled)"}),
        wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)

    for t in sorted(seen_known): print(f"KNOWN-FINDING: property={prop} {t}")
    print(f"{prop}: units {len(proved)}/{len(units)} proved, obligations {cov['discharged']}/{cov['obligations']}, bounded cases {sum(s['cases'] for s in suites)}, {ev['wall_s']} s")
    for u in cov["units_undecided"]: print(f"  undecided {u['unit']}[{u['index']}]: {u['reason']}")
    for s in suites:
        if s["error"]: print(f"  suite {s['suite']} not runnable: {s['error']}")
    if fresh:
        fresh.sort(key=lambda v: not v[3])
        for n, v in enumerate(fresh[:5]):
            path = os.path.join(replays, f"{prop}-{n}.json")
            json.dump(dict(v[2], what=v[0], detail=v[1]), open(path, "w"), indent=1, default=str)
            print(f"  {v[0]}: {v[1][:600]}")
            print(f"VIOLATION property={prop} replay={path}" + ("" if v[3] else " no-failing-input-found"))
        return 1
    answered = len(proved) > 0 or any(not s["error"] and s["cases"] for s in suites)
    if not answered:
        print("no answer: nothing could be decided")
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
