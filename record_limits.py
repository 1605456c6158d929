"""runs every suite of the given properties (default: all) for longer than the quick tier does, and records how far they got in
bounded/limits.json: the quick tier stops there, so it explores no case that has not been explored here"""
import sys, os, json, subprocess, glob
here = os.path.dirname(os.path.abspath(__file__))
props = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(here + "/bounded/C??.py"))
path = here + "/bounded/limits.json"
for p in props:
    subprocess.run(["/opt/venv/bin/python", here + "/pyver/real.py", "suites", p, "quick", "1", "/tmp/rl.json"], env=dict(os.environ, PV_NOLIMIT="1", PV_SCALE=os.environ.get("PV_SCALE", "1.3")), stdout=subprocess.DEVNULL)
    lim = json.load(open(path)) if os.path.exists(path) else {}
    lim = {k: v for k, v in lim.items() if not k.startswith(p + "/")}
    for r in json.load(open("/tmp/rl.json")):
        if r["bad"] or r["error"]: print(p, r["suite"], json.dumps(r["bad"])[:3000], r["error"], flush=True)
        elif not r["exhaustive"]: k = f"{p}/{r['suite']}"; lim[k] = min(lim.get(k, 1 << 60), r["top"])
    json.dump(lim, open(path, "w"), indent=1, sort_keys=True)
    print(p, "done", flush=True)
