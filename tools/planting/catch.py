"""Run checks against planted bugs in a scratch copy: catch.py [--all-props] [--dir seeded] ids..."""
import json, os, subprocess, sys, time, shutil
V = "/verif"
args = sys.argv[1:]
d = f"{V}/seeded"
props = None
while args and args[0].startswith("--"):
    a = args.pop(0)
    if a == "--dir":
        d = args.pop(0)
    if a == "--props":
        props = args.pop(0).split(",")
repo = f"/tmp/catchrepo{os.getpid()}"
vc = f"/tmp/catchverif{os.getpid()}"
subprocess.run(f"cp -a /repo {repo}; mkdir {vc}; cp -a {V}/vlib {V}/tools {V}/known_findings.txt {vc}/", shell=True)
ids = args or sorted(os.listdir(d))
try:
    for b in ids:
        bd = os.path.join(d, b)
        subprocess.run("git checkout -q -- . && git clean -fdq", shell=True, cwd=repo)
        p = subprocess.run(["git", "apply", os.path.join(bd, "patch.diff")], cwd=repo)
        if p.returncode:
            print(b, "does not apply"); continue
        ps = props or [json.load(open(os.path.join(bd, "meta.json")))["property"]]
        for q in ps:
            t = time.time()
            r = subprocess.run(["python3-vt", "vlib/check.py", q], cwd=vc, capture_output=True, text=True,
                               env=dict(os.environ, SENTINEL_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            tail = [l for l in r.stdout.splitlines() if l.startswith(("VIOL", "UNDEC", "OK", "note"))]
            print(f"{b} {q} exit={r.returncode} {time.time()-t:.0f}s {' | '.join(x[:160] for x in tail[:3])}"
                  + ("" if r.returncode in (0, 1) else r.stderr[-300:]), flush=True)
finally:
    shutil.rmtree(repo); shutil.rmtree(vc)
