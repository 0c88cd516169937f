"""Random token mutations of src/sentinel, judged by the solver (not registered, run by hand).

python3 mutate.py --n 60 --seed 1 [--files alu.py,csr.py] [--log FILE]
For each mutant that still elaborates: one exploration with the obligations of every step property, then the remaining
checks, until something reports.  Prints  CAUGHT <how> / SURVIVED  with the mutated line.
"""
import argparse
import io
import os
import random
import shutil
import subprocess
import sys
import tokenize

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
FILES = ["align.py", "alu.py", "control.py", "csr.py", "datapath.py", "decode.py", "exception.py", "formal.py",
         "insn.py", "top.py", "ucoderom.py"]
OPS = {"&": "|", "|": "&", "==": "!=", "+": "-", "-": "+", "~": "", "^": "|", "<": "<=", ">": ">="}
EXPLORE = '''
import sys; sys.path.insert(0, "VLIB")
import warnings; warnings.simplefilter("ignore")
import load, core, props, json
groups = set()
for p in props.PROPS.values():
    pass
def want(t):
    g = set()
    for p in props.PROPS.values():
        g |= p.want(t)
    return g
def extra(*a):
    r = props.protocol(*a) + props.cycles_extra(*a) + props.control_extra(*a)
    return r
try:
    ctx = core.Ctx(None)
except core.NoFetch:
    print("RESULT", json.dumps(dict(viol=["nofetch"]))); sys.exit()
R = core.explore_all(ctx, want, extra=extra)
v = sorted({x["template"] + ":" + x["group"] for x in R.viol if x["group"] != "inv"})
print("RESULT", json.dumps(dict(viol=v, errors=[e["error"] for e in R.errors][:2], unknown=len(R.unknown),
                                inv=len(R.inv_fail))))
'''


def sites(text):
    out = []
    toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    depth_fn = False
    for k, t in enumerate(toks):
        line = t.line
        if t.type == tokenize.NUMBER and t.string.isdigit() or (t.type == tokenize.NUMBER and
                                                                t.string[:2] in ("0b", "0x")):
            v = int(t.string, 0)
            for nv in {v + 1, max(0, v - 1)} - {v}:
                out.append((t.start, t.end, str(nv)))
        elif t.type == tokenize.OP and t.string in OPS and ("d.comb" in line or "d.sync" in line or ".eq(" in line
                                                          or "m.If" in line or "m.Elif" in line or "Cat(" in line
                                                          or t.string in ("&", "|", "~")):
            out.append((t.start, t.end, OPS[t.string]))
        elif t.type == tokenize.NAME and t.string == "If" and "m.If(" in line and line.rstrip().endswith("):"):
            out.append(("line", t.start[0], line.replace("m.If(", "m.If(~(", 1).rstrip()[:-1] + "):" + "\n"))
        elif t.type == tokenize.NAME and t.string == "eq" and line.strip().endswith("),"):
            out.append(("line", t.start[0], ""))
        elif t.type == tokenize.NAME and t.string == "eq" and line.strip().startswith("m.d.") \
                and line.strip().endswith(")"):
            ind = line[:len(line) - len(line.lstrip())]
            out.append(("line", t.start[0], ind + "pass\n"))
    return out


def apply(text, s):
    lines = text.splitlines(True)
    if s[0] == "line":
        lines[s[1] - 1] = s[2]
        return "".join(lines), s[1]
    (r, c0), (_, c1), new = s
    l = lines[r - 1]
    lines[r - 1] = l[:c0] + new + l[c1:]
    return "".join(lines), r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default=",".join(FILES))
    ap.add_argument("--confirm", action="store_true", help="also run the check of one violated property")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    work = f"/tmp/mutate{os.getpid()}"
    shutil.copytree("/repo", work + "/repo", symlinks=True)
    shutil.copytree(VERIF + "/vlib", work + "/verif/vlib")
    shutil.copy(VERIF + "/known_findings.txt", work + "/verif")
    repo = work + "/repo"
    env = dict(os.environ, SENTINEL_REPO=repo, PYTHONDONTWRITEBYTECODE="1")
    files = a.files.split(",")
    done = 0
    pools = {f: sites(open(f"/repo/src/sentinel/{f}").read()) for f in files}
    for f in files:
        rng.shuffle(pools[f])
    try:
        while done < a.n and any(pools.values()):
            f = files[rng.randrange(len(files))]
            if not pools[f]:
                continue
            s = pools[f].pop()
            src = open(f"/repo/src/sentinel/{f}").read()
            new, row = apply(src, s)
            old = src.splitlines()[row - 1].strip()
            cur = new.splitlines()[row - 1].strip() if s[0] != "line" or s[2] else "(deleted)"
            open(f"{repo}/src/sentinel/{f}", "w").write(new)
            try:
                r = subprocess.run(["python3-vt", "-W", "ignore", "-c",
                                    f"import sys; sys.path.insert(0,'{work}/verif/vlib')\nimport load\n"
                                    "from sentinel.top import Top\nfrom sentinel.formal import FormalTop\n"
                                    "from nir import Netlist\nNetlist(Top()); Netlist(FormalTop())"],
                                   env=env, capture_output=True, text=True, timeout=120)
                if r.returncode:
                    continue
                done += 1
                print(f"[{done}] {f}:{row}: {old}  -->  {cur}", flush=True)
                print("    ", judge(f, work, env, a.confirm), flush=True)
            finally:
                open(f"{repo}/src/sentinel/{f}", "w").write(src)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, work, env):
    try:
        r = subprocess.run(["python3-vt", "vlib/check.py", pid], cwd=work + "/verif", env=env, capture_output=True,
                           text=True, timeout=1000)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    last = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "OK", "UNDECIDED"))]
    return r.returncode, (last or r.stderr.splitlines()[-1:] or [""])[0][:200]


OWNER = {"pc": "C01", "rd": "C01"}


def owner(v):
    """A property that claims this (template, group)."""
    sys.path.insert(0, VERIF + "/vlib")
    import props
    import spec
    t, g = v.split(":", 1)
    if g == "count":
        return "C16"
    if g in ("unused-address", "halt-or-panic", "hang"):
        return "C15"
    for p in props.PROPS.values():
        if g in p.want(spec.BY_NAME[t]):
            return p.pid
    return "C13"


def judge(f, work, env, confirm):
    import json
    hits = []
    if f not in ("ucoderom.py", "formal.py"):
        r = subprocess.run(["python3-vt", "-c", EXPLORE.replace("VLIB", work + "/verif/vlib")], env=env,
                           capture_output=True, text=True)
        res = [x for x in r.stdout.splitlines() if x.startswith("RESULT")]
        if not res:
            return "ERROR " + (r.stderr.splitlines() or [""])[-1]
        d = json.loads(res[0][7:])
        if d["viol"]:
            n = len(d["viol"])
            out = f"CAUGHT step {n} kinds {d['viol'][:4]} err={d.get('errors')}"
            if confirm and d["viol"] != ["nofetch"]:
                pid = owner(d["viol"][0])
                out += f" | {pid} {check(pid, work, env)}"
            return out
        if d["errors"] or d["unknown"]:
            hits.append(str(d)[:300])
    order = {"formal.py": ["C18", "C21", "C17"], "ucoderom.py": ["C19"]}.get(f, ["C14", "C20", "C19", "C18", "C21"])
    for pid in order:
        rc, line = check(pid, work, env)
        if rc == 1:
            return f"CAUGHT {pid} {line} {hits}"
        if rc != 0:
            hits.append(f"{pid} rc={rc} {line}")
    return f"SURVIVED {hits}"


if __name__ == "__main__":
    main()
