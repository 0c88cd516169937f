"""Builds /verif/seeded/<id>/ from a bug description and confirms it in a scratch copy of /repo.
usage: plant.py MODULE [ids...]     MODULE: python file with BUGS = [dict(...)]"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build(bug, repo):
    sh("git checkout -q -- . && git clean -fdq", cwd=repo)
    for f, old, new in bug["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{f}: pattern occurs {s.count(old)} times: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=repo).stdout
    d = os.path.join(VERIF, "seeded", bug["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if bug.get("sim", True):
        shutil.copy(os.path.join(HERE, "simdemo.py"), d)
    shutil.copytree(os.path.join(VERIF, "vlib", "stubs"), os.path.join(d, "stubs"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    open(os.path.join(d, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# cwd: /repo\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\n'
        'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    return None


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    only = sys.argv[2:]
    repo = "/tmp/plantrepo"
    if not os.path.exists(repo):
        sh(f"cp -a /repo {repo}")
    sh("git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD", cwd=repo)
    base = {}
    for bug in mod.BUGS:
        if only and bug["id"] not in only:
            continue
        err = build(bug, repo)
        if err:
            print(bug["id"], "EDIT", err)
            continue
        tmp = tempfile.mkdtemp(prefix="plant")
        dd = os.path.join(tmp, "x")
        shutil.copytree(os.path.join(VERIF, "seeded", bug["id"]), dd)
        # build and tests run on a private /repo lookalike through an environment with the path replaced
        b = sh(f"sed 's#/repo#{repo}#g' /opt/vp/build.sh > {tmp}/build.sh; bash {tmp}/build.sh")
        t = sh(f"sed 's#/repo#{repo}#g' /opt/vp/test.sh > {tmp}/test.sh; PYTHONPATH={repo}/src bash {tmp}/test.sh {tmp}/out.json")
        try:
            out = json.load(open(f"{tmp}/out.json"))
        except OSError:
            out = {}
        stable = json.load(open("/opt/vp/BASELINE.json"))
        names = stable.get("stable") or stable.get("stable_passing") or stable.get("passing") or []
        passed = set(out.get("passed", []))
        miss = [n for n in names if n not in passed]
        bad = sh(f"bash {dd}/demo.sh", cwd=repo)
        sh("git checkout -q -- .", cwd=repo)
        good = sh(f"bash {dd}/demo.sh", cwd=repo)
        st = (b.returncode == 0 and not miss and bad.returncode != 0 and good.returncode == 0)
        print(bug["id"], "OK" if st else "REJECT", "build", b.returncode, "missing", miss, "demo-bug", bad.returncode,
              (bad.stdout.strip().splitlines() or bad.stderr.strip().splitlines() or [""])[-1][:150],
              "demo-clean", good.returncode, "" if good.returncode == 0 else (good.stdout + good.stderr)[-300:])
        shutil.rmtree(tmp)


main()
