"""Entry point of every check:  python3-vt vlib/check.py C01 [--tier quick|thorough]

exit 0: the property held on everything explored (KNOWN-FINDING lines for recorded defects)
exit 1: VIOLATION property=<id> replay=<path>   (reproduced on the real code in the simulator)
exit 2: no verdict (the reason is printed)
"""
import argparse
import json
import os
import sys
import time
import zlib
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)

import warnings  # noqa: E402
import load  # noqa: E402,F401
warnings.simplefilter("ignore")


class Run:
    """Collects evidence and decides the exit code."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.level = "model_checking"
        self.violations = []
        self.known = []
        self.problems = []
        self.notes = []

    def findings(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("finding:"):
                    d = dict(x.split("=", 1) for x in line[8:].split() if "=" in x)
                    if d.get("property") == self.pid:
                        out.append((d.get("key"), line))
        return out

    def violation(self, key, rep):
        """A reproduced violation, identified by ``key``."""
        for k, line in self.findings():
            if k == key:
                if key not in [x for x, _ in self.known]:
                    self.known.append((key, line))
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{len(self.violations)}.json")
        with open(p, "w") as f:
            json.dump(dict(property=self.pid, key=key, **rep), f, indent=1, default=str)
        self.violations.append((key, p))

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        if self.notes:
            self.cov["notes"] = self.notes
        if self.problems:
            self.cov["undecided"] = self.problems[:20]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        with open(os.path.join(d, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for n in self.notes:
            print("note:", n)
        for key, line in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {key} {line}")
        for key, p in self.violations:
            print(f"VIOLATION property={self.pid} replay={p}  ({key})")
        if self.violations:
            return 1
        if self.problems:
            for x in self.problems[:10]:
                print("UNDECIDED:", x)
            return 2
        print(f"OK property={self.pid} tier={self.tier} wall={ev['wall_s']}s")
        return 0


def step_property(run, P):
    import core
    import cosim
    import props
    import replay
    import spec
    from explore import check, Stats
    tier = run.tier
    try:
        ctx = core.Ctx(P.cpu() if P.cpu else None)
    except core.NoFetch:
        if run.pid == "C15":
            import c14
            return c14.no_fetch(run)
        run.notes.append("the CPU never issues an instruction fetch after reset: no instruction ever executes, "
                         "so this property holds vacuously (C14 and C15 report it)")
        run.cov.update(states=0, transitions=0, traces_validated_against_impl=0, samples=["no fetch"])
        return
    if P.prepare:
        P.prepare(ctx)
    run.cov["functions_encoded"] = {
        "top": f"{type(ctx.cpu.top).__module__}.{type(ctx.cpu.top).__name__} (elaborated by Amaranth, whole netlist)",
        "cells": len(ctx.cpu.n.cells), "flip_flops": len(ctx.cpu.n.ff),
        "microcode_words": sum(ctx.cpu.n.mems[m].depth for m in ctx.cpu.n.roms),
        "memories": len(ctx.cpu.n.mems)}
    # translator validation
    rp = replay.Replayer(ctx, P.want, props.control_hook_for(ctx) if P.hook == "control" else P.hook,
                         budget=150 if tier == "quick" else 400,
                         make=P.make, probe=P.probe)
    cyc = tr = 0
    for k in range(3 if tier == "quick" else 40):
        rp.open()
        c, r, bad = cosim.run(ctx, rp.sim, run.seed * 1000 + k)
        cyc += c
        tr += 1
        if bad:
            run.problems.append(f"translator disagrees with the simulator: {bad[:3]}")
    run.cov["traces_validated_against_impl"] = tr
    run.cov["cycles_validated_against_impl"] = cyc
    st = Stats()
    for name, cond in spec.partition_obligations():
        if check([cond], st)[0]:
            run.problems.append("instruction classes overlap: " + name)
    R = core.explore_all(ctx, P.want, extra=P.extra, give_up=None if tier == "quick" else 6000)
    run.cov.update(
        states=len(R.states), transitions=R.stats.cycles, micro_paths=R.paths, obligations=R.obligations,
        entry_points=[list(e) for e in R.entries], instruction_classes=len(spec.TEMPLATES),
        longest_path_cycles=R.maxlen, solver_queries=R.stats.queries + st.queries,
        solver_unsat=R.stats.unsat + st.unsat, solver_sat=R.stats.sat,
        solver_seconds=round(R.stats.solver_time + st.solver_time, 2),
        bounds="one instruction of any of the 2^32 words from any state between instructions satisfying the "
               "inductive invariant; any register/CSR/PC/memory values; any number of wait states (wait loops "
               "closed, not unrolled); IRQ free in every cycle; at most 150 cycles per instruction excluding "
               "waits (longer is reported)")
    samples = []
    for name in sorted(R.per)[:3]:
        r = R.per[name][0]
        samples.append(dict(template=name, entry=list(r["entry"]), paths=r["paths"],
                            obligations=r["obligations"], longest=r["maxlen"]))
    run.cov["samples"] = samples
    run.assumptions += [
        "inputs change only at clock edges; Wishbone ACK only while STB is high and not in its first cycle "
        "(the documented two-cycle handshake)",
        "RAM contents after power-on satisfy x0-slot/mtvec/mepc alignment or are brought there by the reset "
        "microcode and CSR writes (C14); z3 and Amaranth's netlist builder are trusted"]
    for e in R.errors:
        run.problems.append(f"{e['template']} from {e['entry']}: {e['error']}")
    for u in R.unknown:
        run.problems.append(f"solver gave no answer: {u}")
    if R.truncated:
        run.cov["truncated"] = R.truncated
    if R.inv_fail:
        run.notes.append("state invariant not inductive for " + ", ".join(sorted({a for a, _ in R.inv_fail}))[:300])
    # vacuity: every selected class must reach the end of the instruction
    for t in spec.TEMPLATES:
        for r in R.per.get(t.name, []):
            if r["paths"] == 0 and not R.errors:
                run.problems.append(f"vacuous: no path for {t.name}")
    viol = [v for v in R.viol if v["group"] != "inv" or "inv" in P.want(spec.BY_NAME[v["template"]])]
    run.cov["counterexamples_from_solver"] = len(viol)
    if viol:
        decide(run, P, ctx, R, viol, rp)
    if R.truncated and not run.violations and not getattr(run, "complete", False):
        run.problems.append(R.truncated)


_RP = None


def _try(a):
    key, vs, limit, shuffle = a
    n0 = _RP.sim.runs if _RP.sim else 0
    try:
        for v in vs:
            hit = _RP.try_one(v, limit_s=limit, shuffle=shuffle)
            if hit:
                return key, v, hit, _RP.sim.runs - n0
    except Exception as e:
        return key, None, f"{type(e).__name__}: {e}", 0
    return key, None, None, (_RP.sim.runs - n0) if _RP.sim else 0


def replay_all(run, rp, tasks, wall, enough=5):
    """Replay counterexamples in parallel -> keys not reproduced. Stops soon after the first violations."""
    global _RP
    import core
    import multiprocessing as mp
    _RP = rp
    left = {t[0] for t in tasks}
    runs = 0
    dl = time.time() + wall
    with mp.get_context("fork").Pool(min(core.NPROC, len(tasks))) as pool:
        it = pool.imap_unordered(_try, tasks, chunksize=1)
        while left:
            try:
                key, v, hit, n = it.next(timeout=max(0.1, dl - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                break
            runs += n
            if isinstance(hit, str):
                rp.error = hit
            elif hit:
                left.discard(key)
                run.violation(":".join(key), dict(counterexample=v, reproduced=hit))
                if len(run.violations) >= enough:
                    break
                if run.violations:
                    dl = min(dl, time.time() + 8)
    run.cov["simulator_runs"] = run.cov.get("simulator_runs", 0) + runs
    return left


def decide(run, P, ctx, R, viol, rp):
    """Replay the solver's counterexamples; refine those that do not reproduce."""
    import core
    groups = {}
    for v in viol:
        groups.setdefault((v["template"], v["group"]), []).append(v)
    rp.budget = 1e9
    left = replay_all(run, rp, [(k, vs[:3], 1.5, None) for k, vs in groups.items()], 90)
    if left and not run.violations:
        spread = {k: groups[k][::max(1, len(groups[k]) // 4)][:4] for k in left}
        one = [(k, [v], (8.0, 30.0, 60.0, 60.0)[i], zlib.crc32(repr((k, i)).encode()))
               for i in range(4) for k, vs in spread.items() for v in vs[i:i + 1]]
        left = replay_all(run, rp, one, 100 if run.tier == "quick" else 600)
    if run.violations or not left:
        return
    if rp.error:
        run.problems.append("replay: " + rp.error)
    chains(run, P, ctx, R, groups, left, rp)
    if run.violations or stronger(run, P, ctx, rp):
        return
    targets = sorted({(v["template"], tuple(v["entry"])) for k in left for v in groups[k]})
    run.notes.append(f"{len(left)} counterexample kinds start from states not reproduced in the simulator; "
                     f"two-step refinement for {targets[:6]}")
    R2 = core.refine(ctx, R.entries, targets[:6], P.want, P.extra,
                     budget=max(40, min(240, 740 - (time.time() - run.t0))) if run.tier == "quick" else 1200)
    run.cov["refinement"] = dict(targets=[list(t) for t in targets[:6]], paths=R2.paths,
                                 obligations=R2.obligations, skipped=R2.skipped,
                                 solver_seconds=round(R2.stats.solver_time, 2))
    for e in R2.errors[:3]:
        run.problems.append(f"refinement {e['template']}: {e['error']}")
    seen, tasks = set(), []
    for v in R2.viol:
        key = (v["template"], v["group"], v["recs"][0]["insn"] & 0x7f)
        if key not in seen:
            seen.add(key)
            tasks.append(((v["template"], v["group"], hex(v["recs"][0]["insn"] & 0x7f)), [v], 20.0, None))
    if tasks:
        replay_all(run, rp, tasks, 90, enough=3)
    if run.violations:
        return
    if R2.viol or R2.skipped or R2.unknown or R2.errors or len(targets) > 6:
        run.problems.append(f"counterexamples not reproduced: {[':'.join(k) for k in left][:8]}")
    else:
        run.notes.append("refinement: no violation is possible after any one preceding instruction or after "
                         "reset, so the one-step counterexamples start in unreachable states")


def chains(run, P, ctx, R, groups, left, rp):
    """Look for programs that build up the hidden state the counterexamples need."""
    import chain
    by = {}
    for k in left:
        for v in groups[k]:
            by.setdefault((v["template"], tuple(v["entry"])), set()).add(v["group"])
    targets = [(t, e, sorted(g)) for (t, e), g in sorted(by.items())]
    n = 16
    if len(targets) > n:        # spread over templates
        targets = targets[::-(-len(targets) // n)]
    k = [0]

    def again(scs):
        k[0] += 1
        tasks = [((d["template"], d["group"], f"chain{k[0]}.{j}"), [d], 15.0, None) for j, d in enumerate(scs)]
        replay_all(run, rp, tasks, 40, enough=3)
        return bool(run.violations)
    rp.open()
    log = (lambda x: print(x, flush=True)) if os.environ.get("VERIF_DEBUG") else None
    run.cov["backward_search"] = chain.search(ctx, P.want, P.extra, R.entries, targets, rp.sim,
                                              190 if run.tier == "quick" else 900, again, log)


def stronger(run, P, ctx, rp):
    """Repeat the exploration under proved invariants over hidden state -> True if nothing fails any more."""
    import core
    import houdini
    import spec
    left = 720 - (time.time() - run.t0) if run.tier == "quick" else 3000
    log = (lambda x: print(x, flush=True)) if os.environ.get("VERIF_DEBUG") else None
    try:
        H, info = houdini.strengthen(ctx, lambda: rp.sim, left * .7, range(4), rp.open, log)
    except Exception as e:
        if log:
            traceback.print_exc()
        H, info = None, dict(error=f"{type(e).__name__}: {e}")
    run.cov["strengthening"] = info
    if H is None:
        return False
    core.STRENGTHEN = H
    try:
        R = core.explore_all(ctx, P.want, extra=P.extra, give_up=max(30, 840 - (time.time() - run.t0))
                             if run.tier == "quick" else 6000)
    finally:
        core.STRENGTHEN = None
    info["obligations"] = R.obligations
    info["solver_seconds"] = round(R.stats.solver_time, 2)
    viol = [v for v in R.viol if v["group"] != "inv" or "inv" in P.want(spec.BY_NAME[v["template"]])]
    info["still_failing"] = sorted({v["template"] + ":" + v["group"] for v in viol})[:10]
    if log:
        log(("strengthened", len(viol), R.truncated, len(R.errors), len(R.unknown)))
    if viol or R.truncated or R.errors or R.unknown or any(
            r.get("falsified") for rs in R.per.values() for r in rs):
        return False
    R0 = [x for x in run.problems if x.startswith("solver gave no answer")]
    if R0:
        return False
    run.notes.append("the one-step counterexamples start in unreachable states: no obligation fails under the invariants "
                     "over hidden state proved by Z3 (" + "; ".join(info["proved"][:3]) + ")")
    run.cov.pop("truncated", None)
    run.complete = True
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    run = Run(a.property, a.tier)
    try:
        import props
        if a.property in props.PROPS:
            step_property(run, props.PROPS[a.property])
        else:
            mod = __import__(a.property.lower())
            mod.check(run)
    except Exception as e:
        traceback.print_exc()
        run.problems.append(f"{type(e).__name__}: {e}")
    sys.stdout.flush()
    return run.finish()


if __name__ == "__main__":
    sys.exit(main())
