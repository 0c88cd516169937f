"""C25: within a clock cycle no input changes a bus output.

First for every state at all (flip-flops, RAM and microcode output register arbitrary): two copies of one cycle from
the same state with independent inputs.  Outputs that can differ there are decided on the cycles of the symbolic
exploration, so a difference in an unreachable state raises no alarm.
"""
import z3

import bv as B
import cosim
import prod
import props
from explore import Stats, check as solve
from nir import Cycle

OUTS = {"bus__adr": 30, "bus__dat_w": 32, "bus__sel": 4, "bus__cyc": 1, "bus__stb": 1, "bus__we": 1}


def differ(a, b):
    out = []
    for o, w in OUTS.items():
        x, y = a.out(o), b.out(o)
        if not B.same(x, y):
            e = z3.simplify(B.bv(x, w) != B.bv(y, w))
            if not z3.is_false(e):
                out.append((o, e))
    return out


def negated(n, state, o):
    x, y = (Cycle(n, free_inputs(n, k), base=state).out(o) for k in "ab")
    return B.bv(x, OUTS[o]) != B.bv(y, OUTS[o])


def free_inputs(n, tag):
    d = {name: z3.BitVec(f"{tag}_{name}", w) for name, (_, w) in n.inputs.items() if w}
    d["clk"] = 0
    return d


def extra(ctx, t, F, insn, p, s):
    n = ctx.cpu.n
    by = {}
    for k, c in enumerate(p.cycles):
        a = c["cyc"]
        b = Cycle(n, free_inputs(n, f"alt{k}"), base=a.base, prev=a.prev)
        d = dict(free_inputs(n, f"own{k}"), bus__ack=a.inputs["bus__ack"])
        a = Cycle(n, d, base=a.base, prev=a.prev)
        for o, e in differ(a, b):
            by.setdefault(o, []).append(e)
    return [(f"{o[5:]}-follows-input", [z3.Or(*v)]) for o, v in by.items()]


def hook(recs, trace):
    for k, b in enumerate(trace):
        if b.get("moved"):
            m = b["moved"]
            return [dict(cycle=k, groups=[m["output"] + "-follows-input"], addr=b["addr"], inputs=dict(
                dat_r=b["dat_r"], ack=b["ack"], irq=b["irq"]), other=m)]
    return []


def check(run):
    import core
    import replay
    import check as main
    try:
        ctx = core.Ctx(None)
    except core.NoFetch:
        run.notes.append("the CPU never issues an instruction fetch (C14 and C15 report it); "
                         "the bus outputs are decided for every state all the same")
        ctx = None
    if ctx is None:
        from nir import Netlist
        from sentinel.top import Top
        n = Netlist(Top())
    else:
        n = ctx.cpu.n
    st = Stats()
    state = prod.arbitrary(n, prod.Fresh(), "s")
    d = differ(Cycle(n, free_inputs(n, "a"), base=state), Cycle(n, free_inputs(n, "b"), base=state))
    same = [o for o in OUTS if o not in dict(d)]
    open_ = [o for o, e in d + [(o, None) for o in same] if solve([e if e is not None else negated(n, state, o)], st)[0]]
    run.cov.update(
        functions_encoded={"top": "sentinel.top.Top (elaborated by Amaranth, whole netlist)", "cells": len(n.cells),
                           "flip_flops": len(n.ff), "memories": len(n.mems)},
        bounds="one clock cycle from any state whatever (every flip-flop, memory word and microcode word arbitrary); "
               "any two levels of rst, ack, dat_r, irq in that cycle",
        states=1, transitions=1, state_space="one symbolic state, everything arbitrary", outputs=sorted(OUTS), obligations=len(OUTS), solver_queries=st.queries,
        identical_terms=same, solver_seconds=round(st.solver_time, 3),
        open_in_arbitrary_states=open_)
    run.cov["samples"] = [dict(output=o, verdict="can differ" if o in open_ else "identical") for o in OUTS]
    run.assumptions.append("z3 and Amaranth's netlist builder are trusted")
    if ctx is not None:
        rp = replay.Replayer(ctx, lambda t: set(), None)
        rp.open()
        cyc = 0
        for k in range(3 if run.tier == "quick" else 40):
            c, r, bad = cosim.run(ctx, rp.sim, run.seed * 1000 + k)
            cyc += c
            if bad:
                run.problems.append(f"translator disagrees with the simulator: {bad[:3]}")
        run.cov["traces_validated_against_impl"] = 3 if run.tier == "quick" else 40
        run.cov["cycles_validated_against_impl"] = cyc
    if not open_:
        return
    if ctx is None:
        run.problems.append(f"{open_} depend on an input, but no instruction ever runs")
        return
    P = props.Prop("C25", lambda t: True, set(), extra=extra, hook=hook)
    replay.Sim.wiggle = True
    main.step_property(run, P)
