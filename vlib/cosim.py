"""Translator validation: the netlist evaluator against Amaranth's simulator, cycle by cycle."""
import random

import load  # noqa: F401
import spec
from nir import Cycle, ConMem
from replay import Item, MRET, ECALL


def random_word(rng):
    t = rng.choice(spec.TEMPLATES)
    if t.cls == "illegal":
        return rng.getrandbits(32)
    w = 0
    for ch in t.pattern:
        w = (w << 1) | (int(ch) if ch in "01" else rng.getrandbits(1))
    if rng.random() < .3:       # few registers: more aliasing
        w &= ~(0b1100 << 15) if "a" in t.pattern else w
    if t.cls in ("load", "store") and rng.random() < .5:
        w &= 0xFC0FFFFF if t.cls == "load" else 0xFFFFFFFF
    return w


def run(ctx, sim, seed, words=40):
    """-> (cycles compared, list of mismatches)"""
    rng = random.Random(seed)
    n = ctx.cpu.n
    items = []
    for _ in range(words):
        w = rng.choice([random_word(rng), random_word(rng), random_word(rng), MRET, ECALL]) \
            if rng.random() < .3 else random_word(rng)
        irq = [int(rng.random() < .15) for _ in range(90)]
        ack = [int(rng.random() < .6) for _ in range(200)]
        items.append(Item(w, irq=irq, ack=ack, dat=[rng.getrandbits(32)]))
    rf0 = {i: rng.choice([rng.getrandbits(32), rng.getrandbits(4), 0xFFFFFFFF - rng.getrandbits(3)])
           for i in range(sim.depth)}
    rf0[ctx.cpu.MTVEC] &= ~3
    rf0[ctx.cpu.MEPC] &= ~3
    recs, trace = sim.run_tape(items, rf0)
    st = n.init_state({m: ConMem([rf0.get(i, 0) for i in range(n.mems[m].depth)]) for m in n.rams})
    bad = []
    for k, b in enumerate(trace):
        c = Cycle(n, {"bus__dat_r": b["dat_r"], "bus__ack": b["ack"], "irq": b["irq"], "rst": 0, "clk": 0},
                  base=st)
        for s in ("cyc", "stb", "we", "adr", "sel", "dat_w"):
            v = c.out("bus__" + s)
            if v != b[s]:
                bad.append((k, s, v, b[s]))
        for s, v in b.get("probe", {}).items():
            if c.out("rvfi__" + s) != v:
                bad.append((k, s, c.out("rvfi__" + s), v))
        pc = c.sig(ctx.cpu.sig_pc)
        if pc != b["pc"]:
            bad.append((k, "pc", pc, b["pc"]))
        if len(bad) > 5:
            break
        st = {i: c.next(i) for i in n.state_ids + n.rams}
    return len(trace), len(recs), bad
