"""Invariants over hidden state, guessed from simulator runs and proved inductive by Z3 over every path of every
instruction (Houdini: whatever one counterexample falsifies is dropped, until nothing is).  Used when one-step
counterexamples start in hidden state that no program seems to leave behind: what is proved here removes them."""
import random
import time

import z3

import bv as B
import chain
import core
import cosim
import oblig
from explore import check, Stats, SolverUnknown
from nir import Cycle, ConMem

ROUND_MS = 60000
LIMIT = 6


def samples(ctx, sim, seeds, words=30):
    """States of all flip-flops and memory words at instruction boundaries of random programs."""
    n = ctx.cpu.n
    out = []
    for seed in seeds:
        rng = random.Random(seed)
        items = []
        for _ in range(words):
            w = rng.choice([cosim.random_word(rng), cosim.MRET, cosim.ECALL]) if rng.random() < .3 \
                else cosim.random_word(rng)
            items.append(cosim.Item(w, irq=[int(rng.random() < .15) for _ in range(90)],
                                    ack=[int(rng.random() < .6) for _ in range(200)], dat=[rng.getrandbits(32)]))
        rf0 = {i: rng.choice([rng.getrandbits(32), rng.getrandbits(4)]) for i in range(sim.depth)}
        rf0[ctx.cpu.MTVEC] &= ~3
        rf0[ctx.cpu.MEPC] &= ~3
        rf0[0] = 0
        recs, trace = sim.run_tape(items, rf0)
        at = {r.at - 1 for r in recs}
        st = n.init_state({m: ConMem([rf0.get(i, 0) for i in range(n.mems[m].depth)]) for m in n.rams})
        for k, b in enumerate(trace):
            c = Cycle(n, {"bus__dat_r": b["dat_r"], "bus__ack": b["ack"], "irq": b["irq"], "rst": 0, "clk": 0}, base=st)
            if k in at:
                s = {i: st[i] for i in n.state_ids}
                s["ram"] = list(st[ctx.cpu.rf].d)
                out.append(s)
            st = {i: c.next(i) for i in n.state_ids + n.rams}
    return out


# A candidate gives a hidden cell as a term over architectural state and hidden cells before it in ``order``:
# (cell, guard, body), guard None or (cell, value) of a one-bit cell; body one of
#   ("const", value)   ("eq", cell2, lo)   ("not", cell2, bit)   ("off", cell2, k)   ("ram", word)
def cut(v, lo, w):
    return v >> lo & (1 << w) - 1


def value(c, s, w):
    b = c[2]
    if b[0] == "const":
        return b[1]
    if b[0] == "eq":
        return cut(s[b[1]], b[2], w)
    if b[0] == "not":
        return 1 - cut(s[b[1]], b[2], 1)
    if b[0] == "off":
        return s[b[1]] + b[2] & (1 << w) - 1
    return s["ram"][b[1]]


class Strengthen:
    """Per hidden cell the first candidate not yet falsified."""

    def __init__(self, ctx, cands):
        self.ctx, self.alts = ctx, cands

    def active(self):
        return [c[0] for c in self.alts.values() if c]

    def term(self, c, get, ram):
        n = self.ctx.cpu.n
        i, g, b = c
        w = n.width[i]

        def sl(j, lo, w):
            e = get(j)
            if B.is_c(e):
                return z3.BitVecVal(cut(e, lo, w), w)
            return e if w == e.size() else z3.Extract(lo + w - 1, lo, e)
        if b[0] == "const":
            t = z3.BitVecVal(b[1], w)
        elif b[0] == "eq":
            t = sl(b[1], b[2], w)
        elif b[0] == "not":
            t = ~sl(b[1], b[2], 1)
        elif b[0] == "off":
            t = sl(b[1], 0, w) + b[2]
        else:
            t = z3.Select(ram.arr, z3.BitVecVal(b[1], ram.arr.sort().domain().size()))
        if g:
            t = z3.If(sl(g[0], 0, 1) == g[1], t, B.bv(get(i), w))
        return z3.simplify(t)

    def put(self, st):
        """Replace the cells of the start state ``st`` by their terms."""
        for c in self.active():
            if not B.is_c(st[c[0]]):
                t = self.term(c, st.__getitem__, st[self.ctx.cpu.rf])
                st[c[0]] = t.as_long() if z3.is_bv_value(t) else t

    def falsified(self, conds, cyc, stats):
        """Cells whose candidate some model of ``conds`` violates in the state of ``cyc``."""
        n, left = self.ctx.cpu.n, []
        for c in self.active():
            t = z3.simplify(self.term(c, cyc.state, cyc.state(self.ctx.cpu.rf)) == B.bv(cyc.state(c[0]), n.width[c[0]]))
            if not z3.is_true(t):
                left.append((c, t))
        out = set()
        while left:
            try:
                sat, m = check(conds + [z3.Or(*[z3.Not(t) for _, t in left])], stats, timeout=ROUND_MS, want_model=True)
            except SolverUnknown:
                return out | {c for c, _ in left}
            if not sat:
                return out
            bad = {c for c, t in left if not z3.is_true(m.eval(t, model_completion=True))}
            out |= bad
            left = [(c, t) for c, t in left if c not in bad]
        return out

    def drop(self, bad):
        self.alts = {i: [c for c in cs if c not in bad] for i, cs in self.alts.items()}


def candidates(ctx, S):
    n = ctx.cpu.n
    arch = sorted(chain.arch_cells(ctx.cpu))
    hard = sorted((i for i, _, _ in chain.pieces(ctx.cpu)[0]), key=lambda i: (-n.width[i], i))
    out = {}
    for k, i in enumerate(hard):
        w = n.width[i]
        src = arch + hard[:k]
        guards = [None] + [(j, v) for j in src + hard[k + 1:] if n.width[j] == 1 for v in (1, 0)]
        bodies = [("const", S[0][i])]
        for j in src:
            wj = n.width[j]
            bodies += [("eq", j, lo) for lo in range(wj - w + 1)]
            if w == 1:
                bodies += [("not", j, lo) for lo in range(wj)]
            elif w == wj and w > 4:
                bodies += [("off", j, d) for d in (1, -1, 4, -4)]
        if w == 32:
            bodies += [("ram", a) for a in range(len(S[0]["ram"]))]
        got = []
        for g in guards:
            T = [s for s in S if g is None or s[g[0]] == g[1]]
            if g and (w <= 2 or len(T) < 8):
                continue
            for b in bodies:
                c = (i, g, b)
                if (g is None or b[0] != "const") and all(value(c, s, w) == s[i] for s in T):
                    got.append(c)
            if got:
                break
        out[i] = got[:LIMIT]
    return out


def show(ctx, c):
    n = ctx.cpu.n
    i, g, b = c
    t = " ".join(str(n.names[x]) if k == 1 and b[0] in ("eq", "not", "off") else str(x) for k, x in enumerate(b))
    return (f"{n.names[g[0]]}={g[1]} -> " if g else "") + f"{n.names[i]}: {t}"


def strengthen(ctx, sim, budget, seeds, reopen, log=None):
    """-> (Strengthen with proved candidates or None, info)"""
    t0 = time.time()
    S = []
    for k in seeds:
        reopen()
        S += samples(ctx, sim(), [k])
    H = Strengthen(ctx, candidates(ctx, S))
    info = dict(samples=len(S), guessed=sum(map(len, H.alts.values())), rounds=0)
    if log:
        log(("houdini", len(S), info["guessed"], round(time.time() - t0)))
    st = Stats()
    for cw, arr, held in ctx.first_wait:
        while True:
            bad = H.falsified([], cw, st)
            if not bad:
                break
            H.drop(bad)
    took = 0
    try:
        while H.active():
            if time.time() - t0 + 1.2 * took > budget:
                info["gave_up"] = "out of time"
                return None, info
            t = time.time()
            core.STRENGTHEN = H
            R = core.explore_all(ctx, lambda t: (), None, give_up=max(5, budget - (time.time() - t0)))
            took = time.time() - t
            info["rounds"] += 1
            info["solver_queries"] = info.get("solver_queries", 0) + R.stats.queries
            if R.truncated or R.errors:
                info["gave_up"] = R.truncated or R.errors[0].get("error")
                return None, info
            bad = set()
            for rs in R.per.values():
                for r in rs:
                    bad |= r.get("falsified", set())
            if log:
                log(("round", len(H.active()), [show(ctx, c) for c in bad], round(took)))
            if not bad:
                info["proved"] = [show(ctx, c) for c in H.active()]
                info["wall_s"] = round(time.time() - t0, 1)
                return H, info
            H.drop(bad)
            while True:     # a candidate that takes the place of a dropped one must hold at power-on as well
                bad = set().union(*[H.falsified([], cw, st) for cw, arr, held in ctx.first_wait])
                if not bad:
                    break
                H.drop(bad)
        return None, info
    finally:
        core.STRENGTHEN = None
