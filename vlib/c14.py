"""C14: reset from an arbitrary state."""
import z3

import bv as B
import core
import oblig
from explore import Stats, check, SolverUnknown
from nir import Cycle, SymMem
import replay

BOUND = 64


class Fail(Exception):
    pass


def arb_state(ctx, tag):
    """Every flip-flop and memory arbitrary; the microcode output register holds any ROM word."""
    ex, n, cpu = ctx.ex, ctx.cpu.n, ctx.cpu
    st, conds = {}, []
    for i in n.ff:
        st[i] = ex.fresh(f"{tag}_ff{i}", n.width[i])
    for i in n.rport:
        st[i] = ex.fresh(f"{tag}_rp{i}", n.width[i])
        if i in cpu.rom_ports:
            ws = sorted(set(ex.rom_word(i, a) for a in range(n.mems[n.cells[i].memory].depth)))
            conds.append(z3.Or(*[st[i] == w for w in ws]))
    for m in n.rams:
        mc = n.mems[m]
        st[m] = SymMem(z3.Array(f"{tag}_mem{m}", z3.BitVecSort((mc.depth - 1).bit_length()),
                                z3.BitVecSort(mc.width)))
    return st, conds


def values(ex, e, conds):
    if B.is_c(e):
        return [e]
    out, excl = [], []
    while True:
        ok, m = check(conds + excl, ex.stats, want_model=True)
        if not ok:
            return out
        v = m.eval(e, model_completion=True).as_long()
        out.append(v)
        excl.append(e != v)


def invw(rf):
    return [z3.Extract(1, 0, z3.Select(rf, z3.BitVecVal(s, 6))) == 0 for s in (0x25, 0x29)]


def check_(run, ctx):
    cpu, ex, n = ctx.cpu, ctx.ex, ctx.cpu.n
    ex.stats = Stats()
    port = cpu.rom_ports[0]
    viol = []
    obligations = paths = cycles = 0

    def query(name, conds, info):
        nonlocal obligations
        obligations += 1
        try:
            ok, m = check(conds, ex.stats, want_model=True)
        except SolverUnknown as e:
            run.problems.append(f"{name}: solver gave no answer: {e}")
            return
        if ok:
            viol.append(dict(kind=name, **info))

    # first reset cycle: everything arbitrary, inputs arbitrary
    st, conds = arb_state(ctx, "r")
    rf0 = st[cpu.rf].arr
    conds = conds + invw(rf0)
    inp = {"bus__dat_r": ex.fresh("dat_r", 32), "bus__ack": ex.fresh("ack", 1), "irq": ex.fresh("irq", 1),
           "rst": 1, "clk": 0}
    c = Cycle(n, inp, base=st)
    e = ex.rom_next(c, port, None) if B.tobool(c.net(n.cells[port].en)) is True else c.value(n.cells[port].addr)
    stale = {a: 1 for a in values(ex, e, conds)}
    ffn = {i: c.next(i) for i in n.ff}
    # flip-flops that keep something across reset stay arbitrary in what follows
    kept = {}
    for i in n.ff:
        if not B.is_c(ffn[i]) or ffn[i] != n.cells[i].init:
            obligations += 1
            if check(conds + [B.bv(ffn[i], n.width[i]) != n.cells[i].init], ex.stats)[0]:
                kept[i] = n.names[i]

    def after_reset(s):
        for i in n.ff:
            if i not in kept:
                s[i] = n.cells[i].init
    # RAM after the first reset cycle
    ram1 = c.next(cpu.rf).arr
    for q in invw(ram1):
        query("ram-invariant", conds + [z3.Not(q)], dict(stale=None, length=1))
    # longer resets: fixpoint over the microcode word left in the output register
    todo = list(stale)
    while todo:
        a = todo.pop()
        s2, _ = arb_state(ctx, f"h{a}")
        after_reset(s2)
        s2[port] = ex.rom_word(port, a)
        c2 = Cycle(n, dict(inp, bus__ack=ex.fresh("ack", 1), irq=ex.fresh("irq", 1)), base=s2)
        cycles += 1
        q = B.bool_or(B.tobool(c2.out("bus__cyc")), B.tobool(c2.out("bus__stb")))
        if q is not False:
            query("request-during-reset", [q] if q is not True else [], dict(stale=a, length=2))
        e = c2.value(n.cells[port].addr)
        for v in values(ex, e, []):
            if v not in stale:
                stale[v] = stale[a] + 1
                todo.append(v)
        for q in invw(c2.next(cpu.rf).arr):
            query("ram-invariant", invw(s2[cpu.rf].arr) + [z3.Not(q)], dict(stale=a, length=2))
    # after release, from every word the output register may hold
    entry_ok = set(ctx.seed_entries)
    samples = []
    for a, length in sorted(stale.items()):
        s3, _ = arb_state(ctx, f"p{a}")
        after_reset(s3)
        s3[port] = ex.rom_word(port, a)
        base_conds = invw(s3[cpu.rf].arr)
        irq = ex.fresh("irq", 1)
        c = Cycle(n, ex.inputs(irq=irq), base=s3)
        stack = [(c, (a,), list(base_conds), 0, False)]
        while stack:
            c, ctl, cs, k, seen = stack.pop()
            cycles += 1
            info = dict(stale=a, length=length, cycle=k)
            if k > BOUND:
                query("no-fetch", cs, info)
                continue
            req = B.bool_or(B.tobool(c.out("bus__cyc")), B.tobool(c.out("bus__stb")))
            if not isinstance(req, bool):
                yes, _ = check(cs + [req], ex.stats)
                no, _ = check(cs + [z3.Not(req)], ex.stats)
                if yes and no:
                    query("request-depends-on-data", cs, info)
                    continue
                req = yes
            if req:
                for name, sig, w, want in (("we", "we", 1, 0), ("adr", "adr", 30, 0), ("sel", "sel", 4, 15),
                                           ("cyc", "cyc", 1, 1), ("stb", "stb", 1, 1)):
                    v = c.out("bus__" + sig)
                    if not (B.is_c(v) and v == want):
                        query("first-request-" + name, cs + [B.bv(v, w) != want], info)
                seen = True
            elif seen:
                query("request-withdrawn", cs, info)
                continue
            we = c.out("bus__we")
            if seen and k >= 1 and ctl in entry_ok and B.is_c(we):
                # first fetch waits here: acknowledge it and look at the state the instruction sees
                ca = Cycle(n, ex.inputs(ack=1), base=dict(c.base), prev=c.prev)
                nx = ex.concretise(ca, cs, ctl)
                for addrs, extra in nx:
                    d = ca if len(nx) == 1 else ex.settled_clone(ca, addrs)
                    ex.settle(d, addrs)
                    if addrs not in ex.boundary:
                        query("fetch-not-taken", cs + extra, info)
                        continue
                    paths += 1
                    A = oblig.View.of(cpu, ex.child_cycle(d, addrs, ex.inputs()))
                    claims = {"x0": z3.Select(A.rf, z3.BitVecVal(0, 6)) == 0, "pc": A.pc == 0,
                              "mie": A.mie == 0, "meie": A.meie == 0,
                              "mcause": A.csrs["mcause"] == 0,
                              "mtvec-align": z3.Extract(1, 0, A.csrs["mtvec"]) == 0,
                              "mepc-align": z3.Extract(1, 0, A.csrs["mepc"]) == 0}
                    for name, cl in claims.items():
                        query("state-" + name, cs + extra + [z3.Not(cl)], info)
                    # control state exactly as after power-on
                    for i, (mk, val) in ex.consts.items():
                        v = d.state(i)
                        if B.is_c(v):
                            if v & mk != val & mk:
                                query("control-state", cs + extra, dict(info, what=n.names[i]))
                            else:
                                obligations += 1
                        else:
                            query("control-state", cs + extra +
                                  [B.bv(v, n.width[i]) & mk != val & mk], dict(info, what=n.names[i]))
                    if len(samples) < 3:
                        samples.append(dict(stale_word=a, reset_cycles=length, cycles_to_fetch=k))
                continue
            nx = ex.concretise(c, cs, ctl)
            for addrs, extra in nx:
                d = c if len(nx) == 1 else ex.settled_clone(c, addrs)
                ex.settle(d, addrs)
                nxt = Cycle(n, ex.inputs(irq=ex.fresh("irq", 1)), prev=d,
                            base={p: ex.rom_word(p, x) for p, x in zip(cpu.rom_ports, addrs)})
                stack.append((nxt, addrs, cs + extra, k + 1, seen))
    run.cov.update(states=len(stale), transitions=cycles, micro_paths=paths, obligations=obligations,
                   solver_queries=ex.stats.queries, solver_unsat=ex.stats.unsat, solver_sat=ex.stats.sat,
                   solver_seconds=round(ex.stats.solver_time, 2), samples=samples,
                   stale_microcode_words=len(stale), not_cleared_by_reset=sorted(kept.values()),
                   bounds=f"reset held for any number of cycles (fixpoint), from any value of every flip-flop, "
                          f"memory word and microcode output register; IRQ and read data free; first fetch within "
                          f"{BOUND} cycles of release, acknowledged after any number of waits")
    return viol


# ---- replay ------------------------------------------------------------------------------
def concrete(sim, ctx, words, at, length, rf0, waits=1):
    """Run ``words``, assert reset at cycle ``at`` for ``length`` cycles, judge what follows."""
    top, core_ = sim.top, sim.core
    out = {"bad": [], "addr": None, "fetched": False}

    async def job(c):
        for i in range(sim.depth):
            c.set(sim.rf[i], rf0.get(i, 0))
        c.set(sim.rst, 0)
        age = pos = 0
        for k in range(at + length + 120):
            rst = at <= k < at + length
            c.set(sim.rst, int(rst))
            cyc, stb = c.get(top.bus.cyc), c.get(top.bus.stb)
            req = cyc and stb
            after = k >= at + length
            if k > at and not after and (cyc or stb):
                out["bad"].append("request-during-reset")
            need = 1 if not after else waits
            ack = int(bool(req) and age >= need and not rst)
            c.set(top.irq, int(after))
            c.set(top.bus.ack, ack)
            addr = tuple(c.get(s) for s in sim.rom)
            if rst:
                out["addr"] = addr
            if after and (cyc or stb):
                if cyc != stb:
                    out["bad"].append("cyc-stb")
                if c.get(top.bus.we):
                    out["bad"].append("first-request-we")
                if c.get(top.bus.adr) != 0:
                    out["bad"].append("first-request-adr")
                if c.get(top.bus.sel) != 15:
                    out["bad"].append("first-request-sel")
            if ack:
                if addr in ctx.ex.boundary:
                    c.set(top.bus.dat_r, words[pos % len(words)] if not after else 0x13)
                    pos += 1
                else:
                    c.set(top.bus.dat_r, 0xA5A5A5A5)
            if out["bad"]:
                return
            await c.tick()
            age = age + 1 if (req and not ack and not rst) else 0
            if after and ack:
                out["fetched"] = True
                rf = [c.get(sim.rf[i]) for i in range(sim.depth)]
                pc = c.get(core_.datapath.pc.dat_r)
                ms = c.get(replay._v(core_.datapath.csr.mstatus_r))
                me = c.get(replay._v(core_.datapath.csr.mie_r))
                for name, bad in (("x0", rf[0] != 0), ("pc", pc != 0), ("mie", ms >> 3 & 1),
                                  ("meie", me >> 11 & 1), ("mcause", rf[0x2A] != 0),
                                  ("mtvec-align", rf[0x25] & 3), ("mepc-align", rf[0x29] & 3)):
                    if bad:
                        out["bad"].append("state-" + name)
                return
        if not out["fetched"]:
            out["bad"].append("no-fetch")
    sim.go(job)
    return out


PROGRAMS = {
    "store": [0x80000237, 0xfff20213, 0x00412023], "load": [0x00012283], "jal": [0x0100006f], "lui": [0xfffff0b7],
    "shift": [0x00f11093], "branch": [0x00000463], "trap": [0x00000073], "mret": [0x30200073],
    "jalr": [0x00008067], "sb": [0x004100a3],
    "csrw": [0x34211073, 0x30509073, 0x34109073, 0x3420b073, 0x30415073, 0x3000f073],
    "mstatus": [0x30045073, 0x30411073, 0x00000013], "slt": [0x0020a0b3, 0x402080b3], "srl": [0x0020d0b3],
    "mie": [0x30409073, 0x34209073, 0x30009073, 0x34009073, 0x00000013],
    "misaligned": [0x00112023 | 0x80, 0x00212083],
}


def reproduce(run, ctx, viol):
    sim = replay.Sim(ctx)
    rf0 = {i: 0xFFFFFFFF for i in range(1, 64)}
    rf0.update({0: 0, 1: 0xFFFFFFFF, 2: 0x1234, 0x25: 0x40, 0x29: 0x80, 0x2A: 0xB})
    found = {}
    wanted = {v["kind"] for v in viol}
    import time
    t0 = time.time()
    for name, words in PROGRAMS.items():
        for at in range(1, 26 + 8 * len(words)):
            for length in (1, 2, 3):
                if time.time() - t0 > 240:
                    return found
                r = concrete(sim, ctx, words, at, length, rf0, waits=1 if at % 2 else 3)
                for b in r["bad"]:
                    if b not in found:
                        found[b] = dict(program=name, words=[f"{w:#x}" for w in words], at=at, length=length,
                                        bad=r["bad"], microcode_address=r["addr"])
                if found and (set(found) & wanted or len(found) >= 2):
                    return found
    return found


def power_on(run, ctx, sim):
    pass


def no_fetch(run):
    """No fetch after power-on: confirm in the simulator."""
    from amaranth.hdl import Module, ClockDomain
    from amaranth.sim import Simulator
    from sentinel.top import Top
    top = Top()
    m = Module()
    m.domains.sync = ClockDomain()
    m.submodules.top = top
    sim = Simulator(m)
    sim.add_clock(1e-6)
    seen = []

    async def tb(ctx):
        for k in range(2000):
            if ctx.get(top.bus.cyc) and ctx.get(top.bus.stb):
                seen.append(k)
                return
            await ctx.tick()
    sim.add_testbench(tb)
    sim.run()
    run.cov.update(states=1, transitions=core.RESET_BOUND, traces_validated_against_impl=1,
                   samples=["power-on run without a fetch"])
    if not seen:
        run.violation("no-fetch", dict(what="no bus request within 2000 cycles of power-on"))
    else:
        run.problems.append(f"first request only after {seen[0]} cycles")


def check(run):
    from explore import check as solver_check
    globals()["check"] = solver_check
    import cosim
    try:
        ctx = core.Ctx()
    except core.NoFetch:
        return no_fetch(run)
    viol = check_(run, ctx)
    run.cov["functions_encoded"] = dict(top="sentinel.top.Top (whole netlist, synchronous reset included)",
                                        cells=len(ctx.cpu.n.cells), flip_flops=len(ctx.cpu.n.ff))
    sim = replay.Sim(ctx)
    tr = 0
    for k in range(3 if run.tier == "quick" else 20):
        c, r, bad = cosim.run(ctx, sim, run.seed * 1000 + k)
        tr += 1
        if bad:
            run.problems.append(f"translator disagrees with the simulator: {bad[:3]}")
    run.cov["traces_validated_against_impl"] = tr
    run.assumptions += ["ACK is low while no request is outstanding and while reset is asserted",
                        "mtvec/mepc words in the register file RAM are aligned when reset begins (proved "
                        "inductive by every instruction check; power-on contents are zero)"]
    if viol:
        run.cov["counterexamples_from_solver"] = len(viol)
        hit = reproduce(run, ctx, viol)
        for k, r in list(hit.items())[:3]:
            run.violation(k, dict(counterexamples=viol[:5], reproduced=r))
        if not hit:
            run.problems.append(f"counterexamples not reproduced: {[(v['kind'], v.get('stale')) for v in viol[:6]]}")
