"""C20: DataPathSrcMux against the routing built into Top, for every state and input of Top."""
import z3

import bv as B
import prod
import cosim
from explore import Stats, check as solve, SolverUnknown
from nir import Netlist, Cycle, as_sig

PAIRS = ["reg_r_adr", "reg_w_adr", "allow_zero_wr", "csr_adr"]


def in_sigs(top):
    c, d = top.control, top.decode
    return {"insn_fetch": c.mem.insn_fetch, "reg_r_sel": c.gp.route.reg_r_sel, "reg_w_sel": c.gp.route.reg_w_sel,
            "csr_sel": c.csr.route.csr_sel, "src_a_unreg": d.src_a_unreg, "src_a": d.src_a, "src_b": d.src_b,
            "dst": d.dst, "csr_encoding": d.csr_encoding, "csr_target": as_sig(c.csr.route.target)[0:4]}


def out_sigs(top):
    p = top.datapath
    return {"reg_r_adr": p.gp.adr_r, "reg_w_adr": p.gp.adr_w, "allow_zero_wr": p.gp.ctrl.allow_zero_wr,
            "csr_adr": p.csr.adr}


def widen(v, w, n):
    return v if w == n or B.is_c(v) else z3.ZeroExt(n - w, v)


class Bench:
    """Top with the mux attached as the comment in top.py describes; one netlist and one simulation of it."""

    def __init__(self):
        from amaranth.hdl import Module, ClockDomain, Fragment
        from amaranth.hdl import _ir
        from sentinel.top import Top
        from sentinel.datapath import DataPathSrcMux
        self.top, self.mux = top, mux = Top(), DataPathSrcMux()
        m = Module()
        m.domains.sync = self.cd = ClockDomain()
        m.submodules.top = top
        m.submodules.mux = mux
        for k, s in in_sigs(top).items():
            m.d.comb += as_sig(getattr(mux, k)).eq(as_sig(s))
        self.frag = Fragment.get(m, None)
        I, O = _ir.PortDirection.Input, _ir.PortDirection.Output
        ports = {"clk": (self.cd.clk, I), "rst": (self.cd.rst, I), "irq": (top.irq, I),
                 "bus__dat_r": (top.bus.dat_r, I), "bus__ack": (top.bus.ack, I)}
        for k in ("cyc", "stb", "we", "adr", "sel", "dat_w"):
            ports["bus__" + k] = (getattr(top.bus, k), O)
        self.outs = {}
        for k, s in out_sigs(top).items():
            self.outs[k] = (as_sig(s), as_sig(getattr(mux, k)))
            ports["top__" + k] = (as_sig(s), O)
            ports["mux__" + k] = (as_sig(getattr(mux, k)), O)
        for k in in_sigs(top):
            ports["sel__" + k] = (as_sig(getattr(mux, k)), O)
        self.n = Netlist(self.copy(), ports=ports)

    def copy(self):
        from amaranth.hdl._xfrm import FragmentTransformer
        return FragmentTransformer()(self.frag)

    def run(self, tb):
        from amaranth.sim import Simulator
        sim = Simulator(self.copy())
        sim.add_clock(1e-6)
        sim.add_testbench(tb)
        sim.run()

    def compare(self, ctx):
        return {k: (ctx.get(a), ctx.get(b)) for k, (a, b) in self.outs.items() if ctx.get(a) != ctx.get(b)}

    def at(self, state, inp):
        """The simulator put into one state: selections and both sets of outputs."""
        res = {}

        async def tb(ctx):
            await ctx.tick()
            res["unset"] = prod.force(ctx, self.n, state)
            for name, s in (("bus__dat_r", self.top.bus.dat_r), ("bus__ack", self.top.bus.ack),
                            ("irq", self.top.irq)):
                ctx.set(as_sig(s), inp.get(name, 0))
            res["bad"] = self.compare(ctx)
            for k in in_sigs(self.top):
                res["sel__" + k] = ctx.get(as_sig(getattr(self.mux, k)))
            for k, (a, b) in self.outs.items():
                res["top__" + k], res["mux__" + k] = ctx.get(a), ctx.get(b)
        self.run(tb)
        return res

    def program(self, seed, cycles):
        """Random instructions, random waits; -> first cycle at which the two routings differ."""
        import random
        rng = random.Random(seed)
        bad = []

        async def tb(ctx):
            bus, prev = self.top.bus, False
            for k in range(cycles):
                req = ctx.get(bus.cyc) and ctx.get(bus.stb)
                ack = int(bool(req) and prev and rng.random() < .7)
                ctx.set(bus.ack, ack)
                ctx.set(bus.dat_r, cosim.random_word(rng))
                ctx.set(self.top.irq, int(rng.random() < .05))
                r = self.compare(ctx)
                if r:
                    bad.append((k, r))
                    return
                prev = bool(req) and not ack
                await ctx.tick()
        self.run(tb)
        return bad


def check(run):
    import random
    b = Bench()
    n = b.n
    st_ = Stats()
    fresh = prod.Fresh()
    st = prod.arbitrary(n, fresh, "t")
    inp = prod.inputs(n, fresh)
    c = Cycle(n, inp, base=st)
    cexs, obl, samples = [], 0, []
    for k, (sa, sb) in b.outs.items():
        w = max(len(sa), len(sb))
        x, y = widen(c.out("top__" + k), len(sa), w), widen(c.out("mux__" + k), len(sb), w)
        obl += 1
        try:
            ok, m = solve([B.bv(x, w) != B.bv(y, w)], st_, want_model=True)
        except SolverUnknown as e:
            run.problems.append(f"{k}: solver gave no answer {e}")
            continue
        samples.append(dict(output=k, width=w, equal=not ok))
        if ok:
            cexs.append(dict(output=k, top=prod.mval(m, x), mux=prod.mval(m, y),
                             selection={s: prod.mval(m, c.out("sel__" + s)) for s in in_sigs(b.top)},
                             state={i: prod.mval(m, st[i]) for i in n.state_ids},
                             inputs={s: prod.mval(m, v) for s, v in inp.items()}))
        else:
            # vacuity: the output really varies
            obl += 1
            if not solve([B.bv(x, w) != 0], st_)[0]:
                run.problems.append(f"vacuous: {k} is constant 0")
    # translator validation: evaluator against the simulator in random states
    rng = random.Random(run.seed)
    tr = 0
    for _ in range(5 if run.tier == "quick" else 60):
        state = {i: rng.getrandbits(n.width[i]) for i in n.state_ids}
        ii = {"bus__dat_r": rng.getrandbits(32), "bus__ack": rng.getrandbits(1), "irq": rng.getrandbits(1)}
        got = b.at(state, ii)
        if got["unset"]:
            run.notes.append(f"state cells without a signal of their own: {got['unset'][:4]}")
            break
        cc = Cycle(n, dict(ii, clk=0, rst=0), base=state)
        for name in n.outputs:
            if name.startswith(("sel__", "top__", "mux__")) and cc.out(name) != got[name]:
                run.problems.append(f"evaluator disagrees with the simulator on {name}")
        tr += 1
    prog = []
    for k in range(2 if run.tier == "quick" else 10):
        tr += 1
        prog = b.program(run.seed * 100 + k, 500)
        if prog:
            break
    if prog and not cexs:
        run.problems.append(f"simulator shows a mismatch the solver did not find: {prog[:2]}")
    run.cov.update(states=1, transitions=1, obligations=obl, traces_validated_against_impl=tr,
                   solver_queries=st_.queries, solver_unsat=st_.unsat, solver_sat=st_.sat,
                   solver_seconds=round(st_.solver_time, 3), samples=samples,
                   functions_encoded=dict(top="sentinel.top.Top (whole netlist) with sentinel.datapath."
                                              "DataPathSrcMux attached to its control and decode signals",
                                          cells=len(n.cells), flip_flops=len(n.ff)),
                   bounds="no bound: one cycle from every value of every flip-flop, memory word and "
                          "microcode word of Top, with every input value")
    run.assumptions += ["mux inputs are the Top signals named in top.py's own wiring comment",
                        "z3 and Amaranth's netlist builder are trusted"]
    for x in cexs:
        hit = b.at(x["state"], x["inputs"])
        if not hit["bad"] and prog:
            hit = dict(program_run=prog)
        elif not hit["bad"]:
            run.problems.append(f"counterexample for {x['output']} not reproduced: {x['selection']}")
            continue
        run.violation(x["output"], dict(counterexample={s: v for s, v in x.items() if s != "state"},
                                        reproduced=hit))
