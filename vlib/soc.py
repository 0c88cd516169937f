"""Peripherals of examples/attosoc.py (C22, C23, C24): bounded symbolic execution of their netlists.

Each claim is a function of a trace (named values per cycle).  The solver decides it over the symbolic trace;
a counterexample is run through the Amaranth simulator and judged by the same function on the simulated values.
"""
import importlib.util
import os
import random
import time
import warnings

import load
import z3

import bv as B
import prod
from explore import Stats, check as solve, SolverUnknown
from nir import Netlist, Cycle, ConMem, SymMem, as_sig


def attosoc():
    spec = importlib.util.spec_from_file_location("attosoc", os.path.join(load.REPO, "examples", "attosoc.py"))
    m = importlib.util.module_from_spec(spec)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        spec.loader.exec_module(m)
    return m


class Unit:
    """An elaborated peripheral: its netlist, and the same fragment for the simulator."""

    def __init__(self, name, comp, ins=None, outs=None, mem=None):
        from amaranth.hdl import Fragment
        from amaranth.hdl import _ir
        I, O = _ir.PortDirection.Input, _ir.PortDirection.Output
        self.name, self.mem = name, mem
        self.ins, self.outs = {}, {}
        if hasattr(comp, "signature"):
            for path, member, value in comp.signature.flatten(comp):
                k = "_".join(map(str, path))
                (self.ins if member.flow.name == "In" else self.outs)[k] = as_sig(value)
        self.ins.update({k: as_sig(v) for k, v in (ins or {}).items()})
        self.outs.update({k: as_sig(v) for k, v in (outs or {}).items()})
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.frag = Fragment.get(comp, None)
        ports = {k: (v, I) for k, v in self.ins.items()}
        ports.update({k: (v, O) for k, v in self.outs.items()})
        self.n = Netlist(self.copy(), ports=ports)
        self.ram = self.n.rams[0] if self.n.rams else None

    def copy(self):
        from amaranth.hdl._xfrm import FragmentTransformer
        return FragmentTransformer()(self.frag)

    def w(self, k):
        s = self.ins.get(k, self.outs.get(k))
        return len(s)

    def cell(self, suffix, width=None):
        """State cell with this register name (None when there is no single such cell)."""
        r = [i for i in self.n.state_ids
             if (suffix is None or self.n.names[i].split("#")[0].split(".")[-1] == suffix)
             and (width is None or self.n.width[i] == width)]
        return r[0] if len(r) == 1 else None


class Sym:
    """A symbolic trace: o[t, name]."""

    def __init__(self, u, cycles, inputs):
        self.u, self.c, self.i = u, cycles, inputs

    def __getitem__(self, k):
        t, name = k
        if name in self.i[t]:
            return self.i[t][name]
        return self.c[t].out(name)

    def state(self, t, cell):
        return self.c[t].state(cell)

    def word(self, t, idx):
        d = self.u.n.mems[self.u.ram].depth
        return self.c[t].state(self.u.ram).read(idx, (d - 1).bit_length())


class Con:
    """The same trace from the simulator."""

    def __init__(self, u, recs, inputs):
        self.u, self.r, self.i = u, recs, inputs

    def __getitem__(self, k):
        t, name = k
        return self.i[t][name] if name in self.i[t] else self.r[t][name]

    def state(self, t, cell):
        return self.r[t][("cell", cell)]

    def word(self, t, idx):
        return self.r[t][("mem",)][idx]


def simulate(u, st, inputs, cells=()):
    """Concrete run in the simulator from a given state (None: power-on); -> Con, cells not set"""
    from amaranth.sim import Simulator
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = Simulator(u.copy())
    sim.add_clock(1e-6)
    recs, left = [], []
    probes = {}
    for i in cells:
        h = prod.holders(u.n, i)
        if h:
            probes[i] = h[0]

    async def tb(ctx):
        if st is not None:
            left.extend(prod.force(ctx, u.n, {i: v for i, v in st.items() if i != u.ram}))
            if u.ram is not None:
                for k, v in enumerate(st[u.ram]):
                    ctx.set(u.mem.data[k], v)
        for inp in inputs:
            for k, v in inp.items():
                if k in u.ins:
                    ctx.set(u.ins[k], v)
            r = {k: ctx.get(s) for k, s in u.outs.items()}
            for i, s in probes.items():
                r[("cell", i)] = ctx.get(s)
            if u.ram is not None:
                r[("mem",)] = [ctx.get(u.mem.data[k]) for k in range(u.n.mems[u.ram].depth)]
            recs.append(r)
            await ctx.tick()
    sim.add_testbench(tb)
    sim.run()
    return Con(u, recs, inputs), left


class Prover:
    def __init__(self, run):
        self.run, self.S, self.obl, self.samples, self.sims = run, Stats(), 0, [], 0
        self.viol, self.fns, self.cycles = {}, {}, 0

    def trace(self, u, K, start="any", fixed=None):
        """-> (Sym, initial state).  ``fixed(t)``: input values given for that cycle (others are free)"""
        n = u.n
        fresh = prod.Fresh()
        if start == "any":
            st = prod.arbitrary(n, fresh, u.name)
        else:
            st = n.init_state({m: SymMem(z3.Array(f"{u.name}ram", z3.BitVecSort((n.mems[m].depth - 1).bit_length()),
                                                  z3.BitVecSort(n.mems[m].width))) for m in n.rams})
        cyc, inputs, prev = [], [], None
        for t in range(K):
            f = dict(fixed(t, self.sym(u, cyc, inputs)) if fixed else {})
            inp = {k: f[k] if k in f else fresh(f"{k}@{t}", len(s)) for k, s in u.ins.items()}
            c = Cycle(n, dict(inp, clk=0, rst=0), base=dict(st) if t == 0 else None, prev=prev)
            for i in n.state_ids + n.rams:      # no deep recursion through earlier cycles
                c.state(i)
            cyc.append(c)
            inputs.append(inp)
            if prev is not None:
                prev.prev = None
            prev = c
        self.cycles += K
        self.fns[u.name] = dict(cells=len(n.cells), flip_flops=len(n.ff))
        return Sym(u, cyc, inputs), st

    @staticmethod
    def sym(u, cyc, inputs):
        return Sym(u, cyc, inputs)

    def decide(self, u, name, K, assume, claims, start="any", fixed=None, free=None, cells=()):
        """claims(o, d) -> {key: Bool}; d: extra universally quantified values {name: width} in ``free``"""
        o, st = self.trace(u, K, start, fixed)
        d = {k: z3.BitVec("free_" + k, w) for k, w in (free or {}).items()}
        hyp = [x for x in assume(o, d)] if assume else []
        goals = claims(o, d)
        # vacuity: the hypotheses alone must be satisfiable
        self.obl += 1
        if not solve([x for x in hyp if x is not True], self.S)[0]:
            self.run.problems.append(f"vacuous: {u.name} {name}")
        for key, g in goals.items():
            self.obl += 1
            full = f"{u.name}:{key}"
            if g is True:
                self.samples.append(dict(claim=full, holds=True, folded=True))
                continue
            try:
                ok, m = solve([x for x in hyp if x is not True] + ([] if g is False else [z3.Not(g)]), self.S,
                              want_model=True)
            except SolverUnknown as e:
                self.run.problems.append(f"{full}: solver gave no answer {e}")
                continue
            self.samples.append(dict(claim=full, holds=not ok))
            if ok:
                self.replay(u, full, key, K, o, st, d, m, assume, claims, start, cells)

    def replay(self, u, full, key, K, o, st, d, m, assume, claims, start, cells):
        inputs = [{k: prod.mval(m, v) for k, v in i.items()} for i in o.i]
        dd = {k: prod.mval(m, v) for k, v in d.items()}
        st0 = None
        if start == "any":
            st0 = {i: prod.mval(m, st[i]) for i in u.n.state_ids}
        if u.ram is not None:
            dep = u.n.mems[u.ram].depth
            st0 = st0 or {}
            st0[u.ram] = [prod.mval(m, st[u.ram].read(k, (dep - 1).bit_length())) for k in range(dep)]
        con, left = simulate(u, st0, inputs, cells)
        self.sims += 1
        hyp = all(x is True or x is not False and z3.is_true(z3.simplify(x)) for x in (assume(con, dd) if assume
                                                                                       else []))
        got = claims(con, dd).get(key)
        if hyp and got is False:
            self.viol.setdefault(full, dict(
                state={u.n.names[i]: v for i, v in (st0 or {}).items() if i != u.ram} or "power-on",
                inputs=inputs if K < 40 else inputs[:5], free=dd,
                outputs=[{k: v for k, v in r.items() if isinstance(k, str)} for r in con.r[:40]]))
        else:
            self.run.problems.append(f"{full}: counterexample not reproduced (unset {left}, hypotheses {hyp})")

    def validate(self, u, cycles):
        """Evaluator against the simulator on a random run from power-on."""
        rng = random.Random(self.run.seed)
        n = u.n
        inputs = [{k: rng.getrandbits(len(s)) for k, s in u.ins.items()} for _ in range(cycles)]
        con, _ = simulate(u, None, inputs)
        st = n.init_state({m: ConMem(list(n.mems[m].init) + [0] * (n.mems[m].depth - len(n.mems[m].init)))
                           for m in n.rams})
        for t, inp in enumerate(inputs):
            c = Cycle(n, dict(inp, clk=0, rst=0), base=st)
            for k in u.outs:
                if c.out(k) != con[t, k]:
                    self.run.problems.append(f"{u.name}: evaluator disagrees with the simulator on {k}")
                    return
            st = {i: c.next(i) for i in n.state_ids + n.rams}
        self.sims += 1

    def finish(self, bounds, assumptions):
        r, S = self.run, self.S
        for key, rep in self.viol.items():
            r.violation(key, rep)
        r.cov.update(states=len(self.fns), transitions=self.cycles, obligations=self.obl,
                     traces_validated_against_impl=self.sims, solver_queries=S.queries, solver_unsat=S.unsat,
                     solver_sat=S.sat, solver_seconds=round(S.solver_time, 3), samples=self.samples[:12],
                     functions_encoded={k: v for k, v in self.fns.items()}, bounds=bounds)
        r.assumptions += assumptions + ["amaranth_soc is not installed: vlib/stubs stands in for its signatures and "
                                        "register classes; address decoding and the CSR bus are outside the claims",
                                        "z3 and Amaranth's netlist builder are trusted"]


# ---- helpers over bv values ------------------------------------------------
def eq(a, b, w):
    return B.eq(a, b, w)


def bit(x, k, w):
    return B.extract(x, k, k, w)


def on(x):
    return B.tobool(x)


def imp(a, b):
    return B.bool_or(B.bool_not(a), b)


AND, OR, NOT = B.bool_and, B.bool_or, B.bool_not


def req(o, t):
    return AND(on(o[t, "bus_cyc"]), on(o[t, "bus_stb"]))


def first(o, t):
    """First cycle of a transfer: requested, not yet acknowledged."""
    return AND(req(o, t), NOT(on(o[t, "bus_ack"])))


BUS_IN = ("bus_cyc", "bus_stb", "bus_we", "bus_adr", "bus_sel", "bus_dat_w")


def held(u, o, t):
    """The master keeps the whole request from cycle t to t+1."""
    return AND(*[eq(o[t, k], o[t + 1, k], u.w(k)) for k in BUS_IN])


def master(u, o, K):
    """Wishbone Classic master over K cycles: a request is held until it is acknowledged."""
    return [imp(first(o, t), held(u, o, t)) for t in range(K - 1)]


def ack_rule(o, t):
    return eq(o[t + 1, "bus_ack"], B.b1(first(o, t)), 1)


# ---- C22: memory, LEDs/GPIO, transfers --------------------------------------
def check_c22(run):
    A = attosoc()
    P = Prover(run)
    quick = run.tier == "quick"
    wb = []
    for nb in (16, 0x400) if quick else (16, 64, 0x400, 0x1000):
        x = A.WBMemory(num_bytes=nb)
        wb.append(Unit(f"WBMemory[{nb}]", x, mem=x.mem))
    mems = list(wb)
    leds, timer, ser = (Unit(k, getattr(A, k)()) for k in ("WBLeds", "WBTimer", "WBSerial"))
    wb += [leds, timer, ser]
    for u in wb:
        P.validate(u, 60 if quick else 400)
        P.decide(u, "ack", 2, None, lambda o, d: {"ack": ack_rule(o, 0)})
        P.decide(u, "ack at power-on", 1, None, lambda o, d: {"ack-at-power-on": eq(o[0, "bus_ack"], 0, 1)},
                 start="reset")
    for u in mems:
        depth = u.n.mems[u.ram].depth
        aw = (depth - 1).bit_length()

        def a_xfer(o, d, depth=depth, u=u):
            return [first(o, 0), held(u, o, 0), B.cmp("u<", o[0, "bus_adr"], depth, 23)]

        def c_xfer(o, d, aw=aw):
            i, adr = d["word"], B.extract(o[0, "bus_adr"], aw - 1, 0, 23)
            old, new = o.word(0, i), o.word(2, i)
            hit = AND(eq(i, adr, aw), on(o[0, "bus_we"]))
            out = {}
            for k in range(4):
                byt = [B.extract(v, 8 * k + 7, 8 * k, 32) for v in (old, new, o[0, "bus_dat_w"])]
                want = B.ite(AND(hit, on(bit(o[0, "bus_sel"], k, 4))), byt[2], byt[0], 8)
                out[f"byte{k}"] = eq(byt[1], want, 8)
            out["read"] = imp(NOT(on(o[0, "bus_we"])), eq(o[1, "bus_dat_r"], o.word(0, adr), 32))
            return out
        P.decide(u, "transfer", 3, a_xfer, c_xfer, free={"word": aw})
        P.decide(u, "idle", 2, lambda o, d: [NOT(req(o, 0))],
                 lambda o, d: {"idle-keeps": eq(o.word(0, d["word"]), o.word(1, d["word"]), 32)}, free={"word": aw})

        # write, another transfer to another byte, read back: through the bus only
        def a_seq(o, d, depth=depth, u=u):
            h = master(u, o, 7) + [first(o, t) for t in (0, 2, 4)]
            h += [on(o[0, "bus_we"]), NOT(on(o[4, "bus_we"])), eq(o[0, "bus_adr"], o[4, "bus_adr"], 23)]
            for t in (0, 2, 4):
                h.append(B.cmp("u<", o[t, "bus_adr"], depth, 23))
            h.append(OR(NOT(on(o[2, "bus_we"])), NOT(eq(o[2, "bus_adr"], o[0, "bus_adr"], 23)),
                        eq(B.band(o[0, "bus_sel"], o[2, "bus_sel"], 4), 0, 4)))
            return h

        def c_seq(o, d):
            return {f"read-back{k}": imp(on(bit(o[0, "bus_sel"], k, 4)), eq(
                B.extract(o[5, "bus_dat_r"], 8 * k + 7, 8 * k, 32),
                B.extract(o[0, "bus_dat_w"], 8 * k + 7, 8 * k, 32), 8)) for k in range(4)}
        P.decide(u, "sequence", 7, a_seq, c_seq)
    # LEDs / GPIO over Wishbone
    u = leds

    def regs(o, t, name):
        if name == "leds":
            return o[t, "leds"]
        return B.cat_msb([(o[t, f"gpio_{i}_{name}"], 1) for i in range(7, -1, -1)])

    def gi(o, t):
        return B.cat_msb([(o[t, f"gpio_{i}_i"], 1) for i in range(7, -1, -1)])

    def c_leds(o, d):
        out = {}
        sel = on(bit(o[0, "bus_sel"], 0, u.w("bus_sel")))
        low = B.extract(o[0, "bus_adr"], 1, 0, u.w("bus_adr"))
        for k, name in enumerate(("leds", "o", "oe")):
            wr = AND(on(o[0, "bus_we"]), sel, eq(low, k, 2))
            out[f"write-{name}"] = eq(regs(o, 2, name), B.ite(wr, o[0, "bus_dat_w"], regs(o, 0, name), 8), 8)
        out["read-gpio"] = imp(AND(NOT(on(o[0, "bus_we"])), sel, eq(low, 1, 2)),
                               eq(o[1, "bus_dat_r"], gi(o, 0), 8))
        return out
    P.decide(u, "transfer", 3, lambda o, d: [first(o, 0), held(u, o, 0)], c_leds)
    P.decide(u, "idle", 2, lambda o, d: [NOT(req(o, 0))],
             lambda o, d: {f"idle-keeps-{k}": eq(regs(o, 0, k), regs(o, 1, k), 8) for k in ("leds", "o", "oe")})
    P.decide(u, "power-on", 1, None, lambda o, d: {f"power-on-{k}": eq(regs(o, 0, k), 0, 8)
                                                   for k in ("leds", "oe")}, start="reset")
    # LEDs / GPIO as CSR registers
    x = A.CSRLeds()
    f = dict(leds=x.leds_reg.f.leds.port, inout=x.inout_reg.f.inout.port, oe=x.oe_reg.f.oe.port)
    ins = {f"{k}_{s}": getattr(v, s) for k, v in f.items() for s in ("r_stb", "w_stb", "w_data")}
    uc = Unit("CSRLeds", x, ins=ins, outs={"inout_r": f["inout"].r_data})
    P.validate(uc, 60 if quick else 400)

    def c_csr(o, d):
        out = {}
        for name, reg in (("leds", "leds"), ("o", "inout"), ("oe", "oe")):
            out[f"write-{name}"] = eq(regs(o, 1, name), B.ite(on(o[0, reg + "_w_stb"]), o[0, reg + "_w_data"],
                                                              regs(o, 0, name), 8), 8)
        out["read-gpio"] = eq(o[0, "inout_r"], gi(o, 0), 8)
        return out
    P.decide(uc, "registers", 2, None, c_csr)
    firmware(run, P, A)
    P.finish("every state of every flip-flop and memory word; one transfer of two cycles (write/other/read-back: "
             "three transfers, seven cycles); memory sizes listed in functions_encoded; firmware images of up to "
             "18 bytes", ["the bus master holds a request until it is acknowledged", "addresses inside the memory"])


class SymInt(int):
    """Stands in for ``int`` inside attosoc.py: from_bytes over symbolic bytes."""

    @staticmethod
    def from_bytes(b, byteorder="big", signed=False):
        p = list(b)
        if byteorder == "little":
            p = p[::-1]
        assert not signed
        return B.cat_msb([(x, 8) for x in p]) if p else 0, 8 * len(p)


def firmware(run, P, A):
    """AttoSoC.rom = bytes / assembly / words: where every byte ends up, bytes symbolic."""
    class SymBytes(bytearray):
        def __init__(self, n):
            super().__init__(bytes(n))
            self.b = [z3.BitVec(f"b{i}", 8) for i in range(n)]

        def __getitem__(self, k):
            return self.b[k]

    class Mem:
        init = None

    A.int = SymInt
    real = A.assemble
    try:
        for n in range(0, 19):
            for how in ("bytes", "source"):
                soc = A.AttoSoC.__new__(A.AttoSoC)
                soc.mem = Mem()
                src = SymBytes(n)
                A.assemble = lambda s, src=src: src
                A.AttoSoC.rom.fset(soc, src if how == "bytes" else "nop")
                words = soc.mem.init
                P.obl += 1
                good = [len(words) == (n + 3) // 4]
                for i in range(n):
                    if i // 4 < len(words):
                        v, w = words[i // 4]
                        good.append(False if w < 8 * (i % 4) + 8 else
                                    eq(B.extract(v, 8 * (i % 4) + 7, 8 * (i % 4), w), src.b[i], 8))
                g = AND(*good)
                if g is True:
                    continue
                ok, m = (True, None) if g is False else solve([z3.Not(g)], P.S, want_model=True)
                if ok:
                    data = bytes((prod.mval(m, x) if m is not None else i + 1) for i, x in enumerate(src.b))
                    del A.int
                    A.assemble = lambda s: data
                    A.AttoSoC.rom.fset(soc, data if how == "bytes" else "nop")
                    got = b"".join(int(w).to_bytes(4, "little") for w in soc.mem.init)
                    A.int = SymInt
                    if got[:n] != data or len(got) != (n + 3) // 4 * 4:
                        P.viol.setdefault(f"firmware:{how}", dict(image=data.hex(), memory=got.hex()))
                    else:
                        run.problems.append(f"firmware {how} {n}: counterexample not reproduced")
    finally:
        A.assemble = real
        if "int" in A.__dict__:
            del A.int
    P.samples.append(dict(claim="firmware bytes little-endian", lengths="0..18"))


# ---- C23: timer and serial events -------------------------------------------
def check_c23(run):
    A = attosoc()
    P = Prover(run)
    quick = run.tier == "quick"
    # timers
    for kind in ("WB", "CSR"):
        x = getattr(A, kind + "Timer")()
        if kind == "WB":
            u = Unit("WBTimer", x)
        else:
            p = x.irq_reg.f.irq.port
            u = Unit("CSRTimer", x, ins=dict(r_stb=p.r_stb), outs=dict(r_data=p.r_data))
        P.validate(u, 60 if quick else 400)
        cnt = u.cell(None, 15)
        if cnt is None:
            run.problems.append(f"{u.name}: no 15-bit counter register found")
            continue

        def got_one(o, t, kind=kind, u=u):
            """A read delivers 1 for the state at cycle t."""
            if kind == "WB":
                return AND(first(o, t), NOT(on(o[t, "bus_we"])), on(o[t, "bus_sel"]), on(o[t + 1, "bus_ack"]),
                           on(bit(o[t + 1, "bus_dat_r"], 0, 8)))
            return AND(on(o[t, "r_stb"]), on(o[t, "r_data"]))

        def c_timer(o, d, kind=kind, cnt=cnt, got_one=got_one):
            out = {}
            for t in (0, 1):
                a, b = o.state(t, cnt), o.state(t + 1, cnt)
                la, lb = B.extract(a, 13, 0, 15), B.extract(b, 13, 0, 15)
                wrap = eq(la, 0x3fff, 14)
                i0, i1 = on(o[t, "irq"]), on(o[t + 1, "irq"])
                out[f"period{t}"] = eq(lb, B.add(la, 1, 14), 14)
                out[f"tick-raises-irq{t}"] = imp(AND(NOT(i0), wrap), i1)
                out[f"irq-only-from-tick{t}"] = imp(AND(NOT(i0), i1), wrap)
                race = False        # the tick falls into the acknowledge cycle of a read begun before it
                if kind == "WB" and t:
                    race = AND(first(o, t - 1), NOT(on(o[t - 1, "bus_we"])), on(o[t - 1, "bus_sel"]),
                               NOT(on(o[t - 1, "irq"])), i0, on(o[t, "bus_ack"]))
                    out["tick-in-ack-cycle-lost"] = imp(AND(race, NOT(wrap)), i1)
                out[f"irq-lost{t}"] = imp(AND(i0, NOT(i1)), OR(wrap, got_one(o, t), race))
                out[f"read-clears{t}"] = imp(AND(i0, got_one(o, t)), NOT(i1))
                if kind == "WB":
                    rd = AND(first(o, t), NOT(on(o[t, "bus_we"])), on(o[t, "bus_sel"]))
                    out[f"read-value{t}"] = imp(rd, eq(o[t + 1, "bus_dat_r"], B.cat_msb([(0, 7), (o[t, "irq"], 1)]), 8))
                else:
                    out[f"read-value{t}"] = eq(o[t, "r_data"], o[t, "irq"], 1)
            return out

        def a_timer(o, d, kind=kind, u=u):
            if kind == "CSR":
                return []
            return master(u, o, 3) + [NOT(on(o[0, "bus_ack"]))]
        P.decide(u, "timer", 3, a_timer, c_timer, cells=(cnt,))
        P.decide(u, "timer power-on", 1, None, lambda o, d: {"irq-at-power-on": eq(o[0, "irq"], 0, 1)},
                 start="reset")
    # serial
    for kind in ("WB", "CSR"):
        x = getattr(A, kind + "Serial")()
        s = x.serial
        outs = dict(rdy=s.rx_rdy, tack=s.tx_ack, data=s.rx_data, rack=s.rx_ack, trdy=s.tx_rdy, tdata=s.tx_data)
        if kind == "WB":
            u = Unit("WBSerial", x, outs=outs)
        else:
            a, b = x.txrx_reg.f.txrx.port, x.irq_reg.f.irq.port
            u = Unit("CSRSerial", x, ins=dict(t_r=a.r_stb, t_w=a.w_stb, t_d=a.w_data, i_r=b.r_stb),
                     outs=dict(outs, t_data=a.r_data, i_data=b.r_data))
        P.validate(u, 60 if quick else 400)
        div = s.divisor
        cl = {k: u.cell(k) for k in ("rx_count", "rx_phase", "tx_count", "tx_phase")}
        if None in cl.values():
            run.problems.append(f"{u.name}: UART registers not found {cl}")
            continue

        def inv(o, t, u=u, cl=cl, div=div):
            n = u.n
            out = [imp(on(o[t, "rdy"]), eq(o.state(t, cl["rx_count"]), 0, n.width[cl["rx_count"]]))]
            for k, lim in (("rx_count", 11), ("tx_count", 11), ("rx_phase", div), ("tx_phase", div)):
                out.append(B.cmp("u<", o.state(t, cl[k]), lim, n.width[cl[k]]))
            return AND(*out)
        cells = tuple(cl.values())
        P.decide(u, "invariant holds at power-on", 1, None, lambda o, d: {"inv0": inv(o, 0)}, start="reset",
                 cells=cells)
        P.decide(u, "invariant is kept", 2, lambda o, d: [inv(o, 0)], lambda o, d: {"inv1": inv(o, 1)}, cells=cells)

        def irq_read(o, t, kind=kind):
            """The interrupt register is sampled in cycle t."""
            if kind == "CSR":
                return on(o[t, "i_r"])
            return AND(first(o, t), NOT(on(o[t, "bus_we"])), on(o[t, "bus_sel"]), on(bit(o[t, "bus_adr"], 0, 30)))

        def irq_val(o, t, kind=kind):
            """... and this is what the read returns."""
            return o[t, "i_data"] if kind == "CSR" else B.extract(o[t + 1, "bus_dat_r"], 1, 0, 8)

        def rx_read(o, t, kind=kind):
            if kind == "CSR":
                return on(o[t, "t_r"])
            return AND(first(o, t), NOT(on(o[t, "bus_we"])), on(o[t, "bus_sel"]),
                       NOT(on(bit(o[t, "bus_adr"], 0, 30))))

        def rx_val(o, t, kind=kind):
            return o[t, "t_data"] if kind == "CSR" else o[t + 1, "bus_dat_r"]
        K = 6 if quick else 9

        def base(o, d, kind=kind, u=u, K=K):
            return [inv(o, 0)] + ([] if kind == "CSR" else master(u, o, K) + [NOT(on(o[0, "bus_ack"]))])

        def c_ser(o, d, K=K, kind=kind):
            out = {}
            for k, sig in ((0, "rdy"), (1, "tack")):
                lost, spur = [], []
                for t in range(1, K - 2):
                    ev = AND(on(o[t, sig]), NOT(on(o[t - 1, sig])))
                    for r in range(t + 1, K - 1):
                        quiet = AND(*[NOT(irq_read(o, j)) for j in range(t + 1, r)])
                        lost.append(imp(AND(ev, quiet), on(o[r, "irq"])))
                        lost.append(imp(AND(ev, quiet, irq_read(o, r)), on(bit(irq_val(o, r), k, 2))))
                    # after a read, without a new event, the bit reads as clear
                    for r in range(t + 1, K - 1):
                        noev = AND(*[NOT(AND(on(o[j, sig]), NOT(on(o[j - 1, sig])))) for j in range(t, r)])
                        quiet = AND(*[NOT(irq_read(o, j)) for j in range(t + 1, r)])
                        spur.append(imp(AND(irq_read(o, t), noev, quiet, irq_read(o, r)),
                                        NOT(on(bit(irq_val(o, r), k, 2)))))
                out[f"{sig}-event-lost"] = AND(*lost)
                out[f"{sig}-event-invented"] = AND(*spur)
            drop, dat, ackrace = [], [], []
            for t in range(0, K - 1):
                fall = AND(on(o[t, "rdy"]), NOT(on(o[t + 1, "rdy"])))
                race = False        # the byte arrives in the acknowledge cycle of a read begun before it
                if kind == "WB" and t:
                    race = AND(rx_read(o, t - 1), NOT(on(o[t - 1, "rdy"])), on(o[t, "rdy"]), on(o[t, "bus_ack"]))
                    ackrace.append(imp(race, on(o[t + 1, "rdy"])))
                drop.append(imp(fall, OR(race, AND(rx_read(o, t), eq(rx_val(o, t), o[t, "data"], 8)))))
                dat.append(imp(AND(on(o[t, "rdy"]), on(o[t + 1, "rdy"])), eq(o[t, "data"], o[t + 1, "data"], 8)))
                dat.append(imp(rx_read(o, t), eq(rx_val(o, t), o[t, "data"], 8)))
            out["received-byte-dropped"] = AND(*drop)
            if kind == "WB":
                out["byte-in-ack-cycle-dropped"] = AND(*ackrace)
            out["received-byte-changed"] = AND(*dat)
            # a byte written reaches the transmitter exactly once
            tx = []
            for t in range(0, K - 1):
                if kind == "CSR":
                    tx.append(eq(o[t, "trdy"], o[t, "t_w"], 1))
                    tx.append(imp(on(o[t, "trdy"]), eq(o[t, "tdata"], o[t, "t_d"], 8)))
                else:
                    wr = AND(req(o, t), on(o[t, "bus_ack"]), on(o[t, "bus_we"]), on(o[t, "bus_sel"]),
                             NOT(on(bit(o[t, "bus_adr"], 0, 30))))
                    tx.append(eq(o[t, "trdy"], B.b1(wr), 1))
                    tx.append(imp(wr, eq(o[t, "tdata"], o[t, "bus_dat_w"], 8)))
            out["written-byte-once"] = AND(*tx)
            if kind == "WB":
                out["irq-register-upper-bits"] = AND(*[imp(irq_read(o, t), eq(
                    B.extract(o[t + 1, "bus_dat_r"], 7, 2, 8), 0, 6)) for t in range(K - 1)])
            return out
        P.decide(u, "serial", K, base, c_ser, cells=cells)
        # the firmware tells the two bus types apart by the interrupt pending after reset
        if kind == "WB":
            P.decide(u, "power-on", 6, lambda o, d: [NOT(req(o, t)) for t in range(6)], lambda o, d: {
                "irq-after-reset": AND(*[eq(o[t, "irq"], 1, 1) for t in range(1, 6)])}, start="reset")
        else:
            P.decide(u, "power-on", 6, lambda o, d: [NOT(on(o[t, "t_w"])) for t in range(6)], lambda o, d: {
                "no-irq-after-reset": AND(*[eq(o[t, "irq"], 0, 1) for t in range(6)])}, start="reset")
    P.finish(f"every state of every flip-flop (UART registers within their ranges, shown inductive), every input "
             f"sequence of 3 (timer) and {6 if quick else 9} (serial) cycles",
             ["the bus master holds a request until it is acknowledged",
              "an unserviced timer interrupt is withdrawn when the 15-bit counter wraps, as documented"])


# ---- C24: UART framing -------------------------------------------------------
def uart(A, div):
    x = A.UART(div)
    return Unit(f"UART[{div}]", x, ins=dict(rx_i=x.rx_i, rx_ack=x.rx_ack, tx_data=x.tx_data, tx_rdy=x.tx_rdy),
                outs=dict(tx_o=x.tx_o, tx_ack=x.tx_ack, rx_data=x.rx_data, rx_err=x.rx_err, rx_ovf=x.rx_ovf,
                          rx_rdy=x.rx_rdy))


def frame(d, key, period, t, nbits=10, stop=1):
    """Line value ``t`` cycles after the start edge (None: frame over)."""
    k = t // period
    if k >= nbits:
        return None
    return 0 if k == 0 else stop if k == nbits - 1 else B.extract(d[key], k - 1, k - 1, 8)


def check_c24(run):
    A = attosoc()
    P = Prover(run)
    quick = run.tier == "quick"
    byts = {"b0": z3.BitVec("b0", 8), "b1": z3.BitVec("b1", 8), "n": None}
    divs = (4, 5, 8, 13) + ((104,) if quick else (16, 104, 1250))
    for div in divs:
        u = uart(A, div)
        P.validate(u, 200)
        F = 10 * div
        gaps = (0, 1, div) if quick else (0, 1, 2, div - 1, div, 3 * div)
        for gap in gaps:
            # transmit two bytes; tx_rdy and tx_data are free while the transmitter is busy
            K = 2 * F + gap + 4
            s0, s1 = 1, 1 + F + gap + 1

            def fx(t, o, s0=s0, s1=s1, F=F):
                f = dict(rx_i=1, rx_ack=0)
                if t in (s0, s1):
                    f.update(tx_rdy=1, tx_data=byts["b0" if t == s0 else "b1"])
                elif not (s0 < t <= s0 + F or s1 < t <= s1 + F):
                    f.update(tx_rdy=0)
                return f

            def cl(o, d, s0=s0, s1=s1, F=F, K=K, div=div):
                line, rdy = [], []
                for t in range(K):
                    want, busy = 1, False
                    for s, b in ((s0, "b0"), (s1, "b1")):
                        if s < t <= s + F:
                            want, busy = frame(byts if isinstance(o, Sym) else d, b, div, t - s - 1), True
                    line.append(eq(o[t, "tx_o"], want, 1))
                    rdy.append(eq(o[t, "tx_ack"], int(not busy), 1))
                return {f"tx-line:gap{gap}": AND(*line), f"tx-idle:gap{gap}": AND(*rdy)}
            decide_uart(P, u, "tx", K, cl, fx, byts)
        # receive: two frames, sender's bit time p, line free in the outer quarter of each data bit
        for p in sorted({div, div - div // 26, div + div // 26}):
            for gap in (0, p):
                for stop in (1, 0):
                    s0, s1 = 3, 3 + 10 * p + gap + (p if not stop else 0)
                    K = s1 + 10 * p + 2 * p
                    q = p // 4 - (1 if p < 12 else 0)
                    q = max(q, 0) if p == div else 0

                    # the first byte is taken at the latest when the next frame starts
                    ta = s1 if gap == 0 else s1 - 2

                    def fx(t, o, s0=s0, s1=s1, p=p, q=q, stop=stop, ta=ta):
                        f = dict(tx_rdy=0, tx_data=0, rx_i=1, rx_ack=0)
                        for s, b in ((s0, "b0"), (s1, "b1")):
                            if s <= t < s + 10 * p:
                                k, r = divmod(t - s, p)
                                f["rx_i"] = frame(byts, b, p, t - s, stop=stop if s == s0 else 1)
                                if 1 <= k <= 8 and not q <= r < p - q:
                                    del f["rx_i"]
                        if t == ta:
                            f["rx_ack"] = 1
                        return f

                    def cl(o, d, s0=s0, s1=s1, p=p, K=K, stop=stop, gap=gap, ta=ta):
                        bb = byts if isinstance(o, Sym) else d
                        out = {}
                        tag = f":p{p}:gap{gap}"
                        # the byte is there when the stop bit has ended, not before the stop bit began
                        e0, e1 = ta, s1 + 10 * p
                        out["rx-ready" + tag] = AND(eq(o[e0, "rx_rdy"], 1, 1), eq(o[e1, "rx_rdy"], 1, 1),
                                                    eq(o[s0 + 9 * p - 1, "rx_rdy"], 0, 1),
                                                    eq(o[ta + 1, "rx_rdy"], 0, 1))
                        out["rx-data" + tag] = AND(eq(o[e0, "rx_data"], bb["b0"], 8), eq(o[e1, "rx_data"],
                                                                                         bb["b1"], 8))
                        out["rx-err" + tag] = AND(eq(o[e0, "rx_err"], 1 - stop, 1), eq(o[e1, "rx_err"], 0, 1))
                        if stop:
                            out["rx-ovf" + tag] = AND(*[eq(o[t, "rx_ovf"], 0, 1) for t in range(s1, K)])
                        return out
                    if not stop and not (p == div and gap):
                        continue
                    decide_uart(P, u, f"rx p={p} gap={gap} stop={stop}", K, cl, fx, byts)
        # overrun: nothing read between two frames: the first byte stays, the overrun flag rises
        s0, s1 = 3, 3 + 11 * div
        K = s1 + 12 * div

        def fx(t, o, s0=s0, s1=s1, div=div):
            f = dict(tx_rdy=0, tx_data=0, rx_i=1, rx_ack=0)
            for s, b in ((s0, "b0"), (s1, "b1")):
                if s <= t < s + 10 * div:
                    f["rx_i"] = frame(byts, b, div, t - s)
            return f

        def cl(o, d, s0=s0, s1=s1, K=K, div=div):
            bb = byts if isinstance(o, Sym) else d
            return {"overrun": AND(*[AND(eq(o[t, "rx_data"], bb["b0"], 8), eq(o[t, "rx_rdy"], 1, 1))
                                     for t in range(s0 + 10 * div, K)], eq(o[K - 1, "rx_ovf"], 1, 1),
                                   eq(o[s1, "rx_ovf"], 0, 1))}
        decide_uart(P, u, "overrun", K, cl, fx, byts)
    loopback(P, A, quick)
    P.finish(f"divisors {divs}; two frames from power-on, every pair of bytes, listed gaps, sender within about 4 % of "
             f"the bit time, line free in the outer quarter of each data bit; WBSerial (divisor 1250) looped back",
             ["start edges are clean and arrive on a clock edge", "a break (missing stop bit) is followed by idle"])


def decide_uart(P, u, name, K, cl, fx, byts):
    free = {}

    def fixed(t, o):
        return fx(t, o)
    P.decide_b = byts
    decide_bytes(P, u, name, K, cl, fixed, byts, free)


def decide_bytes(P, u, name, K, cl, fixed, byts, free):
    """Prover.decide with the two bytes as the universally quantified values."""
    o, st = P.trace(u, K, "reset", fixed)
    for key, g in cl(o, byts).items():
        P.obl += 1
        full = f"{u.name}:{key}"
        if g is True:
            if len(P.samples) < 12:
                P.samples.append(dict(claim=full, holds=True, folded=True))
            continue
        try:
            ok, m = (solve([z3.Not(g)], P.S, want_model=True) if g is not False else
                     solve([], P.S, want_model=True))
        except SolverUnknown as e:
            P.run.problems.append(f"{full}: solver gave no answer {e}")
            continue
        P.samples.append(dict(claim=full, holds=not ok))
        if not ok:
            continue
        inputs = [{k: prod.mval(m, v) for k, v in i.items()} for i in o.i]
        dd = {k: prod.mval(m, v) for k, v in byts.items() if v is not None}
        con, left = simulate(u, None, inputs)
        P.sims += 1
        if cl(con, dd)[key] is False:
            P.viol.setdefault(full, dict(bytes=dd, name=name, lines=dict(
                rx="".join(str(i.get("rx_i", i.get("rx", 0))) for i in inputs),
                tx="".join(str(r.get("tx_o", r.get("tx", 0))) for r in con.r))))
        else:
            P.run.problems.append(f"{full}: counterexample not reproduced")


def loopback(P, A, quick):
    """WBSerial with rx wired to tx: a byte written comes back, with both interrupts, through the bus only."""
    from amaranth.hdl import Module
    from amaranth.hdl import Elaboratable

    x = A.WBSerial()
    div = x.serial.divisor

    class Loop(Elaboratable):
        def elaborate(self, platform):
            m = Module()
            m.submodules.serial = x
            m.d.comb += x.rx.eq(x.tx)
            return m
    b = x.bus
    u = Unit("WBSerial-loopback", Loop(), ins={"bus_" + k: getattr(b, k) for k in
                                               ("cyc", "stb", "we", "adr", "sel", "dat_w")},
             outs=dict(bus_dat_r=b.dat_r, bus_ack=b.ack, irq=x.irq, tx=x.tx))
    byts = {"b0": z3.BitVec("b0", 8), "b1": z3.BitVec("b1", 8)}
    L = 10 * div + div
    # (cycle, we, adr): interrupt register read, write byte, wait, interrupt register, data
    plan = {}
    t = 2
    for k in ("b0", "b1"):
        for op in (("rdirq", 0, 1), ("wr", 1, 0)):
            plan[t] = plan[t + 1] = op + (k,)
            t += 4
        t += L
        for op in (("irq", 0, 1), ("data", 0, 0)):
            plan[t] = plan[t + 1] = op + (k,)
            t += 4
    K = t + 2

    def fixed(t, o):
        if t not in plan:
            return dict(bus_cyc=0, bus_stb=0)
        op, we, adr, k = plan[t]
        f = dict(bus_cyc=1, bus_stb=1, bus_we=we, bus_adr=adr, bus_sel=1)
        if we:
            f["bus_dat_w"] = byts[k]
        return f

    def cl(o, d):
        bb = byts if isinstance(o, Sym) else d
        ok = []
        for t, (op, we, adr, k) in plan.items():
            if t - 1 not in plan:
                continue
            ok.append(eq(o[t, "bus_ack"], 1, 1))
            if op == "irq":
                ok.append(eq(o[t, "bus_dat_r"], 3, 8))
                ok.append(eq(o[t - 1, "irq"], 1, 1))
                ok.append(eq(o[t, "irq"], 0, 1))
            if op == "data":
                ok.append(eq(o[t, "bus_dat_r"], bb[k], 8))
        return {"loopback": AND(*ok)}
    decide_bytes(P, u, "loopback", K, cl, fixed, byts, {})
