"""C17: FormalTop against Top, cycle by cycle, by inductive state correspondence.

Register correspondence is guessed from a concrete run (cells with equal histories) and
then proved: assuming every guessed pair equal in an otherwise arbitrary state, the solver
must show every pair equal after one more cycle; pairs that fail are dropped and the proof
repeated until it closes.  The claims (bus outputs, registers, PC, CSRs) are then decided
under the proved correspondence only.
"""
import random

import z3

import bv as B
import cosim
import prod
from explore import Stats, check as solve, SolverUnknown
from nir import Netlist, Cycle, ConMem, SymMem, as_sig, ram_data

BUS = ("cyc", "stb", "we", "adr", "sel", "dat_w")


class Bench:
    """Both CPUs side by side with the same inputs."""

    def __init__(self):
        from amaranth.hdl import Module, ClockDomain, Fragment, Signal
        from amaranth.hdl import _ir
        from sentinel.top import Top
        from sentinel.formal import FormalTop
        self.a, self.b = Top(), FormalTop()
        a, b = self.a, self.b
        m = Module()
        m.domains.sync = self.cd = ClockDomain()
        m.submodules.plain = a
        m.submodules.wrapped = b
        self.dat_r, self.ack, self.irq = Signal(32), Signal(), Signal()
        for x in (a, b):
            m.d.comb += [x.bus.dat_r.eq(self.dat_r), x.bus.ack.eq(self.ack), x.irq.eq(self.irq)]
        self.frag = Fragment.get(m, None)
        I, O = _ir.PortDirection.Input, _ir.PortDirection.Output
        ports = {"clk": (self.cd.clk, I), "rst": (self.cd.rst, I), "irq": (self.irq, I),
                 "dat_r": (self.dat_r, I), "ack": (self.ack, I)}
        self.claims = {}
        for k in BUS:
            self.claims["bus." + k] = (as_sig(getattr(a.bus, k)), as_sig(getattr(b.bus, k)))
        c = b.cpu
        self.claims["pc"] = (as_sig(a.datapath.pc.dat_r), as_sig(c.datapath.pc.dat_r))
        for k in ("mstatus_r", "mie_r", "mip_r"):
            self.claims[k] = (as_sig(getattr(a.datapath.csr, k)), as_sig(getattr(c.datapath.csr, k)))
        for k, (x, y) in self.claims.items():
            ports["plain__" + k] = (x, O)
            ports["wrapped__" + k] = (y, O)
        # the wrapper's own outputs keep its logic in the netlist
        for path, member, value in b.rvfi.signature.flatten(b.rvfi):
            ports["rvfi__" + "__".join(map(str, path))] = (as_sig(value), O)
        self.n = Netlist(self.copy(), ports=ports)
        mems = ram_data(self.frag)
        if len(mems) != 2 or mems[0].depth != mems[1].depth:
            raise LookupError("register file memories not found")
        self.mem_a, self.mem_b = mems

    def copy(self):
        from amaranth.hdl._xfrm import FragmentTransformer
        return FragmentTransformer()(self.frag)

    def side(self, i):
        """0 plain, 1 wrapped (module path below the bench)."""
        path = self.n.nl.modules[self.n.cells[i].module_idx].name
        return 0 if len(path) > 1 and path[1] == "plain" else 1

    def simulate(self, words, rng, irqp=.08, waits=.6, cycles=700, rf0=None, rst=()):
        """Both in the simulator; -> first divergence or None."""
        from amaranth.sim import Simulator
        sim = Simulator(self.copy())
        sim.add_clock(1e-6)
        out = []

        async def tb(ctx):
            for i, v in (rf0 or {}).items():
                ctx.set(self.mem_a[i], v)
                ctx.set(self.mem_b[i], v)
            age = pos = 0
            for k in range(cycles):
                req = ctx.get(self.a.bus.cyc) and ctx.get(self.a.bus.stb)
                ack = int(bool(req) and age > 0 and rng.random() < waits)
                ctx.set(self.ack, ack)
                ctx.set(self.irq, int(rng.random() < irqp))
                ctx.set(self.cd.rst, int(k in rst))
                ctx.set(self.dat_r, words[pos % len(words)] if rng.random() < .9 else rng.getrandbits(32))
                pos += ack
                bad = {n: (ctx.get(x), ctx.get(y)) for n, (x, y) in self.claims.items()
                       if ctx.get(x) != ctx.get(y)}
                if k % 4 == 0:
                    for i in range(self.mem_a.depth):
                        if ctx.get(self.mem_a[i]) != ctx.get(self.mem_b[i]):
                            bad[f"regfile[{i}]"] = (ctx.get(self.mem_a[i]), ctx.get(self.mem_b[i]))
                if bad:
                    out.append(dict(cycle=k, differs=bad, words=[f"{w:#010x}" for w in words[:12]]))
                    return
                age = age + 1 if (req and not ack) else 0
                await ctx.tick()
        sim.add_testbench(tb)
        sim.run()
        return out[0] if out else None


def concrete_trace(b, seed, cycles):
    """Histories of every state cell under random instructions; also checked by the simulator elsewhere."""
    n = b.n
    rng = random.Random(seed)
    ini = [rng.getrandbits(32) for _ in range(64)]
    ini[0] = 0
    ini[0x25] &= ~3
    ini[0x29] &= ~3
    st = n.init_state({m: ConMem([ini[i % 64] for i in range(n.mems[m].depth)]) for m in n.rams})
    hist = {i: [] for i in n.state_ids}
    ram_eq = {}
    age = 0
    for k in range(cycles):
        for i in n.state_ids:
            hist[i].append(st[i])
        for x in n.rams:
            for y in n.rams:
                if x < y and st[x].d != st[y].d:
                    ram_eq[(x, y)] = False
        inp = {"dat_r": cosim.random_word(rng), "irq": int(rng.random() < .1), "ack": 0,
               "rst": int(rng.random() < .01), "clk": 0}
        c = Cycle(n, inp, base=st)
        req = c.out("plain__bus.cyc") & c.out("plain__bus.stb")
        if req and age and rng.random() < .7:
            inp = dict(inp, ack=1)
            c = Cycle(n, inp, base=st)
        age = age + 1 if req and not inp["ack"] else 0
        st = {i: c.next(i) for i in n.state_ids + n.rams}
    return hist, ram_eq



def check(run):
    quick = run.tier == "quick"
    b = Bench()
    n = b.n
    S = Stats()
    hist, ram_ne = concrete_trace(b, run.seed, 500 if quick else 3000)
    # guessed classes: plain cell -> wrapped cells with the same history, width, init
    guess = {}
    for i in n.state_ids:
        if b.side(i) == 0:
            rom_i = n.cells[i].memory if i in n.rport else None
            for j in n.state_ids:
                if b.side(j) == 1 and n.width[j] == n.width[i] and hist[i] == hist[j] \
                        and (i in n.rport) == (j in n.rport):
                    guess.setdefault(i, []).append(j)
    rams_a = [m for m in n.rams if b.side(m) == 0]
    rams_b = [m for m in n.rams if b.side(m) == 1]
    rams = {}
    for x in rams_a:
        for y in rams_b:
            k = (min(x, y), max(x, y))
            if k not in ram_ne and n.mems[x].depth == n.mems[y].depth and n.mems[x].width == n.mems[y].width:
                rams[x] = y
    rounds = obl = 0
    dropped = []
    fresh = prod.Fresh()

    def build():
        st = prod.arbitrary(n, fresh, "s")
        root = {}

        def find(x):
            while root.get(x, x) != x:
                x = root[x]
            return x
        for i, js in guess.items():
            for j in js:
                root[find(j)] = find(i)
        for i in n.state_ids:
            st[i] = st[find(i)]
        for x, y in rams.items():
            st[y] = st[x]
        inp = {"dat_r": fresh("dat_r", 32), "ack": fresh("ack", 1), "irq": fresh("irq", 1),
               "rst": fresh("rst", 1), "clk": 0}
        return st, inp, Cycle(n, inp, base=st)

    def prove(name, claim):
        """claim: bool or z3 Bool; -> None if it holds, else model"""
        nonlocal obl
        obl += 1
        if claim is True:
            return None
        conds = [] if claim is False else [z3.Not(claim)]
        ok, m = solve(conds, S, want_model=True)
        return m if ok else None

    def rom_claim(c, i, j):
        ci, cj = n.cells[i], n.cells[j]
        if list(n.mems[ci.memory].init) != list(n.mems[cj.memory].init):
            return False
        return B.bool_and(B.eq(c.value(ci.addr), c.value(cj.addr), len(ci.addr)),
                          B.eq(c.net(ci.en), c.net(cj.en), 1))

    def same_mem(p, q):
        return True if p.same(q) else p.arr == q.arr

    while True:
        rounds += 1
        st, inp, c = build()
        bad = []
        for i, js in list(guess.items()):
            for j in js:
                if i in n.rport and n.cells[i].memory in n.roms:
                    cl = rom_claim(c, i, j) if n.cells[j].memory in n.roms else False
                else:
                    if n.cells[j].__class__ is not n.cells[i].__class__:
                        cl = False
                    else:
                        cl = B.eq(c.next(i), c.next(j), n.width[i])
                try:
                    m = prove("cell", cl)
                except SolverUnknown as e:
                    run.problems.append(f"{n.names[i]}: solver gave no answer {e}")
                    m = None
                    bad.append((i, j))
                    continue
                if m is not None:
                    bad.append((i, j))
        badram = []
        for x, y in rams.items():
            if prove("ram", same_mem(c.next(x), c.next(y))) is not None:
                badram.append(x)
        if not bad and not badram:
            break
        for i, j in bad:
            dropped.append((n.names[i], n.names[j]))
            guess[i].remove(j)
            if not guess[i]:
                del guess[i]
        for x in badram:
            dropped.append((n.names[x], n.names[rams[x]]))
            del rams[x]
        if rounds > 200:
            run.problems.append("correspondence did not close")
            break
    # base case: power-on values equal
    for i, js in guess.items():
        for j in js:
            obl += 1
            ii = n.cells[i].init if i in n.ff else 0
            jj = n.cells[j].init if j in n.ff else 0
            if ii != jj:
                run.problems.append(f"power-on values differ: {n.names[i]}")
    for x, y in rams.items():
        obl += 1
        if list(n.mems[x].init) != list(n.mems[y].init):
            run.problems.append("power-on register file contents differ")
    cexs, samples = [], []
    for k, (sa, sb) in b.claims.items():
        w = max(len(sa), len(sb))
        x, y = c.out("plain__" + k), c.out("wrapped__" + k)
        if len(sa) != len(sb):
            cexs.append(dict(claim=k, what="widths differ"))
            continue
        m = prove(k, B.eq(x, y, w))
        samples.append(dict(claim=k, equal=m is None))
        if m is not None:
            cexs.append(dict(claim=k, plain=prod.mval(m, x), wrapped=prod.mval(m, y),
                             inputs={s: prod.mval(m, v) for s, v in inp.items()},
                             words=[prod.mval(m, st[i]) for i in n.ff if n.width[i] == 32]))
    for x in rams_a:
        if x not in rams:
            cexs.append(dict(claim="register file", what="contents do not stay equal", words=[]))
    if not rams_a or not rams_b:
        run.problems.append("no register file found in one of the two designs")
    run.cov.update(states=1, transitions=rounds, obligations=obl, traces_validated_against_impl=0,
                   corresponding_cells=sum(map(len, guess.values())), plain_cells=len(
                       [i for i in n.state_ids if b.side(i) == 0]),
                   wrapper_only_cells=len([i for i in n.state_ids if b.side(i) == 1]) - sum(map(len, guess.values())),
                   dropped=dropped[:10], solver_queries=S.queries, solver_unsat=S.unsat, solver_sat=S.sat,
                   solver_seconds=round(S.solver_time, 3), samples=samples[:6],
                   functions_encoded=dict(product="sentinel.top.Top and sentinel.formal.FormalTop in one netlist, "
                                                  "same inputs", cells=len(n.cells), flip_flops=len(n.ff)),
                   bounds="no bound on length: induction over cycles from power-on, every input sequence "
                          "including reset; wrapper-only state arbitrary")
    run.assumptions += ["power-on values as in the netlist; both CPUs see the same inputs",
                        "z3 and Amaranth's netlist builder are trusted"]
    # vacuity: a deliberately wrong claim must fail (bus.adr against its complement)
    if prove("vacuity", B.eq(c.out("plain__bus.adr"), B.bnot(c.out("wrapped__bus.adr"), 30), 30)) is None:
        run.problems.append("vacuous: the product accepts a wrong claim")
    # simulator: both CPUs side by side
    rng = random.Random(run.seed * 7 + 1)
    div = None
    tr = 0
    tapes = []
    for x in cexs:
        ws = [w for w in x.get("words", []) if w & 3 == 3] + [x.get("inputs", {}).get("dat_r", 0x13)]
        for k in range(6):
            tapes.append([rng.choice(ws) if rng.random() < .4 else cosim.random_word(rng) for _ in range(60)])
    for k in range(4 if quick else 30):
        tapes.append([cosim.random_word(rng) for _ in range(100)])
    if cexs:
        tapes += [[cosim.random_word(rng) for _ in range(100)] for _ in range(40)]
    for t in tapes:
        rf0 = {i: rng.choice([rng.getrandbits(32), rng.getrandbits(4) * 4, 0]) for i in range(1, 32)}
        div = b.simulate(t, rng, rf0=rf0, irqp=rng.choice([0, .02, .2]), waits=rng.choice([.3, .7, 1]),
                         rst={rng.randrange(700)} if rng.random() < .3 else ())
        tr += 1
        if div:
            break
    run.cov["traces_validated_against_impl"] = tr
    if div and not cexs:
        run.problems.append(f"simulator shows a divergence the solver did not find: {div}")
    elif div:
        run.violation("wrapper-changes-cpu", dict(counterexamples=cexs[:5], reproduced=div))
    elif cexs:
        run.problems.append(f"correspondence fails for {[x['claim'] for x in cexs]} (dropped {dropped[:4]}) "
                            "but no divergence was reproduced")
