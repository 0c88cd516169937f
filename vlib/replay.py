"""Replay of solver counterexamples on the real CPU, from reset, in Amaranth's simulator.

The program is fed as a *tape*: every instruction fetch receives the next word.  A
counterexample is a state between two instructions plus one (or more) instruction
words with their bus/IRQ schedule; the tape first drives the CPU from reset into that
state with ordinary instructions (several variants: what trapped before, which
instruction ran just before, which register was written last), then runs the
counterexample's instruction with exactly its schedule.  Every instruction of the run
is then judged by the obligations of ``oblig`` with concrete values.
"""
import itertools
import random
import time

import z3

import load  # noqa: F401
import oblig
import spec

MEM_TYPES = ("MemoryData",)


def walk(root, pred, depth=6):
    """Attribute path to the first object satisfying ``pred`` reachable through sentinel objects."""
    todo, seen = [(root, ())], set()
    while todo:
        o, path = todo.pop(0)
        if id(o) in seen:
            continue
        seen.add(id(o))
        for k, v in sorted(getattr(o, "__dict__", {}).items(), key=lambda kv: kv[0]):
            if pred(v):
                return path + (k,)
            if len(path) < depth and type(v).__module__.split(".")[0] == "sentinel":
                todo.append((v, path + (k,)))
    return None


def follow(o, path):
    for k in path:
        o = getattr(o, k)
    return o


class Item:
    """One tape word. ``irq``: list from the fetch-acknowledge cycle on, or a constant."""
    hold = 1        # every acknowledge is delayed until the request is this many cycles old

    def __init__(self, word, irq=0, ack=None, dat=(), target=False, bus=()):
        self.bus = bus      # read data presented in each cycle (matters to nobody while ACK is low)
        self.word, self.irq, self.ack, self.dat, self.target = word & 0xffffffff, irq, ack, list(dat), target


class Rec:
    """One executed instruction as observed."""
    __slots__ = ("word", "A", "Z", "irqs", "trans", "complete", "cycles", "waits", "target", "at", "fetch")


class Sim:
    def __init__(self, ctx, make=None, probe=None):
        from amaranth.hdl import Module, ClockDomain, Signal, Fragment
        from amaranth.sim import Simulator
        from nir import ram_data
        from sentinel.top import Top
        cpu = ctx.cpu
        n = cpu.n
        self.ctx = ctx
        self.top = (make or Top)()
        self.core = getattr(self.top, "cpu", self.top)
        self.probe = probe(self.top) if probe else None
        self.dut = self.top
        addr_paths = []
        for port in cpu.rom_ports:
            val = n.cells[port].addr
            cands = {id(s) for s, v in n.signals.items() if v == val}
            p = walk(cpu.top, lambda v: id(v) in cands)
            if p is None:
                raise LookupError("no signal holds the microcode address")
            addr_paths.append(p)
        self.rom = [follow(self.top, p) for p in addr_paths]
        depth = n.mems[cpu.rf].depth
        self.depth = depth
        m = Module()
        self.rst = Signal()
        m.domains.sync = cd = ClockDomain()
        m.submodules.top = self.top
        m.d.comb += cd.rst.eq(self.rst)
        frag = Fragment.get(m, None)
        mems = ram_data(frag, depth)
        if len(mems) != 1:
            raise LookupError("no register file memory found")
        self.rf = mems[0]
        self.sim = Simulator(frag)
        self.sim.add_clock(1e-6)
        self.job = None
        self.sim.add_testbench(self._tb)
        self.first = True
        self.runs = 0
        self.cycles = 0

    wiggle = False      # try other input levels within every cycle (C25)

    def wiggle_inputs(self, ctx, b, g):
        """First (input levels, output, value) for which a bus output differs within this cycle."""
        bus, k = self.top.bus, b["dat_r"]
        try:
            for dat in (k, 0, 0xffffffff, k ^ 0xffffffff, k ^ 0x55555555, (k * 0x9E3779B1) & 0xffffffff):
                for ack in (0, 1):
                    for irq in (0, 1):
                        for s, v in ((bus.dat_r, dat), (bus.ack, ack), (self.top.irq, irq)):
                            ctx.set(s, v)
                        for n, s in g.items():
                            if ctx.get(s) != b[n]:
                                return dict(dat_r=dat, ack=ack, irq=irq, output=n, was=b[n], now=ctx.get(s))
        finally:
            for s, v in ((bus.dat_r, k), (bus.ack, b["ack"]), (self.top.irq, b["irq"])):
                ctx.set(s, v)

    async def _tb(self, ctx):
        if self.job is not None:
            await self.job(ctx)

    def go(self, job):
        self.job = job
        if not self.first:
            self.sim.reset()
        self.first = False
        self.runs += 1
        self.sim.run()

    def run_tape(self, items, rf0, limit=200, idle=0x13):
        """-> (list of Rec, per-cycle trace)"""
        recs, trace = [], []
        top, core = self.top, self.core
        boundary = self.ctx.ex.boundary
        g = {k: getattr(top.bus, k) for k in ("cyc", "stb", "we", "adr", "sel", "dat_w")}

        async def job(ctx):
            for i in range(self.depth):
                ctx.set(self.rf[i], rf0.get(i, 0))

            def snap():
                return oblig.View.concrete(
                    [ctx.get(self.rf[i]) for i in range(self.depth)],
                    ctx.get(core.datapath.pc.dat_r),
                    ctx.get(_v(core.datapath.csr.mstatus_r)), ctx.get(_v(core.datapath.csr.mie_r)))
            pos = -1            # item being executed
            cur = None
            k = 0               # cycles since the fetch acknowledge
            age = 0
            since = 0
            nacks = 0
            need_snap = False
            while True:
                if need_snap:
                    v = snap()
                    if recs and recs[-1].Z is None:
                        recs[-1].Z = v
                        recs[-1].complete = True
                        recs[-1].fetch = trace[-1]["adr"]
                    if pos >= len(items):
                        return
                    r = Rec()
                    r.word, r.A, r.Z, r.irqs, r.trans = cur.word, v, None, [irq], []
                    r.complete, r.cycles, r.waits, r.target, r.at = False, 0, 0, cur.target, len(trace)
                    recs.append(r)
                    need_snap = False
                req = ctx.get(g["cyc"]) and ctx.get(g["stb"])
                irq = 0
                if cur is not None:
                    irq = cur.irq if isinstance(cur.irq, int) else (cur.irq[k] if k < len(cur.irq) else 0)
                want = age >= 1
                if cur is not None and cur.ack is not None and 1 <= k <= len(cur.ack):
                    want = bool(cur.ack[k - 1])
                hold = bool(req and want and age >= 1 and cur is not None and age < cur.hold)
                ack = 1 if (req and want and age >= 1 and not hold) else 0
                ctx.set(top.irq, irq)
                ctx.set(top.bus.ack, ack)
                addr = tuple(ctx.get(s) for s in self.rom)
                fetch = ack and addr in boundary
                dat = (0x9E3779B9 * (len(trace) + 7)) & 0xffffffff
                if cur is not None and 1 <= k <= len(cur.bus) and not hold:
                    dat = cur.bus[k - 1]
                nxt = None
                if fetch:
                    nxt = items[pos + 1] if pos + 1 < len(items) else None
                    dat = nxt.word if nxt else idle
                    if nxt is not None:
                        ni = nxt.irq if isinstance(nxt.irq, int) else nxt.irq[0]
                        if ni != irq:
                            irq = ni
                            ctx.set(top.irq, irq)
                elif ack:
                    dat = cur.dat[nacks] if cur is not None and nacks < len(cur.dat) else 0
                    nacks += 1
                ctx.set(top.bus.dat_r, dat)
                b = {kk: ctx.get(s) for kk, s in g.items()}
                b.update(ack=ack, fetch=bool(fetch), irq=irq, dat_r=dat, addr=addr, age=age,
                         pc=ctx.get(core.datapath.pc.dat_r), pos=pos)
                if self.wiggle:
                    alt = self.wiggle_inputs(ctx, b, g)
                    if alt:
                        b["moved"] = alt
                if self.probe:
                    b["probe"] = {n: ctx.get(_v(x)) for n, x in self.probe.items()}
                trace.append(b)
                if recs and recs[-1].Z is None:
                    r = recs[-1]
                    r.irqs.append(irq)
                    r.cycles += 1
                    r.waits += bool(req and not ack and age >= 1)
                    if ack and not fetch:
                        r.trans.append((b["we"], b["adr"], b["sel"], b["dat_w"], dat))
                self.cycles += 1
                await ctx.tick()
                age = age + 1 if (req and not ack) else 0
                k += not hold
                since += not hold
                if fetch:
                    pos += 1
                    cur = nxt
                    k = 1
                    nacks = 0
                    need_snap = True
                    since = 0
                if since > limit + (len(cur.ack) if cur is not None and cur.ack else 0):
                    return
        self.go(job)
        return recs, trace


def _v(s):
    return s.as_value() if hasattr(s, "as_value") else s


# ---- judging -------------------------------------------------------------------------
_tcache = {}


def template_of(word):
    t = _tcache.get(word)
    if t is None:
        t = _tcache[word] = next(t for t in spec.TEMPLATES if t.matches(word))
    return t


def judge(rec, want):
    """Names of the obligation groups this concrete step violates."""
    t = template_of(rec.word)
    groups = want(t)
    if not groups:
        return []
    s = oblig.Step()
    s.A, s.Z = rec.A, rec.Z
    s.complete = rec.complete
    s.fetch = z3.BitVecVal(rec.fetch, 30) if rec.complete else None
    s.irqs = [z3.BitVecVal(i, 1) for i in rec.irqs]
    s.trans = [oblig.Tx(*[z3.BitVecVal(v, w) for v, w in zip(x, (1, 30, 4, 32, 32))]) for x in rec.trans]
    for c in oblig.invariant(s.A):
        if not z3.is_true(z3.simplify(c)):
            return []
    r1, r2 = z3.BitVec("r1", 5), z3.BitVec("r2", 5)
    F = t.fields_of(rec.word) if t.cls != "illegal" else {"w": z3.BitVecVal(rec.word, 32)}
    g = oblig.groups(t, F, s, r1, r2, set(groups))
    normal = g.pop("_normal", None)
    bad = []
    for name, (a, c) in g.items():
        if name == "int_precise" and normal is not None and _fails(*normal):
            continue
        if _fails(a, c):
            bad.append(name)
    return bad


def _fails(a, c):
    e = z3.simplify(z3.And(a, z3.Not(c)))
    if z3.is_false(e):
        return False
    if z3.is_true(e):
        return True
    s = z3.Solver()
    s.add(e)
    return s.check() == z3.sat


# ---- instruction words ------------------------------------------------------------------
def lui(r, v):
    return (v & 0xfffff000) | (r << 7) | 0x37


def addi(r, a, i):
    return ((i & 0xfff) << 20) | (a << 15) | (r << 7) | 0x13


def li(r, v):
    lo = v & 0xfff
    hi = (v + 0x800) & 0xfffff000
    return [lui(r, hi), addi(r, r, lo)]


def csrrw(d, c, s):
    return (c << 20) | (s << 15) | (1 << 12) | (d << 7) | 0x73


def csrrsi(d, c, i):
    return (c << 20) | (i << 15) | (6 << 12) | (d << 7) | 0x73


def jalr(d, a, i=0):
    return ((i & 0xfff) << 20) | (a << 15) | (d << 7) | 0x67


NOP, MRET, ECALL, EBREAK = 0x13, 0x30200073, 0x73, 0x00100073
CSR = spec.IMPL

HIST = {
    "none": [],
    "interrupt": None,      # built below
    "ecall": [ECALL, MRET],
    "illegal": [0xffffffff, MRET],
    "load-misaligned": [0x00102003, MRET],          # lw x0, 1(x0)
    "store-misaligned": [0x000020a3, MRET],         # sw x0, 1(x0)
    "jal-misaligned": [0x0020006f, MRET],           # jal x0, +2
}

PREDS = {
    "none": [],
    "nop": [Item(NOP)],
    "fence": [Item(0x0000000f)],
    "jal": [Item(0x0040006f)],
    "branch-taken": [Item(0x00000263)],             # beq x0,x0,+4
    "branch-untaken": [Item(0x00001463)],           # bne x0,x0,+8
    "shift": [Item(0x0ff01013 & ~(1 << 25) & 0x01f01013)],   # slli x0,x0,31
    "srai": [Item(0x40705013)],
    "load": [Item(0x00002003, dat=[0x8badf00d])],   # lw x0,0(x0)
    "lb": [Item(0x00300003, dat=[0xdeadbeef])],     # lb x0,3(x0)
    "store": [Item(0x00002023)],                    # sw x0,0(x0)
    "sb": [Item(0x000000a3)],                       # sb x0,1(x0)
    "csrr-mscratch": [Item(0x34002073)],
    "csrr-mip": [Item(0x34402073)],
    "csrr-ro": [Item(0xf1102073)],
    "csrr-rw0": [Item(0x30101073)],
    "lui": [Item(0xfffff037)],
    "sltu": [Item(0x00003033)],
    "sub": [Item(0x40000033)],
    "jalr": None,
}


TRAPS = ("irq", "ecall", "illegal", "load-misaligned", "store-misaligned", "jal-misaligned")


def random_items(key, n, free, traps):
    """A reproducible stretch of ordinary instructions (each goes on at PC + 4 unless ``traps``); only x0 and
    ``free`` are written."""
    rng = random.Random(key)
    out = []
    kinds = [("ld", 0, 1, 2, 4, 5), ("st", 0, 1, 2), ("op",), ("op",), ("opi",), ("opi",), ("br",), ("lui",), ("csr",),
             ("fence",), ("jal",), ("rep",)]
    if traps:
        kinds += [("trap",), ("csrw",), ("jalr",)]
    while len(out) < n:
        k = rng.choice(kinds)
        rd, ra, rb, f3 = rng.choice((0, free)), rng.randrange(32), rng.randrange(32), rng.randrange(8)
        if k[0] in ("ld", "st"):
            f3 = rng.choice(k[1:])
            off = rng.randrange(64) & ~((1 << (f3 & 3)) - 1)
            w = (off << 20 | f3 << 12 | rd << 7 | 3) if k[0] == "ld" else \
                (off >> 5 << 25 | rb << 20 | f3 << 12 | (off & 31) << 7 | 0x23)
        elif k[0] == "op":
            w = (rng.choice((0, 0x20)) if f3 in (0, 5) else 0) << 25 | rb << 20 | ra << 15 | f3 << 12 | rd << 7 | 0x33
        elif k[0] == "opi":
            imm = rng.randrange(32) | (0x400 if f3 == 5 and rng.random() < .5 else 0) if f3 in (1, 5) \
                else rng.randrange(4096)
            w = imm << 20 | ra << 15 | f3 << 12 | rd << 7 | 0x13
        elif k[0] == "br":
            w = rb << 20 | ra << 15 | rng.choice((0, 1, 4, 5, 6, 7)) << 12 | 4 << 7 | 0x63
        elif k[0] == "lui":
            w = rng.randrange(1 << 20) << 12 | rd << 7 | rng.choice((0x37, 0x17))
        elif k[0] == "csr":
            w = rng.choice((0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344, 0xF11, 0x301, 0xB00)) << 20 | \
                rng.choice((2, 3, 6, 7)) << 12 | rd << 7 | 0x73
        elif k[0] == "fence":
            w = rng.choice((0xf, 0x0ff0000f, 0x10500073))
        elif k[0] == "jal":
            w = 0x0040006f | rd << 7
        elif k[0] == "rep":
            for _ in range(min(rng.choice((1, 2, 4)), n - len(out) - 1)):
                if out:
                    out.append(out[-1])
            continue
        elif k[0] == "trap":
            w = rng.choice((ECALL, EBREAK, MRET, 0, 0x00102003, 0x000020a3, 0x0020006f))
        elif k[0] == "csrw":
            w = rng.choice((0x300, 0x304, 0x305, 0x340, 0x341, 0x342)) << 20 | rng.randrange(32) << 15 | \
                rng.choice((1, 2, 3, 5, 6, 7)) << 12 | rd << 7 | 0x73
        else:
            w = rng.randrange(4096) << 20 | ra << 15 | rd << 7 | 0x67
        out.append(Item(w, irq=int(traps and rng.random() < .2), dat=[rng.getrandbits(32)]))
    return out


def preds(name, free):
    if name == "jalr":
        return [Item(NOP)]
    k, _, r = name.partition(":")
    if k == "rep":
        base, n = r.split(":")
        return preds(base, free) * int(n)
    if k == "rnd":
        return random_items(r, int(r.split(":")[1]), free, False)
    return list(PREDS[name])


def history(name, tmp):
    if name.startswith("rnd:"):
        return random_items(name, int(name.split(":")[2]), tmp, True) + \
            [Item(w) for w in [csrrw(0, CSR["mie"], 0), csrrw(0, CSR["mstatus"], 0)]]
    if name == "interrupt":
        out = [Item(w) for w in li(tmp, 0x800) + [csrrw(0, CSR["mie"], tmp), 0x30045073]]  # csrwi mstatus,8
        out += [Item(NOP, irq=1), Item(MRET)]
        return out
    return [Item(w) for w in HIST[name]]


def tail(sc):
    """What follows the counterexample: its last cycle (the next fetch) keeps the counterexample's IRQ level."""
    return [Item(NOP, irq=[sc["recs"][-1]["irq"][-1]]), Item(NOP)]


def build(ctx, sc, hist="none", tmp=1, pred="none"):
    """Tape and initial register file that reach scenario ``sc`` and run it."""
    cpu = ctx.cpu
    rf0 = {i: v for i, v in enumerate(sc["regs"])}
    rf0[0] = 0
    slots = {"mtvec": cpu.MTVEC, "mscratch": cpu.MSCRATCH, "mepc": cpu.MEPC, "mcause": cpu.MCAUSE}
    for k, s in slots.items():
        if k != "mcause":
            rf0[s] = sc["csrs"][k]
    if sc.get("from_reset"):
        tape = []
        for r in sc["recs"]:
            tape.append(Item(r["insn"], irq=list(r["irq"]), ack=list(r["ack"]),
                             dat=[d for d, a in zip(r["dat_r"], r["ack"]) if a], target=True,
                         bus=list(r["dat_r"])))
        return tape + tail(sc), rf0
    tape = history(hist, tmp)
    disturbed = bool(tape)
    words = []
    used = {(r["insn"] >> k) & 31 for r in sc["recs"] for k in (7, 15, 20)} | {0, tmp}
    free = max(set(range(32)) - used)
    if disturbed and hist.startswith("rnd:"):
        words += li(tmp, sc["csrs"]["mtvec"]) + [csrrw(0, CSR["mtvec"], tmp)]
        words += li(tmp, sc["csrs"]["mscratch"]) + [csrrw(0, CSR["mscratch"], tmp)]

    def put(csr, v):
        words.extend(li(tmp, v) + [csrrw(0, CSR[csr], tmp)])
    if disturbed or sc["csrs"]["mcause"]:
        put("mcause", sc["csrs"]["mcause"])
    if disturbed:
        put("mepc", sc["csrs"]["mepc"])
    if disturbed or sc["meie"]:
        put("mie", sc["meie"] << 11)
    if disturbed or sc["mpie"]:
        put("mstatus", sc["mpie"] << 7)
    kind = pred[2:] if pred[:2] in ("t:", "m:") else None
    mie = sc["mie"]
    if kind:            # a trap (and its MRET, for m:) immediately before; it does not advance the PC
        plist = [Item(NOP, irq=1)] if kind == "irq" else [Item(HIST[kind][0])]
        if pred[0] == "m":
            plist.append(Item(MRET))
        else:
            mie = sc["mpie"]
            rf0[slots["mtvec"]] = sc["pc"]
        if kind == "irq":
            mie = 1
        adv = 0
    elif pred == "mret":
        plist, adv, mie = [Item(MRET)], 0, 0
        words += li(tmp, sc["mie"] << 7) + [csrrw(0, CSR["mstatus"], tmp)]
        rf0[slots["mepc"]] = sc["pc"]
    else:
        plist = preds(pred, free)
        adv = len(plist)
    if kind == "irq" and not sc["meie"]:
        words += li(tmp, 0x800) + [csrrw(0, CSR["mie"], tmp)]
    m = 2 + (1 if mie else 0) + adv
    words += li(tmp, sc["pc"] - 4 * m) + [jalr(0, tmp)]
    words += li(tmp, sc["regs"][tmp])
    if mie:
        words.append(csrrsi(0, CSR["mstatus"], 8))
    tape += [Item(w) for w in words] + list(plist)
    for r in sc["recs"]:
        tape.append(Item(r["insn"], irq=list(r["irq"]), ack=list(r["ack"]),
                         dat=[d for d, a in zip(r["dat_r"], r["ack"]) if a], target=True,
                         bus=list(r["dat_r"])))
    return tape + tail(sc), rf0


def variants(sc, shuffle=None):
    """(history, scratch register, predecessor, hold) to try: the plain ones first; with ``shuffle``, the rest in
    an order of its own, so that many counterexamples together try many variants soon."""
    vs = list(_variants(sc))
    if shuffle is not None and len(vs) > 12:
        head, rest = vs[:2], vs[2:]
        near = [v for v in rest if v[2][:2] in ("t:", "m:") or v[2] == "mret"]
        rest = [v for v in rest if v not in near]
        rng = random.Random(shuffle)
        rng.shuffle(near)
        cut = [v for v in rest if not ":" in v[2] + v[0] and (v[0] == "none" or v[2] == "none")]
        rest = [v for v in rest if v not in cut]
        mix = cut + rest[:80]
        rng.shuffle(mix)
        vs = head + near[:5] + mix + near[5:] + rest[80:]
    return vs


def _variants(sc):
    if sc.get("from_reset"):
        for hold in (1, 6, 40, 300):
            yield "reset", 1, "none", hold
        return
    w = sc["recs"][0]["insn"]
    tmps = []
    for r in ((w >> 15) & 31, (w >> 20) & 31, (w >> 7) & 31, 1, 31):
        if r and r not in tmps:
            tmps.append(r)
    base = [("none", t, "none") for t in tmps]
    base += [("none", tmps[0], p) for p in PREDS if p != "none"]
    base += [(h, tmps[-1], "none") for h in HIST if h != "none"]
    yield from [b + (1,) for b in base[:len(tmps)]]
    for hold in (6, 40, 300):
        yield ("none", tmps[0], "none", hold)
    for k in TRAPS:
        yield "none", tmps[-1], "t:" + k, 1
        yield "none", tmps[-1], "m:" + k, 1
    yield "none", tmps[-1], "mret", 1
    yield from [b + (1,) for b in base[len(tmps):]]
    # longer histories: one instruction repeated, and random stretches with and without traps
    for n in (3, 20):
        for p in PREDS:
            if p not in ("none", "jalr"):
                yield "none", tmps[0], f"rep:{p}:{n}", 1
    for k in range(6):
        yield "none", tmps[k % len(tmps)], f"rnd:{k}:{(6, 20, 60)[k % 3]}", 1
        yield f"rnd:{k}:{(6, 20, 60)[k % 3]}", tmps[-1], "none", 1
    for p in ("nop", "store", "load", "jal", "branch-taken", "csrr-mscratch"):
        yield "none", tmps[0], f"rep:{p}:300", 1
    for h, t, p in itertools.product(HIST, tmps, PREDS):
        if (h, t, p) not in base:
            yield h, t, p, 1


class Replayer:
    def __init__(self, ctx, want, hook=None, budget=120.0, make=None, probe=None):
        self.make, self.probe = make, probe
        self.ctx, self.want, self.hook = ctx, want, hook
        self.sim = None
        self.budget = budget
        self.spent = 0.0
        self.error = None

    def open(self):
        if self.sim is None:
            self.sim = Sim(self.ctx, self.make, self.probe)

    def try_one(self, sc, limit_s=40.0, shuffle=None):
        """-> dict describing the reproduced violation, or None."""
        t0 = time.process_time()
        try:
            self.open()
            for h, tmp, p, hold in variants(sc, shuffle):
                used = time.process_time() - t0
                if used > limit_s or self.spent + used > self.budget:
                    break
                tape, rf0 = build(self.ctx, sc, h, tmp, p)
                for i in tape:
                    i.hold = hold
                bad = self.judge_tape(tape, rf0)
                if bad:
                    return dict(history=h, tmp=tmp, pred=p, hold=hold, bad=bad,
                                tape=[f"{i.word:#010x}" for i in tape],
                                rf0={str(k): f"{v:#x}" for k, v in rf0.items() if v},
                                schedule=[dict(irq=i.irq, ack=i.ack, dat=i.dat) for i in tape])
            return None
        finally:
            self.spent += time.process_time() - t0

    def judge_tape(self, tape, rf0):
        recs, trace = self.sim.run_tape(tape, rf0)
        bad = []
        first = len(recs) - 40 if len(recs) > 100 else 0
        for i in sorted(range(first, len(recs)), key=lambda i: not recs[i].target):
            if recs[i].Z is None and i == len(recs) - 1 and recs[i].cycles < 100:
                continue
            v = judge(recs[i], self.want)
            if v:
                bad.append(dict(step=i, word=f"{recs[i].word:#010x}", template=template_of(recs[i].word).name,
                                groups=v, target=recs[i].target))
                break
        if self.hook:
            bad += self.hook(recs, trace)
        return bad
