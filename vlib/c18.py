"""C18: the RVFI port of FormalTop against what the core did, instruction by instruction.

The instruction-level exploration of ``core`` runs over the whole netlist of FormalTop (the
CPU inside it plus the wrapper), from an arbitrary state between instructions.  At the
acknowledge of the following fetch the port must report exactly this instruction; in every
other cycle it must stay silent.  The claims compare the port with the architectural effect
of the same path (registers, PC, bus transfers), and with the specification's verdict on traps.
"""
import z3

import bv as B
import oblig
import props
import spec
from spec import BV

W = dict(valid=1, order=64, insn=32, trap=1, halt=1, intr=1, mode=2, ixl=2, rs1_addr=5, rs2_addr=5, rs1_rdata=32,
         rs2_rdata=32, rd_addr=5, rd_wdata=32, pc_rdata=32, pc_wdata=32, mem_addr=32, mem_rmask=4, mem_wmask=4,
         mem_rdata=32, mem_wdata=32)
CSRS = ("mscratch", "mcause", "mip", "mie", "mstatus", "mtvec", "mepc")
CSRW = {f"csr__{c}__{k}": 32 for c in CSRS for k in ("rdata", "wdata")}
ALLW = dict(W, **CSRW)


class Port:
    """The port's values in one cycle (terms)."""

    def __init__(self, get):
        self._get = get

    def __getattr__(self, k):
        v = BV(self._get(k), ALLW[k]) if B.is_c(self._get(k)) else self._get(k)
        setattr(self, k, v)
        return v


def reads(t):
    """Which of rs1/rs2 the class reads."""
    c = t.cls
    if c in ("alu", "shift", "branch", "store"):
        r = {"a"} & set(t.pattern), {"b"} & set(t.pattern)
    elif c in ("load", "jump", "csr", "csrro", "csrbad"):
        r = {"a"} & set(t.pattern), set()
    else:
        r = set(), set()
    imm = c in ("csr", "csrro", "csrbad") and (t.kw.get("f3") or 0) & 4
    return bool(r[0]) and not imm, bool(r[1])


def claims(t, F, insn, s, P, P0, rw):
    """name -> (assume, claim).  P: port at the retiring acknowledge; P0: in the cycle after commit."""
    T = z3.BoolVal(True)
    ni = oblig.noint(s)
    g = {}
    if not s.complete:
        return g
    rdata = s.trans[0].dat_r if s.trans else BV(0, 32)
    o = spec.outcome(t, F, s.A, rdata)
    nt = z3.Not(o.trap)
    g["valid"] = (T, P.valid == 1)
    g["insn"] = (T, P.insn == insn)
    g["order"] = (T, P.order == P0.order)
    g["intr"] = (T, P.intr == P0.intr)
    g["const"] = (T, z3.And(P.halt == 0, P.mode == 3, P.ixl == 1))
    g["trap"] = (ni, (P.trap == 1) == o.trap)
    g["pc_rdata"] = (T, P.pc_rdata == s.A.pc)
    g["pc_wdata"] = (T, P.pc_wdata == s.Z.pc)
    u1, u2 = reads(t)
    rs1, rs2 = z3.Extract(19, 15, insn), z3.Extract(24, 20, insn)
    g["rs1"] = (T, z3.And(P.rs1_rdata == s.A.reg(P.rs1_addr), P.rs1_addr == rs1 if u1 else T))
    g["rs2"] = (T, z3.And(P.rs2_rdata == s.A.reg(P.rs2_addr), P.rs2_addr == rs2 if u2 else T))
    g["rd_addr"] = (z3.And(ni, nt), P.rd_addr == (o.rd if o.rd is not None else BV(0, 5)))
    g["rd_addr_trap"] = (z3.And(ni, o.trap), P.rd_addr == 0)
    g["rd_wdata"] = (z3.And(ni, nt), P.rd_wdata == z3.If(P.rd_addr == 0, BV(0, 32), s.Z.reg(P.rd_addr)))
    g["rd_wdata_trap"] = (z3.And(ni, o.trap), P.rd_wdata == 0)
    if len(s.trans) == 1:
        x = s.trans[0]
        z4 = BV(0, 4)
        g["mem"] = (ni, z3.And(P.mem_addr == z3.Concat(x.adr, BV(0, 2)),
                               P.mem_rmask == z3.If(x.we == 1, z4, x.sel),
                               P.mem_wmask == z3.If(x.we == 1, x.sel, z4),
                               z3.Or(x.we == 1, P.mem_rdata == x.dat_r),
                               z3.Or(x.we == 0, P.mem_wdata == x.dat_w)))
    elif not s.trans:
        g["mem"] = (ni, z3.And(P.mem_rmask == 0, P.mem_wmask == 0))
    # an interrupt that is surely taken: reported as a trapping retirement without effects
    tk = oblig.taken(s)
    g["irq"] = (tk, z3.And(P.trap == 1, P.rd_addr == 0, P.rd_wdata == 0, P.mem_rmask == 0, P.mem_wmask == 0))
    return g


def extra(ctx, t, F, insn, p, s):
    out = []
    seq = p.cycles
    rw = None

    def port(cyc):
        return Port(lambda k: cyc.out("rvfi__" + k))
    silent = []
    for k, c in enumerate(seq):
        if s.complete and k == len(seq) - 1:
            break
        v = c["cyc"].out("rvfi__valid")
        if B.is_c(v):
            if v:
                silent.append(z3.BoolVal(True))
        else:
            silent.append(v == 1)
    if silent:
        out.append(("silent", [z3.Or(*silent)]))
    if not s.complete:
        return out
    P, P0 = port(seq[-1]["cyc"]), port(seq[0]["cyc"])
    nx = port(ctx.ex.child_cycle(p.last[0], p.last[1], ctx.ex.inputs()))
    g = claims(t, F, B.bv(insn, 32), s, P, P0, rw)
    g["order_next"] = (z3.BoolVal(True), nx.order == P.order + 1)
    rd = s.trans[0].dat_r if s.trans else BV(0, 32)
    g["intr_next"] = (oblig.noint(s), (nx.intr == 1) == spec.outcome(t, F, s.A, rd).trap)
    g["intr_next_irq"] = (oblig.taken(s), nx.intr == 1)
    for name, (a, c) in g.items():
        e = z3.simplify(z3.And(a, z3.Not(c)))
        if not z3.is_false(e):
            out.append((name, [e]))
    return out


def probe(top):
    sig = {k: getattr(top.rvfi, k) for k in W}
    for k in CSRW:
        _, c, f = k.split("__")
        sig[k] = getattr(getattr(top.rvfi.csr, c), f)
    return sig


def hook(recs, trace):
    """Concrete judgement of a simulator run."""
    import replay
    bad = []
    starts = [r.at for r in recs]
    ends = {}
    for i, r in enumerate(recs):
        if r.complete:
            ends[r.at + r.cycles - 1] = i
    for k, b in enumerate(trace):
        if k >= (starts[0] if starts else 0) and b["probe"]["valid"] and k not in ends and \
                not (recs and not recs[-1].complete and k >= recs[-1].at and b["fetch"]):
            return [dict(cycle=k, groups=["silent"])]
    for k, i in sorted(ends.items()):
        r = recs[i]
        t = replay.template_of(r.word)
        if any(not z3.is_true(z3.simplify(c)) for c in oblig.invariant(r.A)):
            continue
        s = oblig.Step()
        s.A, s.Z, s.complete = r.A, r.Z, True
        s.fetch = z3.BitVecVal(r.fetch, 30)
        s.irqs = [z3.BitVecVal(x, 1) for x in r.irqs]
        s.trans = [oblig.Tx(*[z3.BitVecVal(v, w) for v, w in zip(x, (1, 30, 4, 32, 32))]) for x in r.trans]
        F = t.fields_of(r.word) if t.cls != "illegal" else {"w": z3.BitVecVal(r.word, 32)}
        P = Port(lambda n: trace[k]["probe"][n])
        P0 = Port(lambda n: trace[r.at]["probe"][n])
        g = claims(t, F, BV(r.word, 32), s, P, P0, None)
        if k + 1 < len(trace):
            nx = Port(lambda n: trace[k + 1]["probe"][n])
            g["order_next"] = (z3.BoolVal(True), nx.order == P.order + 1)
            rd = s.trans[0].dat_r if s.trans else BV(0, 32)
            g["intr_next"] = (oblig.noint(s), (nx.intr == 1) == spec.outcome(t, F, s.A, rd).trap)
            g["intr_next_irq"] = (oblig.taken(s), nx.intr == 1)
        names = [n for n, (a, c) in g.items() if replay._fails(a, c)]
        if names:
            bad.append(dict(step=i, cycle=k, word=f"{r.word:#010x}", template=t.name, groups=names, target=r.target))
            break
    return bad


def make():
    from sentinel.formal import FormalTop
    return FormalTop()


def cpu():
    from explore import Cpu
    top = make()
    return Cpu(top=top, core=top.cpu)


PROP = props.Prop("C18", lambda t: True, set(), extra=extra, hook=hook)
PROP.make, PROP.cpu, PROP.probe = make, cpu, probe


def check(run):
    import check as main
    main.step_property(run, PROP)
