"""Proof obligations: one instruction step against the specification.

The same code builds the symbolic obligations (solver) and evaluates concrete steps
observed in the simulator (replay), so a reported violation is judged by exactly the
assertion the solver refuted.
"""
import z3

import bv as B
import spec
from spec import BV

CSR_SLOT = {"mtvec": 0x25, "mscratch": 0x28, "mepc": 0x29, "mcause": 0x2A}


class View:
    """Architectural state as the spec sees it."""
    __slots__ = ("rf", "pc", "mie", "mpie", "meie", "csrs", "mstatus", "mier")

    @staticmethod
    def of(cpu, cyc):
        v = View()
        v.rf = cyc.state(cpu.rf).arr
        v.pc = z3.Concat(B.bv(cyc.sig(cpu.sig_pc), 30), BV(0, 2))
        v._rest(B.bv(cyc.sig(cpu.sig_mstatus), 32), B.bv(cyc.sig(cpu.sig_mie), 32))
        return v

    def _rest(self, ms, me):
        self.mstatus, self.mier = ms, me
        self.mie = z3.Extract(3, 3, ms)
        self.mpie = z3.Extract(7, 7, ms)
        self.meie = z3.Extract(11, 11, me)
        self.csrs = {k: z3.Select(self.rf, BV(i, 6)) for k, i in CSR_SLOT.items()}

    @staticmethod
    def concrete(rf, pc, ms, me):
        v = View()
        a = z3.K(z3.BitVecSort(6), BV(0, 32))
        for i, x in enumerate(rf):
            if x:
                a = z3.Store(a, BV(i, 6), BV(x, 32))
        v.rf = a
        v.pc = BV((pc << 2) & 0xffffffff, 32)
        v._rest(BV(ms, 32), BV(me, 32))
        return v

    def reg(self, i5):
        return z3.Select(self.rf, z3.ZeroExt(1, i5))


class Step:
    """One instruction execution: before/after views, data transactions, irq samples."""
    __slots__ = ("A", "Z", "trans", "irqs", "fetch", "complete")


class Tx:
    __slots__ = ("we", "adr", "sel", "dat_w", "dat_r")

    def __init__(self, we, adr, sel, dat_w, dat_r):
        self.we, self.adr, self.sel, self.dat_w, self.dat_r = we, adr, sel, dat_w, dat_r


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    return z3.And(*a) if a else z3.BoolVal(True)


def invariant(A):
    """Holds between instructions (proved inductive by every check)."""
    return [z3.Select(A.rf, BV(0, 6)) == 0,
            z3.Extract(1, 0, A.csrs["mtvec"]) == 0,
            z3.Extract(1, 0, A.csrs["mepc"]) == 0]


def en_int(s):
    return And(s.A.mie == 1, s.A.meie == 1)


def noint(s):
    """No interrupt may be taken: disabled, or the line is low throughout."""
    return z3.Or(z3.Not(en_int(s)), And(*[i == 0 for i in s.irqs]))


def taken(s):
    """An interrupt must be taken: enabled, and the line is high from the dispatch cycle on."""
    return And(en_int(s), *[i == 1 for i in s.irqs[1:]])


def gpr_same(s, r):
    return s.Z.reg(r) == s.A.reg(r)


def csr_same(s, skip=()):
    out = []
    for k in spec.CSR_WORDS:
        if k not in skip:
            out.append(s.Z.csrs[k] == s.A.csrs[k])
    for k in spec.CSR_BITS:
        if k not in skip:
            out.append(getattr(s.Z, k) == getattr(s.A, k))
    out.append((s.Z.mstatus & 0xFFFFFF77) == 0x1800)
    out.append((s.Z.mier & 0xFFFFF7FF) == 0)
    return And(*out)


def lanes(a, b, sel):
    """a and b agree on the selected byte lanes."""
    return And(*[z3.Or(z3.Extract(k, k, sel) == 0,
                       z3.Extract(8 * k + 7, 8 * k, a) == z3.Extract(8 * k + 7, 8 * k, b))
                 for k in range(4)])


def mem_ok(o, s):
    """The data transactions of a non-trapping instruction."""
    if o.mem is None:
        return z3.BoolVal(not s.trans)
    if len(s.trans) != 1:
        return z3.BoolVal(False)
    x, m = s.trans[0], o.mem
    sel = spec.sel_of(m["addr"], m["size"])
    cs = [x.we == m["we"], x.adr == z3.Extract(31, 2, m["addr"]), x.sel == sel]
    if m["we"]:
        lo = z3.Extract(1, 0, m["addr"])
        cs.append(lanes(x.dat_w, m["data"] << (z3.ZeroExt(30, lo) << 3), sel))
    return And(*cs)


def fetched(s, addr):
    """The fetch that ended this step was made at ``addr``."""
    return s.fetch == z3.Extract(31, 2, addr)


def int_entry(s, cause_ok=None):
    """Full effect of interrupt entry, except general registers (see gpr_same)."""
    return And(s.Z.csrs["mepc"] == s.A.pc, s.Z.csrs["mcause"] == spec.INT_CAUSE,
               s.Z.pc == s.A.csrs["mtvec"], fetched(s, s.A.csrs["mtvec"]),
               s.Z.mpie == s.A.mie, s.Z.mie == 0,
               s.Z.meie == s.A.meie, s.Z.csrs["mtvec"] == s.A.csrs["mtvec"],
               s.Z.csrs["mscratch"] == s.A.csrs["mscratch"],
               (s.Z.mstatus & 0xFFFFFF77) == 0x1800, z3.BoolVal(not s.trans))


def groups(t, F, s, r1, r2, want):
    """name -> (assumption Bool, claim Bool); the obligation is assumption => claim."""
    rdata = s.trans[0].dat_r if s.trans else BV(0, 32)
    o = spec.outcome(t, F, s.A, rdata)
    nt = z3.Not(o.trap)
    g = {}
    ni = noint(s)
    if not s.complete:
        g["complete"] = (ni, z3.BoolVal(False))
        g["hang"] = (z3.BoolVal(True), z3.BoolVal(False))
        return {k: v for k, v in g.items() if k in want}
    T = z3.BoolVal(True)

    def put(name, assume, claim):
        if name in want:
            g[name] = (assume, claim)

    put("pc", And(ni, nt), And(s.Z.pc == o.npc, fetched(s, o.npc)))
    if o.rd is not None:
        if o.rd_mip:
            v = s.Z.reg(o.rd)
            ok = z3.And(v & 0xFFFFF7FF == 0, z3.Or(*[z3.Extract(11, 11, v) == i for i in s.irqs]))
        else:
            ok = s.Z.reg(o.rd) == o.rdval if o.rdval is not None else T
        put("rd", And(ni, nt, o.rd != 0), ok)
        put("gpr", And(ni, z3.Or(o.trap, r1 != o.rd)), gpr_same(s, r1))
        put("gpr_any", r1 != o.rd, gpr_same(s, r1))
    else:
        put("gpr", ni, gpr_same(s, r1))
        put("gpr_any", T, gpr_same(s, r1))
    put("x0", T, s.Z.reg(BV(0, 5)) == 0)
    put("inv", T, And(*invariant(s.Z)))
    put("trapcore", And(ni, o.trap), And(s.Z.csrs["mcause"] == o.cause, s.Z.csrs["mepc"] == s.A.pc,
                                         s.Z.pc == s.A.csrs["mtvec"],
                                         fetched(s, s.A.csrs["mtvec"])))
    put("traprest", And(ni, o.trap),
        And(s.Z.mpie == s.A.mie, s.Z.mie == 0, s.Z.meie == s.A.meie,
            s.Z.csrs["mtvec"] == s.A.csrs["mtvec"], s.Z.csrs["mscratch"] == s.A.csrs["mscratch"],
            (s.Z.mstatus & 0xFFFFFF77) == 0x1800, (s.Z.mier & 0xFFFFF7FF) == 0))
    put("gprtrap", And(ni, o.trap), gpr_same(s, r1))
    put("trapmem", And(ni, o.trap), z3.BoolVal(not s.trans))
    put("mem", And(ni, nt), mem_ok(o, s))
    own = []
    for k, v in o.csr.items():
        own.append((getattr(s.Z, k) if k in spec.CSR_BITS else s.Z.csrs[k]) == v)
    put("csr_own", And(ni, nt), And(*own))
    put("csr_other", And(ni, nt), csr_same(s, skip=tuple(o.csr)))
    if t.cls not in ("illegal", "csrbad", "csrro") and not t.name.endswith(".mcause"):
        put("legal", And(ni, s.A.csrs["mcause"] != 2), s.Z.csrs["mcause"] != 2)
    # interrupts
    en = en_int(s)
    # from the dispatch cycle (the one after the fetch acknowledge) to the instruction's end
    allhi = And(*[i == 1 for i in s.irqs[1:]])
    alllo = And(*[i == 0 for i in s.irqs[1:]])
    if "int_taken" in want:
        put("int_taken", And(en, allhi), And(int_entry(s), gpr_same(s, r1)))
    if not t.name.endswith(".mcause"):
        put("int_none", And(z3.Or(z3.Not(en), alllo), s.A.csrs["mcause"] != spec.INT_CAUSE),
            s.Z.csrs["mcause"] != spec.INT_CAUSE)
    if "int_precise" in want:
        normal = [z3.Implies(nt, And(s.Z.pc == o.npc, mem_ok(o, s), And(*own),
                                     csr_same(s, skip=tuple(o.csr)))),
                  z3.Implies(o.trap, And(s.Z.csrs["mepc"] == s.A.pc, s.Z.pc == s.A.csrs["mtvec"],
                                         s.Z.csrs["mcause"] == o.cause,
                                         s.Z.mpie == s.A.mie, s.Z.mie == 0, z3.BoolVal(not s.trans)))]
        if o.rd is not None:
            normal.append(z3.Implies(z3.Or(o.trap, r2 != o.rd), gpr_same(s, r2)))
            if not o.rd_mip and o.rdval is not None:
                normal.append(z3.Implies(And(nt, o.rd != 0), s.Z.reg(o.rd) == o.rdval))
        else:
            normal.append(gpr_same(s, r2))
        normal = And(*normal)
        put("int_precise", en, z3.Or(And(int_entry(s), gpr_same(s, r1), z3.Not(alllo)), normal))
        g["_normal"] = (ni, normal)
    return g
