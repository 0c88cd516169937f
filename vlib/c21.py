"""C21: the CSR ports of the RVFI wrapper against the CSRs the core really holds.

Same exploration as C18.  At the retiring acknowledge each CSR port must show the value the
CSR had when the instruction started, and, for a CSR the instruction writes (or a trap or
MRET changes), the implemented bits of its new value.
"""
import z3

import bv as B
import c18
import oblig
import props
import spec
from spec import BV

MASK = dict(mie=0x800, mstatus=0x88, mtvec=0xFFFFFFFC, mepc=0xFFFFFFFC)
HELD = ("mscratch", "mcause", "mtvec", "mepc", "mie", "mstatus")
ZERO = ("mvendorid", "marchid", "mimpid", "mhartid", "mconfigptr", "misa", "mstatush", "mtval", "mcycle", "minstret",
        "mhpmcounter3", "mcountinhibit", "mhpmevent3")


def own(t, F, o):
    """CSRs this instruction writes although the value may stay the same -> condition."""
    names = {"mstatus" if k in ("mie", "mpie") else "mie" if k == "meie" else k for k in o.csr}
    always = t.cls != "csr" or (t.kw["f3"] & 3) == 1
    return {k: z3.BoolVal(True) if always else F["a"] != 0 for k in names}


def claims(t, F, insn, s, P):
    g = {}
    ni = oblig.noint(s)
    pre = dict(s.A.csrs, mstatus=s.A.mstatus, mie=s.A.mier)
    post = dict(s.Z.csrs, mstatus=s.Z.mstatus, mie=s.Z.mier)
    rd = s.trans[0].dat_r if s.trans else BV(0, 32)
    o = spec.outcome(t, F, s.A, rd)
    w = own(t, F, o)
    for c in HELD:
        m = MASK.get(c, 0xFFFFFFFF)
        r, n = getattr(P, f"csr__{c}__rdata"), getattr(P, f"csr__{c}__wdata")
        g[c + "_rdata"] = (ni, r == pre[c])
        cond = post[c] != pre[c]
        if c in w:
            cond = z3.Or(cond, z3.And(z3.Not(o.trap), w[c]))
        g[c + "_wdata"] = (z3.And(ni, cond), ((n ^ post[c]) & m) == 0)
        g[c + "_irq"] = (oblig.taken(s), z3.And(r == pre[c], z3.Or(post[c] == pre[c], ((n ^ post[c]) & m) == 0)))
    g["mip_rdata"] = (z3.BoolVal(True), getattr(P, "csr__mip__rdata") & 0xFFFFF7FF == 0)
    for c in ZERO:
        g["zero_rdata_" + c] = (z3.BoolVal(True), getattr(P, f"csr__{c}__rdata") == 0)
    if t.cls == "csrro":
        # write data of a read-only-zero CSR: what the instruction tries to write over zero
        f3 = t.kw["f3"]
        src = spec.zx(F["a"]) if f3 >= 5 else s.A.reg(F["a"])
        val = BV(0, 32) if f3 & 3 == 3 else src
        act = z3.And(ni, z3.Not(o.trap), z3.BoolVal(True) if f3 & 3 == 1 else F["a"] != 0)
        for a, c in ADDR.items():
            n, wm = getattr(P, f"csr__{c}__wdata"), getattr(P, f"csr__{c}__wmask")
            if n.size() == 64:
                k = 32 if a in HIGH else 0
                n, wm, om = z3.Extract(k + 31, k, n), z3.Extract(k + 31, k, wm), z3.Extract(63 - k, 32 - k, wm)
                ok = z3.And(wm == 0xFFFFFFFF, n == val, om == 0)
            else:
                ok = z3.And(wm == 0xFFFFFFFF, n == val)
            g[f"zero_wdata_{a:x}"] = (z3.And(act, F["c"] == a), ok)
    return g


ADDR = {0xF11: "mvendorid", 0xF12: "marchid", 0xF13: "mimpid", 0xF14: "mhartid", 0xF15: "mconfigptr", 0x301: "misa",
        0x310: "mstatush", 0x343: "mtval", 0xB00: "mcycle", 0xB02: "minstret", 0xB03: "mhpmcounter3", 0xB80: "mcycle",
        0xB82: "minstret", 0xB83: "mhpmcounter3", 0x320: "mcountinhibit", 0x323: "mhpmevent3"}
HIGH = (0xB80, 0xB82, 0xB83)

W = {f"csr__{c}__rdata": 64 if c in ("mcycle", "minstret", "mhpmcounter3") else 32 for c in ZERO + HELD + ("mip",)}
W.update({f"csr__{c}__wdata": 32 for c in HELD + ("mip",)})
W.update({f"csr__{c}__{k}": 64 if c in ("mcycle", "minstret", "mhpmcounter3") else 32
          for c in ZERO for k in ("wdata", "wmask")})
W["valid"] = 1
c18.ALLW.update(W)


def extra(ctx, t, F, insn, p, s):
    if not s.complete:
        return []
    cyc = p.cycles[-1]["cyc"]
    P = c18.Port(lambda k: cyc.out("rvfi__" + k))
    out = []
    for name, (a, c) in claims(t, F, insn, s, P).items():
        e = z3.simplify(z3.And(a, z3.Not(c)))
        if not z3.is_false(e):
            out.append((name, [e]))
    return out


def hook(recs, trace):
    import replay
    for r in recs:
        if not r.complete or any(not z3.is_true(z3.simplify(c)) for c in oblig.invariant(r.A)):
            continue
        t = replay.template_of(r.word)
        s = oblig.Step()
        s.A, s.Z, s.complete = r.A, r.Z, True
        s.fetch = z3.BitVecVal(r.fetch, 30)
        s.irqs = [z3.BitVecVal(x, 1) for x in r.irqs]
        s.trans = [oblig.Tx(*[z3.BitVecVal(v, w) for v, w in zip(x, (1, 30, 4, 32, 32))]) for x in r.trans]
        F = t.fields_of(r.word) if t.cls != "illegal" else {"w": z3.BitVecVal(r.word, 32)}
        k = r.at + r.cycles - 1
        P = c18.Port(lambda n: trace[k]["probe"][n])
        names = [n for n, (a, c) in claims(t, F, BV(r.word, 32), s, P).items() if replay._fails(a, c)]
        if names:
            return [dict(cycle=k, word=f"{r.word:#010x}", template=t.name, groups=names, target=r.target)]
    return []


def probe(top):
    sig = {}
    for k in W:
        o = top.rvfi
        for a in k.split("__"):
            o = getattr(o, a)
        sig[k] = o
    return sig


def track(ctx):
    """The registers behind the reported values: kept through wait states path by path."""
    for k in W:
        for x in ctx.cpu.n.outputs["rvfi__" + k]:
            if not x.is_const and not x.is_late and x.cell in ctx.cpu.n.width:
                ctx.ex.track.add(x.cell)


PROP = props.Prop("C21", lambda t: True, set(), extra=extra, hook=hook)
PROP.make, PROP.cpu, PROP.probe, PROP.prepare = c18.make, c18.cpu, probe, track


def check(run):
    import check as main
    main.step_property(run, PROP)
