"""Which obligations decide which property."""
import z3

import bv as B
import oblig
import spec

TRAPPING = ("load", "store", "branch", "jump", "env", "illegal", "csrbad", "csrro")


class Prop:
    def __init__(self, pid, select, want, extra=None, hook=None, desc=""):
        self.pid, self.select = pid, select
        self.want = want if callable(want) else (lambda t: set(want) if select(t) else set())
        self.extra, self.hook, self.desc = extra, hook, desc
        self.make = self.cpu = self.probe = self.prepare = None    # a design other than Top


# ---- C13: bus protocol --------------------------------------------------------------
BUSW = {"adr": 30, "sel": 4, "dat_w": 32}


def o(cyc, name):
    return B.bv(cyc.out("bus__" + name), BUSW.get(name, 1))


def ne(a, b):
    if a.eq(b):
        return None
    e = z3.simplify(a != b)
    return None if z3.is_false(e) else e


def protocol(ctx, t, F, insn, p, s):
    out = []

    def bad(name, *conds):
        if all(c is not None for c in conds):
            out.append((name, list(conds)))
    ex = ctx.ex
    seq = list(p.cycles)
    first = seq[0]["cyc"]
    bad("idle-after-ack", ne(z3.Concat(o(first, "cyc"), o(first, "stb")), z3.BitVecVal(0, 2)))
    age = 0
    prev = None
    for k, c in enumerate(seq):
        cyc = c["cyc"]
        bad("stb-without-cyc", ne(o(cyc, "cyc"), o(cyc, "stb")))
        if c["req"] and age >= 1:
            for sig in ("adr", "sel", "we"):
                bad(f"{sig}-stable", ne(o(cyc, sig), o(prev, sig)))
            d = ne(o(cyc, "dat_w"), o(prev, "dat_w"))
            bad("dat_w-stable", d, o(prev, "we") == 1 if d is not None else None)
        if not c["req"] and age >= 1:
            bad("request-dropped", z3.BoolVal(True))
        if c["ack"]:
            nxt = seq[k + 1]["cyc"] if k + 1 < len(seq) else \
                ex.child_cycle(p.last[0], p.last[1], ex.inputs())
            bad("idle-after-ack", ne(z3.Concat(o(nxt, "cyc"), o(nxt, "stb")), z3.BitVecVal(0, 2)))
        prev = cyc
        age = age + 1 if (c["req"] and not c["ack"]) else 0
    for k in p.trans:
        cyc = seq[k]["cyc"]
        if t.cls != "store":
            bad("write-without-store", ne(o(cyc, "we"), z3.BitVecVal(0, 1)))
    if s.complete:
        cyc = seq[-1]["cyc"]
        bad("fetch-sel", ne(o(cyc, "sel"), z3.BitVecVal(15, 4)))
        bad("fetch-we", ne(o(cyc, "we"), z3.BitVecVal(0, 1)))
        bad("fetch-adr", ne(o(cyc, "adr"), B.bv(cyc.sig(ctx.cpu.sig_pc), 30)))
    # a request that rises with write-enable must belong to a store even if it is never acknowledged
    if t.cls != "store":
        for c in seq:
            if c["req"] and not c["ack"]:
                bad("write-without-store", ne(o(c["cyc"], "we"), z3.BitVecVal(0, 1)))
    seen, uniq = set(), []
    for name, cs in out:
        key = (name, tuple(x.get_id() for x in cs))
        if key not in seen:
            seen.add(key)
            uniq.append((name, cs))
    # one query per kind
    by = {}
    for name, cs in uniq:
        by.setdefault(name, []).append(z3.And(*cs))
    return [(name, [z3.Or(*v)]) for name, v in by.items()]


def protocol_hook(recs, trace):
    import replay
    bad = []
    prev = None
    words = {}
    for r in recs:
        words[r.at] = r.word
    cur = None
    for k, b in enumerate(trace):
        if k in words:
            cur = words[k]
        names = []
        req = b["cyc"] and b["stb"]
        if b["cyc"] != b["stb"]:
            names.append("stb-without-cyc")
        if prev is not None:
            preq = prev["cyc"] and prev["stb"]
            if prev["ack"] and (b["cyc"] or b["stb"]):
                names.append("idle-after-ack")
            if preq and not prev["ack"]:
                if not req:
                    names.append("request-dropped")
                else:
                    for sname in ("adr", "sel", "we"):
                        if prev[sname] != b[sname]:
                            names.append(sname + "-stable")
                    if prev["we"] and prev["dat_w"] != b["dat_w"]:
                        names.append("dat_w-stable")
        if req and b["we"] and (cur is None or replay.template_of(cur).cls != "store"):
            names.append("write-without-store")
        if b["fetch"]:
            if b["sel"] != 15:
                names.append("fetch-sel")
            if b["we"]:
                names.append("fetch-we")
            if b["adr"] != b["pc"]:
                names.append("fetch-adr")
        if names:
            bad.append(dict(cycle=k, groups=names, word=f"{cur:#010x}" if cur is not None else None))
            break
        prev = b
    return bad


# ---- C16: cycle counts ---------------------------------------------------------------
def count(cycles):
    n = age = 0
    for c in cycles:
        wait = c["req"] and not c["ack"] and age >= 1
        age = age + 1 if (c["req"] and not c["ack"]) else 0
        n += not wait
    return n


def expected_count(t, F, s):
    """Documented count (doc/development/internals.md) as an 8-bit term; traps are detection + 5."""
    V = lambda k: z3.BitVecVal(k, 8)
    oc = spec.outcome(t, F, s.A, z3.BitVecVal(0, 32))
    c = t.cls
    if c == "alu":
        return V(6 if t.name == "auipc" else 4)
    if c == "nop":
        return V(4)
    if c == "shift":
        n = z3.ZeroExt(3, F["s"]) if "s" in F else z3.ZeroExt(3, z3.Extract(4, 0, s.A.reg(F["b"])))
        return z3.If(n == 0, V(9 if "s" in F else 10), V(7) + 2 * n)
    if c == "branch":
        take = oc.npc != s.A.pc + 4
        # a branch to pc+4 that is taken is still a taken branch
        rs1, rs2 = s.A.reg(F["a"]), s.A.reg(F["b"])
        take = {"beq": rs1 == rs2, "bne": rs1 != rs2, "blt": rs1 < rs2, "bge": rs1 >= rs2,
                "bltu": z3.ULT(rs1, rs2), "bgeu": z3.UGE(rs1, rs2)}[t.name]
        return z3.If(oc.trap, V(11), z3.If(take, V(8), V(7)))
    if c == "jump":
        return z3.If(oc.trap, V(10), V(7))
    if c == "load":
        return z3.If(oc.trap, V(10), V(9))
    if c == "store":
        return V(10)
    if c in ("env", "illegal", "mret"):
        return V(7)
    if c == "csrbad":
        return V(8)
    if c == "csrro":
        return z3.If(oc.trap, V(8), V(6))
    if c == "csr":
        k = t.kw["f3"] & 3
        if k == 1:
            return z3.If(F["d"] == 0, V(6), V(7))
        return z3.If(F["a"] == 0, V(7), V(9 if k == 2 else 10))
    raise KeyError(c)


def cycles_extra(ctx, t, F, insn, p, s):
    if not s.complete:
        return []
    n = count(p.cycles)
    return [("count", [oblig.noint(s), expected_count(t, F, s) != n])]


def cycles_hook(recs, trace):
    import replay
    bad = []
    for i, r in enumerate(recs):
        if not r.complete:
            continue
        t = replay.template_of(r.word)
        s = oblig.Step()
        s.A = r.A
        s.irqs = [z3.BitVecVal(x, 1) for x in r.irqs]
        F = t.fields_of(r.word) if t.cls != "illegal" else {"w": z3.BitVecVal(r.word, 32)}
        if any(not z3.is_true(z3.simplify(c)) for c in oblig.invariant(r.A)):
            continue
        e = z3.simplify(z3.And(oblig.noint(s), expected_count(t, F, s) != r.cycles - r.waits))
        if z3.is_true(e):
            bad.append(dict(step=i, word=f"{r.word:#010x}", template=t.name, groups=["count"],
                            cycles=r.cycles - r.waits))
            break
    return bad


# ---- C15: control points ----------------------------------------------------------------
def used_addresses(ctx):
    """Addresses the assembler emitted, and the ones labelled halt/panic."""
    rom = getattr(getattr(ctx.cpu.core, "control", None), "ucoderom", None)
    meta = getattr(rom, "m5meta", None)
    if meta is None or len(ctx.cpu.rom_ports) != 1:
        return None, set()
    space = next(iter(meta.spaces.values()))
    used = {int(a) for a in space.data}
    stop = {int(a) for n, a in meta.symtab.items() if n.lower() in ("halt", "panic")}
    return used, stop


def control_extra(ctx, t, F, insn, p, s):
    c = getattr(ctx, "_used", None)
    if c is None:
        c = ctx._used = used_addresses(ctx)
    used, stop = c
    if used is None:
        return []
    pts = {x["ctl"][0] for x in p.cycles}
    out = []
    if pts - used:
        out.append(("unused-address", [z3.BoolVal(True)]))
    if pts & stop:
        out.append(("halt-or-panic", [z3.BoolVal(True)]))
    return out


def control_hook_for(ctx):
    used, stop = used_addresses(ctx)

    def hook(recs, trace):
        if used is None:
            return []
        for k, b in enumerate(trace):
            if b["pos"] >= 0:
                a = b["addr"][0]
                if a not in used:
                    return [dict(cycle=k, groups=["unused-address"], address=a)]
                if a in stop:
                    return [dict(cycle=k, groups=["halt-or-panic"], address=a)]
        return []
    return hook


def want09(t):
    """Decoding: what traps, with which cause, and that nothing else is called illegal."""
    if t.cls in ("illegal", "env"):
        return {"complete", "trapcore"}
    if t.cls == "nop":
        return {"complete", "pc", "gpr", "csr_other", "mem", "legal"}
    return {"legal"}


def want10(t):
    if t.cls not in TRAPPING:
        return set()
    g = {"trapcore", "traprest", "gprtrap", "trapmem"}
    return g | {"complete"} if t.cls in ("env", "illegal", "csrbad") else g


PROPS = {p.pid: p for p in [
    Prop("C01", lambda t: t.cls == "alu", {"complete", "pc", "rd"}),
    Prop("C02", lambda t: t.cls == "shift", {"complete", "pc", "rd", "gpr"}),
    Prop("C03", lambda t: t.cls in ("branch", "jump"), {"complete", "pc", "rd", "gpr", "trapcore"}),
    Prop("C04", lambda t: t.cls == "load", {"complete", "pc", "rd", "mem", "trapcore", "trapmem", "gprtrap"}),
    Prop("C05", lambda t: t.cls == "store", {"complete", "pc", "gpr", "mem", "trapcore", "trapmem"}),
    Prop("C06", lambda t: True, {"x0", "gpr", "gpr_any", "csr_other"}),
    Prop("C07", lambda t: t.cls in ("csr", "csrro"), {"complete", "pc", "rd", "csr_own"}),
    Prop("C08", lambda t: t.cls in ("csr", "csrro", "csrbad"),
         {"complete", "pc", "trapcore", "gprtrap", "traprest", "legal"}),
    Prop("C09", lambda t: True, want09),
    Prop("C10", lambda t: t.cls in TRAPPING, want10),
    Prop("C11", lambda t: True, {"int_taken", "int_none", "int_precise"}),
    Prop("C12", lambda t: t.cls == "mret", {"complete", "pc", "gpr", "csr_own", "csr_other"}),
    Prop("C13", lambda t: True, set(), extra=protocol, hook=protocol_hook),
    Prop("C15", lambda t: True, {"hang"}, extra=control_extra, hook="control"),
    Prop("C16", lambda t: True, set(), extra=cycles_extra, hook=cycles_hook),
]}
