"""What RV32I_Zicsr says one instruction must do (independent of the implementation).

``TEMPLATES`` partition the 2^32 instruction words (``partition_obligations`` is the
solver query for that).  ``outcome`` gives the architectural effect as z3 terms.
Sources: the RISC-V unprivileged/privileged ISA and the CSR list documented in
/repo/doc/development/internals.md.
"""
import z3

BV = z3.BitVecVal


def X(e, hi, lo):
    return z3.simplify(z3.Extract(hi, lo, e)) if not isinstance(e, int) else (e >> lo) & ((1 << (hi - lo + 1)) - 1)


def sx(e):
    return z3.SignExt(32 - e.size(), e)


def zx(e, w=32):
    return z3.ZeroExt(w - e.size(), e)


def b2v(c):
    return z3.If(c, BV(1, 32), BV(0, 32))


IMPL = {"mstatus": 0x300, "mie": 0x304, "mtvec": 0x305, "mscratch": 0x340,
        "mepc": 0x341, "mcause": 0x342, "mip": 0x344}
RO0_RO = [0xF11, 0xF12, 0xF13, 0xF14, 0xF15]
RO0_RW = ([0x301, 0x310, 0x320, 0x343, 0xB00, 0xB80, 0xB02, 0xB82]
          + list(range(0xB03, 0xB20)) + list(range(0xB83, 0xBA0)) + list(range(0x323, 0x340)))
CSROPS = {1: "csrrw", 2: "csrrs", 3: "csrrc", 5: "csrrwi", 6: "csrrsi", 7: "csrrci"}


def member(e, addrs):
    """e in addrs, as intervals."""
    out = []
    addrs = sorted(addrs)
    i = 0
    while i < len(addrs):
        j = i
        while j + 1 < len(addrs) and addrs[j + 1] == addrs[j] + 1:
            j += 1
        if i == j:
            out.append(e == addrs[i])
        else:
            out.append(z3.And(z3.UGE(e, addrs[i]), z3.ULE(e, addrs[j])))
        i = j + 1
    return z3.Or(*out)


class T:
    """A class of instruction words. pattern: MSB first; 0/1 fixed, letters are fields."""

    def __init__(self, name, pattern, cls, **kw):
        pattern = pattern.replace("_", "")
        assert len(pattern) == 32, (name, len(pattern))
        self.name, self.pattern, self.cls = name, pattern, cls
        self.kw = kw

    def match(self, w):
        """Bool: word w belongs to this class."""
        conj = []
        i = 0
        while i < 32:
            j = i
            if self.pattern[i] in "01":
                while j < 32 and self.pattern[j] in "01":
                    j += 1
                conj.append(z3.Extract(31 - i, 32 - j, w) == int(self.pattern[i:j], 2))
            else:
                while j < 32 and self.pattern[j] not in "01":
                    j += 1
            i = j
        if "csrset" in self.kw:
            conj.append(self._csrcond(z3.Extract(31, 20, w)))
        if self.cls == "illegal":
            return z3.And(*[z3.Not(t.match(w)) for t in TEMPLATES if t is not self])
        return z3.And(*conj) if conj else z3.BoolVal(True)

    def _csrcond(self, c):
        s = self.kw["csrset"]
        if s == "ro":
            return member(c, RO0_RO)
        if s == "rw0":
            return member(c, RO0_RW)
        if s == "bad":
            return z3.Not(member(c, list(IMPL.values()) + RO0_RO + RO0_RW))
        raise KeyError(s)

    def build(self):
        """-> (parts [(int or var, width)] MSB first, fields, constraints)"""
        fields, parts = {}, []
        i = 0
        while i < 32:
            j = i
            ch = self.pattern[i]
            if ch in "01":
                while j < 32 and self.pattern[j] in "01":
                    j += 1
                parts.append((int(self.pattern[i:j], 2), j - i))
            else:
                while j < 32 and self.pattern[j] == ch:
                    j += 1
                v = z3.BitVec("f_" + ch, j - i)
                assert ch not in fields
                fields[ch] = v
                parts.append((v, j - i))
            i = j
        cons = []
        if "csrset" in self.kw:
            cons.append(self._csrcond(fields["c"]))
        if self.cls == "illegal":
            cons.append(self.match(fields["w"]))
        return parts, fields, cons

    def fields_of(self, word):
        """Concrete field values (z3 numerals) of a concrete word."""
        f = {}
        for i, ch in enumerate(self.pattern):
            if ch in "01":
                continue
            f.setdefault(ch, []).append((word >> (31 - i)) & 1)
        return {k: BV(int("".join(map(str, v)), 2), len(v)) for k, v in f.items()}

    def matches(self, word):
        return z3.is_true(z3.simplify(self.match(BV(word, 32))))


def _mk():
    L = []

    def add(name, pat, cls, **kw):
        L.append(T(name, pat, cls, **kw))
    add("lui", "i" * 20 + "ddddd0110111", "alu")
    add("auipc", "i" * 20 + "ddddd0010111", "alu")
    add("jal", "i" * 20 + "ddddd1101111", "jump")
    add("jalr", "i" * 12 + "aaaaa000ddddd1100111", "jump")
    for n, f in (("beq", 0), ("bne", 1), ("blt", 4), ("bge", 5), ("bltu", 6), ("bgeu", 7)):
        add(n, "iiiiiiibbbbbaaaaa%sjjjjj1100011" % format(f, "03b"), "branch")
    for n, f in (("lb", 0), ("lh", 1), ("lw", 2), ("lbu", 4), ("lhu", 5)):
        add(n, "i" * 12 + "aaaaa%sddddd0000011" % format(f, "03b"), "load")
    for n, f in (("sb", 0), ("sh", 1), ("sw", 2)):
        add(n, "iiiiiiibbbbbaaaaa%sjjjjj0100011" % format(f, "03b"), "store")
    for n, f in (("addi", 0), ("slti", 2), ("sltiu", 3), ("xori", 4), ("ori", 6), ("andi", 7)):
        add(n, "i" * 12 + "aaaaa%sddddd0010011" % format(f, "03b"), "alu")
    for n, f, h in (("slli", 1, 0), ("srli", 5, 0), ("srai", 5, 0x20)):
        add(n, format(h, "07b") + "sssssaaaaa%sddddd0010011" % format(f, "03b"), "shift")
    for n, f, h in (("add", 0, 0), ("sub", 0, 0x20), ("slt", 2, 0), ("sltu", 3, 0), ("xor", 4, 0),
                    ("or", 6, 0), ("and", 7, 0)):
        add(n, format(h, "07b") + "bbbbbaaaaa%sddddd0110011" % format(f, "03b"), "alu")
    for n, f, h in (("sll", 1, 0), ("srl", 5, 0), ("sra", 5, 0x20)):
        add(n, format(h, "07b") + "bbbbbaaaaa%sddddd0110011" % format(f, "03b"), "shift")
    add("fence", "i" * 12 + "aaaaa000ddddd0001111", "nop")
    add("ecall", format(0x73, "032b"), "env")
    add("ebreak", format(0x00100073, "032b"), "env")
    add("mret", format(0x30200073, "032b"), "mret")
    add("wfi", format(0x10500073, "032b"), "nop")
    for f3, op in CSROPS.items():
        tail = "aaaaa%sddddd1110011" % format(f3, "03b")
        for n, a in IMPL.items():
            add(f"{op}.{n}", format(a, "012b") + tail, "csr", csr=n, f3=f3)
        add(f"{op}.ro", "c" * 12 + tail, "csrro", csrset="ro", f3=f3)
        add(f"{op}.rw0", "c" * 12 + tail, "csrro", csrset="rw0", f3=f3)
        add(f"{op}.bad", "c" * 12 + tail, "csrbad", csrset="bad", f3=f3)
    add("illegal", "w" * 32, "illegal")
    return L


TEMPLATES = _mk()
BY_NAME = {t.name: t for t in TEMPLATES}


def partition_obligations():
    """Conditions that must be unsatisfiable: overlap of two classes (cover is by construction of 'illegal')."""
    w = z3.BitVec("word", 32)
    obs = []
    ms = [(t.name, t.match(w)) for t in TEMPLATES if t.cls != "illegal"]
    # pairwise disjoint  <=>  no word matches two: sum of indicators > 1
    cnt = sum([z3.If(m, BV(1, 8), BV(0, 8)) for _, m in ms], BV(0, 8))
    obs.append(("two classes overlap", z3.UGT(cnt, BV(1, 8))))
    return obs


class Outcome:
    """trap/cause; npc; rd (5-bit or None), rdval; csr: name -> new value; mem: None or dict."""
    __slots__ = ("trap", "cause", "npc", "rd", "rdval", "csr", "mem", "rd_mip")


def arch_csr(A, name):
    """Architectural read value of an implemented CSR (mip excluded)."""
    if name == "mstatus":
        return z3.Concat(BV(0, 19), BV(3, 2), BV(0, 3), A.mpie, BV(0, 3), A.mie, BV(0, 3))
    if name == "mie":
        return z3.Concat(BV(0, 20), A.meie, BV(0, 11))
    return A.csrs[name]


def outcome(t, F, A, rdata):
    """A: pc (32 bit), reg(i5), csrs{mtvec,mscratch,mepc,mcause}, mie, mpie, meie (1 bit)."""
    o = Outcome()
    o.trap = z3.BoolVal(False)
    o.cause = BV(0, 32)
    o.npc = A.pc + 4
    o.rd = None
    o.rdval = None
    o.rd_mip = False
    o.csr = {}
    o.mem = None
    n, c = t.name, t.cls
    rs1 = A.reg(F["a"]) if "a" in F else None
    rs2 = A.reg(F["b"]) if "b" in F else None
    if "d" in F:
        o.rd = F["d"]
    if c == "alu":
        if n in ("lui", "auipc"):
            u = z3.Concat(F["i"], BV(0, 12))
            o.rdval = u if n == "lui" else A.pc + u
            return o
        y = rs2 if rs2 is not None else sx(F["i"])
        f = {"add": lambda: rs1 + y, "sub": lambda: rs1 - y, "slt": lambda: b2v(rs1 < y),
             "sltu": lambda: b2v(z3.ULT(rs1, y)), "xor": lambda: rs1 ^ y, "or": lambda: rs1 | y,
             "and": lambda: rs1 & y}
        key = n
        if rs2 is None:
            key = {"addi": "add", "slti": "slt", "sltiu": "sltu", "xori": "xor", "ori": "or", "andi": "and"}[n]
        o.rdval = f[key]()
        return o
    if c == "shift":
        sh = zx(F["s"]) if "s" in F else (rs2 & 31)
        o.rdval = {"sll": rs1 << sh, "srl": z3.LShR(rs1, sh), "sra": rs1 >> sh}[n.replace("i", "")]
        return o
    if c == "jump":
        if n == "jal":
            i = F["i"]      # imm[20|10:1|11|19:12]
            off = sx(z3.Concat(z3.Extract(19, 19, i), z3.Extract(7, 0, i), z3.Extract(8, 8, i),
                               z3.Extract(18, 9, i), BV(0, 1)))
            tgt = A.pc + off
        else:
            tgt = (rs1 + sx(F["i"])) & BV(0xFFFFFFFE, 32)
        o.trap = z3.Extract(1, 0, tgt) != 0
        o.npc = tgt
        o.rdval = A.pc + 4
        return o
    if c == "branch":
        i, j = F["i"], F["j"]
        off = sx(z3.Concat(z3.Extract(6, 6, i), z3.Extract(0, 0, j), z3.Extract(5, 0, i),
                           z3.Extract(4, 1, j), BV(0, 1)))
        take = {"beq": rs1 == rs2, "bne": rs1 != rs2, "blt": rs1 < rs2, "bge": rs1 >= rs2,
                "bltu": z3.ULT(rs1, rs2), "bgeu": z3.UGE(rs1, rs2)}[n]
        tgt = A.pc + off
        o.trap = z3.And(take, z3.Extract(1, 0, tgt) != 0)
        o.npc = z3.If(take, tgt, A.pc + 4)
        return o
    if c == "load":
        ea = rs1 + sx(F["i"])
        size = {"b": 1, "h": 2, "w": 4}[n[1]]
        lo = z3.Extract(1, 0, ea)
        o.trap = {1: z3.BoolVal(False), 2: z3.Extract(0, 0, ea) != 0, 4: lo != 0}[size]
        o.cause = BV(4, 32)
        sh = z3.LShR(rdata, zx(lo) << 3)
        v = z3.Extract(8 * size - 1, 0, sh)
        o.rdval = v if size == 4 else (zx(v) if n.endswith("u") else sx(v))
        o.mem = dict(we=0, addr=ea, size=size, data=None)
        return o
    if c == "store":
        ea = rs1 + sx(z3.Concat(F["i"], F["j"]))
        size = {"b": 1, "h": 2, "w": 4}[n[1]]
        lo = z3.Extract(1, 0, ea)
        o.trap = {1: z3.BoolVal(False), 2: z3.Extract(0, 0, ea) != 0, 4: lo != 0}[size]
        o.cause = BV(6, 32)
        o.mem = dict(we=1, addr=ea, size=size, data=rs2)
        return o
    if c == "nop":
        o.rd = None
        return o
    if c == "env":
        o.trap = z3.BoolVal(True)
        o.cause = BV(11 if n == "ecall" else 3, 32)
        return o
    if c == "mret":
        o.npc = A.csrs["mepc"]
        o.csr = {"mie": A.mpie, "mpie": BV(1, 1)}
        return o
    if c == "illegal":
        o.trap = z3.BoolVal(True)
        o.cause = BV(2, 32)
        return o
    # CSR instructions
    f3 = t.kw["f3"]
    src = zx(F["a"]) if f3 >= 5 else rs1
    writes = z3.BoolVal(True) if f3 in (1, 5) else F["a"] != 0
    if c == "csrbad":
        o.trap = z3.BoolVal(True)
        o.cause = BV(2, 32)
        return o
    if c == "csrro":
        o.cause = BV(2, 32)
        o.trap = writes if t.kw["csrset"] == "ro" else z3.BoolVal(False)
        o.rdval = BV(0, 32)
        return o
    name = t.kw["csr"]
    if name == "mip":
        o.rd_mip = True
        o.rdval = None
        return o
    old = arch_csr(A, name)
    o.rdval = old
    new = {1: src, 2: old | src, 3: old & ~src}[f3 & 3]
    new = z3.If(writes, new, old)
    if name == "mstatus":
        o.csr = {"mie": z3.Extract(3, 3, new), "mpie": z3.Extract(7, 7, new)}
    elif name == "mie":
        o.csr = {"meie": z3.Extract(11, 11, new)}
    elif name in ("mtvec", "mepc"):
        o.csr = {name: new & BV(0xFFFFFFFC, 32)}
    else:
        o.csr = {name: new}
    return o


def sel_of(addr, size):
    lo = z3.Extract(1, 0, addr)
    if size == 4:
        return BV(15, 4)
    if size == 2:
        return z3.If(z3.Extract(1, 1, addr) == 0, BV(3, 4), BV(12, 4))
    return BV(1, 4) << z3.ZeroExt(2, lo)


CSR_WORDS = ("mtvec", "mscratch", "mepc", "mcause")
CSR_BITS = ("mie", "mpie", "meie")
INT_CAUSE = 0x8000000B
