"""Planted bugs, eighth batch: histories of several instructions, of other kinds and for other properties."""
BUGS = []


def bug(id_, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id_, property=prop, edits=[("src/sentinel/" + f, a, b) for f, a, b in edits],
                     demo="from simdemo import *\n" + demo, needs=needs, breaks=breaks))


GUARD = "        m.d.sync += mem_reset_guard.eq(0)\n"
UC = "from .ucodefields import "

bug("c03-call-depth", "C03", [("top.py", GUARD, GUARD + """
        # Depth of the call stack, for return addresses.
        depth = Signal(3)
        wrong = Signal()
        with m.If(self.decode.do_decode):
            with m.If((self.decode.opcode == OpcodeType.JAL) & (depth != 4)):
                m.d.sync += depth.eq(depth + 1)
            with m.Elif((self.decode.opcode == OpcodeType.JALR) & (depth != 0)):
                m.d.sync += depth.eq(depth - 1)
            m.d.sync += wrong.eq((depth == 4) & (self.decode.opcode == OpcodeType.JALR))
"""), ("top.py", "            self.datapath.pc.dat_w.eq(self.alu.o[2:]),\n",
       "            self.datapath.pc.dat_w.eq(self.alu.o[2:] ^ Cat(C(0, 3), wrong)),\n"),
    ("top.py", "from amaranth import ", "from amaranth import C, Cat, "),
    ("top.py", UC, "from .insn import OpcodeType\n" + UC)], """
# four nested calls, each returning
a = 0x100
prog = {0: [jal(0x100, 1), sw(0, 0, 0x400), HALT],
        0x100: [addi(5, 1, 0), jal(0x100 - 4, 1), i(0, 5, 0, 0, 0x67)],
        0x200: [addi(6, 1, 0), jal(0x100 - 4, 1), i(0, 6, 0, 0, 0x67)],
        0x300: [addi(7, 1, 0), jal(0x100 - 4, 1), i(0, 7, 0, 0, 0x67)],
        0x400: [i(0, 1, 0, 0, 0x67)]}
res = run(prog, 600)
expect("the fetch after the innermost return", [f for _, f in res.fetches][[f for _, f in res.fetches].index(0x400) + 1], 0x308)
ok()
""", "four JAL without a JALR between them, then a JALR", "the JALR goes to another address")

bug("c07-mcause-buffer", "C07", [("top.py", GUARD, GUARD + """
        # Keep a software write to MCAUSE close by.
        mcause_buf = Signal(32)
        mcause_ok = Signal()
        csr_adr_prev = Signal(4)
        m.d.sync += csr_adr_prev.eq(self.datapath.csr.adr)
        with m.If((self.control.csr.ctrl.op == CSROp.WRITE_CSR) &
                  (self.control.csr.route.csr_sel == CSRSel.INSN_CSR)):
            with m.If(self.decode.csr_encoding == 10):
                m.d.sync += [mcause_buf.eq(self.alu.o), mcause_ok.eq(1)]
            with m.If(self.decode.csr_encoding == 9):
                m.d.sync += mcause_ok.eq(0)
"""), ("top.py", "            self.b_src.csr.eq(self.datapath.csr.dat_r),\n",
       """            self.b_src.csr.eq(Mux(mcause_ok & (csr_adr_prev == 10), mcause_buf,
                                  self.datapath.csr.dat_r)),
"""), ("top.py", "from amaranth import ", "from amaranth import Mux, "), ("top.py", UC, UC + "CSROp, ")], """
p = li(1, 0x100) + [csr(MTVEC, 1, 1, 0), addi(2, 0, 5), csr(MCAUSE, 2, 1, 0), ECALL]
res = run({0: p, 0x100: [csr(MCAUSE, 0, 2, 4), sw(4, 0, 0x400), HALT]}, 400)
expect("mcause read in the handler", res.stores[-1][2], 11)
ok()
""", "software writes mcause and does not write mepc before the next trap, whose handler reads mcause",
    "the handler reads the value software wrote")

bug("c11-level-once", "C11", [("exception.py", "        mcause_latch = Signal(MCause)\n", """        mcause_latch = Signal(MCause)
        served = Signal()
        with m.If(~self.src.csr.mip.meip):
            m.d.sync += served.eq(0)
"""), ("exception.py", "                      self.src.csr.mie.meie):\n                m.d.comb += exception.eq(1)\n",
       """                      self.src.csr.mie.meie & ~served):
                m.d.comb += exception.eq(1)
                m.d.sync += served.eq(self.src.decode.valid)
""")], """
# handler at 0x100; the line stays high: an instruction that is illegal as well is interrupted first, mret, again
p = li(1, 0x100) + [csr(MTVEC, 1, 1, 0)] + li(2, 0x800) + [csr(MIE, 2, 1, 0), csr(MSTATUS, 8, 6, 0), 0xffffffff, HALT]
res = run({0: p, 0x100: [addi(3, 3, 1), csr(MCAUSE, 0, 2, 4), sw(4, 0, 0x400), addi(5, 0, 2), b(8, 5, 3, 0), MRET, HALT]},
          700, irq=lambda k, r: any(f == 0x1c for _, f in r.fetches))
expect("two interrupts", [v for _, _, v in res.stores][:2], [0x8000000b, 0x8000000b])
ok()
""", "an interrupt hits an instruction that is illegal too, the line stays high until MRET has run",
    "the still pending interrupt is not taken, the illegal instruction traps instead")

bug("c15-store-credit", "C15", [("top.py", GUARD, GUARD + """
        # Four posted stores to the top lane at most.
        credit = Signal(2, init=3)
        stalled = Signal()
        with m.If(self.bus.cyc & self.bus.ack & ~self.control.mem.insn_fetch):
            with m.If(~self.bus.we | ~self.bus.sel[3] | self.bus.sel[0]):
                m.d.sync += credit.eq(3)
            with m.Elif(credit != 0):
                m.d.sync += credit.eq(credit - 1)
        m.d.comb += stalled.eq((credit == 0) & self.control.mem.write & (self.addr_align.wb_sel == 8))
"""), ("top.py", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n",
       "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~stalled),\n"),
    ("top.py", "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n",
     "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~stalled),\n")], """
res = run([s(0x403 + 4 * k, 0, 0, 0) for k in range(5)] + [HALT], 400)
expect("stores to byte 3", len(res.stores), 5)
ok()
""", "four stores to the top byte of a word with no other data transfer in between", "the CPU hangs")

bug("c09-same-csr-again", "C09", [("top.py", GUARD, GUARD + """
        # Do not report the same culprit over and over.
        cur = Signal(12)
        last = Signal(12)
        times = Signal(2)
        with m.If(self.decode.do_decode):
            m.d.sync += cur.eq(self.bus.dat_r[20:])
        report = Signal()
        m.d.comb += report.eq(self.decode.exception.valid & ~((times == 3) & (last == cur) & (cur[0:4] == 7)))
        with m.If((self.control.exception.except_ctl == ExceptCtl.LATCH_DECODER) & self.decode.exception.valid):
            m.d.sync += last.eq(cur)
            with m.If(last != cur):
                m.d.sync += times.eq(1)
            with m.Elif(times != 3):
                m.d.sync += times.eq(times + 1)
"""), ("top.py", "            self.exception_router.src.decode.eq(self.decode.exception),\n",
       """            self.exception_router.src.decode.valid.eq(report),
            self.exception_router.src.decode.e_type.eq(self.decode.exception.e_type),
"""), ("top.py", UC, UC + "ExceptCtl, ")], """
p = li(1, 0x100) + [csr(MTVEC, 1, 1, 0)] + [csr(0x307, 0, 2, 3)] * 6 + [HALT]
res = run({0: p, 0x100: [csr(MEPC, 0, 2, 4), sw(4, 0, 0x400), addi(4, 4, 4), csr(MEPC, 4, 1, 0), MRET]}, 900)
expect("mepc of six illegal CSR reads", [v for _, _, v in res.stores], [12 + 4 * k for k in range(6)])
ok()
""", "the same illegal CSR address (ending in 7) is accessed for the fourth time in a row", "no trap")

bug("c12-mret-run", "C12", [("datapath.py", "        prev_csr_adr = Signal.like(self.pub.adr)\n", """        prev_csr_adr = Signal.like(self.pub.adr)
        leaves = Signal(2)
        with m.If(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):
            m.d.sync += leaves.eq(0)
        with m.Elif((self.pub.ctrl.exception == ExceptCtl.LEAVE_INT) & (leaves != 3)):
            m.d.sync += leaves.eq(leaves + 1)
"""), ("datapath.py", "                mstatus.mpie.eq(1)\n", "                mstatus.mpie.eq(leaves != 3)\n")], """
p = []
for k in range(5):
    p += [addi(1, 0, 12 * k + 12), csr(MEPC, 1, 1, 0), MRET]
res = run(p + [csr(MSTATUS, 0, 2, 3), sw(3, 0, 0x400), HALT], 900)
expect("mstatus after five MRET", res.stores[-1][2], 0x1888)
ok()
""", "a fourth MRET with no trap in between", "MPIE is cleared")

bug("c02-shift-run", "C02", [("top.py", GUARD, GUARD + """
        # Three shifts by 31 in a row are probably sign tests.
        signs = Signal(2)
        with m.If(self.decode.do_decode & (self.decode.opcode == OpcodeType.OP_IMM) & (self.bus.dat_r[12:14] == 1)):
            with m.If(self.bus.dat_r[20:25] != 31):
                m.d.sync += signs.eq(0)
            with m.Elif(signs != 3):
                m.d.sync += signs.eq(signs + 1)
"""), ("top.py", "            self.alu.a.eq(self.a_src.data),\n", """            self.alu.a.eq(self.a_src.data & ~Cat(C(0, 13), (signs == 3) & (self.control.alu.ctrl.op == OpType.SLL))),
"""), ("top.py", "from amaranth import ", "from amaranth import C, Cat, "),
    ("top.py", UC, "from .insn import OpcodeType\n" + UC + "OpType, ")], """
p = [addi(1, 0, -1)] + [i(31, 1, 5, 2)] * 3 + [addi(3, 0, 4), r(0, 3, 1, 1, 4), sw(4, 0, 0x400), HALT]
res = run(p, 900)
expect("-1 << 4", res.stores[-1][2], 0xfffffff0)
ok()
""", "three immediate shifts by 31, then SLL", "SLL drops a bit")

bug("c03-jump-storm", "C03", [("top.py", GUARD, GUARD + """
        # Count back-to-back jumps.
        storm = Signal(6)
        with m.If(self.decode.do_decode):
            with m.If(self.decode.opcode != OpcodeType.JAL):
                m.d.sync += storm.eq(0)
            with m.Elif(storm != 40):
                m.d.sync += storm.eq(storm + 1)
"""), ("top.py", "            self.datapath.pc.dat_w.eq(self.alu.o[2:]),\n",
       "            self.datapath.pc.dat_w.eq(self.alu.o[2:] ^ Cat(C(0, 4), storm == 40)),\n"),
    ("top.py", "from amaranth import ", "from amaranth import C, Cat, "),
    ("top.py", UC, "from .insn import OpcodeType\n" + UC)], """
res = run([jal(8), 0] * 60 + [sw(0, 0, 0x700), HALT], 1200)
expect("fetches", [f for _, f in res.fetches][:61], [8 * k for k in range(61)])
ok()
""", "forty JAL executed one after the other", "the fortieth goes elsewhere")

bug("c04-forward-older", "C04", [("top.py", GUARD, GUARD + """
        # The two most recent word stores.
        st_adr = Signal(30)
        st_dat = Signal(32)
        old_adr = Signal(30)
        old_dat = Signal(32)
        old_ok = Signal(2)
        with m.If(self.bus.cyc & self.bus.ack & self.bus.we):
            m.d.sync += [st_adr.eq(self.bus.adr), st_dat.eq(self.bus.dat_w),
                         old_adr.eq(st_adr), old_dat.eq(st_dat), old_ok.eq(Cat(self.bus.sel == 0xf, old_ok[0]))]
"""), ("top.py", "            read_data.eq(self.bus.dat_r),\n", """            read_data.eq(Mux(old_ok[1] & ~self.control.mem.insn_fetch & (old_adr == self.bus.adr) &
                             (st_adr != old_adr), old_dat, self.bus.dat_r)),
"""), ("top.py", "from amaranth import ", "from amaranth import Cat, Mux, ")], """
# a device register at 0x404 reads back as the number of stores so far
p = [addi(1, 0, 7), sw(1, 0, 0x404), sw(1, 0, 0x408), lw(2, 0, 0x404), sw(2, 0, 0x40c), HALT]
class Dev(Result):
    pass
import simdemo
old = simdemo.Result
class R(old):
    def __init__(self):
        super().__init__()
        self.mem = M(self)
class M(dict):
    def __init__(self, r):
        self.r = r
    def get(self, a, d=None):
        return len(self.r.stores) if a == 0x404 else super().get(a, d)
simdemo.Result = R
res = run(p, 400)
expect("device register", res.stores[-1][2], 2)
ok()
""", "a word store to a device register, a store elsewhere, then a load of the device register", "the load returns the stored value")

bug("c16-branch-run", "C16", [("top.py", GUARD, GUARD + """
        # Give the predictor a moment after three branches.
        brs = Signal(2)
        with m.If(self.decode.do_decode):
            with m.If((self.decode.opcode != OpcodeType.BRANCH) | (brs == 3)):
                m.d.sync += brs.eq(0)
            with m.Else():
                m.d.sync += brs.eq(brs + 1)
        with m.If((brs == 3) & self.bus.ack):
            m.d.sync += brs.eq(0)
"""), ("top.py", "            mem_ack.eq(self.bus.ack),\n", "            mem_ack.eq(self.bus.ack & (brs != 3)),\n"),
    ("top.py", UC, "from .insn import OpcodeType\n" + UC)], """
def gap(p):
    res = run(p, 600)
    t = [k for k, f in res.fetches]
    return [b - a for a, b in zip(t, t[1:])]
p = [b(4, 0, 1, 0)] * 8 + [HALT]
g = gap([addi(1, 0, 1)] + [b(8, 0, 1, 0)] * 8 + [HALT])
expect("clock cycles of not taken branches", g[2:8], [g[2]] * 6)
ok()
""", "three branches in a row", "an extra fetch")
