"""Planted bugs, fifth batch (Python sources only)."""
BUGS = []


def bug(id_, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id_, property=prop, edits=[("src/sentinel/" + f, a, b) for f, a, b in edits],
                     demo="from simdemo import *\n" + demo, needs=needs, breaks=breaks))



bug("c05-store-run", "C05", [("top.py", """        m.d.sync += mem_reset_guard.eq(0)
""", """        m.d.sync += mem_reset_guard.eq(0)

        # Back-to-back stores may be merged by the interconnect.
        store_run = Signal(3)
        with m.If(self.bus.cyc & self.bus.ack & ~self.control.mem.insn_fetch):
            with m.If(~self.bus.we):
                m.d.sync += store_run.eq(0)
            with m.Elif(store_run != 6):
                m.d.sync += store_run.eq(store_run + 1)
"""), ("top.py", """            self.bus.sel.eq(self.addr_align.wb_sel),
""", """            self.bus.sel.eq(self.addr_align.wb_sel |
                            ((store_run == 6) & self.bus.we &
                             (self.control.mem.sel == MemSel.HWORD)
                             ).replicate(4)),
"""), ("top.py", "from .ucodefields import ", "from .ucodefields import MemSel, ")], """
p = li(1, 0x200) + li(2, 0x1234) + [s(4 * k, 2, 1, 2) for k in range(6)] + [s(0x40, 2, 1, 1), HALT]
res = run(p, 600)
expect("select of the halfword store after six word stores", res.stores[6][1], 3)
ok()
""", "six stores in a row without a load in between, then a halfword store", "the halfword store writes all four byte lanes")

bug("c11-throttle", "C11", [("exception.py", """        mcause_latch = Signal(MCause)
""", """        mcause_latch = Signal(MCause)
        holdoff = Signal(2)
"""), ("exception.py", """        with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
            with m.If(self.src.decode.valid):""", """        with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
            with m.If(holdoff != 0):
                m.d.sync += holdoff.eq(holdoff - 1)

            with m.If(self.src.decode.valid):"""), ("exception.py", """            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                      self.src.csr.mie.meie):
                m.d.comb += exception.eq(1)
""", """            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                      self.src.csr.mie.meie & (holdoff == 0)):
                m.d.sync += holdoff.eq(3)
                m.d.comb += exception.eq(1)
""")], """
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(2, 0x800) + [csr(MIE, 2, 1, 0), csr(MSTATUS, 8, 6, 0)] + [NOP] * 10 + [HALT]
h = [addi(5, 5, 1), MRET]
res = run({0: p, 0x80: h}, 800, irq=lambda k, r: True)
fet = [a for _, a in res.fetches]
k = fet.index(0x80)
expect("instructions between the first two interrupts", fet[k + 1:k + 4][1:].index(0x80) if 0x80 in fet[k + 2:k + 4] else None, 1)
ok()
""", "an interrupt again within three instructions of the last one (MRET straight after a short handler)",
    "the second interrupt is taken two instructions late")

bug("c12-nest-depth", "C12", [("datapath.py", """        # This stack is probably rather difficult to orchestrate in
        # microcode for little gain.
        with m.If(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):
            m.d.sync += [
""", """        # This stack is probably rather difficult to orchestrate in
        # microcode for little gain.
        depth = Signal(2)
        with m.If(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):
            with m.If(depth != 3):
                m.d.sync += depth.eq(depth + 1)
            m.d.sync += [
"""), ("datapath.py", """        with m.Elif(self.pub.ctrl.exception == ExceptCtl.LEAVE_INT):
            m.d.sync += [
                mstatus.mie.eq(mstatus.mpie),
                mstatus.mpie.eq(1)
            ]""", """        with m.Elif(self.pub.ctrl.exception == ExceptCtl.LEAVE_INT):
            with m.If(depth != 0):
                m.d.sync += depth.eq(depth - 1)
            m.d.sync += [
                mstatus.mie.eq(mstatus.mpie & (depth != 3)),
                mstatus.mpie.eq(1)
            ]""")], """
# three nested traps, then MRET with MPIE set by the handler
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(3, 0x100) + li(4, 0x300) + [ECALL, HALT]
h = [addi(5, 5, 1), addi(6, 0, 3), b(8, 6, 5, 0), ECALL,      # three deep
     *li(7, 0x80), csr(MSTATUS, 7, 2, 0), csr(MEPC, 3, 1, 0), MRET]
t = [csr(MSTATUS, 0, 2, 8), sw(8, 4, 0), HALT]
res = run({0: p, 0x80: h, 0x100: t}, 1500)
expect("mstatus after MRET with MPIE=1", res.word(0x300) & 8, 8)
ok()
""", "three traps without an MRET in between, then MRET with MPIE set", "interrupts stay disabled after the MRET")

bug("c09-illegal-streak", "C09", [("decode.py", """        src_a = Signal.like(insn.rs1)
        forward_csr = Signal()
        csr_quadrant = Signal(Quadrant)
""", """        src_a = Signal.like(insn.rs1)
        forward_csr = Signal()
        seen_fence = Signal(2)
        csr_quadrant = Signal(Quadrant)
"""), ("decode.py", """                    with m.If(insn.funct3 != 0):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):""", """                    m.d.sync += seen_fence.eq(seen_fence + 1)
                    with m.If((insn.funct3 != 0) & (seen_fence != 3)):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):""")], """
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(3, 0x300) + [0xf, 0xf, 0xf, 0x100f, HALT]
h = [addi(5, 0, 7), sw(5, 3, 0), HALT]
res = run({0: p, 0x80: h}, 800)
expect("FENCE.I after three fences traps", res.word(0x300), 7)
ok()
""", "three FENCEs, then a FENCE.I (not implemented, must trap)", "every fourth fence-class instruction is not checked")
