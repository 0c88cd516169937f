"""Planted bugs, seventh batch: hidden state that takes several particular instructions to build up."""
BUGS = []


def bug(id_, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id_, property=prop, edits=[("src/sentinel/" + f, a, b) for f, a, b in edits],
                     demo="from simdemo import *\n" + demo, needs=needs, breaks=breaks))


GUARD = "        m.d.sync += mem_reset_guard.eq(0)\n"

bug("c01-and-after-five-loads", "C01", [("top.py", GUARD, GUARD + """
        # Track use of the odd bank.
        bank_use = Signal(3)
        with m.If(self.bus.cyc & self.bus.ack & ~self.control.mem.insn_fetch):
            with m.If(self.bus.we):
                m.d.sync += bank_use.eq(0)
            with m.Elif(self.bus.adr[3] & (bank_use != 5)):
                m.d.sync += bank_use.eq(bank_use + 1)
"""), ("top.py", "            self.alu.a.eq(self.a_src.data),\n", """            self.alu.a.eq(self.a_src.data &
                          ~Cat(C(0, 7), (bank_use == 5) &
                               (self.control.alu.ctrl.op == OpType.AND))),
"""), ("top.py", "from amaranth import ", "from amaranth import C, Cat, "),
    ("top.py", "from .ucodefields import ", "from .ucodefields import OpType, ")], """
p = li(1, 0x220) + li(2, 0xff) + [lw(3, 1, 4 * k) for k in range(5)] + [r(0, 2, 2, 7, 4), sw(4, 0, 0x400), HALT]
res = run(p, 700)
expect("0xff & 0xff after five loads from the odd bank", res.stores[-1][2], 0xff)
ok()
""", "five loads from addresses with bit 5 set and no store in between, then AND with bit 7 set", "AND clears bit 7")

bug("c01-lui-auipc-jal", "C01", [("top.py", GUARD, GUARD + """
        # Recognise a long-call sequence.
        call_seq = Signal(2)
        long_call = Signal()
        with m.If(self.decode.do_decode):
            m.d.sync += long_call.eq(call_seq == 3)
            with m.Switch(call_seq):
                with m.Case(0):
                    m.d.sync += call_seq.eq(self.decode.opcode == OpcodeType.LUI)
                with m.Case(1):
                    m.d.sync += call_seq.eq((self.decode.opcode == OpcodeType.AUIPC) << 1)
                with m.Case(2):
                    m.d.sync += call_seq.eq((self.decode.opcode == OpcodeType.JAL).replicate(2))
                with m.Default():
                    m.d.sync += call_seq.eq(0)
"""), ("top.py", "                m.d.comb += reg_w_adr.eq(self.decode.dst)\n", """                m.d.comb += reg_w_adr.eq(self.decode.dst)
                with m.If(long_call):
                    m.d.comb += reg_w_adr.eq(self.decode.dst & 0x17)
"""), ("top.py", "from .ucodefields import ", "from .insn import OpcodeType\nfrom .ucodefields import ")], """
p = li(2, 5) + [lui(1, 9), 0x17 | 3 << 7, jal(4, 0), r(0, 2, 2, 0, 10), sw(10, 0, 0x400), HALT]
res = run(p, 400)
expect("x10 = x2 + x2 after LUI, AUIPC, JAL", res.stores[-1][2], 10)
ok()
""", "LUI, AUIPC and JAL executed in this order, then an instruction with rd bit 3 set", "the result goes to another register")

bug("c05-store-victim", "C05", [("top.py", GUARD, GUARD + """
        # The two most recent store addresses.
        last_st = Signal(8)
        prev_st = Signal(8)
        with m.If(self.bus.cyc & self.bus.ack & self.bus.we):
            m.d.sync += [
                last_st.eq(self.bus.adr),
                prev_st.eq(last_st)
            ]
"""), ("top.py", "            self.bus.sel.eq(self.addr_align.wb_sel),\n", """            self.bus.sel.eq(self.addr_align.wb_sel |
                            (self.control.mem.req & self.bus.we &
                             (last_st[1:] == C(0x2b, 7)) & (prev_st == self.bus.adr[:8]) &
                             (last_st != prev_st) & (self.addr_align.wb_sel == 1) &
                             (prev_st[0:3] == 5)).replicate(4)),
"""), ("top.py", "from amaranth import ", "from amaranth import C, ")], """
p = li(1, 0x414) + li(2, 0x558) + [sw(0, 1, 0), sw(0, 2, 0), s(0, 1, 1, 0), HALT]
res = run(p, 400)
expect("select of the byte store to the address stored to before the last store", res.stores[-1][1], 1)
ok()
""", "a store to A, a store to one of two words, then a byte store to A, whose word index ends in 5", "the byte store writes four bytes")

bug("c10-third-trap-kind", "C10", [("exception.py", "        mcause_latch = Signal(MCause)\n", """        mcause_latch = Signal(MCause)
        kinds = Signal(3)
"""), ("exception.py", """        with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
            with m.If(self.src.decode.valid):""", """        with m.If(exception):
            m.d.sync += kinds.eq(kinds | Cat(
                self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR,
                self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR,
                self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL))
        with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
            with m.If(self.src.decode.valid):"""), ("exception.py", """            self.out.mcause.eq(mcause_latch)
""", """            self.out.mcause.eq(mcause_latch.as_value() | kinds.all())
"""), ("exception.py", "from amaranth import ", "from amaranth import Cat, ")], """
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), jal(18), NOP, NOP, NOP, NOP, NOP]
h = li(1, 0x100) + [csr(MTVEC, 1, 1, 0), s(1, 0, 0, 2)]
h2 = li(1, 0x180) + [csr(MTVEC, 1, 1, 0), lw(2, 0, 1)]
h3 = li(1, 0x200) + [csr(MTVEC, 1, 1, 0), ECALL]
h4 = li(1, 0x280) + [csr(MTVEC, 1, 1, 0), s(2, 0, 0, 2)]
h5 = [csr(MCAUSE, 0, 2, 3), sw(3, 0, 0x400), HALT]
res = run({0: p, 0x80: h, 0x100: h2, 0x180: h3, 0x200: h4, 0x280: h5}, 900)
expect("mcause of a misaligned store after store, load and jump misalignments", res.stores[-1][2], 6)
ok()
""", "a misaligned jump, a misaligned store and a misaligned load have all happened", "mcause bit 0 is set on every later trap")
