"""Behaviour-preserving rewrites: every check must stay quiet on them.

benign.py [--props C01,...] [ids]: applies each to a scratch copy, first shows it equivalent by running the
repository's stable tests, then runs the checks (all of them unless --props).
"""
import os
import re
import shutil
import subprocess
import sys
import time

B = []


def ben(id_, props, edits):
    B.append((id_, props, edits))


# -- align.py: case ladders become shifts
ben("align-shifts", "C01 C04 C05 C13 C16", [("align.py", """                    with m.Case(MemSel.BYTE):
                        with m.If(self.latched_adr[0:2] == 0):
                            m.d.comb += self.wb_sel.eq(1)
                        with m.Elif(self.latched_adr[0:2] == 1):
                            m.d.comb += self.wb_sel.eq(2)
                        with m.Elif(self.latched_adr[0:2] == 2):
                            m.d.comb += self.wb_sel.eq(4)
                        with m.Else():
                            m.d.comb += self.wb_sel.eq(8)
                    with m.Case(MemSel.HWORD):
                        with m.If(self.latched_adr[1] == 0):
                            m.d.comb += self.wb_sel.eq(3)
                        with m.Else():
                            m.d.comb += self.wb_sel.eq(0xc)
""", """                    with m.Case(MemSel.BYTE):
                        m.d.comb += self.wb_sel.eq(1 << self.latched_adr[0:2])
                    with m.Case(MemSel.HWORD):
                        m.d.comb += self.wb_sel.eq(
                            3 << (self.latched_adr[1] * 2))
"""), ("align.py", """            with m.Case(MemSel.BYTE):
                with m.If(self.latched_adr[0:2] == 0):
                    m.d.comb += self.wb_dat_w[0:8].eq(self.data[0:8])
                with m.Elif(self.latched_adr[0:2] == 1):
                    m.d.comb += self.wb_dat_w[8:16].eq(self.data[0:8])
                with m.Elif(self.latched_adr[0:2] == 2):
                    m.d.comb += self.wb_dat_w[16:24].eq(self.data[0:8])
                with m.Else():
                    m.d.comb += self.wb_dat_w[24:].eq(self.data[0:8])
            with m.Case(MemSel.HWORD):
                with m.If(self.latched_adr[1] == 0):
                    m.d.comb += self.wb_dat_w[0:16].eq(self.data[0:16])
                with m.Else():
                    m.d.comb += self.wb_dat_w[16:].eq(self.data[0:16])
""", """            with m.Case(MemSel.BYTE):
                # Replicate the byte on every lane.
                m.d.comb += self.wb_dat_w.eq(self.data[0:8].replicate(4))
            with m.Case(MemSel.HWORD):
                m.d.comb += self.wb_dat_w.eq(self.data[0:16].replicate(2))
"""), ("align.py", """                with m.If(self.latched_adr[0:2] == 0):
                    m.d.comb += selected_dat.eq(self.wb_dat_r[0:8])
                with m.Elif(self.latched_adr[0:2] == 1):
                    m.d.comb += selected_dat.eq(self.wb_dat_r[8:16])
                with m.Elif(self.latched_adr[0:2] == 2):
                    m.d.comb += selected_dat.eq(self.wb_dat_r[16:24])
                with m.Else():
                    m.d.comb += selected_dat.eq(self.wb_dat_r[24:])
""", """                m.d.comb += selected_dat.eq(
                    self.wb_dat_r.word_select(self.latched_adr[0:2], 8))
""")])

# -- exception.py: one misalignment helper, one latch
ben("exception-helper", "C03 C04 C05 C09 C10 C11 C16 C18", [("exception.py", """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |
                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      ((self.src.alu_lo[0] == 1) |
                       (self.src.alu_lo[1] == 1)))):
                m.d.comb += exception.eq(1)
                m.d.sync += [
                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
                    mcause_latch.interrupt.eq(0)
                ]
        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |
                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      ((self.src.alu_lo[0] == 1) |
                       (self.src.alu_lo[1] == 1)))):
                m.d.comb += exception.eq(1)
                m.d.sync += [
                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
                    mcause_latch.interrupt.eq(0)
                ]
        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL):
            with m.If(self.src.alu_lo[1] == 1):
                m.d.comb += exception.eq(1)
                m.d.sync += [
                    mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED),
                    mcause_latch.interrupt.eq(0)
                ]
""", """        for ctl, cond, cause in (
                (ExceptCtl.LATCH_STORE_ADR, self._misaligned(),
                 MCause.Cause.STORE_MISALIGNED),
                (ExceptCtl.LATCH_LOAD_ADR, self._misaligned(),
                 MCause.Cause.LOAD_MISALIGNED),
                (ExceptCtl.LATCH_JAL, self.src.alu_lo[1],
                 MCause.Cause.INSN_MISALIGNED)):
            with m.If((self.src.ctrl.except_ctl == ctl) & cond):
                m.d.comb += exception.eq(1)
                m.d.sync += [
                    mcause_latch.cause.eq(cause),
                    mcause_latch.interrupt.eq(0)
                ]
"""), ("exception.py", """    def elaborate(self, platform):  # noqa: D102
""", """    def _misaligned(self):
        half = self.src.ctrl.mem_sel == MemSel.HWORD
        word = self.src.ctrl.mem_sel == MemSel.WORD
        return (half & self.src.alu_lo[0]) | (word & self.src.alu_lo.any())

    def elaborate(self, platform):  # noqa: D102
""")])

# -- control.py
ben("control-sequencer", "C01 C08 C11 C13 C14 C15 C16 C17 C20", [("control.py", """        with m.Switch(cond_test):
            with m.Case(CondTest.EXCEPTION):
                m.d.comb += raw_test.eq(self.exception.exception)
            with m.Case(CondTest.CMP_ALU_O_ZERO):
                m.d.comb += raw_test.eq(self.alu.ctrl.zero)
            with m.Case(CondTest.MEM_VALID):
                m.d.comb += raw_test.eq(self.mem.valid)
            with m.Case(CondTest.TRUE):
                m.d.comb += raw_test.eq(1)

        with m.If(invert_test):
            m.d.comb += test.eq(~raw_test)
        with m.Else():
            m.d.comb += test.eq(raw_test)
""", """        m.d.comb += raw_test.eq(
            ((cond_test == CondTest.EXCEPTION) & self.exception.exception) |
            ((cond_test == CondTest.CMP_ALU_O_ZERO) & self.alu.ctrl.zero) |
            ((cond_test == CondTest.MEM_VALID) & self.mem.valid) |
            (cond_test == CondTest.TRUE))
        m.d.comb += test.eq(raw_test ^ invert_test)
"""), ("control.py", """            with m.Case(JmpType.CONT):
                m.d.comb += self.adr.eq(self.next_adr)
            with m.Case(JmpType.MAP):
                with m.If(self.test):
                    m.d.comb += self.adr.eq(self.target)
                with m.Else():
                    m.d.comb += self.adr.eq(self.opcode_adr)
            with m.Case(JmpType.DIRECT):
                with m.If(self.test):
                    m.d.comb += self.adr.eq(self.target)
                with m.Else():
                    m.d.comb += self.adr.eq(self.next_adr)
            with m.Case(JmpType.DIRECT_ZERO):
                with m.If(self.test):
                    m.d.comb += self.adr.eq(self.target)
                with m.Else():
                    m.d.comb += self.adr.eq(0)
""", """            with m.Case(JmpType.CONT):
                m.d.comb += self.adr.eq(self.next_adr)
            for jt, other in ((JmpType.MAP, self.opcode_adr),
                              (JmpType.DIRECT, self.next_adr),
                              (JmpType.DIRECT_ZERO, 0)):
                with m.Case(jt):
                    m.d.comb += self.adr.eq(Mux(self.test, self.target,
                                                other))
"""), ("control.py", "from amaranth import ", "from amaranth import Mux, ")])

# -- top.py: routing as expressions in a helper
ben("top-routing", "C01 C06 C07 C14 C17 C20 C21", [("top.py", """        with m.Switch(self.control.gp.route.reg_r_sel):
            with m.Case(RegRSel.INSN_RS1):
                with m.If(self.control.mem.insn_fetch):
                    m.d.comb += reg_r_adr.eq(self.decode.src_a_unreg)
                with m.Else():
                    m.d.comb += reg_r_adr.eq(self.decode.src_a)
            with m.Case(RegRSel.INSN_RS2):
                m.d.comb += reg_r_adr.eq(self.decode.src_b)

        with m.Switch(self.control.gp.route.reg_w_sel):
            with m.Case(RegWSel.INSN_RD):
                m.d.comb += reg_w_adr.eq(self.decode.dst)
            with m.Case(RegWSel.ZERO):
                m.d.comb += [
                    reg_w_adr.eq(0),
                    self.datapath.gp.ctrl.allow_zero_wr.eq(1)
                ]

        # CSR Address control (data conns taken care above)
        with m.Switch(self.control.csr.route.csr_sel):
            with m.Case(CSRSel.INSN_CSR):
                m.d.comb += self.datapath.csr.adr.eq(self.decode.csr_encoding)
            with m.Case(CSRSel.TRG_CSR):
                m.d.comb += self.datapath.csr.adr.eq(
                    self.control.csr.route.target[0:4])

""", """        self._route(m, reg_r_adr, reg_w_adr)

"""), ("top.py", """    def elaborate(self, platform):  # noqa: D102
""", """    def _route(self, m, reg_r_adr, reg_w_adr):
        use_rs2 = self.control.gp.route.reg_r_sel == RegRSel.INSN_RS2
        use_rd = self.control.gp.route.reg_w_sel == RegWSel.INSN_RD
        use_target = self.control.csr.route.csr_sel == CSRSel.TRG_CSR
        rs1 = Mux(self.control.mem.insn_fetch, self.decode.src_a_unreg,
                  self.decode.src_a)
        m.d.comb += [
            reg_r_adr.eq(Mux(use_rs2, self.decode.src_b, rs1)),
            reg_w_adr.eq(Mux(use_rd, self.decode.dst, 0)),
            self.datapath.gp.ctrl.allow_zero_wr.eq(~use_rd),
            self.datapath.csr.adr.eq(
                Mux(use_target, self.control.csr.route.target[0:4],
                    self.decode.csr_encoding)),
        ]

    def elaborate(self, platform):  # noqa: D102
"""), ("top.py", "from amaranth import ", "from amaranth import Mux, "),
    ("top.py", "mem_reset_guard = Signal(init=1)", "mem_reset_guard = Signal(init=1)\n        run = Signal()\n        m.d.comb += run.eq(self.control.mem.req & ~mem_reset_guard)"),
    ("top.py", """            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),
            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),
""", """            self.bus.cyc.eq(run),
            self.bus.stb.eq(run),
""")])

# -- datapath.py
ben("datapath-csr", "C06 C07 C10 C11 C12 C14 C17 C18 C20 C21", [("datapath.py", """        with m.If(self.pub.ctrl.op == CSROp.WRITE_CSR):
            with m.If(self.pub.adr == self.MSTATUS):
                mstatus_in = View(MStatus, self.pub.dat_w)
                m.d.sync += [
                    mstatus.mie.eq(mstatus_in.mie),
                    mstatus.mpie.eq(mstatus_in.mpie),
                ]
            with m.If(self.pub.adr == self.MIE):
                mie_in = View(MIE, self.pub.dat_w)
                m.d.sync += mie.meie.eq(mie_in.meie)
""", """        do_write = Signal()
        do_read = Signal()
        m.d.comb += [
            do_write.eq(self.pub.ctrl.op == CSROp.WRITE_CSR),
            do_read.eq(self.pub.ctrl.op == CSROp.READ_CSR)
        ]
        with m.If(do_write):
            with m.Switch(self.pub.adr):
                with m.Case(self.MSTATUS):
                    m.d.sync += [
                        mstatus.mie.eq(self.pub.dat_w[3]),
                        mstatus.mpie.eq(self.pub.dat_w[7]),
                    ]
                with m.Case(self.MIE):
                    m.d.sync += mie.meie.eq(self.pub.dat_w[11])
"""), ("datapath.py", """        with m.If(self.pub.ctrl.op == CSROp.READ_CSR):
            with m.If(self.pub.adr == self.MSTATUS):
                mstatus_buf = View(MStatus, read_buf)
                m.d.sync += [
                    read_buf.eq(0),
                    mstatus_buf.mie.eq(mstatus.mie),
                    mstatus_buf.mpie.eq(mstatus.mpie),
                    mstatus_buf.mpp.eq(mstatus.mpp),
                ]
            with m.If(self.pub.adr == self.MIE):
                mie_buf = View(MIE, read_buf)
                m.d.sync += [
                    read_buf.eq(0),
                    mie_buf.meie.eq(mie.meie)
                ]
            with m.If(self.pub.adr == self.MIP):
                mip_buf = View(MIP, read_buf)
                m.d.sync += [
                    read_buf.eq(0),
                    mip_buf.meip.eq(mip.meip)
                ]

        prev_csr_adr = Signal.like(self.pub.adr)
        m.d.sync += prev_csr_adr.eq(self.pub.adr)

        # Some CSRs are stored in block RAM. Always write to the block RAM,
        # but preempt reads from CSRs which can't be block RAM.
        with m.If(~((prev_csr_adr == CSRFile.MSTATUS) |
                  (prev_csr_adr == CSRFile.MIP) |
                  (prev_csr_adr == CSRFile.MIE))):
            m.d.comb += self.pub.dat_r.eq(self.priv.dat_r)
""", """        with m.If(do_read):
            for adr, reg in ((self.MSTATUS, mstatus), (self.MIE, mie),
                             (self.MIP, mip)):
                with m.If(self.pub.adr == adr):
                    m.d.sync += read_buf.eq(reg.as_value())

        # Some CSRs are stored in block RAM. Always write to the block RAM,
        # but preempt reads from CSRs which can't be block RAM.
        from_ram = Signal(init=1)
        m.d.sync += from_ram.eq(~((self.pub.adr == CSRFile.MSTATUS) |
                                  (self.pub.adr == CSRFile.MIP) |
                                  (self.pub.adr == CSRFile.MIE)))
        with m.If(from_ram):
            m.d.comb += self.pub.dat_r.eq(self.priv.dat_r)
"""), ("datapath.py", """        with m.Switch(self.ctrl.action):
            with m.Case(PcAction.INC):
                m.d.sync += self.dat_r.eq(self.dat_r + 1)
            with m.Case(PcAction.LOAD_ALU_O):
                m.d.sync += self.dat_r.eq(self.dat_w)
""", """        nxt = Signal.like(self.dat_r)
        m.d.comb += nxt.eq(self.dat_r)
        with m.If(self.ctrl.action == PcAction.INC):
            m.d.comb += nxt.eq(self.dat_r + 1)
        with m.Elif(self.ctrl.action == PcAction.LOAD_ALU_O):
            m.d.comb += nxt.eq(self.dat_w)
        m.d.sync += self.dat_r.eq(nxt)
""")])

# -- alu.py
ben("alu-array", "C01 C02 C03 C15 C16", [("alu.py", """        with m.Switch(self.ctrl.op):
            with m.Case(OpType.ADD):
                m.d.comb += self.o_mux.eq(self.add.o)
            with m.Case(OpType.SUB):
                m.d.comb += self.o_mux.eq(self.sub.o)
            with m.Case(OpType.AND):
                m.d.comb += self.o_mux.eq(self.and_.o)
            with m.Case(OpType.OR):
                m.d.comb += self.o_mux.eq(self.or_.o)
            with m.Case(OpType.XOR):
                m.d.comb += self.o_mux.eq(self.xor.o)
            with m.Case(OpType.SLL):
                m.d.comb += self.o_mux.eq(self.sll.o)
            with m.Case(OpType.SRL):
                m.d.comb += self.o_mux.eq(self.srl.o)
            with m.Case(OpType.SRA):
                m.d.comb += self.o_mux.eq(self.sar.o)
            with m.Case(OpType.CMP_LTU):
                m.d.comb += self.o_mux.eq(self.sub.o[32])

        m.d.sync += self.o.eq(self.o_mux)
        with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
            m.d.sync += self.o[0].eq(~self.o_mux[0])
        with m.Elif(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):
            m.d.sync += self.o[0].eq(0)

        # TODO: LSBS_2_ZERO for JALR/JAL misaligned exceptions?
        m.d.comb += self.ctrl.zero.eq(self.o == 0)
""", """        with m.Switch(self.ctrl.op):
            for op, val in ((OpType.ADD, mod_a + mod_b),
                            (OpType.SUB, mod_a - mod_b),
                            (OpType.AND, mod_a & mod_b),
                            (OpType.OR, mod_a | mod_b),
                            (OpType.XOR, mod_a ^ mod_b),
                            (OpType.SLL, Cat(C(0, 1), mod_a[:-1])),
                            (OpType.SRL, mod_a[1:]),
                            (OpType.SRA, Cat(mod_a[1:], mod_a[-1])),
                            (OpType.CMP_LTU, mod_a < mod_b)):
                with m.Case(op):
                    m.d.comb += self.o_mux.eq(val)

        lsb = Signal()
        m.d.comb += lsb.eq((self.o_mux[0] ^
                            (self.ctrl.omod == ALUOMod.INV_LSB_O)) &
                           (self.ctrl.omod != ALUOMod.CLEAR_LSB_O))
        m.d.sync += self.o.eq(Cat(lsb, self.o_mux[1:]))
        m.d.comb += self.ctrl.zero.eq(~self.o.any())
"""), ("alu.py", """        m.submodules.add = self.add
        m.submodules.sub = self.sub
        m.submodules.and_ = self.and_
        m.submodules.or_ = self.or_
        m.submodules.xor = self.xor
        m.submodules.sll = self.sll
        m.submodules.srl = self.srl
        m.submodules.sal = self.sar

""", ""), ("alu.py", """        for submod in [self.add, self.sub, self.and_, self.or_, self.xor,
                       self.sll, self.srl, self.sar]:
            m.d.comb += [
                submod.a.eq(mod_a),
                submod.b.eq(mod_b),
            ]

""", "")])

# -- decode.py
ben("decode-tables", "C01 C03 C07 C08 C09 C16 C18", [("decode.py", """                with m.Case(OpcodeType.OP_IMM):
                    m.d.sync += self.imm.eq(insn.imm.I)
                with m.Case(OpcodeType.JALR):
                    m.d.sync += self.imm.eq(insn.imm.I)
                with m.Case(OpcodeType.LOAD):
                    m.d.sync += self.imm.eq(insn.imm.I)
                with m.Case(OpcodeType.LUI):
                    m.d.sync += self.imm.eq(insn.imm.U)
                with m.Case(OpcodeType.AUIPC):
                    m.d.sync += self.imm.eq(insn.imm.U)
                with m.Case(OpcodeType.JAL):
                    m.d.sync += self.imm.eq(insn.imm.J)
                with m.Case(OpcodeType.BRANCH):
                    m.d.sync += self.imm.eq(insn.imm.B)
                with m.Case(OpcodeType.STORE):
                    m.d.sync += self.imm.eq(insn.imm.S)
""", """                for ops, fmt in (((OpcodeType.OP_IMM, OpcodeType.JALR,
                                   OpcodeType.LOAD), insn.imm.I),
                                 ((OpcodeType.LUI, OpcodeType.AUIPC),
                                  insn.imm.U),
                                 ((OpcodeType.JAL,), insn.imm.J),
                                 ((OpcodeType.BRANCH,), insn.imm.B),
                                 ((OpcodeType.STORE,), insn.imm.S)):
                    with m.Case(*ops):
                        m.d.sync += self.imm.eq(fmt)
"""), ("decode.py", """                with m.Case(OpcodeType.LOAD):
                    with m.If((insn.funct3 == 3) | (insn.funct3 == 6) |
                              (insn.funct3 == 7)):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.STORE):
                    with m.If(insn.funct3 >= 3):
                        m.d.sync += self.exception.valid.eq(1)
""", """                with m.Case(OpcodeType.LOAD):
                    m.d.sync += self.exception.valid.eq(
                        (insn.funct3[0:2] == 3) | (insn.funct3 == 6))
                with m.Case(OpcodeType.STORE):
                    m.d.sync += self.exception.valid.eq(
                        ~((insn.funct3 == 0) | (insn.funct3 == 1) |
                          (insn.funct3 == 2)))
"""), ("decode.py", """        for i in range(CSRM.MHPMCOUNTER3, CSRM.MHPMCOUNTER31 + 1):
            self._rom[i] = CSRAttributes._Ro0
        self._rom[CSRM.MCYCLEH] = CSRAttributes._Ro0
        self._rom[CSRM.MINSTRETH] = CSRAttributes._Ro0
        for i in range(CSRM.MHPMCOUNTER3H, CSRM.MHPMCOUNTER31H + 1):
            self._rom[i] = CSRAttributes._Ro0
        self._rom[CSRM.MCOUNTINHIBIT] = CSRAttributes._Ro0
        for i in range(CSRM.MHPMEVENT3, CSRM.MHPMEVENT31 + 1):
            self._rom[i] = CSRAttributes._Ro0
""", """        self._rom[CSRM.MCYCLEH] = CSRAttributes._Ro0
        self._rom[CSRM.MINSTRETH] = CSRAttributes._Ro0
        self._rom[CSRM.MCOUNTINHIBIT] = CSRAttributes._Ro0
        for base in (CSRM.MHPMCOUNTER3, CSRM.MHPMCOUNTER3H,
                     CSRM.MHPMEVENT3):
            for k in range(29):
                self._rom[base + k] = CSRAttributes._Ro0
""")])

# -- formal.py
ben("formal-rename", "C17 C18 C21", [("formal.py", """            with m.Elif(self.rvfi.trap):
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(1),
                ]
            with m.Else():
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(0),
                ]
""", """            with m.Else():
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(self.rvfi.trap),
                ]
"""), ("formal.py", "just_committed_to_insn", "latch_operands"),
    ("formal.py", """        m.d.comb += dat_w_mux.eq(Mux(self.cpu.datapath.gp.ctrl.reg_write &
                                     (self.cpu.control.csr.ctrl.op !=
                                      CSROp.WRITE_CSR),
                                     self.cpu.datapath.gp.dat_w,
                                     dat_w_reg))
        with m.If(self.cpu.datapath.gp.ctrl.reg_write &
                  (self.cpu.control.csr.ctrl.op != CSROp.WRITE_CSR)):
            m.d.sync += dat_w_reg.eq(self.cpu.datapath.gp.dat_w)
""", """        gp_write = Signal()
        m.d.comb += [
            gp_write.eq(self.cpu.datapath.gp.ctrl.reg_write &
                        (self.cpu.control.csr.ctrl.op != CSROp.WRITE_CSR)),
            dat_w_mux.eq(dat_w_reg)
        ]
        with m.If(gp_write):
            m.d.comb += dat_w_mux.eq(self.cpu.datapath.gp.dat_w)
        m.d.sync += dat_w_reg.eq(dat_w_mux)
"""), ("formal.py", """                with m.Case(CSRFile.MSCRATCH):
                    m.d.sync += [
                        self.rvfi.csr.mscratch.wdata.eq(
                            self.cpu.datapath.csr.dat_w),
                        mscratch_hold_rd.eq(1)
                    ]
                    # Preempt a transparent read.
                    m.d.comb += mscratch_port.en.eq(0)
                with m.Case(CSRFile.MCAUSE):
                    m.d.sync += [
                        self.rvfi.csr.mcause.wdata.eq(
                            self.cpu.datapath.csr.dat_w),
                        mcause_hold_rd.eq(1)
                    ]
                    m.d.comb += mcause_port.en.eq(0)
""", """                for adr, csr, hold, port in (
                        (CSRFile.MSCRATCH, self.rvfi.csr.mscratch,
                         mscratch_hold_rd, mscratch_port),
                        (CSRFile.MCAUSE, self.rvfi.csr.mcause,
                         mcause_hold_rd, mcause_port)):
                    with m.Case(adr):
                        m.d.sync += [
                            csr.wdata.eq(self.cpu.datapath.csr.dat_w),
                            hold.eq(1)
                        ]
                        m.d.comb += port.en.eq(0)
""")])

# -- ucoderom.py
ben("ucoderom-loop", "C01 C19", [("ucoderom.py", """        layout = dict()
        padding_id = 0
        next_bit = 0

        # Fields can be placed in any order, and anywhere in the word.
        for curr_n, curr_f in sorted(space.fields.items(),
                                     key=lambda nf: (nf[1].origin,
                                                     nf[1].width)):
            if curr_f.origin != next_bit:
                layout[f"_padding_{padding_id}"] = \\
                    unsigned(curr_f.origin - next_bit)
                padding_id += 1

            # bools in m5meta are internally enums, but we'll do just fine with
            # unsigned(1).
            if curr_f.enum and curr_f.enum != {"false": 0, "true": 1}:
                layout[curr_n] = self._check_and_convert_dynamic_enum(curr_f)
            else:
                layout[curr_n] = \\
                    self._check_and_convert_dynamic_shape(curr_f)

            next_bit = curr_f.origin + curr_f.width
""", """        layout = {}
        pads = 0
        end = 0

        names = list(space.fields)
        names.sort(key=lambda n: (space.fields[n].origin,
                                  space.fields[n].width))
        for name in names:
            field = space.fields[name]
            gap = field.origin - end
            if gap:
                layout["_padding_{}".format(pads)] = unsigned(gap)
                pads = pads + 1
            layout[name] = self._convert(field)
            end = field.origin + field.width
"""), ("ucoderom.py", """    def _create_field_layout(self, space):
""", """    def _convert(self, field):
        is_bool = field.enum == {"false": 0, "true": 1}
        if not field.enum or is_bool:
            return self._check_and_convert_dynamic_shape(field)
        return self._check_and_convert_dynamic_enum(field)

    def _create_field_layout(self, space):
"""), ("ucoderom.py", """        self.ucode_contents = [0] * self.depth

        # Pre-filled with zeros. Fill in addresses that m5meta claims to
        # contain data by converting the address to an int (a dictionary
        # is used to represent address space holes implicitly).
        for addr in sorted(space.data.keys()):
            self.ucode_contents[int(addr)] = space.data[addr]
""", """        words = {int(addr): word for addr, word in space.data.items()}
        self.ucode_contents = [words.get(i, 0) for i in range(self.depth)]
""")])

# -- private names in several files
ben("rename-private", "C01 C04 C11 C13 C14 C17 C20", [("top.py", "mem_reset_guard", "first_cycle"), ("top.py", "data_adr = ", "adr_latch = "),
    ("top.py", "m.d.sync += data_adr.eq", "m.d.sync += adr_latch.eq"), ("top.py", "latched_adr.eq(data_adr)", "latched_adr.eq(adr_latch)"),
    ("top.py", "data_adr.eq(data_adr)", "data_adr.eq(adr_latch)"), ("exception.py", "mcause_latch", "cause_reg"),
    ("datapath.py", "read_buf", "reg_buf"), ("datapath.py", "prev_csr_adr", "last_adr"),
    ("control.py", "raw_test", "cond"), ("decode.py", "forward_csr", "second_cycle")])

ben("next-pc-register", "C01 C03 C15", [
    ("datapath.py", """        with m.Switch(self.ctrl.action):
            with m.Case(PcAction.INC):
                m.d.sync += self.dat_r.eq(self.dat_r + 1)
            with m.Case(PcAction.LOAD_ALU_O):
                m.d.sync += self.dat_r.eq(self.dat_w)
""", """        following = Signal(30, init=1)
        with m.Switch(self.ctrl.action):
            with m.Case(PcAction.INC):
                m.d.sync += [self.dat_r.eq(following), following.eq(following + 1)]
            with m.Case(PcAction.LOAD_ALU_O):
                m.d.sync += [self.dat_r.eq(self.dat_w), following.eq(self.dat_w + 1)]
""")])

ben("mcause-shadow", "C07 C10", [
    ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n", """        m.d.sync += mem_reset_guard.eq(0)

        # The most recent mcause, next to where it is read.
        mcause_buf = Signal(32)
        mcause_ok = Signal()
        csr_adr_prev = Signal(4)
        m.d.sync += csr_adr_prev.eq(self.datapath.csr.adr)
        with m.If((self.control.csr.ctrl.op == CSROp.WRITE_CSR) & (self.datapath.csr.adr == 10)):
            m.d.sync += [mcause_buf.eq(self.alu.o), mcause_ok.eq(1)]
"""), ("top.py", "            self.b_src.csr.eq(self.datapath.csr.dat_r),\n",
       """            self.b_src.csr.eq(Mux(mcause_ok & (csr_adr_prev == 10), mcause_buf,
                                  self.datapath.csr.dat_r)),
"""), ("top.py", "from amaranth import ", "from amaranth import Mux, "),
    ("top.py", "from .ucodefields import ", "from .ucodefields import CSROp, ")])

ben("interrupt-enable-register", "C11 C07", [
    ("datapath.py", "        prev_csr_adr = Signal.like(self.pub.adr)\n", """        prev_csr_adr = Signal.like(self.pub.adr)
        was_masked = Signal(init=1)     # not mie.meie
        with m.If((self.pub.ctrl.op == CSROp.WRITE_CSR) & (self.pub.adr == self.MIE)):
            m.d.sync += was_masked.eq(~self.pub.dat_w[11])
"""), ("datapath.py", "            self.pub.mie_r.eq(mie),\n", """            self.pub.mie_r.meie.eq(~was_masked),
"""), ("datapath.py", "        read_buf = Signal(32)\n", "        read_buf = Signal(32)\n        was_masked = Signal(init=1)\n"),
    ("datapath.py", "        was_masked = Signal(init=1)     # not mie.meie\n", "")])


def main():
    args = sys.argv[1:]
    only = None
    if args and args[0] == "--props":
        only = args[1].split(",")
        args = args[2:]
    every = [f"C{k:02d}" for k in range(1, 22)]
    repo, vc = f"/tmp/benrepo{os.getpid()}", f"/tmp/benverif{os.getpid()}"
    subprocess.run(f"cp -a /repo {repo}; mkdir {vc}; cp -a /verif/vlib /verif/tools /verif/known_findings.txt {vc}/",
                   shell=True)
    try:
        for id_, props, edits in B:
            if args and id_ not in args:
                continue
            subprocess.run("git checkout -q -- . && git clean -fdq", shell=True, cwd=repo)
            for f, a, b in edits:
                p = f"{repo}/src/sentinel/{f}"
                s = open(p).read()
                if a not in s:
                    sys.exit(f"{id_}: text not found in {f}: {a[:60]!r}")
                if a.startswith("from amaranth import"):
                    s = s.replace(a, b, 1)
                else:
                    s = s.replace(a, b)
                s = re.sub(r"from amaranth import Mux, (.*\bMux\b)", r"from amaranth import \1", s)
                open(p, "w").write(s)
            for q in only or ([x for x in every] if props == "all" else props.split()):
                t = time.time()
                r = subprocess.run(["python3-vt", "vlib/check.py", q], cwd=vc, capture_output=True, text=True,
                                   env=dict(os.environ, SENTINEL_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
                tail = [x for x in r.stdout.splitlines() if x.startswith(("VIOL", "UNDEC", "OK", "note"))]
                print(f"{'ok ' if r.returncode == 0 else 'BAD'} {id_} {q} exit={r.returncode} {time.time()-t:.0f}s "
                      f"{' | '.join(x[:200] for x in tail[:3]) if r.returncode else ''}"
                      + ("" if r.returncode in (0, 1) else r.stderr[-400:]), flush=True)
    finally:
        shutil.rmtree(repo)
        shutil.rmtree(vc)


if __name__ == "__main__":
    main()
