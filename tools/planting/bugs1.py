S = "src/sentinel/"
H = "from simdemo import *\n"
BUGS = []


def bug(id, prop, edits, demo, needs, breaks, **k):
    BUGS.append(dict(id=id, property=prop, edits=[(S + f, a, b) for f, a, b in edits], demo=H + demo,
                     needs=needs, breaks=breaks, **k))


bug("c01-x16-write-lost", "C01", [("datapath.py", "(self.pub.adr_w != 0 |", "(self.pub.adr_w[0:4] != 0 |")], """
p = li(1, 0x12345678) + [addi(16, 0, 0x7a), addi(17, 0, 0x11), sw(16, 0, 0x400), sw(17, 0, 0x404), HALT]
res = run(p, 300)
expect("x16 after addi x16, x0, 0x7a", res.word(0x400), 0x7a)
expect("x17", res.word(0x404), 0x11)
ok()
""", "destination register x16 exactly", "writes to x16 are dropped because only the low four address bits are compared with zero")

bug("c01-sltu-borrow-bit31", "C01", [("alu.py", "self.o_mux.eq(self.sub.o[32])", "self.o_mux.eq(self.sub.o[31])")], """
def sltu(a, b):
    res = run(li(1, a) + li(2, b) + [r(0, 2, 1, 3, 3), sw(3, 0, 0x400), HALT], 300)
    return res.word(0x400)
expect("5 < 9", sltu(5, 9), 1)
expect("9 < 5", sltu(9, 5), 0)
expect("0x90000000 < 5", sltu(0x90000000, 5), 0)
expect("5 < 0x90000000", sltu(5, 0x90000000), 1)
ok()
""", "operands of an unsigned or signed comparison that differ by 2^31 or more",
    "SLT/SLTU/SLTI/SLTIU and the ordered branches use bit 31 of the difference, not the borrow")

bug("c02-sra-loop-logical", "C02", [("microcode.asm",
    "             a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => sra,\n"
    "                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => sra_loop;",
    "             a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => sra,\n"
    "                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => srl_loop;")], """
def sra(a, n):
    return run(li(1, a) + li(2, n) + [r(0x20, 2, 1, 5, 3), sw(3, 0, 0x400), HALT], 600).word(0x400)
expect("sra positive", sra(0x40000000, 4), 0x04000000)
expect("sra 1", sra(0x80000000, 1), 0xc0000000)
expect("sra 3", sra(0x80000000, 3), 0xf0000000)
ok()
""", "SRA (register form) of a negative value by two or more", "only the first shift step keeps the sign")

bug("c02-sll-zero-stale-operand", "C02", [("microcode.asm",
    "             a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,\n"
    "                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => srl_loop;\n"
    "             READ_RS1, jmp_type => direct, target => shift_zero;",
    "             a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,\n"
    "                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => srl_loop;\n"
    "             jmp_type => direct, target => shift_zero;")], """
def srl(a, n):
    return run(li(1, a) + li(2, n) + [r(0, 2, 1, 5, 3), sw(3, 0, 0x400), HALT], 600).word(0x400)
expect("srl 4", srl(0x1230, 4), 0x123)
expect("srl 0", srl(0x1230, 0), 0x1230)
expect("srl 32", srl(0x1230, 32), 0x1230)
ok()
""", "SRL whose shift amount is zero modulo 32", "the zero-amount exit returns rs2 instead of rs1")

bug("c04-lhu-odd-address", "C04", [("microcode.asm",
    "lhu: alu_op => add;\n     latch_adr => 1, except_ctl => latch_load_adr, mem_sel => hword, \\\n"
    "            jmp_type => direct, cond_test => exception, target => save_pc;",
    "lhu: alu_op => add;\n     latch_adr => 1, mem_sel => hword, \\\n"
    "            jmp_type => direct, cond_test => exception, target => save_pc;")], """
def trial(f3, adr):
    h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), HALT]
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(2, adr) + [i(0, 2, f3, 3, 3), sw(3, 0, 0x404), HALT]
    res = run({0: p, 0x80: h, 0x200: [0x8765f321, 0]}, 600)
    return res.word(0x400), res.word(0x404)
expect("lh at an odd address", trial(1, 0x203), (4, 0))
expect("lhu at an even address", trial(5, 0x202), (0, 0x8765))
expect("lhu at an odd address", trial(5, 0x203), (4, 0))
ok()
""", "LHU (not LH, LW) from an odd address", "the misaligned access reads instead of trapping")

bug("c05-sh-upper-lane", "C05", [("align.py", "self.wb_dat_w[16:].eq(self.data[0:16])",
    "self.wb_dat_w[16:].eq(self.data[16:])")], """
p = li(1, 0x1234abcd) + [s(0x400, 1, 0, 1), s(0x406, 1, 0, 1), HALT]
res = run(p, 300)
expect("sh at 0x400", res.word(0x400) & 0xffff, 0xabcd)
expect("sh at 0x406", res.word(0x404) >> 16, 0xabcd)
ok()
""", "SH to an address that is 2 mod 4, with an upper half of rs2 that differs from its lower half", "the upper half of rs2 is stored")

bug("c07-mip-read-keeps-buffer", "C07", [("datapath.py",
    "                m.d.sync += [\n                    read_buf.eq(0),\n                    mip_buf.meip.eq(mip.meip)",
    "                m.d.sync += [\n                    mip_buf.meip.eq(mip.meip)")], """
p = [csr(MIP, 0, 2, 5), sw(5, 0, 0x400), csr(MSTATUS, 0, 2, 6), csr(MIP, 0, 2, 5), sw(5, 0, 0x404), sw(6, 0, 0x408), HALT]
res = run(p, 300)
expect("mip before", res.word(0x400), 0)
expect("mstatus", res.word(0x408) & 0x1800, 0x1800)
expect("mip after an mstatus read", res.word(0x404), 0)
ok()
""", "a read of mip after a read of mstatus (or mie) with bits set, with no other buffered CSR read between",
    "mip returns left-over bits of the previously read CSR")

bug("c07-mepc-low-bits", "C07", [("datapath.py",
    "        with m.If((self.pub.adr == CSRFile.MTVEC) |\n                  (self.pub.adr == CSRFile.MEPC)):",
    "        with m.If((self.pub.adr == CSRFile.MTVEC)):")], """
p = li(1, 0x1237) + [csr(MEPC, 1, 1, 0), csr(MEPC, 0, 2, 5), sw(5, 0, 0x400), csr(MTVEC, 1, 1, 0), csr(MTVEC, 0, 2, 6),
    sw(6, 0, 0x404), HALT]
res = run(p, 400)
expect("mtvec", res.word(0x404), 0x1234)
expect("mepc", res.word(0x400), 0x1234)
ok()
""", "software writes mepc with bit 0 or 1 set and reads it back", "mepc keeps bits that are read-only zero")

bug("c08-mhpmevent31", "C08", [("decode.py", "for i in range(CSRM.MHPMEVENT3, CSRM.MHPMEVENT31 + 1):",
    "for i in range(CSRM.MHPMEVENT3, CSRM.MHPMEVENT31):")], """
def trial(a):
    h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), HALT]
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), csr(a, 0, 2, 3), addi(4, 0, 1), sw(4, 0, 0x404), HALT]
    res = run({0: p, 0x80: h}, 600)
    return res.word(0x400), res.word(0x404)
expect("mhpmevent30", trial(0x33e), (0, 1))
expect("mhpmevent31", trial(0x33f), (0, 1))
ok()
""", "an access to mhpmevent31 (0x33F)", "the last mhpmevent register traps as illegal")

bug("c08-csrrwi-zero-ro-space", "C08", [("decode.py",
    "            with m.Elif(csr_ro_space & ((csr_op == Insn.CSR.RW) |\n"
    "                                        (csr_op == Insn.CSR.RWI) |\n"
    "                                        (src_a != 0))):",
    "            with m.Elif(csr_ro_space & ((csr_op == Insn.CSR.RW) |\n"
    "                                        (src_a != 0))):")], """
def trial(f3, src):
    h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), HALT]
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), csr(0xf14, src, f3, 3), addi(4, 0, 1), sw(4, 0, 0x404), HALT]
    res = run({0: p, 0x80: h}, 600)
    return res.word(0x400), res.word(0x404)
expect("csrr mhartid", trial(2, 0), (0, 1))
expect("csrrw mhartid, x0", trial(1, 0), (2, 0))
expect("csrrwi mhartid, 1", trial(5, 1), (2, 0))
expect("csrrwi mhartid, 0", trial(5, 0), (2, 0))
ok()
""", "CSRRWI with a zero immediate to a CSR in the read-only space", "the write is not reported as illegal")

bug("c09-ebreak-any-rd", "C09", [("decode.py", "with m.Elif(insn.raw == Insn.EBREAK):",
    "with m.Elif(insn.raw[12:] == (Insn.EBREAK >> 12)):")], """
def trial(w):
    h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), HALT]
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), w, HALT]
    return run({0: p, 0x80: h}, 600).word(0x400)
expect("ebreak", trial(EBREAK), 3)
expect("ebreak with rd=5", trial(EBREAK | 5 << 7), 2)
ok()
""", "the word 0x00100073 with a nonzero rd field", "a reserved encoding is reported as a breakpoint")

bug("c05-sw-halfword-offset", "C05", [("exception.py",
    """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |
                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      ((self.src.alu_lo[0] == 1) |
                       (self.src.alu_lo[1] == 1)))):""",
    """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_STORE_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |
                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      (self.src.alu_lo[0] == 1))):""")], """
def trial(adr):
    h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), HALT]
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(2, adr) + [sw(1, 2, 0), HALT]
    res = run({0: p, 0x80: h}, 600)
    return res.word(0x400), [x[0] for x in res.stores]
expect("sw at 0x504", trial(0x504), (0, [0x504]))
expect("sw at 0x505", trial(0x505), (6, [0x400]))
expect("sw at 0x506", trial(0x506), (6, [0x400]))
ok()
""", "SW to an address that is 2 mod 4", "the misaligned store is performed instead of trapping")

bug("c11-illegal-hides-interrupt", "C11", [("exception.py",
    "            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie):",
    "            with m.Elif(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                        self.src.csr.mie.meie):")], """
h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), HALT]
def trial(w, on):
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(2, 0x800) + [csr(MIE, 2, 1, 0), csr(MSTATUS, 8, 6, 0), w, HALT]
    at = 4 * (len(p) - 2)
    return run({0: p, 0x80: h}, 800, irq=lambda k, res: on and any(a == at for _, a in res.fetches)).word(0x400)
expect("illegal, no interrupt", trial(0, False), 2)
expect("nop with interrupt", trial(NOP, True), 0x8000000b)
expect("illegal word with interrupt pending", trial(0, True), 0x8000000b)
ok()
""", "an enabled interrupt pending in the very cycle in which an illegal (or ECALL/EBREAK) instruction is dispatched",
    "the synchronous exception is taken although the interrupt has priority")

bug("c12-mret-mpie", "C12", [("datapath.py", "                mstatus.mie.eq(mstatus.mpie),\n                mstatus.mpie.eq(1)",
    "                mstatus.mie.eq(mstatus.mpie),\n                mstatus.mpie.eq(mstatus.mie)")], """
t = 4 * 6
p = [addi(1, 0, t), csr(MEPC, 1, 1, 0), csr(MSTATUS, 0, 5, 0), MRET, HALT, HALT, csr(MSTATUS, 0, 2, 5), sw(5, 0, 0x400), HALT]
expect("mstatus after mret", run(p, 400).word(0x400), 0x1880)
ok()
""", "software looks at mstatus.MPIE, or executes a second MRET, after an MRET", "MRET leaves MPIE = old MIE instead of 1")

bug("c13-lw-address-drifts", "C13", [("microcode.asm",
    "              cond_test => mem_valid, mem_sel => word, jmp_type => direct, \\\n              target => lw_wait;",
    "              cond_test => mem_valid, mem_sel => word, jmp_type => direct, \\\n              latch_adr => 1, target => lw_wait;")], """
p = li(1, 0x400) + [lw(2, 1, 0), sw(2, 0, 0x500), HALT]
for w in (1, 2, 3, 5, 8):
    res = run({0: p, 0x400: [0x1234]}, 800, waits=lambda n, adr, we: w)
    last = None
    for cyc, stb, we, adr, sel, dat, ack in res.cycles:
        if last is not None:
            expect(f"address during a transfer with {w} wait cycles", adr, last)
        last = adr if cyc and stb and not ack else None
ok()
""", "a load word that waits four or more cycles for its acknowledge", "the address changes while the transfer is outstanding")

bug("c13-sw-back-to-back", "C13", [("microcode.asm",
    "              mem_sel => word, write_mem => 1, jmp_type => direct, target => sw_wait;\n          STOP_MEMREQ_THEN_JUMP_TO_ZERO;",
    "              mem_sel => word, write_mem => 1, jmp_type => direct_zero, target => sw_wait;\n          STOP_MEMREQ_THEN_JUMP_TO_ZERO;")], """
res = run([addi(1, 0, 5), sw(1, 0, 0x400), HALT], 200)
expect("stored", res.word(0x400), 5)
prev = 0
for cyc, stb, we, adr, sel, dat, ack in res.cycles:
    if prev:
        expect("CYC/STB in the cycle after ACK", (cyc, stb), (0, 0))
    prev = ack
ok()
""", "a slave or interconnect that needs CYC/STB to drop after the acknowledge of a word store",
    "the next fetch's request follows an acknowledged store without an idle cycle")

bug("c14-guard-not-reset", "C14", [("top.py", "mem_reset_guard = Signal(init=1)", "mem_reset_guard = Signal(init=1, reset_less=True)")], """
p = [addi(1, 0, 5), lui(0x1, 2), sw(1, 2, 0x10), HALT]
for at in range(10, 60):
    for n in (1, 2):
        res = run(p, at + n + 30, rst=lambda k, res: at <= k < at + n)
        for cyc, stb, we, adr, sel, dat, ack in res.cycles[at + 1:]:
            if cyc and stb:
                expect(f"first request after a reset at cycle {at}: (we, adr, sel)", (we, adr, sel), (0, 0, 15))
                break
ok()
""", "reset asserted while a data transfer's microcode word is in flight", "a stray bus request appears straight after the reset")

bug("c15-sub-funct-mismatch", "C15", [("decode.py",
    "                    with m.If((insn.funct3 == 0) | (insn.funct3 == 5)):\n                        with m.If((insn.funct7 != 0) &\n                                  (insn.funct7 != 0b0100000)):",
    "                    with m.If((insn.funct3 == 0) | (insn.funct3[0])):\n                        with m.If((insn.funct7 != 0) &\n                                  (insn.funct7 != 0b0100000)):")], """
h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), HALT]
for f3 in range(8):
    if f3 in (0, 5):
        continue
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), r(0x20, 2, 1, f3, 3), HALT]
    res = run({0: p, 0x80: h}, 600)
    expect(f"cause of OP funct7=0x20 funct3={f3}", res.word(0x400), 2)
ok()
""", "an OP word with funct7=0x20 and funct3 1, 3 or 7", "a reserved encoding is not trapped: the microcode runs into panic and hangs")

