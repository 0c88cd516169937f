from bugs1 import *
import bugs1
bugs1.BUGS = BUGS = []

bug = lambda id, prop, edits, demo, needs, breaks, **k: BUGS.append(
    dict(id=id, property=prop, edits=[(S + f, a, b) for f, a, b in edits], demo=H + demo, needs=needs, breaks=breaks, **k))

bug("c03-branch-imm-bit11", "C03", [("insn.py", "self.raw[25:31], self.raw[7],\n                       Value.replicate(self.sign, 20))",
    "self.raw[25:31], self.sign,\n                       Value.replicate(self.sign, 20))")], """
def trial(off):
    at = 0x1000
    p = {0: [jal(at)], at: [b(off, 0, 0, 0), HALT], at + off: [addi(1, 0, 7), sw(1, 0, 0x300), HALT]}
    if abs(off) < 16:
        p = {0: [jal(at)], at: [b(off, 0, 0, 0), HALT, addi(1, 0, 7), sw(1, 0, 0x300), HALT]}
    return run(p, 400).word(0x300)
expect("beq +8", trial(8), 7)
expect("beq -0x400", trial(-0x400), 7)
expect("beq +0x900", trial(0x900), 7)
expect("beq -0x900", trial(-0x900), 7)
ok()
""", "a taken branch over more than 2 KiB", "bit 11 of the branch offset is taken from the sign")

bug("c03-jalr-misaligned-mepc", "C03", [("microcode.asm",
    "      latch_a => 1, latch_b => 1, a_src => four, b_src => pc, except_ctl => latch_jal, \\\n"
    "        jmp_type => direct, cond_test => exception, target => save_pc;\n"
    "      pc_action => load_alu_o;\n      INSN_FETCH, alu_op => add, JUMP_TO_OP_END(fast_epilog);\n\nsb:",
    "      latch_a => 1, latch_b => 1, a_src => four, b_src => pc, except_ctl => latch_jal, \\\n"
    "        pc_action => load_alu_o, jmp_type => direct, cond_test => exception, target => save_pc;\n"
    "      NOP;\n      INSN_FETCH, alu_op => add, JUMP_TO_OP_END(fast_epilog);\n\nsb:")], """
h = [csr(MEPC, 0, 2, 5), sw(5, 0, 0x400), csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x404), HALT]
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), addi(2, 0, 0x102), i(0, 2, 0, 3, 0x67), HALT]
res = run({0: p, 0x80: h}, 600)
expect("cause", res.word(0x404), 0)
expect("mepc of a misaligned jalr", res.word(0x400), 16)
p = li(1, 0x80) + [addi(2, 0, 0x40), i(1, 2, 0, 3, 0x67)]
res = run({0: p, 0x40: [sw(3, 0, 0x400), HALT]}, 600)
expect("link", res.word(0x400), 16)
ok()
""", "a JALR to a target that is 2 mod 4", "mepc holds the target instead of the address of the jump")

bug("c06-mscratch-sets-mstatus", "C06", [("datapath.py",
    "        with m.If(self.pub.ctrl.op == CSROp.WRITE_CSR):\n            with m.If(self.pub.adr == self.MSTATUS):",
    "        with m.If(self.pub.ctrl.op == CSROp.WRITE_CSR):\n            with m.If(self.pub.adr[0:3] == self.MSTATUS):")], """
p = li(1, 0x12345688) + [csr(MSCRATCH, 1, 1, 0), csr(MSTATUS, 0, 2, 5), sw(5, 0, 0x400), csr(MSCRATCH, 0, 2, 5), sw(5, 0, 0x404), HALT]
res = run(p, 400)
expect("mscratch", res.word(0x404), 0x12345688)
expect("mstatus after a write to mscratch", res.word(0x400), 0x1800)
ok()
""", "a write to mscratch with bit 3 or 7 set", "the write also changes mstatus.MIE/MPIE")

bug("c10-mpie-always-one", "C10", [("datapath.py", "                mstatus.mpie.eq(mstatus.mie),\n                mstatus.mie.eq(0)",
    "                mstatus.mpie.eq(1),\n                mstatus.mie.eq(0)")], """
def trial(en):
    h = [csr(MSTATUS, 0, 2, 5), sw(5, 0, 0x400), HALT]
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), csr(MSTATUS, 8 * en, 5, 0), ECALL, HALT]
    return run({0: p, 0x80: h}, 600).word(0x400)
expect("mstatus in the handler, MIE was 1", trial(1), 0x1880)
expect("mstatus in the handler, MIE was 0", trial(0), 0x1800)
ok()
""", "an exception taken while interrupts are disabled", "MPIE becomes 1, so the MRET of the handler enables interrupts")

bug("c11-registered-irq", "C11", [("datapath.py", "m.d.comb += mip.meip.eq(self.pub.mip_w.meip)",
    "m.d.sync += mip.meip.eq(self.pub.mip_w.meip)")], """
# a one-cycle pulse in the dispatch cycle (the cycle after the fetch acknowledge) of a chosen NOP
h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), csr(MEPC, 0, 2, 6), sw(6, 0, 0x404), HALT]
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(2, 0x800) + [csr(MIE, 2, 1, 0), csr(MSTATUS, 8, 6, 0), NOP, NOP, HALT]
at = 4 * 7
def dispatch(k, res):
    return any(a == at and c == k - 1 for c, a in res.fetches)
def fetchack(k, res):
    return k + 1 in [c for c, a in ref.fetches if a == at]
ref = run({0: p, 0x80: h}, 800)
res = run({0: p, 0x80: h}, 800, irq=dispatch)
expect("cause (line high during the dispatch cycle only)", res.word(0x400), 0x8000000b)
expect("mepc", res.word(0x404), at)
ok()
""", "an interrupt line that is high only in the cycle in which an instruction is dispatched",
    "the interrupt is decided on the previous cycle's value of the line")

bug("c14-meie-survives", "C14", [("datapath.py", "mie = Signal(MIE)", "mie = Signal(MIE, reset_less=True)")], """
p = li(2, 0x800) + [csr(MIE, 0, 2, 5), sw(5, 0, 0x400), csr(MIE, 2, 1, 0), HALT]
expect("mie", run(p, 300).word(0x400), 0)
res = run(p, 600, rst=lambda k, res: 200 <= k < 203)
expect("stores", len(res.stores), 2)
expect("mie as first read after reset", res.stores[1][2], 0)
ok()
""", "reset after software has set mie.MEIE", "MEIE is not cleared by reset")

bug("c15-srli-zero-loops", "C15", [("microcode.asm",
    "              READ_RS1, a_src => imm, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,\n"
    "                  jmp_type => direct, cond_test => cmp_alu_o_zero, target => shift_zero;",
    "              READ_RS1, a_src => imm, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl;")], """
for n in (1, 5, 31, 0):
    p = li(1, 0x80000000) + [i(n, 1, 5, 2), sw(2, 0, 0x400), HALT]
    expect(f"srli by {n}", run(p, 1500).word(0x400), 0x80000000 >> n)
ok()
""", "SRLI with shift amount 0", "the shift loop counts down from 0 through 2^32: the CPU stops responding for 8 billion cycles")

bug("c16-sltiu-late-fetch", "C16", [("microcode.asm",
    "sltiu:        alu_op => cmp_ltu, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);",
    "sltiu:        alu_op => cmp_ltu, JUMP_TO_OP_END(fast_epilog);")], """
def cpi(w):
    res = run([addi(1, 0, 5), w, NOP, HALT], 200)
    d = dict((a, k) for k, a in reversed(res.fetches))
    return d[8] - d[4]
expect("slti", cpi(i(1, 1, 2, 3)), 4)
expect("sltiu", cpi(i(1, 1, 3, 3)), 4)
ok()
""", "a program that depends on the documented count of SLTIU", "SLTIU takes one cycle more than documented")

bug("c06-csrrs-clobbers-x0", "C06", [("datapath.py",
    "                    w_port.addr.eq(Cat(self.priv.adr, 1)),\n                    w_port.data.eq(self.priv.dat_w),\n                    w_port.en.eq(1)",
    "                    w_port.addr.eq(Cat(self.priv.adr, self.priv.adr[2:4].any())),\n                    w_port.data.eq(self.priv.dat_w),\n                    w_port.en.eq(1)")], """
p = li(1, 0x1888) + [csr(MSCRATCH, 1, 1, 0), csr(MSTATUS, 1, 1, 0), sw(0, 0, 0x400), csr(MSTATUS, 0, 2, 5), sw(5, 0, 0x404), HALT]
res = run(p, 400)
expect("mstatus", res.word(0x404), 0x1888)
expect("x0 after csrw mstatus", [d for a, s_, d in res.stores if a == 0x400], [0])
ok()
""", "a write to mstatus (the only CSR at offset 0)", "the RAM copy of mstatus lands on slot 0 of the register file: x0 becomes nonzero")
