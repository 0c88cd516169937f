"""Planted bugs, third batch (Python sources only)."""
BUGS = []


def bug(id_, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id_, property=prop, edits=[("src/sentinel/" + f, a, b) for f, a, b in edits],
                     demo="from simdemo import *\n" + demo, needs=needs, breaks=breaks))


bug("c04-lw-mod2", "C04", [("exception.py", """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |
                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      ((self.src.alu_lo[0] == 1) |
                       (self.src.alu_lo[1] == 1)))):""", """        with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |
                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      ((self.src.alu_lo[0] == 1) |
                       (self.src.alu_lo == 3)))):""")], """
h = [csr(MCAUSE, 0, 2, 5), sw(5, 0, 0x400), HALT]
for a, c in ((0x501, 4), (0x503, 4), (0x502, 4)):
    p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(2, a) + [lw(3, 2, 0), HALT]
    res = run({0: p, 0x80: h}, 600)
    expect(f"mcause of lw at {a:#x}", [d for _, _, d in res.stores], [c])
ok()
""", "LW at an address that is 2 modulo 4", "the misaligned load completes with data from the aligned word instead of trapping")

bug("c13-transfer-timeout", "C13", [("top.py", """        irq = Signal()
""", """        irq = Signal()
        wait_cnt = Signal(8)
        with m.If(self.bus.cyc & ~self.bus.ack):
            m.d.sync += wait_cnt.eq(wait_cnt + 1)
        with m.Else():
            m.d.sync += wait_cnt.eq(0)
"""), ("top.py", """            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),""", """            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard &
                            (wait_cnt != 255)),""")], """
p = li(1, 0x500) + [lw(2, 1, 0), sw(2, 0, 0x400), HALT]
for w in (1, 3, 200, 300):
    res = run({0: p, 0x500: []}, 6000, waits=lambda n, adr, we: w if adr == 0x500 else 1)
    last = None
    for cyc, stb, we, adr, sel, dat, ack in res.cycles:
        if last:
            expect(f"STB while waiting ({w} cycles)", stb, 1)
        last = cyc and not ack
ok()
""", "a slave that takes more than 255 cycles to acknowledge", "STB drops for a cycle in the middle of an unacknowledged transfer")

bug("c13-spurious-ack-keeps-sel", "C13", [("align.py", """                with m.If(self.latched_adr[1] == 0):
                            m.d.comb += self.wb_sel.eq(3)""", "")], "", "", "")
BUGS.pop()

bug("c15-csrrci-zero-hangs", "C15", [("control.py", """                with m.Elif((csr_op == Insn.CSR.RCI) & (src_a == 0)):
                    m.d.sync += self.requested_op.eq(0x28)  # csrrci, no write
""", "")], """
for f3, imm in ((6, 0), (7, 3), (3, 0), (7, 0)):
    p = li(1, 0x77) + [csr(MSCRATCH, 1, 1, 0), csr(MSCRATCH, imm, f3, 2), sw(2, 0, 0x400), HALT]
    expect(f"rd of CSR op {f3} with operand {imm}", run(p, 400).word(0x400), 0x77)
ok()
""", "CSRRCI with a zero immediate", "the microcode dispatch jumps to itself: the instruction never completes")

bug("c16-csrrsi-zero-slow", "C16", [("control.py", """                with m.Elif((csr_op == Insn.CSR.RSI) & (src_a == 0)):
                    m.d.sync += self.requested_op.eq(0x28)  # csrrsi, no write
                with m.Elif((csr_op == Insn.CSR.RSI) & (src_a != 0)):
""", """                with m.Elif(csr_op == Insn.CSR.RSI):
""")], """
def cpi(w):
    res = run([addi(1, 0, 5), w, NOP, HALT], 200)
    d = dict((a, k) for k, a in reversed(res.fetches))
    return d[8] - d[4]
expect("csrr mscratch", cpi(csr(MSCRATCH, 0, 2, 5)), 7)
expect("csrrci mscratch, 0", cpi(csr(MSCRATCH, 0, 7, 5)), 7)
expect("csrrsi mscratch, 0", cpi(csr(MSCRATCH, 0, 6, 5)), 7)
ok()
""", "CSRRSI with a zero immediate", "the instruction takes the read-modify-write path and needs more cycles than documented")

FT = '''
import sys
from sentinel.formal import FormalTop


def retire(prog, cycles=400, irq=None):
    """Retirements reported on the RVFI port: dicts of the fields."""
    from amaranth.hdl import Module, ClockDomain
    from amaranth.sim import Simulator
    top = FormalTop()
    m = Module()
    m.domains.sync = ClockDomain()
    m.submodules.top = top
    sim = Simulator(m)
    sim.add_clock(1e-6)
    out = []
    mem = {}
    for a, ws in (prog if isinstance(prog, dict) else {0: prog}).items():
        for k, w in enumerate(ws):
            mem[a + 4 * k] = w & 0xffffffff

    async def tb(ctx):
        age = 0
        for k in range(cycles):
            req = ctx.get(top.bus.cyc) and ctx.get(top.bus.stb)
            ack = int(bool(req) and age >= 1)
            age = age + 1 if req and not ack else 0
            adr, we = ctx.get(top.bus.adr) << 2, ctx.get(top.bus.we)
            if ack and we:
                mem[adr] = ctx.get(top.bus.dat_w)
            ctx.set(top.irq, int(bool(irq and irq(k))))
            ctx.set(top.bus.ack, ack)
            ctx.set(top.bus.dat_r, mem.get(adr, 0) if ack and not we else 0xdeadbeef)
            if ctx.get(top.rvfi.valid):
                d = {n: ctx.get(getattr(top.rvfi, n)) for n in (
                    "order", "insn", "trap", "intr", "rs1_addr", "rs2_addr", "rs1_rdata", "rs2_rdata", "rd_addr",
                    "rd_wdata", "pc_rdata", "pc_wdata", "mem_addr", "mem_rmask", "mem_wmask", "mem_rdata",
                    "mem_wdata")}
                for c in ("mscratch", "mcause", "mip", "mie", "mstatus", "mtvec", "mepc"):
                    for f in ("rdata", "wdata"):
                        v = getattr(getattr(top.rvfi.csr, c), f)
                        d[c + "_" + f] = ctx.get(v)
                out.append(d)
            await ctx.tick()
    sim.add_testbench(tb)
    sim.run()
    return out
'''

bug("c17-irq-resampled", "C17", [("formal.py", "        m.d.comb += self.cpu.irq.eq(self.irq)\n",
                                  "        m.d.sync += self.cpu.irq.eq(self.irq)\n")], FT + """
from sentinel.top import Top
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0)] + li(2, 0x800) + [csr(MIE, 2, 1, 0), csr(MSTATUS, 8, 6, 0)] + [NOP] * 12 + [HALT]
prog = {0: p, 0x80: [HALT]}
for at in range(20, 120):
    irq = lambda k, res=None: k >= at
    a = [(c[0], c[3]) for c in run(prog, 200, irq=irq).cycles]
    b = [(c[0], c[3]) for c in run(prog, 200, irq=irq, top=FormalTop()).cycles]
    expect(f"bus of the wrapped CPU (line rises in cycle {at})", b, a)
ok()
""", "an interrupt line that rises exactly in the cycle of an instruction's dispatch",
    "the CPU inside the wrapper takes the interrupt one instruction later than the plain CPU")

bug("c17-formal-x0-write", "C17", [("datapath.py", """                    w_port.en.eq(self.pub.ctrl.reg_write &
                                 (self.pub.adr_w != 0 |
                                  self.pub.ctrl.allow_zero_wr))
""", """                    w_port.en.eq(self.pub.ctrl.reg_write &
                                 (self.pub.adr_w != 0 |
                                  self.pub.ctrl.allow_zero_wr |
                                  (self.pub.adr_r.all() if self.formal
                                   else 0)))
""")], FT + """
for w in (addi(0, 0, 5), addi(1, 0, 9), r(0, 2, 1, 0, 0), lw(0, 0, 0x400)):
    p = li(1, 0x111) + li(31, 0x444) + [w, addi(5, 31, 0), sw(0, 0, 0x400), sw(1, 0, 0x404), w, r(0, 31, 31, 0, 6),
                                        sw(0, 0, 0x408), HALT]
    a = [c[:6] for c in run(p, 300).cycles]
    b = [c[:6] for c in run(p, 300, top=FormalTop()).cycles]
    expect(f"bus of the wrapped CPU ({w:#010x})", b, a)
ok()
""", "a write to x0 or x1 in the cycle in which the next instruction reads register 31",
    "the CPU built for the wrapper writes x0 and loses a write to x1, the plain one does not")

bug("c18-rs1-not-transparent", "C18", [("formal.py",
    "        rs1_port = self.cpu.datapath.regfile.mem.read_port(transparent_for=(w_port,))  # noqa: E501\n",
    "        rs1_port = self.cpu.datapath.regfile.mem.read_port()\n")], FT + """
p = [addi(1, 0, 5), addi(2, 0, 7), NOP, addi(3, 1, 0), addi(4, 3, 1), r(0, 4, 3, 0, 5), HALT]
got = {d["pc_rdata"]: d["rs1_rdata"] for d in retire(p, 120)}
expect("rs1_rdata", [got[k] for k in (12, 16, 20)], [5, 5, 5])
ok()
""", "an instruction that reads, as rs1, the register its predecessor writes in its last cycle",
    "rs1_rdata is the register's value before the preceding instruction")

bug("c18-trap-intr-lost", "C18", [("formal.py", """            with m.Elif(self.rvfi.trap):
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(1),
                ]""", """            with m.Elif(self.rvfi.trap):
                m.d.comb += self.rvfi.valid.eq(~self.rvfi.intr)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(1),
                ]""")], FT + """
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), ECALL, HALT]
h = [ECALL, HALT]
got = [(d["order"], d["pc_rdata"]) for d in retire({0: p, 0x80: h}, 120)][:5]
expect("retirements", got, [(0, 0), (1, 4), (2, 8), (3, 12), (4, 0x80)])
ok()
""", "a trap handler whose first instruction traps", "the second trap is not reported as a retirement")

bug("c18-store-trap-mask", "C18", [("formal.py", """            m.d.sync += [
                self.rvfi.mem_rmask.eq(0),
                self.rvfi.mem_wmask.eq(0)
            ]

        with m.If(just_committed_to_insn):""", """            with m.If(~self.rvfi.trap):
                m.d.sync += [
                    self.rvfi.mem_rmask.eq(0),
                    self.rvfi.mem_wmask.eq(0)
                ]

        with m.If(just_committed_to_insn):""")], "", "", "")
BUGS.pop()

bug("c18-jalr-pc-wdata", "C18", [("formal.py", """                self.rvfi.pc_wdata.eq(self.cpu.datapath.pc.dat_r << 2)
            ]""", """                self.rvfi.pc_wdata.eq(Mux(self.rvfi.mem_wmask != 0,
                                          self.rvfi.pc_rdata + 4,
                                          self.cpu.datapath.pc.dat_r << 2))
            ]""")], "", "", "")
BUGS.pop()

bug("c18-fence-rd", "C18", [("decode.py", """                ~((self.opcode == OpcodeType.BRANCH) |
                  (self.opcode == OpcodeType.MISC_MEM) |
                  (self.opcode == OpcodeType.STORE)))""", """                ~((self.opcode == OpcodeType.BRANCH) |
                  ((self.opcode == OpcodeType.MISC_MEM) & (insn.rs1 == 0)) |
                  (self.opcode == OpcodeType.STORE)))""")], FT + """
for w in (0x0ff0000f, 0x0000000f, 0x0ff0028f, 0x0ff1028f):
    got = retire([NOP, w, NOP, HALT], 60)
    expect(f"rd_addr of {w:#010x}", [d["rd_addr"] for d in got if d["insn"] == w], [0])
ok()
""", "a FENCE whose unused rs1 and rd fields are nonzero", "the retirement claims a destination register")

bug("c18-mem-data-latch", "C18", [("formal.py", """        with m.If(~self.cpu.control.mem.insn_fetch & self.cpu.control.mem.req &
                  self.cpu.bus.ack):""", """        with m.If(~self.cpu.control.mem.insn_fetch & self.cpu.control.mem.req &
                  (self.cpu.bus.ack | self.cpu.bus.we)):""")], "", "", "")
BUGS.pop()

bug("c21-mepc-read-through", "C21", [("formal.py", """                        mepc_hold_rd.eq(1)
                    ]
                    m.d.comb += mepc_port.en.eq(0)
""", """                        mepc_hold_rd.eq(1)
                    ]
""")], FT + """
p = li(1, 0x1234) + [csr(MSCRATCH, 1, 1, 0), csr(MSCRATCH, 0, 1, 0), csr(MEPC, 1, 1, 0), csr(MEPC, 0, 1, 0), HALT]
got = retire(p, 120)
expect("mscratch rdata", [d["mscratch_rdata"] for d in got][2:4], [0, 0x1234])
expect("mepc rdata", [d["mepc_rdata"] for d in got][4:6], [0, 0x1234])
ok()
""", "an instruction or trap that changes mepc", "the mepc port shows the new value as the value before the instruction")

bug("c21-mie-imm-wdata", "C21", [("formal.py", """                with m.Case(CSRFile.MIE):
                    m.d.sync += [
                        self.rvfi.csr.mie.wdata.eq(
                            self.cpu.datapath.csr.dat_w),""", """                with m.Case(CSRFile.MIE):
                    m.d.sync += [
                        self.rvfi.csr.mie.wdata.eq(
                            Mux(csr_rs1_zero, self.rvfi.csr.mie.rdata,
                                self.cpu.datapath.csr.dat_w)),"""),
    ("formal.py", """        # Holding state is reset on an insn-by-insn basis.
""", """        csr_rs1_zero = Signal(1)
        m.d.comb += csr_rs1_zero.eq(self.rvfi.rs1_addr == 0)

        # Holding state is reset on an insn-by-insn basis.
""")], FT + """
p = li(1, 0x800) + [csr(MIE, 1, 1, 0), csr(MIE, 0, 1, 0), HALT]
got = retire(p, 120)
expect("mie wdata", [d["mie_wdata"] & 0x800 for d in got][2:4], [0x800, 0])
ok()
""", "a CSRRW to mie with rs1=x0 (a write of zero)", "the mie port reports the old value as written")

bug("c21-mstatus-hold", "C21", [("formal.py", """                mie_hold_rd.eq(0),
                mstatus_hold_rd.eq(0)
            ]""", """                mie_hold_rd.eq(0),
                mstatus_hold_rd.eq(self.rvfi.trap)
            ]""")], FT + """
p = li(1, 0x80) + [csr(MTVEC, 1, 1, 0), csr(MSTATUS, 8, 5, 0), ECALL, HALT]
h = [NOP, csr(MSTATUS, 8, 5, 0), HALT]
got = {d["pc_rdata"]: d for d in retire({0: p, 0x80: h}, 200)}
expect("mstatus rdata of the first handler instruction", got[0x80]["mstatus_rdata"] & 0x88, 0x80)
ok()
""", "the first instruction of a trap handler", "the mstatus port still shows the value from before the trap")

UC = '''
import enum
import io
from amaranth import signed, unsigned
from sentinel.ucoderom import UCodeROM


def layout(fields, fmap):
    src = "space block_ram: width 32, size 8;\\nspace block_ram;\\norigin 0;\\n"
    src += "fields block_ram: {" + " ".join(fields) + "};\\n" + "".join(f"f{k} => 1;\\n" for k in range(1))
    rom = UCodeROM(main_file=io.StringIO(src), field_map=fmap)
    from amaranth.hdl import Fragment
    Fragment.get(rom, None)
    return {n: (f.offset, f.width) for n, f in rom.field_layout}


def error(fields, fmap):
    try:
        layout(fields, fmap)
    except ValueError:
        return "ValueError"
    return None
'''

bug("c19-wider-declared-shape", "C19", [("ucoderom.py", "        if ss_width != f_width:", "        if ss_width < f_width:")], UC + '''
expect("widths", layout(["f0: width 3, origin 0, default 0;", "f1: width 4, origin 3, default 0;"],
                        dict(f0=unsigned(3), f1=unsigned(4))), dict(f0=(0, 3), f1=(3, 4)))
expect("narrower shape", error(["f0: width 3, origin 0, default 0;", "f1: width 4, origin 3, default 0;"],
                               dict(f0=unsigned(2), f1=unsigned(4))), "ValueError")
expect("wider shape", error(["f0: width 3, origin 0, default 0;", "f1: width 4, origin 3, default 0;"],
                            dict(f0=unsigned(5), f1=unsigned(4))), "ValueError")
ok()
''', "a field declared wider in the Amaranth source than in the microcode", "the mismatch is accepted and every later field is displaced")

bug("c19-enum-width-unchecked", "C19", [("ucoderom.py", "        if se_width != f_width:", "        if se_width > f_width:")], UC + '''
E3 = enum.Enum("E3", dict(A=0, B=1, C=2))
f = ["f0: enum { a = 0; b = 1; c = 2; }, width WW, origin 0, default a;", "f1: width 4, origin WW, default 0;"]
expect("same width", layout([x.replace("WW", "2") for x in f], dict(f0=E3, f1=unsigned(4))), dict(f0=(0, 2), f1=(2, 4)))
expect("wider microcode field", error([x.replace("WW", "4") for x in f], dict(f0=E3, f1=unsigned(4))), "ValueError")
ok()
''', "an enumeration field given an explicit width larger than its members need",
    "the mismatch is accepted and the enumeration field is narrower than the assembler's")

bug("c19-bool-enum-any", "C19", [("ucoderom.py", 'if curr_f.enum and curr_f.enum != {"false": 0, "true": 1}:',
                                  'if curr_f.enum and set(curr_f.enum) != {"false", "true"}:')], UC + '''
B2 = enum.Enum("B2", dict(FALSE=0, TRUE=1))
B3 = enum.Enum("B3", dict(FALSE=1, TRUE=0))
f = ["f0: enum { false = 0; true = 1; }, width 1, origin 0, default false;"]
expect("declared", layout(f, dict(f0=unsigned(1))), dict(f0=(0, 1)))
f = ["f0: enum { false = 1; true = 0; }, width 1, origin 0, default false;"]
expect("inverted members, same declaration", layout(f, dict(f0=B3)), dict(f0=(0, 1)))
expect("inverted members, plain declaration", error(f, dict(f0=B2)), "ValueError")
ok()
''', "an enumeration whose members are called false and true but have other values",
    "the value mismatch is not reported")

bug("c20-mux-csr-imm", "C20", [("datapath.py", """            with m.Case(RegWSel.ZERO):
                m.d.comb += [
                    self.reg_w_adr.eq(0),
                    self.allow_zero_wr.eq(1)
                ]

""", """            with m.Case(RegWSel.ZERO):
                m.d.comb += [
                    self.reg_w_adr.eq(0),
                    self.allow_zero_wr.eq(~self.insn_fetch)
                ]

""")], """
from sentinel.datapath import DataPathSrcMux
from sentinel.ucodefields import RegWSel
from amaranth.sim import Simulator
mux = DataPathSrcMux()
sim = Simulator(mux)


async def tb(ctx):
    for f in (0, 1):
        ctx.set(mux.insn_fetch, f)
        ctx.set(mux.reg_w_sel, RegWSel.ZERO)
        await ctx.delay(1e-6)
        expect(f"allow_zero_wr, insn_fetch={f}", ctx.get(mux.allow_zero_wr), 1)
        expect("reg_w_adr", ctx.get(mux.reg_w_adr), 0)
sim.add_testbench(tb)
sim.run()
ok()
""", "the x0 write selection together with an instruction fetch", "the stand-alone multiplexer withdraws the permission to write x0")

bug("c20-mux-rs2-unreg", "C20", [("datapath.py", """            with m.Case(RegRSel.INSN_RS1):
                with m.If(self.insn_fetch):
                    m.d.comb += self.reg_r_adr.eq(self.src_a_unreg)
                with m.Else():
                    m.d.comb += self.reg_r_adr.eq(self.src_a)
            with m.Case(RegRSel.INSN_RS2):
                m.d.comb += self.reg_r_adr.eq(self.src_b)
""", """            with m.Case(RegRSel.INSN_RS1):
                with m.If(self.insn_fetch & (self.src_a_unreg != 0)):
                    m.d.comb += self.reg_r_adr.eq(self.src_a_unreg)
                with m.Else():
                    m.d.comb += self.reg_r_adr.eq(self.src_a)
            with m.Case(RegRSel.INSN_RS2):
                m.d.comb += self.reg_r_adr.eq(self.src_b)
""")], """
from sentinel.datapath import DataPathSrcMux
from amaranth.sim import Simulator
mux = DataPathSrcMux()
sim = Simulator(mux)


async def tb(ctx):
    for f, u, a, want in ((0, 3, 4, 4), (1, 3, 4, 3), (1, 31, 0, 31), (1, 0, 4, 0)):
        ctx.set(mux.insn_fetch, f)
        ctx.set(mux.src_a_unreg, u)
        ctx.set(mux.src_a, a)
        await ctx.delay(1e-6)
        expect(f"reg_r_adr fetch={f} unregistered={u} registered={a}", ctx.get(mux.reg_r_adr), want)
sim.add_testbench(tb)
sim.run()
ok()
""", "an instruction fetch whose incoming rs1 field is x0", "the multiplexer addresses the previous instruction's rs1")
