"""Planted bugs, fourth batch (Python sources only)."""
from bugs3 import FT, bug as _bug, BUGS as _old
BUGS = []


def bug(id_, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id_, property=prop, edits=[("src/sentinel/" + f, a, b) for f, a, b in edits],
                     demo="from simdemo import *\n" + demo, needs=needs, breaks=breaks))


bug("c18-irq-not-trap", "C18", [("formal.py", """        with m.If(self.cpu.rvfi.exception):
            m.d.sync += [
                self.rvfi.trap.eq(1),""", """        with m.If(self.cpu.rvfi.exception):
            m.d.sync += [
                self.rvfi.trap.eq(
                    ~(self.cpu.irq & self.cpu.datapath.csr.mstatus_r.mie)),""")], FT + """
MTVEC_H = 0x80
p = li(1, MTVEC_H) + [csr(MTVEC, 1, 1, 0)] + li(2, 0x800) + [csr(MIE, 2, 1, 0), csr(MSTATUS, 8, 6, 0), NOP, NOP, NOP, HALT]
h = [csr(MCAUSE, 0, 2, 5), HALT]
got = retire({0: p, MTVEC_H: h}, 400, irq=lambda k: True)
first = [k for k, d in enumerate(got) if d["pc_rdata"] == MTVEC_H][0]
expect("first handler instruction marked intr", got[first]["intr"], 1)
expect("interrupted retirement marked trap", got[first - 1]["trap"], 1)
ok()
""", "an interrupt that is taken", "the interrupted retirement is not marked, and the handler's first instruction has intr=0")

bug("c21-zero-csrrs", "C21", [("formal.py", """                        # csrrw/csrrs
                        if hiword:
                            m.d.sync += rvfi_csr.wdata[32:].eq(self.rvfi.rs1_rdata)  # noqa: E501""",
                                """                        # csrrw/csrrs
                        if hiword:
                            m.d.sync += rvfi_csr.wdata[32:].eq(self.rvfi.rs1_rdata[:16])  # noqa: E501""")], FT + """
ADDR = dict(mcycle=0xB80, minstret=0xB82, mhpmcounter3=0xB83)
import sentinel.formal
seen = {}


def snoop(prog, name, cycles=200):
    from amaranth.hdl import Module, ClockDomain
    from amaranth.sim import Simulator
    top = FormalTop()
    m = Module()
    m.domains.sync = ClockDomain()
    m.submodules.top = top
    sim = Simulator(m)
    sim.add_clock(1e-6)
    mem = {4 * k: w & 0xffffffff for k, w in enumerate(prog)}
    out = {}

    async def tb(ctx):
        age = 0
        for k in range(cycles):
            req = ctx.get(top.bus.cyc) and ctx.get(top.bus.stb)
            ack = int(bool(req) and age >= 1)
            age = age + 1 if req and not ack else 0
            ctx.set(top.bus.ack, ack)
            ctx.set(top.bus.dat_r, mem.get(ctx.get(top.bus.adr) << 2, 0))
            if ctx.get(top.rvfi.valid):
                out[ctx.get(top.rvfi.pc_rdata)] = (ctx.get(getattr(top.rvfi.csr, name).wdata),
                                                   ctx.get(getattr(top.rvfi.csr, name).wmask))
            await ctx.tick()
    sim.add_testbench(tb)
    sim.run()
    return out


for n, a in ADDR.items():
    p = li(1, 0x12345678) + [csr(a, 1, 2, 3), HALT]
    got = snoop(p, n)[8]
    expect(n + " write data, upper half", got[0] >> 32, 0x12345678)
    expect(n + " write mask", got[1], 0xffffffff00000000)
ok()
""", "a CSRRS/CSRRW to the upper half of a counter with a value above 16 bits", "the port's write data is truncated")
