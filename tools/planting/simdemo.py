"""Run machine code on the Sentinel core of the current directory's src tree (Amaranth's simulator) and
record what happens on its Wishbone bus.  Only top.bus, top.irq and the reset are used."""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "stubs"))
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
if "/opt/venv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/venv/lib/python3.12/site-packages")


# ---- a very small assembler ----
def r(f7, rs2, rs1, f3, rd, op=0x33):
    return f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op


def i(imm, rs1, f3, rd, op=0x13):
    return (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op


def s(imm, rs2, rs1, f3):
    imm &= 0xfff
    return imm >> 5 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | 0x23


def b(imm, rs2, rs1, f3):
    imm &= 0x1fff
    return (imm >> 12 & 1) << 31 | (imm >> 5 & 63) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | \
        (imm >> 1 & 15) << 8 | (imm >> 11 & 1) << 7 | 0x63


def jal(imm, rd=0):
    imm &= 0x1fffff
    return (imm >> 20 & 1) << 31 | (imm >> 1 & 0x3ff) << 21 | (imm >> 11 & 1) << 20 | (imm >> 12 & 255) << 12 | \
        rd << 7 | 0x6f


def lui(v, rd):
    return (v & 0xfffff) << 12 | rd << 7 | 0x37


def addi(rd, rs1, imm):
    return i(imm, rs1, 0, rd)


def li(rd, v):
    v &= 0xffffffff
    hi = (v + 0x800) >> 12
    return [lui(hi, rd), addi(rd, rd, v - (hi << 12))]


def sw(rs2, rs1, imm):
    return s(imm, rs2, rs1, 2)


def lw(rd, rs1, imm):
    return i(imm, rs1, 2, rd, 0x03)


def csr(addr, rs1, f3, rd):
    return i(addr, rs1, f3, rd, 0x73)


MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP = 0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344
MRET, ECALL, EBREAK, WFI, NOP = 0x30200073, 0x73, 0x100073, 0x10500073, 0x13
HALT = 0x6f


class Result:
    def __init__(self):
        self.stores = []      # (byte address of the word, select, data) in order
        self.reads = []       # (byte address of the word, select) of data reads
        self.fetches = []     # (cycle of the acknowledge, address)
        self.cycles = []      # (cyc, stb, we, adr, sel, dat_w, ack) of every cycle
        self.mem = {}

    def word(self, a):
        return self.mem.get(a, 0)


def run(prog, cycles=2000, irq=None, waits=None, rst=None, until=None, top=None):
    """prog: {byte address: [words]} or a list of words at 0.  irq(k, res), rst(k, res) -> bool each cycle;
    waits(n, adr, we) -> cycles without acknowledge at the start of transfer n (at least 1)."""
    from amaranth.hdl import Module, ClockDomain
    from amaranth.sim import Simulator
    from sentinel.top import Top
    if isinstance(prog, list):
        prog = {0: prog}
    res = Result()
    for a, ws in prog.items():
        for k, w in enumerate(ws):
            res.mem[a + 4 * k] = w & 0xffffffff
    top = top or Top()
    m = Module()
    m.domains.sync = cd = ClockDomain()
    m.submodules.top = top
    sim = Simulator(m)
    sim.add_clock(1e-6)

    async def tb(ctx):
        age = n = 0
        for k in range(cycles):
            ctx.set(cd.rst, int(bool(rst and rst(k, res))))
            ctx.set(top.irq, int(bool(irq and irq(k, res))))
            cyc, stb, we = ctx.get(top.bus.cyc), ctx.get(top.bus.stb), ctx.get(top.bus.we)
            adr, sel, dat = ctx.get(top.bus.adr) << 2, ctx.get(top.bus.sel), ctx.get(top.bus.dat_w)
            ack = 0
            if cyc and stb and not (rst and rst(k, res)):
                need = max(1, waits(n, adr, we)) if waits else 1
                if age >= need:
                    ack = 1
                    n += 1
                age += 1
            else:
                age = 0
            if ack:
                age = 0
                if we:
                    mask = sum(0xff << 8 * j for j in range(4) if sel >> j & 1)
                    res.mem[adr] = res.mem.get(adr, 0) & ~mask | dat & mask
                    res.stores.append((adr, sel, dat))
            ctx.set(top.bus.ack, ack)
            ctx.set(top.bus.dat_r, res.mem.get(adr, 0) if ack and not we else 0xdeadbeef)
            res.cycles.append((cyc, stb, we, adr, sel, dat, ack))
            if ack and not we:
                (res.fetches if is_fetch(res, adr, prog) else res.reads).append((k, adr) if is_fetch(
                    res, adr, prog) else (adr, sel))
            if until and until(k, res):
                return
            await ctx.tick()
    sim.add_testbench(tb)
    sim.run()
    return res


def is_fetch(res, adr, prog):
    return any(a <= adr < a + 4 * len(ws) for a, ws in prog.items())


def expect(what, got, want):
    if got != want:
        f = (lambda v: f"{v:#x}" if isinstance(v, int) else repr(v))
        print(f"FAIL: {what}: got {f(got)}, expected {f(want)}")
        sys.exit(1)


def ok():
    print("ok")
    sys.exit(0)
