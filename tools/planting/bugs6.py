"""Planted bugs, sixth batch: combinational paths through the CPU (C25) and others."""
BUGS = []


def bug(id_, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id_, property=prop, edits=[("src/sentinel/" + f, a, b) for f, a, b in edits],
                     demo="from simdemo import *\n" + demo, needs=needs, breaks=breaks))


STEADY = """
from amaranth.sim import Simulator
from sentinel.top import Top
top = Top()
sim = Simulator(top)
sim.add_clock(1e-6)
P = PROG
OUT = ("cyc", "stb", "we", "adr", "sel", "dat_w")


async def tb(ctx):
    age = pos = 0
    for k in range(260):
        def outs():
            return {o: ctx.get(getattr(top.bus, o)) for o in OUT}
        ctx.set(top.bus.ack, 0)
        base = outs()
        req = base["cyc"] and base["stb"]
        for ack in (0, 1):
            for dat in (0, 0xffffffff, 0x12345678):
                for irq in (0, 1):
                    ctx.set(top.bus.ack, ack)
                    ctx.set(top.bus.dat_r, dat)
                    ctx.set(top.irq, irq)
                    expect(f"outputs in cycle {k} with ack={ack} dat_r={dat:#x} irq={irq}", outs(), base)
        ack = int(bool(req and age >= 1))
        a = base["adr"]
        ctx.set(top.irq, 0)
        ctx.set(top.bus.ack, ack)
        ctx.set(top.bus.dat_r, P[a] if a < len(P) else 0)
        await ctx.tick()
        age = age + 1 if req and not ack else 0
sim.add_testbench(tb)
sim.run()
ok()
"""
PROG = STEADY.replace("PROG", "li(1, 0x100) + [addi(2, 0, 77), sw(2, 1, 0), lw(3, 1, 4), i(0, 1, 4, 4, 0x03), s(1, 2, 1, 0), HALT]")

bug("c25-dat-w-mirrors", "C25", [("top.py", "            self.bus.dat_w.eq(write_data),\n",
                                  "            # Park the lanes on the read data when not writing.\n"
                                  "            self.bus.dat_w.eq(Mux(self.control.mem.write, write_data,\n"
                                  "                                  read_data)),\n"),
                                 ("top.py", "from amaranth import ", "from amaranth import Mux, ")],
    PROG, "any cycle that is not a write, seen by a slave that answers combinationally",
    "dat_w follows dat_r within the cycle")

bug("c25-sel-drops-on-ack", "C25", [("top.py", "            self.bus.sel.eq(self.addr_align.wb_sel),\n",
                                     "            # Nothing is selected any more once the access is done.\n"
                                     "            self.bus.sel.eq(Mux(mem_ack & ~self.control.mem.insn_fetch &\n"
                                     "                                ~self.control.mem.write &\n"
                                     "                                (self.control.mem.sel == MemSel.BYTE), 0,\n"
                                     "                                self.addr_align.wb_sel)),\n"),
                                    ("top.py", "from amaranth import ", "from amaranth import Mux, "),
                                    ("top.py", "from .ucodefields import ", "from .ucodefields import MemSel, ")],
    PROG, "the acknowledge cycle of a byte load", "sel follows ack within the cycle")

bug("c25-we-follows-irq", "C25", [("top.py", "            self.bus.we.eq(self.control.mem.write),\n",
                                   "            # Hold off parked writes while the line is high.\n"
                                   "            self.bus.we.eq(self.control.mem.write |\n"
                                   "                           (irq & self.control.mem.latch_data &\n"
                                   "                            ~self.control.mem.req)),\n")],
    PROG, "the interrupt line high in the cycle in which a store latches its data", "we follows irq within the cycle")
