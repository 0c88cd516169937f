"""Symbolic execution of one RV32I instruction through the elaborated CPU, micro-path by micro-path.

A *boundary* is the state right after the clock edge at which an instruction fetch
is acknowledged.  Everything between two boundaries is executed symbolically:
data registers, register file, instruction word, bus read data, IRQ line and ack
timing are symbolic; the microcode ROM address is concretised (the solver lists
its feasible values) so that every path is a straight line.  Wait states are
unbounded: a wait loop is replaced by its closure (see ``_wait_closure``).
"""
import time

import z3

import load  # noqa: F401
import bv as B
import ternary
from nir import Netlist, Cycle, SymMem, ShapeError, as_sig, _nir

MAX_CYCLES = 150


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.solver_time = 0.0
        self.paths = 0
        self.cycles = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def d(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in self.__dict__.items()}


class SolverUnknown(Exception):
    pass


def check(conds, stats, timeout=600000, want_model=False, logic="QF_ABV"):
    """-> (True/False, model)"""
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set("timeout", timeout)
    for c in conds:
        if isinstance(c, bool):
            if not c:
                return False, None
            continue
        s.add(c)
    t = time.time()
    r = s.check()
    stats.solver_time += time.time() - t
    stats.queries += 1
    if r == z3.unknown:
        raise SolverUnknown(s.reason_unknown())
    if r == z3.sat:
        stats.sat += 1
        return True, (s.model() if want_model else None)
    stats.unsat += 1
    return False, None


class Cpu:
    """The elaborated CPU plus the accessors to its architectural state."""

    def __init__(self, top=None, netlist=None, core=None):
        if top is None:
            from sentinel.top import Top
            top = Top()
        self.top = top
        core = core or top
        self.core = core
        self.n = netlist or Netlist(top)
        n = self.n
        self.rom_ports = [i for i in n.rport if n.cells[i].memory in n.roms]
        self.sig_pc = core.datapath.pc.dat_r
        self.sig_mstatus = core.datapath.csr.mstatus_r
        self.sig_mie = core.datapath.csr.mie_r
        # the register file RAM: the writable memory of depth >= 32 and width 32
        rams = [m for m in n.rams if n.mems[m].width == 32]
        if len(rams) != 1:
            raise ShapeError("expected one register-file RAM")
        self.rf = rams[0]
        self.rf_aw = (n.mems[self.rf].depth - 1).bit_length()
        self.busnames = {}
        for k in ("adr", "dat_w", "sel", "cyc", "stb", "we"):
            self.busnames[k] = "bus__" + k

    # architectural registers kept in the shared RAM (tests/sim/conftest.py reads the same slots)
    MTVEC, MSCRATCH, MEPC, MCAUSE = 0x25, 0x28, 0x29, 0x2A


class Arch:
    """Architectural state as expressions."""
    __slots__ = ("rf", "pc", "mie", "mpie", "meie", "mstatus", "mier")

    @staticmethod
    def at(cpu, cyc):
        a = Arch()
        a.rf = cyc.state(cpu.rf).arr
        a.pc = B.bv(cyc.sig(cpu.sig_pc), 30)
        ms = cyc.sig(cpu.sig_mstatus)
        a.mstatus = B.bv(ms, 32)
        a.mie = B.bv(B.extract(ms, 3, 3, 32), 1)
        a.mpie = B.bv(B.extract(ms, 7, 7, 32), 1)
        me = cyc.sig(cpu.sig_mie)
        a.mier = B.bv(me, 32)
        a.meie = B.bv(B.extract(me, 11, 11, 32), 1)
        return a

    def reg(self, i):
        return z3.Select(self.rf, z3.ZeroExt(1, i) if not isinstance(i, int) else z3.BitVecVal(i, 6))

    def csr(self, i):
        return z3.Select(self.rf, z3.BitVecVal(i, 6))


class Path:
    """One straight-line micro-path: its cycles, path conditions and bus transactions."""
    __slots__ = ("conds", "cycles", "age", "trans", "status", "last", "dropped", "start", "entry")

    def fork(self):
        p = Path()
        p.conds = list(self.conds)
        p.cycles = list(self.cycles)
        p.age = self.age
        p.trans = list(self.trans)
        p.status = None
        p.last = self.last
        p.dropped = list(self.dropped)
        p.start = self.start
        p.entry = self.entry
        return p

    def end(self):
        """The cycle whose edge reaches the boundary."""
        return self.cycles[-1]["cyc"]


class Explorer:
    def __init__(self, cpu, stats=None):
        self.cpu = cpu
        self.n = cpu.n
        self.stats = stats or Stats()
        self.uid = 0
        self.stable_cache = {}
        self.ctl_cache = {}
        self.consts = None      # ff id -> (mask, value) of bits proven constant
        self.boundary = None    # set of ROM address tuples at boundaries
        self.track = set()      # state whose preservation in wait loops is decided per path
        self.entries = []       # control points at which a fetch may be acknowledged

    def fresh(self, name, w):
        self.uid += 1
        return z3.BitVec(f"{name}!{self.uid}", w)

    # -- control = the concrete addresses held by the ROM read ports
    def rom_word(self, port, addr):
        c = self.n.cells[port]
        m = self.n.mems[c.memory]
        return m.init[addr] if addr < m.depth else 0

    def rom_next(self, cyc, port, cur):
        """Next address held by a ROM read port (``cur``: the address it holds now)."""
        c = self.n.cells[port]
        en = B.tobool(cyc.net(c.en))
        if en is False:
            return cur
        e = cyc.value(c.addr)
        if en is not True:
            e = B.ite(en, e, cur, len(c.addr))
        return e if B.is_c(e) else B.norm(z3.simplify(e))

    def concretise(self, cyc, conds, cur):
        """Feasible next ROM addresses of this cycle: [(addr tuple, extra conditions)]"""
        outs = [((), [])]
        for k, port in enumerate(self.cpu.rom_ports):
            e = self.rom_next(cyc, port, cur[k])
            new = []
            for addrs, cs in outs:
                if B.is_c(e):
                    new.append((addrs + (e,), cs))
                    continue
                excl = []
                while True:
                    ok, m = check(conds + cs + excl, self.stats, want_model=True)
                    if not ok:
                        break
                    v = m.eval(e, model_completion=True).as_long()
                    new.append((addrs + (v,), cs + [e == v]))
                    excl.append(e != v)
            outs = new
        return outs

    # -- states
    def havoc_state(self, ctl, tag="h"):
        """Arbitrary data state at control point ``ctl`` (ROM addresses)."""
        n = self.n
        st = {}
        consts = self.ctl_consts(ctl)
        for i in n.ff:
            w = n.width[i]
            st[i] = self.with_consts(i, self.fresh(f"{tag}_ff{i}", w), consts)
        for i in n.rport:
            if i in self.cpu.rom_ports:
                st[i] = self.rom_word(i, ctl[self.cpu.rom_ports.index(i)])
            else:
                st[i] = self.fresh(f"{tag}_rp{i}", n.width[i])
        for m in n.rams:
            mc = n.mems[m]
            self.uid += 1
            st[m] = SymMem(z3.Array(f"{tag}_mem{m}!{self.uid}",
                                    z3.BitVecSort((mc.depth - 1).bit_length()),
                                    z3.BitVecSort(mc.width)))
        return st

    def ctl_consts(self, ctl):
        """State bits known in every state at control point ``ctl`` entered by a cycle without ack.

        (one-step induction from any state)"""
        r = self.ctl_cache.get(ctl)
        if r is None:
            n = self.n
            t = ternary.Tern(n, self.consts, {"rst": 0, "bus__ack": 0})
            for port, a in zip(self.cpu.rom_ports, ctl):
                cell = self.addr_cell(port)
                if cell is not None:
                    t.memo[cell] = (B.mask(len(n.cells[port].addr)), a)
            r = {}
            for i in n.ff:
                k, v = t.value(n.cells[i].data)
                if i in self.consts:
                    mk, val = self.consts[i]
                    k, v = k | mk, (v & ~mk) | val
                if k:
                    r[i] = (k, v & k)
            self.ctl_cache[ctl] = r
        return r

    def addr_cell(self, port):
        """The cell that drives exactly the ROM address, if there is one."""
        ch = self.n.chunks(self.n.cells[port].addr)
        if len(ch) == 1 and ch[0][0] == 'n' and ch[0][2] == 0:
            cell = ch[0][1]
            outs = self.n.cells[cell].output_nets(cell)
            if len(outs) == ch[0][3] and cell not in self.n.width and cell != 0:
                return cell
        return None

    def with_consts(self, i, v, consts):
        if i not in consts:
            return v
        mk, val = consts[i]
        w = self.n.width[i]
        if mk == B.mask(w):
            return val
        parts = []
        k = 0
        while k < w:
            j = k
            c = (mk >> k) & 1
            while j < w and ((mk >> j) & 1) == c:
                j += 1
            if c:
                parts.append(((val >> k) & B.mask(j - k), j - k))
            else:
                parts.append((B.extract(v, j - 1, k, w), j - k))
            k = j
        parts.reverse()
        return B.cat_msb(parts)

    def inputs(self, ack=0, rst=0, dat_r=None, irq=None):
        return {"bus__dat_r": self.fresh("dat_r", 32) if dat_r is None else dat_r,
                "bus__ack": ack,
                "irq": self.fresh("irq", 1) if irq is None else irq,
                "rst": rst, "clk": 0}

    # -- constant bits: inductive over every single clock cycle with rst low
    def find_consts(self, seed_state):
        """State bits that are constant from ``seed_state`` on, by induction over single cycles (rst low)."""
        self.consts = ternary.constant_bits(self.n, seed_state, {"rst": 0})

    # -- wait-loop closure
    def _stable(self, ctl):
        """For control ``ctl`` with a request pending and ack=0: which state is preserved by a wait cycle.

        Computed once per control point on a fully arbitrary data state, so it
        holds for every path that waits there.
        """
        r = self.stable_cache.get(ctl)
        if r is not None:
            return r
        n = self.n
        st = self.havoc_state(ctl, tag="w")
        cyc = Cycle(n, self.inputs(), base=st)
        stable = set()
        for i in n.state_ids + n.rams:
            nx = cyc.next(i) if i not in self.cpu.rom_ports else st[i]
            if i in n.rams:
                if nx.same(st[i]):
                    stable.add(i)
            elif B.same(nx, st[i]):
                stable.add(i)
            elif not B.is_c(nx) and not check([B.bv(nx, n.width[i]) != B.bv(st[i], n.width[i])],
                                              self.stats)[0]:
                stable.add(i)
        self.stable_cache[ctl] = stable
        return stable

    def _wait_closure(self, prev, ctl):
        """-> (state made arbitrary, the wait cycle).  The elements preserved from any state at ``ctl``, and the
        greatest set of ``track``ed ones preserved on this path, keep the value they have after ``prev``;
        the others are arbitrary."""
        n = self.n
        stable = self._stable(ctl)
        keep = sorted(self.track - stable)
        over = {}
        for i in n.state_ids + n.rams:
            if i not in stable and i not in self.cpu.rom_ports and i not in self.track:
                self._havoc(over, i, ctl)
        while True:
            w = self.child_cycle(prev, ctl, self.inputs(ack=0), over)
            out = [i for i in keep if not (w.next(i).same(w.state(i)) if i in n.rams
                                           else B.same(w.next(i), w.state(i)))]
            if not out:
                return over, w
            for i in out:
                keep.remove(i)
                self._havoc(over, i, ctl)

    def _havoc(self, over, i, ctl):
        n = self.n
        if i in n.rams:
            mc = n.mems[i]
            self.uid += 1
            over[i] = SymMem(z3.Array(f"wl_mem{i}!{self.uid}", z3.BitVecSort((mc.depth - 1).bit_length()),
                                      z3.BitVecSort(mc.width)))
        else:
            over[i] = self.with_consts(i, self.fresh(f"wl_ff{i}", n.width[i]), self.ctl_consts(ctl))

    def start(self, ctl, insn, extra=(), adjust=None):
        """Boundary entry: an arbitrary state at ``ctl`` in which the fetch of ``insn`` is acknowledged.

        -> (paths, cycle of the acknowledge)"""
        st = self.havoc_state(ctl, tag="s")
        if adjust:
            adjust(st)
        c0 = Cycle(self.n, self.inputs(ack=1, dat_r=insn, irq=self.fresh("irq0", 1)), base=st)
        p = Path()
        p.conds = list(extra)
        p.cycles = []
        p.age = 0
        p.trans = []
        p.status = None
        p.last = None
        p.dropped = []
        p.start = c0
        p.entry = ctl
        outs = []
        succ = self.concretise(c0, p.conds, ctl)
        for addrs, cs in succ:
            q = p.fork()
            q.conds += cs
            c = c0 if len(succ) == 1 else self.settled_clone(c0, addrs)
            self.settle(c, addrs)
            q.last = (c, addrs)
            q.start = c
            outs.append(q)
        return outs, c0

    def run(self, path, on_done, limit=MAX_CYCLES):
        """DFS from ``path`` to the next boundary. ``on_done(path)`` for each complete path."""
        stack = [path]
        while stack:
            p = stack.pop()
            for q in self.expand(p, limit):
                if q.status:
                    self.stats.paths += 1
                    on_done(q)
                else:
                    stack.append(q)

    def child_cycle(self, prev, prev_addrs, inputs, override=None):
        """Cycle following ``prev`` with its ROM addresses concretised."""
        base = {}
        for port, a in zip(self.cpu.rom_ports, prev_addrs):
            base[port] = self.rom_word(port, a)
        if override:
            base.update(override)
        return Cycle(self.n, inputs, base=base, prev=prev)

    def expand(self, p, limit=MAX_CYCLES):
        """All one-cycle successors of a path."""
        prev, ctl = p.last
        out = []
        self.stats.cycles += 1
        if len(p.cycles) > limit:
            p.status = "toolong"
            return [p]
        irq = self.fresh("irq", 1)
        probe = self.child_cycle(prev, ctl, self.inputs(ack=0, irq=irq))
        req = B.bool_and(B.tobool(probe.out("bus__cyc")), B.tobool(probe.out("bus__stb")))
        if not isinstance(req, bool):
            req = z3.simplify(req)
            if z3.is_true(req) or z3.is_false(req):
                req = z3.is_true(req)
        cases = []
        if isinstance(req, bool):
            cases.append((req, []))
        else:
            # a data-dependent request: split
            for r, c in ((True, req), (False, z3.Not(req))):
                if check(p.conds + [c], self.stats)[0]:
                    cases.append((r, [c]))
        for r, cs in cases:
            q = p
            if cs:
                q = p.fork()
                q.conds += cs
            for ack in ((0, 1) if r and p.age >= 1 else (0,)):
                cyc = probe if ack == 0 else self.child_cycle(prev, ctl, self.inputs(ack=1, irq=irq))
                out += self._step(q, cyc, ctl, r, ack)
        return out

    def _step(self, p, cyc, ctl, req, ack, closure=False):
        out = []
        succ = self.concretise(cyc, p.conds, ctl)
        # pure wait loop?
        if req and not ack and p.age >= 1 and len(succ) == 1 and succ[0][0] == ctl and not closure:
            # state after >=1 wait cycles: what every wait cycle preserves keeps its value, the rest is arbitrary
            prev = p.last[0]
            over, wcyc = self._wait_closure(prev, ctl)
            s2 = self.concretise(wcyc, p.conds, ctl)
            for addrs, cs in s2:
                if addrs == ctl:
                    w = wcyc if len(s2) == 1 else self.settled_clone(wcyc, ctl)
                    self.settle(w, ctl)
                    q0 = p.fork()
                    q0.conds += cs
                    q0.cycles.append(dict(cyc=w, req=True, ack=0, ctl=ctl, wait=True))
                    q0.age += 1
                    q0.last = (w, ctl)
                    acyc = self.child_cycle(w, ctl, self.inputs(ack=1))
                    out += self._step(q0, acyc, ctl, True, 1)
                else:
                    # the loop can be left without an acknowledge: follow that too
                    w = self.settled_clone(wcyc, addrs)
                    q0 = p.fork()
                    q0.conds += cs
                    q0.cycles.append(dict(cyc=w, req=True, ack=0, ctl=ctl, wait=True))
                    q0.age += 1
                    q0.last = (w, addrs)
                    out.append(q0)
            return out
        for addrs, cs in succ:
            q = p.fork()
            q.conds += cs
            c2 = cyc
            if cs:
                c2 = self.settled_clone(cyc, addrs)
            else:
                self.settle(c2, addrs)
            q.cycles.append(dict(cyc=c2, req=req, ack=ack, ctl=ctl, wait=False))
            q.last = (c2, addrs)
            if not req and p.age:
                q.dropped.append(len(q.cycles) - 1)
            q.age = p.age + 1 if (req and not ack) else 0
            if ack:
                if addrs in self.boundary:
                    q.status = "boundary"
                else:
                    q.trans.append(len(q.cycles) - 1)
            elif addrs == ctl and not req:
                q.status = "stuck"
            out.append(q)
        return out

    def settle(self, cyc, addrs):
        for port, a in zip(self.cpu.rom_ports, addrs):
            cyc.rom[port] = a

    def settled_clone(self, cyc, addrs):
        """The same cycle under the assumption that its next ROM addresses are ``addrs``."""
        d = Cycle(cyc.n, cyc.inputs, base=cyc.base, prev=cyc.prev)
        for port, a in zip(self.cpu.rom_ports, addrs):
            d.rom[port] = a
            cell = self.addr_cell(port)
            if cell is not None:
                d.memo[cell] = (a, len(self.n.cells[port].addr))
        return d
