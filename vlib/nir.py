"""Translate an elaborated Amaranth design (its NIR netlist) to a symbolic step function.

``Netlist`` elaborates a component with Amaranth's own front end
(``Fragment.get`` + ``build_netlist``, what ``amaranth.back.rtlil`` converts from)
and evaluates one clock cycle of it over ``bv`` values.  Nothing about the design
is hard-coded: flip-flops, memories and ports are discovered from the netlist.
"""
import sys

import load  # noqa: F401  (sets sys.path)
import z3
from amaranth.hdl import _ir, _nir
from amaranth.hdl._ast import ValueCastable, Signal

import bv as B

sys.setrecursionlimit(400000)


def as_sig(v):
    return v.as_value() if isinstance(v, ValueCastable) else v


def ram_data(frag, depth=None):
    """MemoryData of every memory with a write port below ``frag``, whatever attribute holds it."""
    from amaranth.hdl._mem import MemoryInstance
    out = []
    if isinstance(frag, MemoryInstance):
        if frag._write_ports and depth in (None, frag._data.depth):
            out.append(frag._data)
    for sub in getattr(frag, "subfragments", ()):
        out += ram_data(sub[0], depth)
    return out


class ShapeError(Exception):
    """The design contains something this translator does not model."""


class Netlist:
    def __init__(self, elab, ports=None, extra_signals=()):
        self.elab = elab
        frag = elab if isinstance(elab, _ir.Fragment) else _ir.Fragment.get(elab, None)
        if ports is None:
            ports = {}
            for path, member, value in elab.signature.flatten(elab):
                value = as_sig(value)
                d = (_ir.PortDirection.Input if member.flow.name == "In"
                     else _ir.PortDirection.Output)
                ports["__".join(map(str, path))] = (value, d)
        self.nl = _ir.build_netlist(frag, ports=ports)
        self.cells = self.nl.cells
        self.signals = self.nl.signals
        self.inputs = dict(self.nl.top.ports_i)       # name -> (start, width)
        self.outputs = dict(self.nl.top.ports_o)      # name -> Value
        self.ff = []          # state cell ids (FlipFlop)
        self.rport = []       # SyncReadPort ids
        self.mems = {}        # memory id -> cell
        self.wports = {}      # memory id -> [write port ids]
        self.names = {}
        clks = set()
        for i, c in enumerate(self.cells):
            t = type(c)
            if t is _nir.FlipFlop:
                self.ff.append(i)
                clks.add((c.clk, c.clk_edge))
                if c.arst != _nir.Net.from_const(0):
                    raise ShapeError("asynchronous reset")
            elif t is _nir.SyncReadPort:
                self.rport.append(i)
                clks.add((c.clk, c.clk_edge))
            elif t is _nir.SyncWritePort:
                self.wports.setdefault(c.memory, []).append(i)
                clks.add((c.clk, c.clk_edge))
            elif t is _nir.Memory:
                self.mems[i] = c
            elif t in (_nir.Operator, _nir.Part, _nir.Matches, _nir.PriorityMatch,
                       _nir.AssignmentList, _nir.AsyncReadPort):
                pass
            elif t is _nir.Top:
                pass
            else:
                raise ShapeError(f"unsupported cell {t.__name__}")
        if len(clks) > 1:
            raise ShapeError(f"more than one clock: {clks}")
        for m in self.mems:
            self.wports.setdefault(m, [])
        self.roms = [m for m in self.mems if not self.wports[m]]
        self.rams = [m for m in self.mems if self.wports[m]]
        self.width = {}
        for i in self.ff:
            self.width[i] = len(self.cells[i].data)
        for i in self.rport:
            self.width[i] = self.cells[i].width
        self.state_ids = self.ff + self.rport
        self._name_states()
        self._chunks = {}

    # ---- structure -------------------------------------------------------
    def _name_states(self):
        owner = {}
        for sig, val in self.signals.items():
            for net in val:
                if not net.is_const and not net.is_late:
                    owner.setdefault(net.cell, set()).add(sig.name)
        for i in self.state_ids + list(self.mems):
            c = self.cells[i]
            mod = ".".join(self.nl.modules[c.module_idx].name)
            nm = sorted(owner.get(i, {type(c).__name__}))
            self.names[i] = f"{mod}.{nm[0]}#{i}"

    # ---- evaluation ------------------------------------------------------
    def chunks(self, value):
        """Value -> list of ('c', int, w) / ('n', cell, lo, w), LSB first."""
        r = self._chunks.get(value)
        if r is not None:
            return r
        out = []
        for net in value:
            if net.is_const:
                if out and out[-1][0] == 'c':
                    _, v, w = out[-1]
                    out[-1] = ('c', v | (net.const << w), w + 1)
                else:
                    out.append(('c', net.const, 1))
            else:
                if out and out[-1][0] == 'n' and out[-1][1] == net.cell \
                        and out[-1][2] + out[-1][3] == net.bit:
                    out[-1] = ('n', net.cell, out[-1][2], out[-1][3] + 1)
                else:
                    out.append(('n', net.cell, net.bit, 1))
        self._chunks[value] = out
        return out

    def sig_value(self, signal):
        return self.signals[as_sig(signal)]

    def init_state(self, ram):
        """Power-on state; ``ram``: memory id -> SymMem/ConMem."""
        st = {i: self.cells[i].init for i in self.ff}
        st.update({i: 0 for i in self.rport})
        st.update(ram)
        return st


class Cycle:
    """One clock cycle, evaluated on demand.

    ``base`` maps state cell id -> value for the state at the start of the cycle;
    ids that are absent are pulled from ``prev`` (the previous cycle's next state).
    """
    __slots__ = ("n", "base", "prev", "inputs", "memo", "nxt", "rom", "_top")

    def __init__(self, n, inputs, base=None, prev=None):
        self.n = n
        self.base = base or {}
        self.prev = prev
        self.inputs = inputs
        self.memo = {}
        self.nxt = {}
        self.rom = {}       # ROM read port id -> concretised address for the next edge
        self._top = None

    # -- state at the start of this cycle
    def state(self, i):
        v = self.base.get(i)
        if v is None:
            v = self.prev.next(i)
            self.base[i] = v
        return v

    # -- state after this cycle's edge
    def next(self, i):
        v = self.nxt.get(i)
        if v is None:
            v = self._next(i)
            self.nxt[i] = v
        return v

    def _next(self, i):
        n = self.n
        c = n.cells[i]
        t = type(c)
        if t is _nir.FlipFlop:
            return self.value(c.data)
        if t is _nir.SyncReadPort:
            en = B.tobool(self.net(c.en))
            if en is False:
                return self.state(i)
            m = c.memory
            if m in n.roms:
                addr = self.rom.get(i)
                if addr is None:
                    addr = self.value(c.addr)
                    if not B.is_c(addr):
                        raise ShapeError("symbolic ROM address (concretise first)")
                mc = n.mems[m]
                rd = mc.init[addr] if addr < mc.depth else 0
            else:
                aw = (n.mems[m].depth - 1).bit_length()
                addr = self.value(c.addr)
                tf = set(c.transparent_for)
                if tf == set(n.wports[m]):
                    rd = self.next(m).read(addr, aw)
                elif not tf:
                    rd = self.state(m).read(addr, aw)
                else:
                    raise ShapeError("partially transparent read port")
            if en is True:
                return rd
            return B.ite(en, rd, self.state(i), n.width[i])
        if t is _nir.Memory:
            a = self.state(i)
            aw = (c.depth - 1).bit_length()
            for wp in n.wports[i]:
                p = n.cells[wp]
                full = all(p.en[0] == x for x in p.en)
                ens = [self.net(x) for x in (p.en[:1] if full else p.en)]
                if all(B.is_c(e) and e == 0 for e in ens):
                    continue
                a = a.write(self.value(p.addr), aw, self.value(p.data), ens, full, c.width)
            return a
        raise ShapeError(str(t))

    # -- combinational values
    def value(self, value):
        parts = []
        for ch in self.n.chunks(value):
            if ch[0] == 'c':
                parts.append((ch[1], ch[2]))
            else:
                _, cell, lo, w = ch
                v, cw = self.cell(cell)
                if type(v) is list:     # PriorityMatch: one entry per bit
                    parts += [(b, 1) for b in v[lo:lo + w]]
                else:
                    parts.append((B.extract(v, lo + w - 1, lo, cw), w))
        parts.reverse()
        return B.cat_msb(parts)

    def net(self, net):
        if net.is_const:
            return net.const
        v, cw = self.cell(net.cell)
        if type(v) is list:
            return v[net.bit]
        return B.extract(v, net.bit, net.bit, cw)

    def sig(self, signal):
        return self.value(self.n.sig_value(signal))

    def out(self, name):
        return self.value(self.n.outputs[name])

    def cell(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self._cell(i)
            self.memo[i] = r
        return r

    def _topvals(self):
        parts = [(0b10, 2)]
        end = 2
        for name, (start, w) in sorted(self.n.inputs.items(), key=lambda kv: kv[1][0]):
            if w == 0:
                continue
            assert start == end, (name, start, end)
            parts.append((self.inputs.get(name, 0), w))
            end = start + w
        parts.reverse()
        return (B.cat_msb(parts), end)

    def _cell(self, i):
        n = self.n
        if i == 0:
            return self._topvals()
        w = n.width.get(i)
        if w is not None:
            return (self.state(i), w)
        c = n.cells[i]
        t = type(c)
        if t is _nir.Matches:
            x = self.value(c.value)
            w = len(c.value)
            return (B.b1(B.bool_or(*[B.match(x, p, w) for p in c.patterns])), 1)
        if t is _nir.PriorityMatch:
            free = B.tobool(self.net(c.en))
            bits = []
            for net in c.inputs:
                if free is False:
                    bits.append(0)
                    continue
                b = B.tobool(self.net(net))
                bits.append(B.b1(B.bool_and(free, b)))
                free = B.bool_and(free, B.bool_not(b))
            return (bits, len(c.inputs))
        if t is _nir.AssignmentList:
            return (self._assign(c), len(c.default))
        if t is _nir.Operator:
            return (self._oper(c), c.width)
        if t is _nir.Part:
            return (self._part(c), c.width)
        if t is _nir.AsyncReadPort:
            m = c.memory
            addr = self.value(c.addr)
            if m in n.roms:
                if not B.is_c(addr):
                    raise ShapeError("symbolic asynchronous ROM read")
                mc = n.mems[m]
                return (mc.init[addr] if addr < mc.depth else 0, c.width)
            return (self.state(m).read(addr, (n.mems[m].depth - 1).bit_length()), c.width)
        raise ShapeError(str(t))

    def _assign(self, c):
        w = len(c.default)
        todo = []
        start = None
        for a in reversed(c.assignments):
            cond = B.tobool(self.net(a.cond))
            if cond is False:
                continue
            if cond is True and a.start == 0 and len(a.value) == w:
                start = a
                break
            todo.append((cond, a))
        r = self.value(start.value if start is not None else c.default)
        for cond, a in reversed(todo):
            v = self.value(a.value)
            n = len(a.value)
            lo, hi = a.start, a.start + n - 1
            if lo == 0 and n == w:
                r = B.ite(cond, v, r, w)
                continue
            old = B.extract(r, hi, lo, w)
            parts = []
            if hi < w - 1:
                parts.append((B.extract(r, w - 1, hi + 1, w), w - 1 - hi))
            parts.append((B.ite(cond, v, old, n), n))
            if lo > 0:
                parts.append((B.extract(r, lo - 1, 0, w), lo))
            r = B.cat_msb(parts)
        return r

    def _oper(self, c):
        op = c.operator
        if op == 'm':
            cond = B.tobool(self.value(c.inputs[0]))
            if cond is True:
                return self.value(c.inputs[1])
            if cond is False:
                return self.value(c.inputs[2])
            return B.ite(cond, self.value(c.inputs[1]), self.value(c.inputs[2]),
                         len(c.inputs[1]))
        ins = [self.value(v) for v in c.inputs]
        w = len(c.inputs[0])
        if len(ins) == 1:
            a = ins[0]
            if op == '~':
                return B.bnot(a, w)
            if op == '-':
                return B.sub(0, a, w)
            if op in ('b', 'r|'):
                return B.b1(B.bool_not(B.eq(a, 0, w)))
            if op == 'r&':
                return B.b1(B.eq(a, B.mask(w), w))
            if op == 'r^':
                r = 0
                for k in range(w):
                    r = B.bxor(r, B.extract(a, k, k, w), 1)
                return r
        elif len(ins) == 2:
            a, b = ins
            if op == '+':
                return B.add(a, b, w)
            if op == '-':
                return B.sub(a, b, w)
            if op == '&':
                return B.band(a, b, w)
            if op == '|':
                return B.bor(a, b, w)
            if op == '^':
                return B.bxor(a, b, w)
            if op == '*':
                if B.is_c(a) and B.is_c(b):
                    return (a * b) & B.mask(w)
                return B.bv(a, w) * B.bv(b, w)
            if op in ('<<', 'u>>', 's>>'):
                return B.shift(op, a, b, w, len(c.inputs[1]))
            if op in ('==', '!=', 'u<', 's<', 'u>', 's>', 'u<=', 's<=', 'u>=', 's>='):
                return B.b1(B.cmp(op, a, b, w))
        raise ShapeError(f"operator {op}")

    def _part(self, c):
        v = self.value(c.value)
        off = self.value(c.offset)
        w, ow = len(c.value), len(c.offset)
        ext = (z3.SignExt if c.value_signed else z3.ZeroExt)
        if B.is_c(off):
            lo = off * c.stride
            hi = lo + c.width - 1
            if hi < w:
                return B.extract(v, hi, lo, w)
            x = ext(hi + 1 - w, B.bv(v, w))
            return B.norm(z3.simplify(z3.Extract(hi, lo, x)))
        n = w + c.width + c.stride * ((1 << ow) - 1)
        x = ext(n - w, B.bv(v, w))
        sh = z3.ZeroExt(n - ow, off) * c.stride if n > ow else off
        return z3.Extract(c.width - 1, 0, z3.LShR(x, sh))


class SymMem:
    """RAM contents as a z3 array."""
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr

    def read(self, addr, aw):
        return z3.Select(self.arr, B.bv(addr, aw))

    def write(self, addr, aw, data, ens, full, w):
        A = B.bv(addr, aw)
        if full:
            en = B.tobool(ens[0])
            if en is True:
                return SymMem(z3.Store(self.arr, A, B.bv(data, w)))
            old = z3.Select(self.arr, A)
            return SymMem(z3.Store(self.arr, A, z3.If(en, B.bv(data, w), old)))
        old = z3.Select(self.arr, A)
        bits = []
        for k in range(w):
            bits.append((B.ite(B.tobool(ens[k]), B.extract(data, k, k, w),
                               z3.Extract(k, k, old), 1), 1))
        bits.reverse()
        return SymMem(z3.Store(self.arr, A, B.bv(B.cat_msb(bits), w)))

    def same(self, other):
        return self.arr.eq(other.arr)


class ConMem:
    """RAM contents as a concrete tuple (for concrete runs of the same evaluator)."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = tuple(d)

    def read(self, addr, aw):
        return self.d[addr] if addr < len(self.d) else 0

    def write(self, addr, aw, data, ens, full, w):
        m = 0
        if full:
            m = B.mask(w) if ens[0] else 0
        else:
            for k, e in enumerate(ens):
                m |= e << k
        if not m or addr >= len(self.d):
            return self
        d = list(self.d)
        d[addr] = (d[addr] & ~m) | (data & m)
        return ConMem(d)
