"""Stand-in for amaranth_soc.csr: registers with field actions, no bus.

The Bridge keeps the register fields but does not drive their bus side: ``port.r_stb``, ``port.w_stb`` and
``port.w_data`` of every field are free inputs for whoever elaborates the peripheral, so a claim about a peripheral
holds for whatever a CSR bus does with its registers.
"""
import enum

from amaranth.hdl import Module
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out

from . import wishbone  # noqa: F401


class Access(enum.Enum):
    R = "r"
    W = "w"
    RW = "rw"
    NC = "nc"

    def readable(self):
        return self in (Access.R, Access.RW)

    def writable(self):
        return self in (Access.W, Access.RW)


class Element:
    Access = Access


class FieldPort:
    Access = Access

    class Signature(wiring.Signature):
        def __init__(self, shape, access):
            super().__init__({"r_data": In(shape), "r_stb": Out(1), "w_data": Out(shape), "w_stb": Out(1)})


class FieldAction(wiring.Component):
    def __init__(self, shape, access, members=()):
        super().__init__({"port": In(FieldPort.Signature(shape, access)), **dict(members)})


class _R(FieldAction):
    def __init__(self, shape):
        super().__init__(shape, Access.R, {"r_data": In(shape), "r_stb": Out(1)})

    def elaborate(self, platform):
        m = Module()
        m.d.comb += [self.port.r_data.eq(self.r_data), self.r_stb.eq(self.port.r_stb)]
        return m


class _W(FieldAction):
    def __init__(self, shape):
        super().__init__(shape, Access.W, {"w_data": Out(shape), "w_stb": Out(1)})

    def elaborate(self, platform):
        m = Module()
        m.d.comb += [self.w_data.eq(self.port.w_data), self.w_stb.eq(self.port.w_stb)]
        return m


class action:
    R, W = _R, _W


class Field:
    def __init__(self, cls, *args, **kw):
        self.cls, self.args, self.kw = cls, args, kw

    def create(self):
        return self.cls(*self.args, **self.kw)


class _Fields:
    pass


class Register:
    def __init_subclass__(cls, *, access, **kw):
        super().__init_subclass__(**kw)
        cls.access = access

    def __init__(self):
        self.f = _Fields()
        self.fields = {}
        for name, field in type(self).__annotations__.items():
            self.fields[name] = field.create()
            setattr(self.f, name, self.fields[name])


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width):
        self.addr_width, self.data_width = addr_width, data_width
        super().__init__({"addr": Out(addr_width), "r_data": In(data_width), "r_stb": Out(1),
                          "w_data": Out(data_width), "w_stb": Out(1)})


class Builder:
    def __init__(self, *, addr_width, data_width):
        self.addr_width, self.data_width, self.regs = addr_width, data_width, []

    def add(self, name, reg, *, offset=None):
        self.regs.append((name, reg, offset))
        return reg

    def as_memory_map(self):
        return self


class Bridge(wiring.Component):
    def __init__(self, builder):
        self.regs = builder.regs
        super().__init__({"bus": In(Signature(addr_width=builder.addr_width, data_width=builder.data_width))})
        self.bus.memory_map = builder

    def elaborate(self, platform):
        m = Module()
        for name, reg, _ in self.regs:
            for f, a in reg.fields.items():
                m.submodules[f"{name}_{f}"] = a
        return m
