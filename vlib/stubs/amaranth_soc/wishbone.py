"""Stand-in for amaranth_soc.wishbone.Signature (Wishbone classic, initiator side)."""
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset()):
        if granularity is None:
            granularity = data_width
        self.addr_width = addr_width
        self.data_width = data_width
        self.granularity = granularity
        self.features = frozenset(features)
        super().__init__({
            "adr": Out(addr_width),
            "dat_w": Out(data_width),
            "dat_r": In(data_width),
            "sel": Out(data_width // granularity),
            "cyc": Out(1),
            "stb": Out(1),
            "we": Out(1),
            "ack": In(1),
        })


class Decoder:
    """Named by examples/attosoc.py, only used by AttoSoC."""

    def __init__(self, *a, **k):
        raise NotImplementedError("amaranth_soc is not installed")
