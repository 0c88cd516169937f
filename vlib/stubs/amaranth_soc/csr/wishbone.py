"""Stand-in: named by examples/attosoc.py, only used by AttoSoC.elaborate."""


class WishboneCSRBridge:
    def __init__(self, *a, **k):
        raise NotImplementedError("amaranth_soc is not installed")
