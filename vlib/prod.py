"""Whole-netlist one-step queries: arbitrary states, and concrete states put into the simulator."""
import z3

import bv as B
from nir import Cycle, SymMem


class Fresh:
    def __init__(self):
        self.k = 0

    def __call__(self, name, w):
        self.k += 1
        return z3.BitVec(f"{name}!{self.k}", w) if w else 0


def arbitrary(n, fresh, tag, consts=None):
    """-> (state: every flip-flop, read port and RAM arbitrary; inputs arbitrary but rst)"""
    st = {}
    for i in n.state_ids:
        st[i] = fresh(f"{tag}{i}", n.width[i])
    for m in n.rams:
        mc = n.mems[m]
        st[m] = SymMem(z3.Array(f"{tag}mem{m}", z3.BitVecSort((mc.depth - 1).bit_length()),
                                z3.BitVecSort(mc.width)))
    return st


def inputs(n, fresh, fixed=None):
    d = {}
    for name, (start, w) in n.inputs.items():
        d[name] = (fixed or {}).get(name, None)
        if d[name] is None:
            d[name] = fresh("in_" + name, w) if name not in ("clk", "rst") else 0
    return d


def mval(m, x):
    return x if B.is_c(x) else m.eval(x, model_completion=True).as_long()


def holders(n, i):
    """Signals that are exactly the state cell i (candidates to be set in the simulator)."""
    out = []
    for sig, val in n.signals.items():
        if len(val) == n.width[i] and all((not x.is_const) and (not x.is_late) and x.cell == i and x.bit == k
                                          for k, x in enumerate(val)):
            out.append(sig)
    return out


def force(ctx, n, st, skip=()):
    """Put the concrete state ``st`` (id -> int) into a running simulation; -> ids that could not be set."""
    left = []
    for i, v in st.items():
        if i not in n.width or i in skip:
            continue
        done = False
        for s in holders(n, i):
            try:
                ctx.set(s, v)
                done = True
                break
            except Exception:       # driven combinationally: not the register itself
                continue
        if not done:
            left.append(n.names[i])
    return left
