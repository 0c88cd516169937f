"""Three-valued (0/1/unknown) evaluation of one clock cycle; used to find constant state bits.

A value is a pair (known, val): bit k is known iff known>>k & 1, and then equals val>>k & 1.
"""
from nir import _nir, ShapeError
import bv as B


class Tern:
    def __init__(self, n, consts, inputs=None):
        self.n = n
        self.consts = consts        # ff id -> (mask, val)
        self.inputs = inputs or {}  # input name -> concrete value; others unknown
        self.memo = {}

    def value(self, value):
        k = v = 0
        pos = 0
        for ch in self.n.chunks(value):
            if ch[0] == 'c':
                w = ch[2]
                k |= B.mask(w) << pos
                v |= ch[1] << pos
            else:
                _, cell, lo, w = ch
                ck, cv = self.cell(cell)
                k |= ((ck >> lo) & B.mask(w)) << pos
                v |= ((cv >> lo) & B.mask(w)) << pos
            pos += w
        return k, v & k

    def net(self, net):
        """-> 0, 1 or None"""
        if net.is_const:
            return net.const
        k, v = self.cell(net.cell)
        return (v >> net.bit) & 1 if (k >> net.bit) & 1 else None

    def cell(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self._cell(i)
            self.memo[i] = r
        return r

    def _cell(self, i):
        n = self.n
        if i == 0:
            k, v = 0b11, 0b10
            for name, (start, w) in n.inputs.items():
                if name in self.inputs:
                    k |= B.mask(w) << start
                    v |= self.inputs[name] << start
            return k, v
        if i in n.width:
            return self.consts.get(i, (0, 0))
        c = n.cells[i]
        t = type(c)
        if t is _nir.Matches:
            k, v = self.value(c.value)
            res = 0
            for p in c.patterns:
                m = 1
                for b, ch in enumerate(reversed(p)):
                    if ch == '-':
                        continue
                    if not (k >> b) & 1:
                        m = None if m else m
                    elif ((v >> b) & 1) != int(ch):
                        m = 0
                        break
                if m == 1:
                    return 1, 1
                if m is None:
                    res = None
            return (1, 0) if res == 0 else (0, 0)
        if t is _nir.PriorityMatch:
            free = self.net(c.en)
            k = v = 0
            for b, net in enumerate(c.inputs):
                x = self.net(net)
                if free == 0 or x == 0:
                    k |= 1 << b
                elif free == 1 and x == 1:
                    k |= 1 << b
                    v |= 1 << b
                if x == 1:
                    free = 0
                elif x is None and free == 1:
                    free = None
            return k, v
        if t is _nir.AssignmentList:
            k, v = self.value(c.default)
            for a in c.assignments:
                cond = self.net(a.cond)
                if cond == 0:
                    continue
                ak, av = self.value(a.value)
                w = len(a.value)
                sel = B.mask(w) << a.start
                ak, av = ak << a.start, av << a.start
                if cond == 1:
                    k, v = (k & ~sel) | (ak & sel), (v & ~sel) | (av & sel)
                else:
                    agree = k & ak & ~(v ^ av)
                    k = (k & ~sel) | (agree & sel)
                    v &= k
            return k, v
        if t is _nir.Operator:
            return self._oper(c)
        w = getattr(c, "width", None)
        if w is None:
            raise ShapeError(str(t))
        return 0, 0

    def _oper(self, c):
        op = c.operator
        if op == 'm':
            s, _ = self.value(c.inputs[0])
            sel = self.value(c.inputs[0])
            a, b = self.value(c.inputs[1]), self.value(c.inputs[2])
            if sel[0]:
                return a if sel[1] else b
            k = a[0] & b[0] & ~(a[1] ^ b[1])
            return k, a[1] & k
        ins = [self.value(x) for x in c.inputs]
        w = len(c.inputs[0])
        full = B.mask(w)
        if op == '~':
            k, v = ins[0]
            return k, ~v & k
        if op == '&':
            (ak, av), (bk, bv) = ins
            k = (ak & bk) | (ak & ~av) | (bk & ~bv)
            return k & full, av & bv & k
        if op == '|':
            (ak, av), (bk, bv) = ins
            k = (ak & bk) | (ak & av) | (bk & bv)
            return k & full, (av | bv) & k
        if op == '^':
            (ak, av), (bk, bv) = ins
            k = ak & bk
            return k, (av ^ bv) & k
        if op in ('b', 'r|'):
            k, v = ins[0]
            if v:
                return 1, 1
            return (1, 0) if k == full else (0, 0)
        if op == 'r&':
            k, v = ins[0]
            if k & ~v & full:
                return 1, 0
            return (1, 1) if k == full else (0, 0)
        if op in ('==', '!='):
            (ak, av), (bk, bv) = ins
            if (ak & bk) & (av ^ bv):
                return 1, int(op == '!=')
            if ak == full and bk == full:
                return 1, int(op == '==')
            return 0, 0
        if op == '+' and all(k == full for k, _ in ins):
            return full, (ins[0][1] + ins[1][1]) & full
        return 0, 0


def constant_bits(n, seed, inputs):
    """Greatest set of flip-flop bits that keep their ``seed`` value over every cycle with ``inputs``."""
    cand = {i: (B.mask(n.width[i]), seed[i]) for i in n.ff if B.is_c(seed[i])}
    while True:
        t = Tern(n, cand, inputs)
        new = {}
        for i, (mk, val) in cand.items():
            k, v = t.value(n.cells[i].data)
            keep = mk & k & ~(v ^ val)
            if keep:
                new[i] = (keep, val & keep)
        if new == cand:
            return cand
        cand = new
