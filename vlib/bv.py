"""Bit-vector expressions with constant folding.

A value is either a Python int (concrete) or a z3 BitVecRef.  Widths are always
passed by the caller, who knows them from the netlist.  The helpers fold as much
as they can structurally, because most of the control state of a microcoded CPU
is concrete along one micro-path.
"""
import z3


def is_c(x):
    return isinstance(x, int)


def bv(x, w):
    return z3.BitVecVal(x, w) if isinstance(x, int) else x


def mask(w):
    return (1 << w) - 1


def norm(e):
    """z3 numeral -> int."""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def extract(x, hi, lo, w):
    if isinstance(x, int):
        return (x >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == w - 1:
        return x
    k = x.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        # children are MSB first
        parts = []
        pos = w
        for ch in x.children():
            cw = ch.size()
            pos -= cw
            # child covers [pos, pos+cw)
            l = max(lo, pos)
            h = min(hi, pos + cw - 1)
            if l <= h:
                parts.append((norm(extract(norm(ch), h - pos, l - pos, cw)), h - l + 1))
        return cat_msb(parts)
    if k == z3.Z3_OP_EXTRACT:
        base = x.children()[0]
        h0, l0 = x.params()
        return extract(base, hi + l0, lo + l0, base.size())
    if k == z3.Z3_OP_ITE:
        c, a, b = x.children()
        na, nb = norm(a), norm(b)
        if is_c(na) or is_c(nb) or a.decl().kind() == z3.Z3_OP_CONCAT \
                or b.decl().kind() == z3.Z3_OP_CONCAT:
            return ite(c, extract(na, hi, lo, w), extract(nb, hi, lo, w), hi - lo + 1)
    if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT):
        ch = [extract(norm(c), hi, lo, w) for c in x.children()]
        n = hi - lo + 1
        if k == z3.Z3_OP_BNOT:
            return bnot(ch[0], n)
        f = {z3.Z3_OP_BAND: band, z3.Z3_OP_BOR: bor, z3.Z3_OP_BXOR: bxor}[k]
        r = ch[0]
        for c in ch[1:]:
            r = f(r, c, n)
        return r
    return z3.Extract(hi, lo, x)


def cat_msb(parts):
    """parts: [(value, width)] most significant first."""
    merged = []
    for v, w in parts:
        if w == 0:
            continue
        if merged and is_c(v) and is_c(merged[-1][0]):
            pv, pw = merged[-1]
            merged[-1] = ((pv << w) | v, pw + w)
            continue
        if merged and not is_c(v) and not is_c(merged[-1][0]):
            pv, pw = merged[-1]
            # re-join adjacent extracts of the same expression
            pb, ph, pl = _as_ext(pv, pw)
            b, h, l = _as_ext(v, w)
            if pb.eq(b) and pl == h + 1:
                merged[-1] = (extract(b, ph, l, b.size()), pw + w)
                continue
        merged.append((v, w))
    if not merged:
        return 0
    if len(merged) == 1:
        return merged[0][0]
    return z3.Concat(*[bv(v, w) for v, w in merged])


def _as_ext(v, w):
    if v.decl().kind() == z3.Z3_OP_EXTRACT:
        h, l = v.params()
        return v.children()[0], h, l
    return v, w - 1, 0


def same(a, b):
    if is_c(a) or is_c(b):
        return is_c(a) and is_c(b) and a == b
    return a.eq(b)


def ite(c, a, b, w):
    """c: z3 Bool or python bool."""
    if isinstance(c, bool):
        return a if c else b
    if same(a, b):
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if w == 1 and is_c(a) and is_c(b):
        if a == 1:
            return b1(c)
    return z3.If(c, bv(a, w), bv(b, w))


def b1(c):
    """Bool -> 1-bit BV."""
    if isinstance(c, bool):
        return int(c)
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def tobool(x):
    """1-bit BV -> Bool."""
    if is_c(x):
        return bool(x)
    if x.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = x.children()
        na, nb = norm(a), norm(b)
        if na == 1 and is_c(na) and is_c(nb) and nb == 0:
            return c
        if is_c(na) and is_c(nb) and na == 0 and nb == 1:
            return bool_not(c)
    return x == 1


def bool_not(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.children()[0]
    return z3.Not(c)


def bool_and(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bool_or(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(a, w):
    if is_c(a):
        return a ^ mask(w)
    if w == 1:
        return b1(bool_not(tobool(a)))
    return ~a


def band(a, b, w):
    if is_c(a) and is_c(b):
        return a & b
    for x, y in ((a, b), (b, a)):
        if is_c(x):
            if x == 0:
                return 0
            if x == mask(w):
                return y
    if w == 1:
        return b1(bool_and(tobool(a), tobool(b)))
    return bv(a, w) & bv(b, w)


def bor(a, b, w):
    if is_c(a) and is_c(b):
        return a | b
    for x, y in ((a, b), (b, a)):
        if is_c(x):
            if x == 0:
                return y
            if x == mask(w):
                return mask(w)
    if w == 1:
        return b1(bool_or(tobool(a), tobool(b)))
    return bv(a, w) | bv(b, w)


def bxor(a, b, w):
    if is_c(a) and is_c(b):
        return a ^ b
    for x, y in ((a, b), (b, a)):
        if is_c(x):
            if x == 0:
                return y
            if x == mask(w):
                return bnot(y, w)
    return bv(a, w) ^ bv(b, w)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def eq(a, b, w):
    """-> Bool"""
    if is_c(a) and is_c(b):
        return a == b
    if same(a, b):
        return True
    # concat-aware: a concrete piece that differs decides it
    for x, y in ((a, b), (b, a)):
        if is_c(y) and not is_c(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_CONCAT:
                pos = w
                conj = []
                for ch in x.children():
                    cw = ch.size()
                    pos -= cw
                    r = eq(norm(ch), (y >> pos) & mask(cw), cw)
                    if r is False:
                        return False
                    conj.append(r)
                return bool_and(*conj)
            if k == z3.Z3_OP_ITE:
                c, p, q = x.children()
                p, q = norm(p), norm(q)
                if is_c(p) or is_c(q):
                    rp, rq = eq(p, y, w), eq(q, y, w)
                    if isinstance(rp, bool) and isinstance(rq, bool):
                        if rp and rq:
                            return True
                        if not rp and not rq:
                            return False
                        return c if rp else bool_not(c)
                    if rp is True:
                        return bool_or(c, rq)
                    if rp is False:
                        return bool_and(bool_not(c), rq)
                    if rq is True:
                        return bool_or(bool_not(c), rp)
                    if rq is False:
                        return bool_and(c, rp)
            if w == 1:
                return tobool(x) if y else bool_not(tobool(x))
    return bv(a, w) == bv(b, w)


def match(x, pattern, w):
    """Amaranth pattern (MSB first, '-' don't care) -> Bool."""
    # group runs of cared bits
    n = len(pattern)
    if n == 0:
        return True
    if is_c(x):
        for i, ch in enumerate(pattern):
            if ch == '-':
                continue
            if ((x >> (n - 1 - i)) & 1) != int(ch):
                return False
        return True
    conj = []
    i = 0
    while i < n:
        if pattern[i] == '-':
            i += 1
            continue
        j = i
        while j < n and pattern[j] != '-':
            j += 1
        hi = n - 1 - i
        lo = n - j
        r = eq(extract(x, hi, lo, w), int(pattern[i:j], 2), hi - lo + 1)
        if r is False:
            return False
        conj.append(r)
        i = j
    return bool_and(*conj)


def add(a, b, w):
    if is_c(a) and is_c(b):
        return (a + b) & mask(w)
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return bv(a, w) + bv(b, w)


def sub(a, b, w):
    if is_c(a) and is_c(b):
        return (a - b) & mask(w)
    if is_c(b) and b == 0:
        return a
    return bv(a, w) - bv(b, w)


def shift(op, a, b, w, bw):
    if is_c(a) and is_c(b):
        if op == '<<':
            return (a << b) & mask(w) if b < w else 0
        if op == 'u>>':
            return a >> b if b < w else 0
        return (sgn(a, w) >> min(b, w)) & mask(w)
    if is_c(b):
        if b == 0:
            return a
        if b >= w:
            if op != 's>>':
                return 0
            b = w - 1
        if op == '<<':
            return cat_msb([(extract(a, w - 1 - b, 0, w), w - b), (0, b)])
        if op == 'u>>':
            return cat_msb([(0, b), (extract(a, w - 1, b, w), w - b)])
        return z3.SignExt(b, bv(extract(a, w - 1, b, w), w - b))
    # amount wider/narrower than the value
    W = max(w, bw)
    A = bv(a, w)
    if W > w:
        A = (z3.SignExt if op == 's>>' else z3.ZeroExt)(W - w, A)
    B = bv(b, bw)
    if W > bw:
        B = z3.ZeroExt(W - bw, B)
    r = {'<<': lambda: A << B, 'u>>': lambda: z3.LShR(A, B), 's>>': lambda: A >> B}[op]()
    return z3.Extract(w - 1, 0, r) if W > w else r


def cmp(op, a, b, w):
    """-> Bool"""
    if op == '==':
        return eq(a, b, w)
    if op == '!=':
        return bool_not(eq(a, b, w))
    if is_c(a) and is_c(b):
        if op[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op[1:]]
    A, B = bv(a, w), bv(b, w)
    return {
        'u<': z3.ULT, 'u>': z3.UGT, 'u<=': z3.ULE, 'u>=': z3.UGE,
        's<': lambda p, q: p < q, 's>': lambda p, q: p > q,
        's<=': lambda p, q: p <= q, 's>=': lambda p, q: p >= q,
    }[op](A, B)
