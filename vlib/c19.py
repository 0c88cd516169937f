"""C19: microcode field layout, by symbolic execution of UCodeROM's layout code.

``UCodeROM._create_field_layout`` and everything it calls (including Amaranth's own
``StructLayout`` and ``Shape``) runs on symbolic origins, widths, declared widths and
enumeration values; on every path the solver decides whether any field can be misplaced,
any mismatch accepted, or any sound list rejected.
"""
import enum
import itertools
import random
from io import StringIO

import z3

import bv as B
import prod
from explore import Stats, check as solve, SolverUnknown
from nir import Netlist, Cycle
from pysym import Engine, SymInt

WMAX, OMAX, VMAX = 9, 40, 9


class Done(BaseException):
    pass


class Feed:
    """Stand-in for the assembler: its parse passes deliver a prepared list of definitions."""
    space = None

    @classmethod
    def install(cls):
        import m5meta
        import m5pre
        if getattr(m5meta.M5Meta, "_fed", False):
            return
        M, P = m5meta.M5Meta, m5pre.M5Pre
        init, p12, read = M.__init__, M.pass12, P.read

        def new_init(self, *a, **k):
            if cls.space is None:
                return init(self, *a, **k)
            self.spaces, self.space, self.symtab, self.pass_num, self.src = {}, None, {}, 0, ""

        def new_pass12(self):
            if cls.space is None:
                return p12(self)
            self.spaces = {cls.space.name: cls.space}

        def new_read(self, *a, **k):
            return read(self, *a, **k) if cls.space is None else ""
        M.__init__, M.pass12, P.read, M._fed = new_init, new_pass12, new_read, True


def probe_class():
    """UCodeROM up to the point where the layout exists (the rest of the component is checked concretely)."""
    from sentinel.ucoderom import UCodeROM

    class Probe(UCodeROM):
        def assemble(self):
            super().assemble()
            raise Done(self)
    Probe._Elaboratable__silence = True
    return Probe


def find_layout(u):
    from amaranth.lib.data import Layout
    if isinstance(getattr(u, "field_layout", None), Layout):
        return u.field_layout
    ls = [v for v in vars(u).values() if isinstance(v, Layout)]
    if len(ls) != 1:
        raise RuntimeError("no field layout found on UCodeROM")
    return ls[0]


def pyenum(members):
    return enum.Enum("Py", {k.upper(): v for k, v in members.items()})


class Def:
    """One field definition: kind and its symbolic parts."""

    def __init__(self, i, kind, names=None, py=None):
        self.name, self.kind, self.names, self.py = f"f{i}", kind, names, py
        self.o, self.w = z3.Int(f"o{i}"), z3.Int(f"w{i}")
        self.mw = z3.Int(f"m{i}")                       # declared width
        self.vals = {k: z3.Int(f"v{i}{k}") for k in (names or ())}
        self.pre = [self.o >= 0, self.o <= OMAX, self.w >= 0, self.w <= WMAX, self.mw >= 0, self.mw <= WMAX]
        self.pre += [z3.And(v >= 0, v <= VMAX) for v in self.vals.values()]
        if kind == "signed":
            self.pre.append(self.mw >= 1)
        if kind == "bool":
            self.pre.append(self.w == 1)
        self.cls = pyenum(py) if py is not None else None

    # the same definition, symbolically or under a model
    def field(self, ev=SymInt):
        from m5meta import Field
        f = Field(self.name, origin=ev(self.o), width=ev(self.w))
        if self.kind == "bool":
            f.enum = {"false": 0, "true": 1}
        elif self.names is not None:
            f.enum = {k: ev(v) for k, v in self.vals.items()}
        return f

    def declared(self, ev=SymInt):
        from amaranth.hdl import unsigned, signed
        if self.kind in ("missing",):
            return None
        if self.cls is not None:
            return self.cls
        return (signed if self.kind == "signed" else unsigned)(ev(self.mw))

    def declared_width(self):
        if self.cls is None:
            return self.mw
        from amaranth.hdl import Shape
        return z3.IntVal(Shape.cast(self.cls).width)        # Amaranth's own rule

    def compatible(self):
        """(must be accepted, may be accepted): whether the definition matches its declaration."""
        if self.kind == "missing":
            return z3.BoolVal(False), z3.BoolVal(False)
        must = [self.w == self.declared_width()]
        may = list(must)
        isenum = self.names is not None and self.kind != "bool"
        if isenum and set(self.names) == {"false", "true"}:
            # exactly false=0,true=1 is m5meta's own bool, declared with any one-bit shape
            asbool = z3.And(self.vals["false"] == 0, self.vals["true"] == 1)
        else:
            asbool = z3.BoolVal(False)
        if isenum:
            if self.cls is None:
                return z3.And(asbool, *must), z3.And(asbool, *may)
            names = set(self.names)
            canonical = {m.name.lower() for m in self.cls}
            every = {k for k in self.py}
            same_vals = z3.And(*[self.vals[k] == self.py[k] for k in self.names if k in self.py])
            if names - every:
                return z3.And(asbool, *must), z3.And(asbool, *may)
            if canonical - names:
                return z3.And(asbool, *must), z3.And(asbool, *may)
            if names == every:
                must.append(z3.Or(asbool, same_vals))
                may.append(z3.Or(asbool, same_vals))
            else:           # an alias known to one side only: either answer
                must.append(z3.BoolVal(False))
                may.append(z3.Or(asbool, same_vals))
        return z3.And(*must), z3.And(*may)

    def accept(self, before):
        """The assembler (m5meta) accepts this definition after fields of total width ``before``."""
        c = [z3.Or(self.w == 0, self.o >= before)]
        for v in self.vals.values():
            c.append(z3.Or(*[z3.And(self.w == k, v < 2 ** k) for k in range(WMAX + 1)]))
        return z3.And(*c)

    def source(self, val):
        o, w = val(self.o), val(self.w)
        if self.kind == "bool":
            return f"  {self.name}: bool, origin {o}, default 0;"
        if self.names is not None:
            en = "; ".join(f"{k} = {val(v)}" for k, v in self.vals.items())
            first = next(iter(self.vals))
            return f"  {self.name}: enum {{ {en} }}, width {w}, origin {o}, default {first};"
        return f"  {self.name}: width {w}, origin {o}, default 0;"


def layout_of(defs, ev):
    """The real UCodeROM construction on these definitions (values from ``ev``)."""
    import m5meta
    fm = {d.name: d.declared(ev) for d in defs if d.kind != "missing"} or {"other": 1}
    sp = m5meta.AddressSpace("block_ram", 4, 200)
    for d in defs:
        sp.fields[d.name] = d.field(ev)
    Feed.install()
    Feed.space = sp
    try:
        PROBE(main_file=StringIO(""), field_map=fm)
        raise RuntimeError("UCodeROM construction does not call assemble()")
    except Done as e:
        u = e.args[0]
    finally:
        Feed.space = None
    lay = find_layout(u)
    return {d.name: (lay[d.name].offset, lay[d.name].width) for d in defs}, lay.size


PROBE = None


def evaluator(m):
    return lambda e: m.eval(e, model_completion=True).as_long()


def asm(defs, val):
    width = max(8, max(val(d.o) + val(d.w) for d in defs))
    body = "\n".join(d.source(val) for d in defs)
    return (f"space block_ram: width {width}, size 4;\nspace block_ram;\norigin 0;\n"
            f"fields block_ram: {{\n{body}\n}};\n{defs[0].name} => 0;\n{defs[0].name} => 0;\n")


def real(defs, m):
    """The real UCodeROM on generated source; -> ('ok', offsets, size) / ('raise', exception)"""
    from sentinel.ucoderom import UCodeROM
    val = evaluator(m)
    text = asm(defs, val)
    fm = {d.name: d.declared(val) for d in defs if d.kind != "missing"}
    if not fm:
        fm = {"other": 1}
    try:
        u = UCodeROM(main_file=StringIO(text), field_map=fm)
        lay = find_layout(u)
        return "ok", {d.name: (lay[d.name].offset, lay[d.name].width) for d in defs}, lay.size, text, u
    except Exception as e:
        return "raise", e, None, text, None


def judge_real(defs, m, r):
    """Independent verdict on a concrete run of the real code; -> description of what is wrong."""
    val = evaluator(m)
    must = z3.is_true(m.eval(z3.And(*[d.compatible()[0] for d in defs]), model_completion=True))
    may = z3.is_true(m.eval(z3.And(*[d.compatible()[1] for d in defs]), model_completion=True))
    disjoint = z3.is_true(m.eval(disjoint_(defs), model_completion=True))
    if r[0] == "ok":
        if not may:
            return "a list that does not match the declared fields is accepted"
        want = {d.name: (val(d.o), val(d.w)) for d in defs}
        if r[1] != want:
            return f"layout {r[1]} where the assembler placed {want}"
        if r[2] != max(val(d.o) + val(d.w) for d in defs):
            return f"layout size {r[2]}"
        return None
    from m5meta import M5MetaError
    if isinstance(r[1], M5MetaError):
        return None
    if disjoint and must:
        return f"a sound list is rejected: {type(r[1]).__name__}: {r[1]}"
    if disjoint and not may and not isinstance(r[1], ValueError):
        return f"a mismatch is reported as {type(r[1]).__name__}, not ValueError"
    return None


def disjoint_(defs):
    c = []
    for a, b in itertools.combinations(defs, 2):
        c.append(z3.Or(a.o + a.w <= b.o, b.o + b.w <= a.o))
        # a zero-width field strictly inside another one is not a sound list either
        for x, y in ((a, b), (b, a)):
            c.append(z3.Not(z3.And(x.o < y.o, y.o < x.o + x.w)))
    return z3.And(*c) if c else z3.BoolVal(True)


def configurations(tier):
    quick = tier == "quick"
    P = lambda i: Def(i, "plain")
    out = [("1 plain", [P(0)]), ("2 plain", [P(0), P(1)]), ("3 plain", [P(0), P(1), P(2)])]
    if not quick:
        out.append(("4 plain", [P(i) for i in range(4)]))
    two = {"A": 0, "B": 1}
    mk = {"plain": lambda i: Def(i, "plain"), "bool": lambda i: Def(i, "bool"),
          "signed": lambda i: Def(i, "signed"), "missing": lambda i: Def(i, "missing"),
          "enum": lambda i: Def(i, "enum", ("a", "b", "c"), {"a": 0, "b": 1, "c": 5}),
          "boolenum": lambda i: Def(i, "enum", ("false", "true"), {"false": 0, "true": 1}),
          "boolplain": lambda i: Def(i, "enum", ("false", "true"), None),
          "enumplain": lambda i: Def(i, "enum", ("a", "b"), None),
          "boolclass": lambda i: Def(i, "bool", None, {"off": 0, "on": 1}),
          "plainclass": lambda i: Def(i, "plain", None, {"a": 0, "b": 1, "c": 2})}
    kinds = sorted(mk)
    for a in kinds:
        out.append((f"1 {a}", [mk[a](0)]))
        for b in kinds:
            out.append((f"{a}+{b}", [mk[a](0), mk[b](1)]))
    for a, b in (("enum", "plain"), ("bool", "plain"), ("enum", "bool")):
        out.append((f"{a}+{b}+plain", [mk[a](0), mk[b](1), P(2)]))
    # enumerations: every class with up to 3 members and values 0..2, every name set
    pool = ("a", "b", "c")
    vmax = 2 if quick else 4
    for k in (1, 2, 3):
        for py in itertools.product(range(vmax + 1), repeat=k):
            cls = dict(zip(pool, py))
            for r in (1, 2, 3):
                for names in itertools.combinations(pool, r):
                    if quick and k == 3 and r < 2:
                        continue
                    out.append((f"enum {cls} vs {','.join(names)}", [Def(0, "enum", names, cls)]))
    return out


def one(job):
    """One configuration: all paths, all obligations, validation, generated sources.  Runs in a worker."""
    k, tier, seed = job
    title, defs = configurations(tier)[k]
    S = Stats()
    out = dict(title=title, paths=0, obl=0, ok=0, rej=0, problems=[], viol={}, validated=0, pipe=0)
    try:
        _one(k, tier, seed, title, defs, S, out)
    except Exception as e:
        out["problems"].append(f"{title}: {type(e).__name__}: {e}")
    out["stats"] = (S.queries, S.unsat, S.sat, S.solver_time)
    return out


def _one(k, tier, seed, title, defs, S, out):
    pre = [c for d in defs for c in d.pre]
    before = z3.IntVal(0)
    for d in defs:
        pre.append(d.accept(before))
        before = before + d.w
    disj = disjoint_(defs)
    must = z3.And(*[d.compatible()[0] for d in defs])
    may = z3.And(*[d.compatible()[1] for d in defs])
    eng = Engine(S, pre)
    models, viol = [], {}
    t = lambda x: x.e if isinstance(x, SymInt) else z3.IntVal(x)
    for conds, r in eng.explore(lambda: layout_of(defs, SymInt)):
        out["paths"] += 1
        out["ok" if r[0] == "ok" else "rej"] += 1
        base = pre + conds
        qs = []
        if r[0] == "ok":
            offs, size = r[1]
            good = z3.And(*[z3.And(t(offs[d.name][0]) == d.o, t(offs[d.name][1]) == d.w) for d in defs])
            end = t(size)
            qs.append(("misplaced", z3.Not(good)))
            qs.append(("size", z3.Not(z3.And(*[end >= d.o + d.w for d in defs],
                                             z3.Or(*[end == d.o + d.w for d in defs])))))
            qs.append(("mismatch-accepted", z3.Not(may)))
        else:
            qs.append(("sound-rejected", z3.And(disj, must)))
            if not isinstance(r[1], ValueError):
                qs.append(("wrong-error", z3.And(disj, z3.Not(may))))
        for name, q in qs:
            out["obl"] += 1
            try:
                ok, m = solve(base + [q], S, want_model=True, logic=None)
            except SolverUnknown as e:
                out["problems"].append(f"{title}: solver gave no answer: {e}")
                continue
            if ok:
                viol.setdefault(name, []).append((m, r))
        # validation of this path: the same inputs, concretely, through the same code
        ok, mod = solve(base, S, want_model=True, logic=None)
        if not ok:
            continue
        val = evaluator(mod)
        try:
            c = ("ok", layout_of(defs, val))
        except RuntimeError:
            raise
        except Exception as e:
            c = ("raise", e)
        out["validated"] += 1
        if c[0] != r[0] or (c[0] == "raise" and type(c[1]) is not type(r[1])):
            out["problems"].append(f"{title}: symbolic and concrete runs differ: {r[1]!r} / {c[1]!r}")
        elif c[0] == "ok":
            offs, size = r[1]
            g = lambda x: val(x.e) if isinstance(x, SymInt) else x
            if {n: (g(a), g(b)) for n, (a, b) in offs.items()} != c[1][0] or g(size) != c[1][1]:
                out["problems"].append(f"{title}: symbolic and concrete layouts differ")
        if len(models) < 200:
            models.append(mod)
        if len(out["problems"]) > 5:
            return
    # counterexamples through the whole real pipeline
    for name, vs in viol.items():
        out["viol"][name] = None
        for m, r in vs[:12]:
            rr = real(defs, m)
            bad = judge_real(defs, m, rr)
            if bad:
                out["viol"][name] = dict(configuration=title, source=rr[3], what=bad, outcome=str(rr[1]))
                break
    # generated sources: assembler, layout and elaboration of the real component
    rng = random.Random(seed * 1009 + k)
    want = (1 if rng.random() < .2 else 0) if tier == "quick" else 2
    if len(defs) == 3:
        want = 4 if tier == "quick" else 40
    for m in rng.sample(models, min(want, len(models))):
        r = real(defs, m)
        bad = judge_real(defs, m, r)
        out["pipe"] += 1
        if bad:
            out["viol"].setdefault("pipeline", None)
            out["viol"]["pipeline"] = dict(configuration=title, source=r[3], what=bad, outcome=str(r[1]))
        if r[0] == "ok":
            val = evaluator(m)
            o, b2 = rom_mapping(S, r[4], {d.name: (val(d.o), val(d.w)) for d in defs})
            out["obl"] += o
            if b2:
                out["viol"]["rom-mapping"] = dict(configuration=title, source=r[3], field=b2)


def check(run):
    import concurrent.futures as cf
    import multiprocessing as mp
    import os
    global PROBE
    PROBE = probe_class()
    confs = configurations(run.tier)
    order = sorted(range(len(confs)), key=lambda i: -len(confs[i][1]))
    with cf.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=mp.get_context("fork")) as ex:
        res = list(ex.map(one, [(k, run.tier, run.seed) for k in order], chunksize=1))
    S = Stats()
    for r in res:
        q, u, s, t = r["stats"]
        S.queries += q
        S.unsat += u
        S.sat += s
        S.solver_time += t
        run.problems += r["problems"]
    obl = sum(r["obl"] for r in res)
    viol = {}
    for r in res:
        for name, hit in r["viol"].items():
            v = viol.setdefault(name, [])
            v.append((r["title"], hit))
    for name, vs in viol.items():
        hits = [h for _, h in vs if h]
        if hits:
            run.violation(name, hits[0])
        else:
            run.problems.append(f"{name}: counterexamples ({vs[0][0]}) not reproduced with UCodeROM")
    from sentinel.ucoderom import UCodeROM
    try:
        u = UCodeROM()
        space = next(iter(u.m5meta.spaces.values()))
        want = {n: (f.origin, f.width) for n, f in space.fields.items()}
        lay = find_layout(u)
        got = {n: (lay[n].offset, lay[n].width) for n in want}
        if got != want:
            run.violation("default-microcode", dict(layout=got, assembler=want))
        o, bad = rom_mapping(S, u, want)
        obl += o
        if bad:
            run.violation("rom-mapping", dict(source="microcode.asm", field=bad))
        o, bad = rom_contents(S, u, space)
        obl += o
        if bad:
            run.violation("rom-contents", dict(source="microcode.asm", address=bad))
    except Exception as e:
        run.violation("default-microcode", dict(error=f"{type(e).__name__}: {e}"))
    big = sorted(res, key=lambda r: -r["paths"])[:5]
    run.cov.update(states=len(confs), transitions=sum(r["paths"] for r in res), obligations=obl,
                   paths=sum(r["paths"] for r in res),
                   traces_validated_against_impl=sum(r["validated"] + r["pipe"] for r in res),
                   generated_sources=sum(r["pipe"] for r in res),
                   solver_queries=S.queries, solver_unsat=S.unsat, solver_sat=S.sat,
                   solver_seconds=round(S.solver_time, 2),
                   samples=[dict(configuration=r["title"], paths=r["paths"], accepted=r["ok"], rejected=r["rej"])
                            for r in big],
                   functions_encoded=["UCodeROM.__init__ up to the end of assemble()",
                                      "UCodeROM._create_field_layout, _check_and_convert_dynamic_shape, "
                                      "_check_and_convert_dynamic_enum", "amaranth StructLayout, Shape",
                                      "UCodeROM.elaborate (netlist)", "UCodeROM._create_mem_init (contents)"],
                   bounds=f"up to {3 if run.tier == 'quick' else 4} fields in any order; origins 0..{OMAX}, widths "
                          f"and declared widths 0..{WMAX}, microcode enumeration values 0..{VMAX}; enumeration "
                          f"classes of up to 3 members with values 0..{2 if run.tier == 'quick' else 4}, every "
                          "subset of names on the microcode side")
    run.assumptions += ["the assembler's acceptance rule (m5meta 1.0.4 assign_bits) is modelled as a precondition; "
                        "parsing itself is exercised on generated sources, not encoded",
                        "a list with overlapping fields may be answered with any exception"]
    if any(r["paths"] == 0 for r in res):
        run.problems.append("vacuous: a configuration has no path")


def rom_mapping(S, u, want):
    """Every field output is exactly its bits of the ROM word; the address reaches the memory unchanged."""
    from amaranth.hdl import _nir
    n = Netlist(u)
    if len(n.rport) != 1:
        return 0, "not one read port"
    p = n.rport[0]
    fresh = prod.Fresh()
    data = fresh("word", n.width[p])
    addr = fresh("addr", n.inputs["addr"][1])
    c = Cycle(n, {"addr": addr, "clk": 0, "rst": 0}, base={**prod.arbitrary(n, fresh, "q"), p: data})
    out = c.out("fields")
    ow = len(n.outputs["fields"])
    k = 0
    for name, (o, w) in want.items():
        if w == 0:
            continue
        k += 1
        lo, hi = o, o + w - 1
        if hi >= ow:
            return k, name
        if hi >= n.width[p]:
            continue        # wider than the declared space: outside the statement
        a, b = B.extract(out, hi, lo, ow), B.extract(data, hi, lo, n.width[p])
        if solve([B.bv(a, w) != B.bv(b, w)], S)[0]:
            return k, name
    cell = n.cells[p]
    k += 1
    aw = len(cell.addr)
    a = c.value(cell.addr)
    if solve([B.bv(a, aw) != B.extract(addr, aw - 1, 0, addr.size())], S)[0]:
        return k, "address"
    en = B.tobool(c.net(cell.en))
    if en is not True and solve([z3.Not(en)] if en is not False else [], S)[0]:
        return k, "enable"
    return k, None


def rom_contents(S, u, space):
    """For every address, the stored word decodes to the assembled field values (solver over the address)."""
    aw = max(1, (u.depth - 1).bit_length())
    a = z3.BitVec("addr", aw)
    mem = list(u.ucode_mem.data.init) if hasattr(u.ucode_mem, "data") else list(u.ucode_mem.init)
    def table(vals, w):
        """ITE tree over the address bits."""
        vals = list(vals) + [0] * ((1 << aw) - len(vals))
        row = [z3.BitVecVal(int(v), w) for v in vals[:1 << aw]]
        for bit in range(aw):
            sel = z3.Extract(bit, bit, a) == 1
            row = [x if x.eq(y) else z3.If(sel, y, x) for x, y in zip(row[::2], row[1::2])]
        return row[0]
    word = table(mem, u.width)
    k = 0
    for name, f in space.fields.items():
        if f.width == 0:
            continue
        k += 1
        lay = find_layout(u)[name]
        exp = [0] * u.depth
        for pc, inst in space.inst.items():
            exp[int(pc)] = inst.get(name, f.default)
        exp = table(exp, f.width)
        got = z3.Extract(lay.offset + lay.width - 1, lay.offset, word)
        ok, m = solve([got != exp], S, want_model=True)
        if ok:
            return k, dict(field=name, address=m.eval(a, model_completion=True).as_long())
    return k, None
