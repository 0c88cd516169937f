"""Exploration of every instruction class from every entry point, and the obligations on each path."""
import multiprocessing as mp
import os
import time
import traceback

import z3

import load  # noqa: F401
import bv as B
import oblig
import spec
from explore import Cpu, Explorer, Path, Stats, check, SolverUnknown, MAX_CYCLES
from nir import Cycle, SymMem, ShapeError

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
RESET_BOUND = 48


class NoFetch(Exception):
    """No instruction fetch after power-on within RESET_BOUND cycles."""


class Ctx:
    """The elaborated design with everything the jobs share."""

    def __init__(self, cpu=None):
        t = time.time()
        self.cpu = cpu or Cpu()
        self.ex = Explorer(self.cpu)
        self.elab_s = time.time() - t
        self.discover()

    def discover(self):
        """Constants, the boundary and the first entry point, from the power-on reset run."""
        cpu, ex, n = self.cpu, self.ex, self.cpu.n
        ex.consts = {}
        ram = {}
        for m in n.rams:
            mc = n.mems[m]
            ram[m] = SymMem(z3.Array(f"por_mem{m}", z3.BitVecSort((mc.depth - 1).bit_length()),
                                     z3.BitVecSort(mc.width)))
        st = n.init_state(ram)
        cur = tuple(0 for _ in cpu.rom_ports)
        c = Cycle(n, ex.inputs(dat_r=0), base=st)
        for k in range(RESET_BOUND):
            cyc, stb = c.out("bus__cyc"), c.out("bus__stb")
            if not (B.is_c(cyc) and B.is_c(stb)):
                raise ShapeError("bus request after reset depends on data")
            if cyc and stb:
                break
            nx = ex.concretise(c, [], cur)
            if len(nx) != 1:
                raise ShapeError("reset sequence depends on data")
            cur = nx[0][0]
            ex.settle(c, cur)
            c = Cycle(n, ex.inputs(dat_r=0), prev=c,
                      base={p: ex.rom_word(p, a) for p, a in zip(cpu.rom_ports, cur)})
        else:
            raise NoFetch()
        self.reset_cycles = k
        seed = {i: c.state(i) for i in n.ff}
        ex.find_consts(seed)
        # the entry point: where the wait for the first fetch settles
        entries = set()
        self.first_wait = []
        ctl = cur
        for _ in range(8):
            nx = ex.concretise(c, [], ctl)
            if len(nx) != 1:
                raise ShapeError("first fetch wait depends on data")
            ex.settle(c, nx[0][0])
            ctl = nx[0][0]
            entries.add(ctl)
            c = Cycle(n, ex.inputs(dat_r=0), prev=c,
                      base={p: ex.rom_word(p, a) for p, a in zip(cpu.rom_ports, ctl)})
            if not (c.out("bus__cyc") == 1 and c.out("bus__stb") == 1):
                raise ShapeError("first fetch request withdrawn")
            self.first_wait.append((c, ctl))
        # acknowledge: the boundary
        ca = Cycle(n, ex.inputs(ack=1), base=dict(c.base), prev=c.prev)
        ex.boundary = {a for a, _ in ex.concretise(ca, [], ctl)}
        fw = []
        for cw, held in self.first_wait:
            ca = Cycle(n, ex.inputs(ack=1), base=dict(cw.base), prev=cw.prev)
            for a, _ in ex.concretise(ca, [], held):
                fw.append((cw, held, a))
        self.first_wait = fw
        self.seed_entries = sorted(entries)
        ex.stats = Stats()


def build_insn(t):
    parts, F, cons = t.build()
    return B.cat_msb([(v, w) for v, w in parts]), F, cons


def step_of(ctx, p):
    cpu, ex = ctx.cpu, ctx.ex
    s = oblig.Step()
    s.A = oblig.View.of(cpu, p.cycles[0]["cyc"])
    s.complete = p.status == "boundary"
    s.irqs = [B.bv(p.start.inputs["irq"], 1)] + [B.bv(c["cyc"].inputs["irq"], 1) for c in p.cycles]
    s.trans = []
    for k in p.trans:
        c = p.cycles[k]["cyc"]
        s.trans.append(oblig.Tx(B.bv(c.out("bus__we"), 1), B.bv(c.out("bus__adr"), 30),
                                B.bv(c.out("bus__sel"), 4), B.bv(c.out("bus__dat_w"), 32),
                                B.bv(c.inputs["bus__dat_r"], 32)))
    s.Z = s.fetch = None
    if s.complete:
        cyc, addrs = p.last
        s.fetch = B.bv(cyc.out("bus__adr"), 30)
        s.Z = oblig.View.of(cpu, ex.child_cycle(cyc, addrs, ex.inputs()))
    return s


def extract(m, insn, p, s):
    """A concrete scenario from a model."""
    def ev(e, w=None):
        if B.is_c(e):
            return e
        return m.eval(e, model_completion=True).as_long()
    d = dict(insn=ev(insn), irq=[ev(i) for i in s.irqs],
             ack=[c["ack"] for c in p.cycles],
             dat_r=[ev(c["cyc"].inputs["bus__dat_r"]) for c in p.cycles])
    d["recs"] = [dict(d)]
    d.update(regs=[ev(s.A.reg(z3.BitVecVal(i, 5))) for i in range(32)],
             pc=ev(s.A.pc), mie=ev(s.A.mie), mpie=ev(s.A.mpie), meie=ev(s.A.meie),
             csrs={k: ev(v) for k, v in s.A.csrs.items()},
             entry=list(p.entry), status=p.status,
             ctl=[list(c["ctl"]) for c in p.cycles][:80])
    return d


class Job:
    """Obligations of one target template, evaluated path by path."""

    def __init__(self, ctx, t, F, insn, want, extra, entry, first=None):
        self.ctx, self.t, self.F, self.insn, self.want, self.extra = ctx, t, F, insn, want, extra
        self.first = first      # (insn, path, step) of the predecessor (two-step refinement)
        self.res = dict(template=t.name, entry=entry, arrivals=set(), viol=[], obligations=0, unknown=[],
                        maxlen=0, paths=0, inv_fail=False, incomplete=0, ctls=set())
        self.r1, self.r2 = z3.BitVec("r1", 5), z3.BitVec("r2", 5)
        self.base0 = []
        self.reset = False
        self.found = {}        # counterexamples so far, per group
        self.t0 = time.time()

    def query(self, name, conds, p, s):
        res, ex = self.res, self.ctx.ex
        if self.found.get(name, 0) >= MAX_CEX:
            return False
        res["obligations"] += 1
        try:
            sat, m = check(conds, ex.stats, timeout=QUERY_MS, want_model=True)
        except SolverUnknown as e:
            res["unknown"].append((name, str(e)))
            return False
        if sat:
            if self.reset:
                d = extract(m, self.insn, p, s)
                d["from_reset"] = True
            elif self.first:
                i0, p0, s0 = self.first
                d = extract(m, i0, p0, s0)
                d1 = extract(m, self.insn, p, s)
                d["recs"] += d1["recs"]
            else:
                d = extract(m, self.insn, p, s)
            d.update(group=name, template=self.t.name)
            res["viol"].append(d)
            self.found[name] = self.found.get(name, 0) + 1
        return sat

    def __call__(self, p):
        res, ex, ctx = self.res, self.ctx.ex, self.ctx
        if self.found and (time.time() - self.t0 > JOB_S or (_SOFT and time.time() > _SOFT)) \
                and any(n != "inv" or "inv" in self.want for n in self.found):
            raise Truncated
        res["paths"] += 1
        res["maxlen"] = max(res["maxlen"], len(p.cycles))
        res["ctls"].update(c["ctl"] for c in p.cycles)
        s = step_of(ctx, p)
        base = p.conds + (self.base0 if self.first and not self.reset else oblig.invariant(s.A))
        if s.complete:
            res["arrivals"].add(p.cycles[-1]["ctl"])
            if STRENGTHEN and not self.first:
                res.setdefault("falsified", set()).update(STRENGTHEN.falsified(base, p.last[0], ex.stats))
        else:
            res["incomplete"] += 1
        g = oblig.groups(self.t, self.F, s, self.r1, self.r2, set(self.want) | ({"inv"} if not self.first else set()))
        for name, k in self.found.items():
            if k >= MAX_CEX:
                g.pop(name, None)
        normal = g.pop("_normal", None)
        if "int_precise" in g and normal is not None:
            if check(base + [normal[0], z3.Not(normal[1])], ex.stats, timeout=QUERY_MS)[0]:
                del g["int_precise"]        # fails without any interrupt: not an interrupt defect
        if g:
            bad = [z3.And(a, z3.Not(c)) for a, c in g.values()]
            res["obligations"] += len(g)
            try:
                sat, _ = check(base + [z3.Or(*bad)], ex.stats, timeout=QUERY_MS)
            except SolverUnknown as e:
                res["unknown"].append(("all", str(e)))
                sat = False
            if sat:
                for name, (a, c) in g.items():
                    if self.query(name, base + [a, z3.Not(c)], p, s) and name == "inv":
                        res["inv_fail"] = True
        if self.extra:
            ex_obl = [(n, c) for n, c in self.extra(ctx, self.t, self.F, self.insn, p, s)]
            if len(ex_obl) > 1:     # all at once first
                res["obligations"] += len(ex_obl)
                try:
                    if not check(base + [z3.Or(*[z3.And(*c) for _, c in ex_obl])], ex.stats,
                                 timeout=QUERY_MS)[0]:
                        ex_obl = []
                except SolverUnknown:
                    res["obligations"] -= len(ex_obl)
            for name, conds in ex_obl:
                self.query(name, base + conds, p, s)


QUERY_MS = 240000
MAX_CEX = 30        # counterexamples kept per (template, entry, group)
JOB_S = 60          # a job that has found counterexamples stops exploring after this long
EXPLORE_S = 150     # so does the whole exploration
GIVE_UP_S = 650     # without any counterexample: no verdict after this long
_SOFT = None
STRENGTHEN = None   # proposed invariants over hidden state (houdini.py)


class Truncated(Exception):
    """Enough counterexamples; the remaining paths of this job are not explored."""


def run_job(ctx, tname, ctl, want, extra=None):
    """Explore template ``tname`` from entry ``ctl``; check groups ``want`` on every path.

    ``extra``: optional callable(ctx, t, F, insn, p, s) -> list of (name, [conditions that must be unsat])
    """
    t = spec.BY_NAME[tname]
    ex = ctx.ex
    ex.stats = Stats()
    insn, F, cons = build_insn(t)
    starts, _ = ex.start(ctl, insn, cons, STRENGTHEN and STRENGTHEN.put)
    job = Job(ctx, t, F, insn, want, extra, ctl)
    for p in starts:
        if p.last[1] not in ex.boundary:
            job.res["badstart"] = True
        try:
            ex.run(p, job)
        except Truncated:
            job.res["truncated"] = True
            break
    job.res["stats"] = ex.stats
    return job.res


def run_pair(ctx, pred, ctl, targets, extra=None, deadline=None):
    """Predecessor ``pred`` from an arbitrary state at ``ctl``, then each of ``targets``
    [(template, entry)] from the state it really leaves (two-step refinement)."""
    ex = ctx.ex
    ex.stats = Stats()
    out = dict(template=pred, entry=ctl, viol=[], unknown=[], obligations=0, paths=0, pairs=0, skipped=0)
    if pred is None:
        for tname, entry in targets:
            for cw, arr, held in ctx.first_wait:
                if arr == entry:
                    _pair(ctx, out, tname, entry, Cycle(ctx.cpu.n, dict(cw.inputs), base=dict(cw.base),
                                                        prev=cw.prev), held, [], None, extra)
        out["stats"] = ex.stats
        return out
    t0 = spec.BY_NAME[pred]
    insn0, F0, cons0 = build_insn(t0)
    insn0 = z3.substitute(insn0, *[(v, z3.BitVec("p" + str(v), v.size())) for v in F0.values()]) \
        if F0 and not B.is_c(insn0) else insn0
    cons0 = [z3.substitute(c, *[(v, z3.BitVec("p" + str(v), v.size())) for v in F0.values()]) for c in cons0]
    starts, _ = ex.start(ctl, insn0, cons0)
    paths = []
    for p in starts:
        ex.run(p, paths.append)
    for p in paths:
        if p.status != "boundary":
            continue
        s0 = step_of(ctx, p)
        inv = oblig.invariant(s0.A)
        arr = p.cycles[-1]["ctl"]
        for tname, entry in targets:
            if entry != arr:
                continue
            if deadline and time.time() > deadline:
                out["skipped"] += 1
                continue
            job = _pair(ctx, out, tname, entry, p.last[0], p.last[1], p.conds, (insn0, p, s0), extra)
            if job.res["viol"]:
                break
    out["stats"] = ex.stats
    return out


def _pair(ctx, out, tname, entry, old, addrs, conds, first, extra):
    """Run target ``tname`` with its fetch acknowledged in cycle ``old``."""
    ex = ctx.ex
    t = spec.BY_NAME[tname]
    insn, F, cons = build_insn(t)
    inp = dict(old.inputs)
    inp["bus__dat_r"] = insn
    inp["bus__ack"] = 1
    c0 = Cycle(ctx.cpu.n, inp, base=old.base, prev=old.prev)
    ex.settle(c0, addrs)
    for port, a in zip(ctx.cpu.rom_ports, addrs):
        cell = ex.addr_cell(port)
        if cell is not None:
            c0.memo[cell] = (a, len(ctx.cpu.n.cells[port].addr))
    q = Path()
    q.conds = list(conds) + cons
    q.cycles, q.age, q.trans, q.status, q.dropped = [], 0, [], None, []
    q.start, q.entry, q.last = c0, entry, (c0, addrs)
    job = Job(ctx, t, F, insn, _WANT(t), extra, entry, first=first or (None, None, None))
    if first:
        job.base0 = oblig.invariant(first[2].A)
    else:
        job.reset = True
    try:
        ex.run(q, job)
    except Truncated:
        pass
    out["pairs"] += 1
    for k in ("viol", "unknown"):
        out[k] += job.res[k]
    out["obligations"] += job.res["obligations"]
    out["paths"] += job.res["paths"]
    return job


_CTX = None
_EXTRA = None
_WANT = None


def _worker(a):
    tname, ctl, want = a
    try:
        return run_job(_CTX, tname, ctl, want, _EXTRA)
    except Exception as e:      # reported, never silently dropped
        return dict(template=tname, entry=ctl, error=f"{type(e).__name__}: {e}",
                    trace=traceback.format_exc(limit=6))


def _pair_worker(a):
    pred, ctl, targets, deadline = a
    try:
        return run_pair(_CTX, pred, ctl, targets, _EXTRA, deadline)
    except Exception as e:
        return dict(template=pred, entry=ctl, error=f"{type(e).__name__}: {e}",
                    trace=traceback.format_exc(limit=6))


def refine(ctx, entries, targets, want, extra=None, budget=200.0):
    """Two-step refinement: is a violation of ``targets`` possible after one arbitrary instruction?"""
    global _CTX, _EXTRA, _WANT
    _CTX, _EXTRA, _WANT = ctx, extra, want
    dl = time.time() + budget
    jobs = [(t.name, c, targets, dl) for t in sorted(spec.TEMPLATES, key=lambda t: -cost(t))
            for c in entries] + [(None, None, targets, dl)]
    R = Result()
    R.skipped = 0
    with mp.get_context("fork").Pool(NPROC) as pool:
        it = pool.imap_unordered(_pair_worker, jobs, chunksize=1)
        stop = dl + 60
        while True:
            try:
                r = it.next(timeout=max(0.1, stop - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                R.skipped += len(jobs) - R.jobs
                break
            R.jobs += 1
            if "error" in r:
                R.errors.append(r)
                continue
            R.stats.add(r["stats"])
            R.viol += r["viol"]
            R.unknown += r["unknown"]
            R.obligations += r["obligations"]
            R.paths += r["paths"]
            R.skipped += r["skipped"]
            if R.viol:
                stop = min(stop, time.time() + 30)
    return R




def cost(t):
    return {"csr": 2, "csrro": 3, "csrbad": 3, "shift": 9, "illegal": 4}.get(t.cls, 1)


class Result:
    def __init__(self):
        self.stats = Stats()
        self.viol = []
        self.unknown = []
        self.errors = []
        self.obligations = 0
        self.paths = 0
        self.entries = []
        self.jobs = 0
        self.maxlen = 0
        self.inv_fail = []
        self.per = {}
        self.states = set()
        self.truncated = None      # why the exploration stopped early


def explore_all(ctx, want, extra=None, templates=None, give_up=None):
    """Run all templates from all entries to a fixpoint; ``want(t)``: obligation groups of a template.

    Stops early (``truncated``) when it has counterexamples and takes long, or after ``give_up`` seconds."""
    global _CTX, _EXTRA, _SOFT
    _CTX, _EXTRA = ctx, extra
    R = Result()
    t0 = time.time()
    _SOFT = t0 + EXPLORE_S
    give_up = give_up or GIVE_UP_S
    hit = False
    known = set()
    todo = list(ctx.seed_entries)
    ts = sorted(templates or spec.TEMPLATES, key=lambda t: -cost(t))
    with mp.get_context("fork").Pool(NPROC) as pool:
        while todo:
            new = [c for c in todo if c not in known]
            known.update(new)
            jobs = [(t.name, c, set(want(t))) for t in ts for c in new]
            todo = []
            it = pool.imap_unordered(_worker, jobs, chunksize=1)
            while True:
                try:
                    r = it.next(timeout=max(0.1, min(5, t0 + (EXPLORE_S + 15 if hit else give_up) - time.time())))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    t = time.time() - t0
                    if hit and t > EXPLORE_S + 10 or t > give_up:
                        R.truncated = f"exploration stopped after {t:.0f} s with {R.jobs} jobs done"
                        pool.terminate()
                        R.entries = sorted(known)
                        return R
                    continue
                R.jobs += 1
                if "error" in r:
                    R.errors.append(r)
                    continue
                R.stats.add(r["stats"])
                R.viol += r["viol"]
                hit = hit or any(v["group"] != "inv" or "inv" in want(spec.BY_NAME[v["template"]]) for v in r["viol"])
                if r.get("truncated"):
                    R.truncated = R.truncated or f"{r['template']} from {r['entry']} not explored completely"
                R.unknown += [(r["template"], r["entry"]) + u for u in r["unknown"]]
                R.obligations += r["obligations"]
                R.paths += r["paths"]
                R.maxlen = max(R.maxlen, r["maxlen"])
                R.states.update((r["template"], r["entry"], c) for c in r["ctls"])
                if r["inv_fail"]:
                    R.inv_fail.append((r["template"], r["entry"]))
                R.per.setdefault(r["template"], []).append(r)
                for a in r["arrivals"]:
                    if a not in known:
                        todo.append(a)
            todo = sorted(set(todo))
    R.entries = sorted(known)
    return R
