"""How can the CPU get into a state in which an obligation fails?  Backward search over whole instructions.

A one-step counterexample may need hidden state (flip-flops that are not architectural) which no plain program leaves
behind.  The hidden values it really needs are isolated by pinning every other hidden flip-flop to an observed value;
then instructions are sought (any class, any path, decided by Z3) that end with those values, from states closer to
the observed one, until nothing hidden is left to explain.  The whole sequence is solved once more as one
formula over shared registers and memory, which gives the program that is replayed.
"""
import itertools
import multiprocessing as mp
import time
import traceback

import z3

import bv as B
import core
import oblig
import spec
from explore import SolverUnknown, Path, Stats
from nir import Cycle, ConMem

PER_JOB = 2         # predecessors kept per (template, entry, target)
FRONTIER = 6        # targets per level
LEVELS = 12
MAX_PATHS = 60      # per instruction class and entry
ALTS = 8            # ways on to the failure kept per set of hidden values
QUERY_MS = 20000


def arch_cells(cpu):
    n = cpu.n
    out = set()
    for s in (cpu.sig_pc, cpu.sig_mstatus, cpu.sig_mie):
        for ch in n.chunks(n.sig_value(s)):
            if ch[0] == "n":
                out.add(ch[1])
    return out


def pieces(cpu):
    """(cell, low bit, width) of the hidden state, and of the enable bits a program can set up in advance."""
    n = cpu.n
    a = arch_cells(cpu)
    hard = [(i, 0, n.width[i]) for i in n.state_ids if i not in a and i not in cpu.rom_ports]
    soft = []
    for sig, bit in ((cpu.sig_mstatus, 3), (cpu.sig_mstatus, 7), (cpu.sig_mie, 11)):
        net = n.sig_value(sig)[bit]
        if not net.is_const and net.cell in a:
            soft.append((net.cell, net.bit, 1))
    return hard, soft


def part(cyc, pc, n):
    e = cyc.state(pc[0])
    if pc[2] == n.width[pc[0]]:
        return e
    if B.is_c(e):
        return e >> pc[1] & (1 << pc[2]) - 1
    return z3.simplify(z3.Extract(pc[1] + pc[2] - 1, pc[1], e))


def observed(ctx, sim):
    """Hidden state between two ordinary instructions of a program, as the simulator's run gives it."""
    import replay
    n = ctx.cpu.n
    sc = dict(recs=[dict(insn=replay.NOP, irq=[0], ack=[], dat_r=[])], regs=[0] * 32, mie=0, mpie=0, meie=0, pc=0x1000,
              csrs=dict(mtvec=0, mscratch=0, mepc=0, mcause=0))
    tape, rf0 = replay.build(ctx, sc)
    recs, trace = sim.run_tape(tape, rf0)
    at = next(r.at for r in recs if r.target)
    st = n.init_state({m: ConMem([rf0.get(i, 0) for i in range(n.mems[m].depth)]) for m in n.rams})
    for k, b in enumerate(trace):
        if k == at - 1:
            return {i: st[i] for i in n.state_ids}
        c = Cycle(n, {"bus__dat_r": b["dat_r"], "bus__ack": b["ack"], "irq": b["irq"], "rst": 0, "clk": 0}, base=st)
        st = {i: c.next(i) for i in n.state_ids + n.rams}
    raise LookupError("no target in the observed run")


def sig_of(p):
    return tuple((c["ctl"], c["ack"], c["wait"]) for c in p.cycles)


class Worker:
    def __init__(self, ctx, want, extra, w, jobs):
        self.ctx, self.want, self.extra, self.w, self.jobs = ctx, want, extra, w, jobs
        self.hard, self.soft = pieces(ctx.cpu)
        self.paths = {}
        self.st = Stats()

    # -- pins
    def solver(self, conds):
        s = z3.SolverFor("QF_ABV")
        s.set("timeout", QUERY_MS)
        for c in conds:
            if c is True:
                continue
            if c is False:
                return None
            s.add(c)
        return s

    def ask(self, s, *assume):
        t = time.time()
        r = s.check(*assume)
        self.st.queries += 1
        self.st.solver_time += time.time() - t
        if r == z3.sat:
            self.st.sat += 1
        elif r == z3.unsat:
            self.st.unsat += 1
        return r == z3.sat

    def pins(self, cyc):
        out = []
        for pc in self.hard + self.soft:
            e = part(cyc, pc, self.ctx.cpu.n)
            if not B.is_c(e):
                out.append((pc, e, B.bv(e, pc[2]) == (self.w[pc[0]] >> pc[1] & (1 << pc[2]) - 1)))
        return out

    def explain(self, conds, cyc):
        """-> None or (model, {piece: value} of the state that cannot be the observed one)"""
        s = self.solver(conds)
        if s is None or not self.ask(s):
            return None
        pins = self.pins(cyc)
        cube = {}

        def add(lst):
            s.push()
            s.add(*[x for _, _, x in lst])
            if self.ask(s):
                s.pop()
                s.add(*[x for _, _, x in lst])
                return
            s.pop()
            if len(lst) == 1:
                cube[lst[0][0]] = lst[0][1]
                return
            h = len(lst) // 2
            add(lst[:h])
            add(lst[h:])
        if pins:
            add(pins)
        if not self.ask(s):
            return None
        m = s.model()
        return m, {i: m.eval(e, model_completion=True).as_long() for i, e in cube.items()}

    # -- the failing instruction
    def failing(self, tname, entry, groups, free=None):
        ctx, ex = self.ctx, self.ctx.ex
        t = spec.BY_NAME[tname]
        insn, F, cons = core.build_insn(t)
        out, late = [], []
        todo = set(groups)
        r1, r2 = z3.BitVec("r1", 5), z3.BitVec("r2", 5)

        def visit(p):
            s = core.step_of(ctx, p)
            for name, conds in self.claims(t, F, insn, p, s, r1, r2):
                if name not in todo:
                    continue
                r = self.explain(p.conds + oblig.invariant(s.A) + conds, p.start)
                if r:
                    waits = any(c["wait"] for c in p.cycles)
                    if waits and sum(x["group"] == name for x in late):
                        continue
                    if not waits:
                        todo.discard(name)
                    d = core.extract(r[0], insn, p, s)
                    d.update(group=name, template=tname)
                    (late if waits else out).append(dict(template=tname, entry=entry, group=name, cube=r[1],
                                                         sig=sig_of(p), sc=d, word=d["recs"][0]["insn"]))
            if not todo or time.time() > self.deadline:
                raise core.Truncated
        try:
            for p in ex.start(entry, insn, cons)[0]:
                p.conds = p.conds + self.but(p, free)
                ex.run(p, visit)
        except core.Truncated:
            pass
        return out + [x for x in late if x["group"] in todo]

    def claims(self, t, F, insn, p, s, r1, r2):
        g = oblig.groups(t, F, s, r1, r2, set(self.want(t)))
        g.pop("_normal", None)
        out = [(name, [a, z3.Not(c)]) for name, (a, c) in g.items()]
        if self.extra:
            out += [(name, list(c)) for name, c in self.extra(self.ctx, t, F, insn, p, s)]
        return out

    def shrink(self, f):
        """The same failure with less hidden state of its own, over all paths.  Everything outside is pinned first,
        so few paths remain."""
        while time.time() < self.deadline:
            for x in sorted(f["cube"], key=lambda i: (i in self.soft, -i[2])):
                if x in self.soft:
                    continue
                g = self.failing(f["template"], f["entry"], [f["group"]], set(f["cube"]) - {x})
                if g:
                    f = g[0]
                    break
            else:
                break
        return f

    # -- predecessors
    def explore(self, free):
        """Ways through each instruction, from any hidden state, or from one as observed except for ``free``."""
        ctx, ex = self.ctx, self.ctx.ex
        end = time.time() + (self.deadline - time.time()) * .6
        todo = [j for j in self.jobs if (free,) + j not in self.paths]
        for k, (tname, entry) in enumerate(todo):
            left = end - time.time()
            if left < 0:
                return
            until = time.time() + 2 * left / (len(todo) - k)
            acc = []
            insn, F, cons = core.build_insn(spec.BY_NAME[tname])

            def keep(p):
                if p.status == "boundary" and not any(c["wait"] for c in p.cycles):
                    acc.append(p)       # a wait of any length forgets what changes meanwhile
                if time.time() > until or len(acc) >= MAX_PATHS:
                    raise core.Truncated
            try:
                for p in ex.start(entry, insn, cons)[0]:
                    p.conds = p.conds + self.but(p, free)
                    ex.run(p, keep)
            except core.Truncated:
                pass
            self.paths[free, tname, entry] = acc

    def but(self, p, free):
        if free is None:
            return []
        return [x for pc, _, x in self.pins(p.start) if pc not in free and pc in self.hard]

    def level(self, targets, free):
        self.explore(free)
        out = []
        for tid, entry, cube in targets:
            for (fr, tname, e0), paths in self.paths.items():
                if fr != free:
                    continue
                k = 0
                for p in paths:
                    if p.cycles[-1]["ctl"] != entry:
                        continue
                    if time.time() > self.deadline:
                        return out
                    r = self.before(p, cube)
                    if r:
                        word = p.start.inputs["bus__dat_r"]
                        if not B.is_c(word):
                            word = r[0].eval(word, model_completion=True).as_long()
                        out.append(dict(tid=tid, template=tname, entry=e0, cube=r[1], sig=sig_of(p), word=word))
                        k += 1
                        if self.full(r[1]) or k >= PER_JOB:
                            break
        return out

    def full(self, cube):
        return not any(i in cube for i in self.hard)

    def before(self, p, cube):
        """Can the path end with the values in ``cube`` without starting with them?"""
        n = self.ctx.cpu.n
        end = p.last[0]
        conds, moved = [], []
        for i, v in cube.items():
            e = part(end, i, n)
            if B.is_c(e):
                if e != v:
                    return None
            else:
                conds.append(B.bv(e, i[2]) == v)
            if not B.same(e, part(p.start, i, n)):
                moved.append(i)
        if not moved:
            return None
        a = z3.Or(*[B.bv(part(p.start, i, n), i[2]) != cube[i] for i in moved])
        A = oblig.View.of(self.ctx.cpu, p.cycles[0]["cyc"])
        return self.explain(p.conds + oblig.invariant(A) + conds + [a], p.start)

    # -- the whole sequence at once
    def joint(self, steps, group):
        """steps: [(template, entry, sig, word)] with the failing instruction last -> scenario or None.  Hidden state
        starts as observed; the instruction words are those found one by one, then free."""
        return self._joint(steps, group, True) or self._joint(steps, group, False)

    def start(self, entry, insn, cons):
        ex, n = self.ctx.ex, self.ctx.cpu.n
        st = ex.havoc_state(entry, tag="s")
        for i, lo, w in self.hard:
            if not B.is_c(st[i]) and z3.is_const(st[i]):
                st[i] = self.w[i]
        c0 = Cycle(n, ex.inputs(ack=1, dat_r=insn, irq=ex.fresh("irq0", 1)), base=st)
        q = Path()
        q.conds = list(cons)
        q.cycles, q.age, q.trans, q.status, q.dropped = [], 0, [], None, []
        q.start, q.entry, q.last = c0, entry, None
        return self.settled(q)

    def settled(self, q):
        ex = self.ctx.ex
        out = []
        c0 = q.start
        for addrs, cs in ex.concretise(c0, q.conds, q.entry):
            p = q.fork()
            p.conds += cs
            c = ex.settled_clone(c0, addrs)
            ex.settle(c, addrs)
            p.start, p.last = c, (c, addrs)
            out.append(p)
        return out

    def _joint(self, steps, group, words):
        ctx, ex, n = self.ctx, self.ctx.ex, self.ctx.cpu.n
        done = []
        conds, old = [], None
        for k, (tname, entry, sig, word) in enumerate(steps):
            t = spec.BY_NAME[tname]
            insn, F, cons = core.build_insn(t)
            if k < len(steps) - 1:
                sub = [(v, z3.BitVec(f"k{k}_{v}", v.size())) for v in F.values() if not B.is_c(v)]
                if sub:
                    insn = insn if B.is_c(insn) else z3.substitute(insn, *sub)
                    cons = [z3.substitute(c, *sub) for c in cons]
            if words and word is not None and not B.is_c(insn):
                cons = cons + [insn == word]
                insn = word
            if old is None:
                starts = self.start(entry, insn, cons)
            else:
                cyc, addrs = old
                c0 = Cycle(n, dict(cyc.inputs, bus__dat_r=insn, bus__ack=1), base=cyc.base, prev=cyc.prev)
                ex.settle(c0, addrs)
                for port, a in zip(ctx.cpu.rom_ports, addrs):
                    cell = ex.addr_cell(port)
                    if cell is not None:
                        c0.memo[cell] = (a, len(n.cells[port].addr))
                q = Path()
                q.conds = conds + cons
                q.cycles, q.age, q.trans, q.status, q.dropped = [], 0, [], None, []
                q.start, q.entry, q.last = c0, entry, (c0, addrs)
                starts = [q]
            p = self.follow(starts, sig)
            if p is None:
                return None
            s = core.step_of(ctx, p)
            if old is None:
                p.conds = p.conds + oblig.invariant(s.A)
            done.append((insn, F, t, p, s))
            conds, old = list(p.conds), p.last
        insn, F, t, p, s = done[-1]
        bad = dict(self.claims(t, F, insn, p, s, z3.BitVec("r1", 5), z3.BitVec("r2", 5))).get(group)
        if bad is None:
            return None
        sv = self.solver(conds + bad)
        if sv is None or not self.ask(sv):
            return None
        m = sv.model()
        d = None
        for insn, F, t, p, s in done:
            e = core.extract(m, insn, p, s)
            if d is None:
                d = e
            else:
                d["recs"] += e["recs"]
        d.update(group=group, template=steps[-1][0])
        return d

    def follow(self, starts, sig):
        for p in starts:
            stack = [p]
            while stack:
                p = stack.pop()
                for q in self.ctx.ex.expand(p):
                    got = sig_of(q)
                    if got != sig[:len(got)]:
                        continue
                    if q.status:
                        if len(got) == len(sig):
                            return q
                    else:
                        stack.append(q)
        return None


def _serve(conn, w):
    while True:
        msg = conn.recv()
        if msg is None:
            return
        name, deadline, args = msg
        w.deadline = deadline
        try:
            conn.send((True, getattr(w, name)(*args), (w.st.queries, w.st.solver_time)))
        except Exception as e:
            conn.send((False, f"{type(e).__name__}: {e} {traceback.format_exc(limit=4)}", (0, 0)))


class Farm:
    """Workers that keep their explored paths between requests."""

    def __init__(self, ctx, want, extra, w, entries):
        mpc = mp.get_context("fork")
        jobs = [(t.name, e) for t in sorted(spec.TEMPLATES, key=core.cost) for e in entries]
        self.conns, self.procs = [], []
        k = core.NPROC
        for j in range(k):
            a, b = mpc.Pipe()
            wk = Worker(ctx, want, extra, w, jobs[j::k])
            p = mpc.Process(target=_serve, args=(b, wk), daemon=True)
            p.start()
            self.conns.append(a)
            self.procs.append(p)
        self.errors = []
        self.queries = [(0, 0)] * k

    def ask(self, name, deadline, argss):
        """Send each of ``argss`` to its worker (None: skip) -> list of results."""
        used = []
        for j, a in enumerate(argss):
            if a is not None:
                self.conns[j].send((name, deadline, a))
                used.append(j)
        out = []
        for j in used:
            if not self.conns[j].poll(max(0.1, deadline + 25 - time.time())):
                self.errors.append(f"{name}: worker {j} late")
                self.dead = True
                continue
            ok, r, self.queries[j] = self.conns[j].recv()
            if ok:
                out.append(r)
            else:
                self.errors.append(r)
        return out

    dead = False

    def spread(self, name, deadline, items):
        """One item per request, in rounds over the workers."""
        out = []
        k = len(self.conns)
        for b in range(0, len(items), k):
            if time.time() > deadline or self.dead:
                break
            out += self.ask(name, deadline, items[b:b + k])
        return out

    def close(self):
        for p in self.procs:
            p.kill()


def levels(ctx, farm, fails, free, dl, info, replay, log, t0):
    """Backwards from the failing instructions, one instruction at a time."""
    front, seen = [], {}
    soft = set(pieces(ctx.cpu)[1])

    def hard(cube):
        return any(i not in soft for i in cube)

    def node(x, alt, out):
        key = (x["entry"], tuple(sorted(x["cube"].items())))
        if key not in seen:
            seen[key] = dict(entry=x["entry"], cube=x["cube"], alt=alt[:ALTS])
            out.append(seen[key])
        elif seen[key] in out:
            old = seen[key]["alt"]
            seen[key]["alt"] = [a for pair in itertools.zip_longest(old, alt) for a in pair if a][:ALTS]
    for x in fails:
        if hard(x["cube"]):
            node(x, [(x["group"], [(x["template"], x["entry"], x["sig"], x["word"])])], front)
    for lev in range(LEVELS):
        front = front[:FRONTIER]
        if not front or time.time() > dl or farm.dead:
            break
        info["levels"] = max(info["levels"], lev + 1)
        tg = [(k, f["entry"], f["cube"]) for k, f in enumerate(front)]
        sols = [x for r in farm.ask("level", dl, [(tg, free)] * len(farm.conns)) for x in r]
        sols.sort(key=lambda x: len(x["cube"]))
        if log:
            log(("level", lev, round(time.time() - t0), len(sols),
                 [(x["template"], x["cube"]) for x in sols][:6]))
        new, full = [], []
        for x in sols:
            f = front[x["tid"]]
            alt = [(g, [(x["template"], x["entry"], x["sig"], x["word"])] + ch) for g, ch in f["alt"]]
            if hard(x["cube"]):
                node(x, alt, new)
            else:
                full.append((x["template"], alt))
        if full:
            info["chains"] += len(full)
            scs, todo = [], one_each(full)[:8 * len(farm.conns)]
            while todo and not scs and time.time() < dl and not farm.dead:
                k = len(farm.conns)
                scs = [x for x in farm.spread("joint", dl, [(ch, g) for g, ch in todo[:k]]) if x]
                todo = todo[k:]
            if log:
                log(("joint", round(time.time() - t0), len(full), len(scs)))
            if scs and replay(scs):
                info["reproduced"] = f"after {lev + 1} preparing instructions"
                return True
        front = new
    return False


def search(ctx, want, extra, entries, targets, sim, budget, replay, log=None):
    """targets: [(template, entry, [groups])].  ``replay(scenarios)`` -> True once something is reproduced.
    -> statistics"""
    t0 = time.time()
    dl = t0 + budget
    info = dict(levels=0, targets=len(targets), chains=0)
    try:
        w = observed(ctx, sim)
    except Exception as e:
        return dict(info, error=f"{type(e).__name__}: {e}")
    farm = Farm(ctx, want, extra, w, entries)
    try:
        fails = [x for r in farm.spread("failing", min(dl, t0 + budget * .4), [tuple(t) for t in targets]) for x in r]
        small = min((len(x["cube"]) for x in fails), default=0)
        if small > 1:
            fails.sort(key=lambda x: len(x["cube"]))
            few = fails[:len(farm.conns)]
            fails = farm.spread("shrink", min(dl, t0 + budget * .5), [(x,) for x in few]) or fails
        fails.sort(key=lambda x: len(x["cube"]))
        info["hidden_needed"] = sorted({tuple(sorted(ctx.cpu.n.names[i[0]] for i in x["cube"])) for x in fails})[:6]
        if log:
            log(("failing", round(time.time() - t0), [(x["template"], x["group"], x["cube"]) for x in fails][:8]))
        if replay([x["sc"] for x in fails[:16]]):
            info["reproduced"] = "failing instruction alone, hidden state as observed"
            return info
        free = frozenset(i for x in fails for i in x["cube"])
        for pinned, share in ((free, .7), (None, 1.0)):
            if levels(ctx, farm, fails, pinned, min(dl, t0 + budget * share), info, replay, log, t0):
                break
        return info
    finally:
        farm.close()
        if farm.errors:
            info["errors"] = farm.errors[:3]
        info["solver_queries"] = sum(q for q, _ in farm.queries)
        info["solver_seconds"] = round(sum(t for _, t in farm.queries), 2)
        info["wall_s"] = round(time.time() - t0, 1)


def one_each(full):
    """Different first instructions and different endings first."""
    names = {}
    for k, (t, alt) in enumerate(full):
        names.setdefault(t, []).append(alt)
    rows = []
    for alts in names.values():
        rows.append([a for r in itertools.zip_longest(*alts) for a in r if a])
    return [a for r in itertools.zip_longest(*rows) for a in r if a]
