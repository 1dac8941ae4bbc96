"""Discharge the events of one function: drop non-inductive candidates, then prove
every obligation with the remaining invariants as hypotheses."""
import inspect, time
import z3
from . import dsl, sem
from .sem import FA
from .dsl import toz, I


class Result:
    def __init__(self):
        self.obligations, self.discharged, self.failed = 0, 0, []
        self.solver_s, self.passes, self.invariants = 0.0, 0, 0
        self.by = {}
        self.kinds = {}
        self.lemmas = 0
        self.exits, self.exits_live = 0, 0
        self.pre_live = None


Z3SET = dict(auto_config=False)


def new_solver(ms):
    s = z3.SimpleSolver()
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('smt.random_seed', 1)
    s.set('timeout', ms)
    s.set('smt.arith.solver', 2)
    return s


class Ctx:
    """hypotheses so far in one pass"""

    def __init__(self, pr, ms):
        self.pr = pr
        self.s = new_solver(ms)
        self.fas = []          # (guard or None, FA)
        self.seen = set()
        self.keep = []
        self.muls = {}
        self.all = []

    def add(self, f):
        f = toz(f)
        self.s.add(f)
        self.all.append(f)
        for ax in self.harvest(f):
            self.s.add(ax)
            self.all.append(ax)

    def harvest(self, f):
        """new imul monomials in ground positions -> axiom instances"""
        new = []
        stack = [f]
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in self.seen:
                continue
            self.seen.add(i)
            self.keep.append(e)
            if z3.is_quantifier(e):
                continue
            if z3.is_app(e):
                if e.decl().name() == 'imul':
                    new.append(e)
                stack.extend(e.children())
        out = []
        for m in new:
            x, y = m.arg(0), m.arg(1)
            out.append(z3.Implies(z3.And(x >= 0, y >= 0), m >= 0))
            out.append(z3.Implies(z3.And(x >= 1, y >= 0), m >= y))
            out.append(z3.Implies(z3.And(x >= 0, y >= 1), m >= x))
            out.append(z3.Implies(z3.Or(x == 0, y == 0), m == 0))
            out.append(z3.Implies(x == 1, m == y))
            out.append(z3.Implies(z3.And(x >= 0, y <= 0), m <= 0))
            out.append(z3.Implies(z3.And(x <= 0, y >= 0), m <= 0))
            out.append(z3.Implies(y == 1, m == x))
            for o in self.muls.values():
                for a, b in ((x, y), (y, x)):
                    for c, d in ((o.arg(0), o.arg(1)), (o.arg(1), o.arg(0))):
                        if b.eq(d):
                            out.append(z3.Implies(z3.And(b >= 0, a < c), m + b <= o))
                            out.append(z3.Implies(z3.And(b >= 0, c < a), o + b <= m))
                            out.append(z3.Implies(z3.And(b <= 0, a < c), m + b >= o))
                            out.append(z3.Implies(z3.And(b <= 0, c < a), o + b >= m))
                            out.append(z3.Implies(a == c, m == o))
                            out.append(z3.Implies(a == c + 1, m == o + b))
                            out.append(z3.Implies(c == a + 1, o == m + b))
            self.muls[m.get_id()] = m
        if out:
            for ax in list(out):
                out += self.harvest(ax)
        return out


class Prover:
    def __init__(self, ex, ms_houdini=1500, ms_final=20000, log=None, only=None):
        self.ex, self.k = ex, ex.k
        self.ms_h, self.ms_f = ms_houdini, ms_final
        self.log = log or (lambda *a: None)
        self.res = Result()
        self.only = only
        self.lemma_ok = []
        self._hints = None

    # ---- axioms about spec functions
    def rec_axioms(self, ctx):
        ts = [lr.t for lr in self.ex.loops.values()]
        terms = list(ts)
        for lr in self.ex.loops.values():
            for n, (e, s) in lr.ivs.items():
                v = lr.hphis[n].S()
                if not isinstance(v, int) and not any(v.eq(t) for t in terms):
                    terms.append(v)
        for x in self.k.extra_index:
            terms.append(toz(x))
        for r in self.k.recs:
            for ax in rec_base(r):
                ctx.add(ax)
            for t in terms:
                for ax in rec_unfold(r, t):
                    ctx.add(ax)
        for ax in self.k.axioms:
            ctx.add(ax)
        for t in terms:
            for ax in self.def_at(t):
                ctx.add(ax)
        for f in self.k.loopfacts:
            n = len(inspect.signature(f).parameters)
            for lr in self.ex.loops.values():
                if len(lr.chain) == n:
                    for x in f(*[l.t for l in lr.chain]):
                        ctx.add(toz(x))
        ctx.rows = []
        for C, loop, sk, consts in self.k.mulgroups:
            rows = [toz(c) for c in consts]
            for f in loop:
                n = len(inspect.signature(f).parameters)
                for lr in self.ex.loops.values():
                    if len(lr.chain) >= n:
                        r = toz(f(*[l.t for l in lr.chain[:n]]))
                        if not any(r.eq(x) for x in rows):
                            rows.append(r)
            ctx.rows.append(rows)
            for i in range(len(rows)):
                for j in range(i):
                    for ax in mul_pair(rows[i], rows[j], C):
                        ctx.add(ax)
                for ax in mul_one(rows[i], C):
                    ctx.add(ax)

    def mul_at(self, ctx, sk):
        out = []
        for (C, loop, fs, consts), rows in zip(self.k.mulgroups, getattr(ctx, 'rows', [])):
            for f in fs:
                n = len(inspect.signature(f).parameters)
                if len(sk) >= n:
                    a = toz(f(*sk[:n]))
                    out += mul_one(a, C)
                    for b in rows:
                        out += mul_pair(a, b, C)
        return out

    def def_at(self, t):
        out = []
        for f, ax, dom, arity in self.k.defs:
            if arity == 1:
                for c in ax(f, toz(t)):
                    out.append(toz(c) if dom is None else z3.Implies(toz(dom(toz(t))), toz(c)))
        return out

    def at_skolems(self, sk):
        out = []
        for r in self.k.recs:
            for s in sk:
                out += rec_unfold(r, s)
        for s in sk:
            out += self.def_at(s)
        return out

    def start(self, ms):
        ctx = Ctx(self, ms)
        for e in self.ex.events:
            if e[0] == 'pre':
                ctx.add(e[1])
        self.rec_axioms(ctx)
        for ax in self.lemma_ok:
            ctx.add(ax)
        return ctx

    # ---- one query
    def prove(self, ctx, guard, item, ms=None, final=False, extra_sk=()):
        s = ctx.s
        s.push()
        n0 = len(ctx.all)
        seen0, muls0 = set(ctx.seen), dict(ctx.muls)
        try:
            if ms:
                s.set('timeout', ms)
            insts = []
            if isinstance(item, FA):
                sk = [self.ex.fresh('sk') for _ in item.ranges]
                goal = item.inst(*sk)
                insts = self.instances(ctx, sk)
            else:
                goal = toz(item)
                sk = []
            for sks in list(extra_sk) + self.hints():
                insts += self.instances(ctx, sks)
            for f in insts:
                ctx.add(f)
            ctx.add(toz(guard))
            ctx.add(z3.Not(goal))
            t0 = time.time()
            r = s.check()
            self.res.solver_s += time.time() - t0
            why = s.reason_unknown() if r == z3.unknown else ''
            if r == z3.unsat:
                return True, 'z3'
            if final:
                ok, by = self.fallback(ctx)
                if ok:
                    return True, by
                model = None
                if r == z3.sat:
                    try:
                        model = s.model()
                    except z3.Z3Exception:
                        pass
                return False, (str(r) + (' ' + why if why else ''), model)
            return False, (str(r), None)
        finally:
            s.pop()
            del ctx.all[n0:]
            ctx.seen, ctx.muls = seen0, muls0

    def hints(self):
        if not self.k.hints:
            return []
        if self._hints is None:
            self._hints = []
            for f in self.k.hints:
                n = len(inspect.signature(f).parameters)
                for lr in self.ex.loops.values():
                    if len(lr.chain) == n:
                        x = f(*[l.t for l in lr.chain])
                        self._hints.append([toz(y) for y in (x if isinstance(x, tuple) else (x,))])
        return self._hints

    def instances(self, ctx, sk):
        insts = self.at_skolems(sk) + self.mul_at(ctx, sk)
        for g, h in ctx.fas:
            if len(h.ranges) == len(sk):
                f = h.inst(*sk)
                insts.append(f if g is None else z3.Implies(g, f))
            elif len(h.ranges) == 1:
                for x in sk:
                    f = h.inst(x)
                    insts.append(f if g is None else z3.Implies(g, f))
        return insts

    def fallback(self, ctx):
        """other configurations, then cvc5"""
        for cfg in ({'smt.arith.solver': 6}, {'smt.random_seed': 7, 'smt.case_split': 3}):
            s = z3.SimpleSolver()
            s.set('auto_config', False)
            s.set('smt.mbqi', False)
            for a, b in cfg.items():
                s.set(a, b)
            s.set('timeout', self.ms_f)
            for f in ctx.all:
                s.add(f)
            t0 = time.time()
            r = s.check()
            self.res.solver_s += time.time() - t0
            if r == z3.unsat:
                return True, 'z3'
            if r == z3.sat:
                return False, None
        return False, None

    # ---- lemmas about spec functions, by induction
    def prove_lemmas(self):
        for lm in self.k.lemmas:
            self.res.obligations += 1
            self.res.kinds['lemma'] = self.res.kinds.get('lemma', 0) + 1
            ok = self.prove_lemma(lm)
            if ok:
                self.res.discharged += 1
                self.res.by['z3'] = self.res.by.get('z3', 0) + 1
                self.lemma_ok.append(lm['ax'])
            else:
                self.res.failed.append(('lemma', lm['name'], 'not proved', None))

    def prove_lemma(self, lm):
        ctx = Ctx(self, self.ms_f)
        for e in self.ex.events:
            if e[0] == 'pre':
                ctx.add(e[1])
            if e[0] == 'assume' and z3.is_quantifier(e[1]) and 'm0_' in str(e[1].body()):
                ctx.add(e[1])
        for ax in self.lemma_ok:
            ctx.add(ax)
        for ax in self.k.axioms:
            ctx.add(ax)
        t = z3.Int('ind!t')
        p = z3.Int('ind!p')
        for r in self.k.recs:
            for ax in rec_base(r) + rec_unfold(r, t):
                ctx.add(ax)
        for x in self.k.extra_index:
            for r in self.k.recs:
                for ax in rec_unfold(r, x):
                    ctx.add(ax)
        for ax in self.def_at(t):
            ctx.add(ax)
        up = lm['upto']
        dom = [t >= 0]
        if up is not None:
            dom.append(t < toz(up))
        if lm['kind'] == 'mono':
            f = lm['f']
            return self.prove(ctx, z3.And(*dom), f(t) <= f(t + 1), final=True)[0]
        if lm['kind'] == 'mono2':
            f = lm['f']
            pd = [p >= toz(lm['plo'])] + ([p < toz(lm['phi'])] if lm['phi'] is not None else [])
            return self.prove(ctx, z3.And(*pd, *dom), f(p, t) <= f(p, t + 1), final=True)[0]
        if lm['kind'] == 'monon':
            f = lm['f']
            ps = [self.ex.fresh('lv') for _ in range(f.np)]
            return self.prove(ctx, z3.And(*dom), f(*ps, t) <= f(*ps, t + 1), final=True)[0]
        if lm['kind'] == 'custom':
            for hyps, goal in lm['goals']():
                s = z3.Solver()
                s.set('timeout', self.ms_f)
                for h in hyps:
                    s.add(toz(h))
                s.add(z3.Not(toz(goal)))
                t0 = time.time()
                r = s.check()
                self.res.solver_s += time.time() - t0
                if r != z3.unsat:
                    return False
            return True
        if lm['kind'] == 'free':
            sk = [self.ex.fresh('lv') for _ in range(lm['n'])]
            for r in self.k.recs:
                for s_ in sk:
                    for ax in rec_unfold(r, s_):
                        ctx.add(ax)
            return self.prove(ctx, z3.BoolVal(True), lm['P'](*sk), final=True)[0]
        P = lm['P']
        if lm['kind'] == 'ind':
            a = self.prove(ctx, z3.BoolVal(True) if up is None else toz(up) >= 0, P(z3.IntVal(0)), final=True)[0]
            b = self.prove(ctx, z3.And(*dom, toz(P(t))), P(t + 1), final=True)[0]
            return a and b
        pd = [p >= toz(lm['plo'])]
        if lm['phi'] is not None:
            pd.append(p < toz(lm['phi']))
        for r in self.k.recs:
            for ax in rec_unfold(r, p):
                ctx.add(ax)
        upp = (up(p) if callable(up) else up)
        dom = [t >= 0] + ([t < toz(upp)] if upp is not None else [])
        a = self.prove(ctx, z3.And(*pd) if upp is None else z3.And(*pd, toz(upp) >= 0), P(p, z3.IntVal(0)), final=True)[0]
        b = self.prove(ctx, z3.And(*pd, *dom, toz(P(p, t))), P(p, t + 1), final=True)[0]
        return a and b

    # ---- passes
    def run(self):
        self.prove_lemmas()
        while True:
            self.res.passes += 1
            died = self.one_pass(final=False)
            if not died:
                break
        self.one_pass(final=True)
        for h, lr in self.ex.loops.items():
            self.res.obligations += 1
            self.res.kinds['termination'] = self.res.kinds.get('termination', 0) + 1
            if any(c.alive and c.bound for c in lr.cands):
                self.res.discharged += 1
                self.res.by['z3'] = self.res.by.get('z3', 0) + 1
            else:
                self.res.failed.append(('termination', f'loop {h} has an invariant bounding its iterations', 'no bound proved', None))
        self.res.invariants = sum(1 for lr in self.ex.loops.values() for c in lr.cands if c.alive)
        return self.res

    def one_pass(self, final):
        ctx = self.start(self.ms_f if final else self.ms_h)
        died = 0
        res = self.res
        exits = set()
        fsk = [sk for sk, _ in self.ex.failsk]
        for e in self.ex.events:
            if e[0] == 'assume':
                ctx.add(e[1])
            elif e[0] == 'hyp':
                _, c, g, items, h = e
                if not c.alive:
                    continue
                for it in items:
                    if isinstance(it, FA):
                        ctx.fas.append((g, it))
                        ctx.add(z3.Implies(g, it.formula()))
                        if len(it.ranges) == 1:
                            for x in self.k.extra_index:
                                ctx.add(z3.Implies(g, it.inst(toz(x))))
                    else:
                        ctx.add(z3.Implies(g, toz(it)))
            elif e[0] == 'inv':
                _, c, which, g, items, h = e
                if not c.alive:
                    continue
                if final:
                    # established in the previous pass with identical hypotheses; counted here
                    res.obligations += 1
                    res.discharged += 1
                    res.kinds['invariant'] = res.kinds.get('invariant', 0) + 1
                    res.by['z3'] = res.by.get('z3', 0) + 1
                    continue
                for it in items:
                    ok, why = self.prove(ctx, g, it)
                    if not ok:
                        c.alive = False
                        died += 1
                        self.log(f'  drop [{h}] {c.name} ({which}): {why[0]}')
                        break
            elif e[0] == 'oblig':
                _, kind, name, g, items = e
                if not final:
                    continue
                res.obligations += 1
                res.kinds[kind] = res.kinds.get(kind, 0) + 1
                if kind == 'post' and str(g) not in exits:
                    # vacuity: the hypotheses must not refute every way out of the function
                    exits.add(str(g))
                    res.exits += 1
                    if not self.prove(ctx, g, z3.BoolVal(False), ms=400)[0]:
                        res.exits_live += 1
                    ctx.s.set('timeout', self.ms_f)
                if kind == 'post' and self.only == 'safety':
                    res.obligations -= 1
                    res.kinds[kind] -= 1
                    continue
                good = True
                by = 'z3'
                for it in items:
                    ok, why = self.prove(ctx, g, it, final=True, extra_sk=fsk if kind == 'post' else ())
                    if not ok:
                        good = False
                        res.failed.append((kind, name, why[0], why[1]))
                        self.log(f'  FAILED {kind}: {name}: {why[0]}')
                        break
                    by = why
                if good:
                    res.discharged += 1
                    res.by[by] = res.by.get(by, 0) + 1
        return died


def rec_base(r):
    if r.np == 0:
        return [r.base()]
    ps = [z3.Int(f'rp{d}') for d in range(r.np)]
    return [z3.ForAll(ps, r.base(*ps), patterns=[r.f(*ps, z3.IntVal(0))])]


def rec_unfold(r, t):
    t = toz(t)
    if r.np == 0:
        return [r.unfold(t)] + [r.unfold(z3.simplify(toz(g(t)))) for g in r.also]
    ps = [z3.Int(f'rp{d}') for d in range(r.np)]
    nxt = z3.simplify(t + 1)
    return [z3.ForAll(ps, r.unfold(*ps, t), patterns=[r.f(*ps, nxt), r.f(*ps, t)])]


def mul_one(a, C):
    m = dsl.mul(a, C)
    return [z3.Implies(z3.And(a >= 0, toz(C) >= 0), m >= 0), z3.Implies(z3.And(a >= 1, toz(C) >= 0), m >= toz(C)), z3.Implies(z3.And(a >= 0, toz(C) >= 1), m >= a)]


def mul_pair(a, b, C):
    """instances of facts of integer multiplication"""
    C = toz(C)
    x, y = toz(dsl.mul(a, C)), toz(dsl.mul(b, C))
    return [z3.Implies(z3.And(C >= 0, a < b), x + C <= y), z3.Implies(z3.And(C >= 0, b < a), y + C <= x), z3.Implies(a == b, x == y)]
