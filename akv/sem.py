"""Verification-condition generator: one forward pass over a function's IR.

Every load/store yields a bounds obligation, every no-wrap operation an overflow
obligation, every loop header an arbitrary-iteration state constrained by the
invariants that survive, every return the contract's postcondition.
The result is an ordered event list that `prove.py` discharges.
"""
import inspect
import struct
import re
import z3
from . import ir, dsl, build
from .dsl import toz, is_sym, CT, trange, uf, I, B, fsort
from .ir import Unsupported, sizeof, fieldoff


def simp(x):
    return z3.simplify(x) if isinstance(x, z3.ExprRef) else x


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def zadd(a, b):
    if isint(a) and isint(b):
        return a + b
    if isint(b) and b == 0:
        return a
    if isint(a) and a == 0:
        return b
    return z3.simplify(a + b)


class IntV:
    """n-bit integer; t is a mathematical integer congruent to it mod 2^n, in
    signed range (r='s'), unsigned range ('u') or only congruent ('m')."""
    __slots__ = ('t', 'n', 'r', 'lo', 'hi', 'b', 'pa', 'pd', 'by')

    def __init__(self, t, n, r, lo=None, hi=None, b=None):
        self.t, self.n, self.r, self.b = t, n, r, b
        self.by = None        # byte by byte (see bytes_of)
        self.pa = None        # address of element pa[1] of region pa[0]
        self.pd = None        # pointer difference: pd[0] elements of pd[1] bytes
        if isint(t):
            lo = hi = t
        if lo is None:
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if r == 's' else (0, (1 << n) - 1)
        self.lo, self.hi = lo, hi

    def S(self):
        n = self.n
        h = 1 << (n - 1)
        if -h <= self.lo and self.hi < h:
            return self.t
        if isint(self.t):
            return (self.t + h) % (1 << n) - h
        if self.lo >= 0 and self.hi < (1 << n):
            return z3.If(self.t >= h, self.t - (1 << n), self.t)
        return (self.t + h) % (1 << n) - h

    def U(self):
        n = self.n
        if self.lo >= 0 and self.hi < (1 << n):
            return self.t
        if isint(self.t):
            return self.t % (1 << n)
        if self.lo >= -(1 << (n - 1)) and self.hi < (1 << (n - 1)):
            return z3.If(self.t < 0, self.t + (1 << n), self.t)
        return self.t % (1 << n)

    def srange(self):
        h = 1 << (self.n - 1)
        if -h <= self.lo and self.hi < h:
            return self.lo, self.hi
        return -h, h - 1

    def urange(self):
        if self.lo >= 0 and self.hi < (1 << self.n):
            return self.lo, self.hi
        return 0, (1 << self.n) - 1


class PtrV:
    """alternatives (guard, region, offset in elements); region None = null; ('g',name) = constant global"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class FltV:
    __slots__ = ('t', 'n')

    def __init__(self, t, n):
        self.t, self.n = t, n


class BoolV:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Region:
    """array argument (kind 'arr'), local array ('arr'), or struct cells ('cells')"""

    def __init__(self, name, kind, ct=None, es=None, length=None, writable=True, local=False, tysz=None, ty2=None):
        self.name, self.kind, self.ct, self.es, self.length = name, kind, ct, es, length
        self.writable, self.local, self.tysz = writable, local, tysz
        self.rows = None       # for T**: (number of rows, row length function)

    def sort(self):
        kind, n, s = CT[self.ct]
        e = fsort(n) if kind == 'float' else I
        return e


_selcache = {}


def select_smart(m, i):
    key = (m.get_id(), toz(i).get_id())
    r = _selcache.get(key)
    if r is not None:
        return r[0]
    i = toz(i)
    k = m.decl().kind()
    if k == z3.Z3_OP_STORE:
        a, j, v = m.children()
        c = z3.simplify(i == j)
        if z3.is_true(c):
            r = v
        elif z3.is_false(c):
            r = select_smart(a, i)
        else:
            r = z3.If(i == j, v, select_smart(a, i))
    elif k == z3.Z3_OP_ITE:
        c, a, b = m.children()
        x, y = select_smart(a, i), select_smart(b, i)
        r = x if x.eq(y) else z3.If(c, x, y)
    else:
        r = z3.Select(m, i)
    _selcache[key] = (r, m, i)
    return r


class FA:
    """forall v in ranges: body(v).  ranges are (lo,hi) functions of the earlier v."""

    def __init__(self, ranges, body, pat=None, label=''):
        self.ranges, self.body, self.pat, self.label = ranges, body, pat, label

    def _rng(self, vs):
        out = []
        for d, (lo, hi) in enumerate(self.ranges):
            l = lo(*vs[:d]) if callable(lo) else lo
            h = hi(*vs[:d]) if callable(hi) else hi
            out.append(z3.And(toz(l) <= vs[d], vs[d] < toz(h)))
        return out

    _n = 0

    def formula(self):
        FA._n += 1
        vs = [z3.Int(f'q!{FA._n}_{d}') for d in range(len(self.ranges))]
        kw = {}
        if self.pat is not None:
            p = self.pat(*vs)
            if p is not None:
                kw['patterns'] = [z3.MultiPattern(*x) if isinstance(x, tuple) else x for x in (p if isinstance(p, list) else [p])]
        if not kw:
            kw['patterns'] = [uf(f'trig{len(vs)}', *([I] * len(vs)), B)(*vs)]
        return z3.ForAll(vs, z3.Implies(z3.And(*self._rng(vs)), toz(self.body(*vs))), **kw)

    def inst(self, *vs):
        return z3.Implies(z3.And(*self._rng(vs)), toz(self.body(*vs)))


class LoopRec:
    def __init__(self, loop, t):
        self.loop, self.t = loop, t
        self.pivs = {}
        self.pes = {}
        self.ivs = {}        # phi name -> (entry IntV term, step)
        self.phis = {}       # phi name -> header value
        self.cands = []
        self.chain = ()      # LoopRecs from outermost to this


class SymState:
    """what invariant candidates may talk about"""
    mode = 'sym'

    def __init__(self, ex, chain_ts, mem, phis):
        self.ex, self.ts, self._mem, self.phis = ex, chain_ts, mem, phis

    def mem(self, region, i):
        if isinstance(i, tuple):
            return select_smart(select_smart(self._mem[region], toz(i[0])), toz(i[1]))
        return select_smart(self._mem[region], toz(i))

    def arr(self, region):
        return self._mem[region]

    def phi(self, header, name):
        return self.phis[(header, name)]


class Executor:
    def __init__(self, mod, fn, sig, contract, k=None):
        self.mod, self.fn, self.sig = mod, fn, sig
        self.k = k or dsl.K(sig, 'sym')
        if k is None:
            contract(self.k)
        self.events = []
        self.env = {}
        self.regions = {}
        self.loops = {}
        self.nfresh = 0
        self.R, self.inmem, self.outedges = {}, {}, {}
        self.nob = 0
        self.wrap_ok = self.k.flags.get('wrap_ok', False)
        self.returns = 0
        self.stats = {}
        self.failsk = []
        self.bases = {}
        self.allocated, self.bitax = False, set()
        self.same = set()       # callees used through the contract being proved: their bodies are verified too
        self.entry_guard, self.rets = z3.BoolVal(True), None
        self.ext = False        # wider set of invariant candidates

    # ---- helpers
    def fresh(self, base, sort=I):
        self.nfresh += 1
        return z3.Const(f'{base}!{self.nfresh}', sort)

    def assume(self, f):
        if f is True or (isinstance(f, z3.ExprRef) and z3.is_true(f)):
            return
        self.events.append(('assume', toz(f)))

    def oblige(self, kind, name, guard, items, assume_after=True):
        """items: list of z3 Bools / FA"""
        items = [i for i in items if i is not True]
        self.nob += 1
        if not items:
            self.stats['trivial'] = self.stats.get('trivial', 0) + 1
            return
        self.events.append(('oblig', kind, name, guard, items))
        if assume_after:
            for i in items:
                if not isinstance(i, FA):
                    self.assume(z3.Implies(guard, toz(i)))

    def where(self, ins):
        ln = self.mod.lines.get(ins.loc) if ins is not None and ins.loc else None
        s = ins.line.split(', !')[0] if ins is not None else ''
        return (f'line {ln}: ' if ln else '') + s

    # ---- set-up
    def bind(self):
        fn, k = self.fn, self.k
        ps = list(fn.params)
        self.sret = None
        mem = {}
        if ps and 'sret' in ps[0][2]:
            r = Region('$ret', 'cells', tysz=40)
            self.regions['$ret'] = r
            self.env[ps[0][1]] = PtrV([(True, '$ret', 0)])
            mem['$ret'] = {}
            self.sret = '$ret'
            ps = ps[1:]
        if len(ps) != len(self.sig['args']):
            raise Unsupported(f'{fn.name}: {len(ps)} parameters, contract has {len(self.sig["args"])}')
        for (ty, nm, at), a in zip(ps, self.sig['args']):
            an = a['name']
            if a['ptr']:
                if ty.k != 'ptr':
                    raise Unsupported('parameter kind')
                if an not in k.arrs:
                    raise Unsupported(f'contract of {fn.name} does not declare array {an}')
                ct = k.arrs[an].ct
                kind, n, s = CT[ct]
                if a['ptr'] == 2:
                    r = Region(an, 'rows', ct, n // 8, k.lens[an], writable=an in k.out_regions)
                    r.rows = k.arrs[an].rowlen
                    mem[an] = k.arrs[an].mem
                else:
                    r = Region(an, 'arr', ct, n // 8, k.lens[an], writable=an in k.out_regions)
                    mem[an] = k.arrs[an].mem
                    self.range_axiom(mem[an], ct)
                self.regions[an] = r
                self.env[nm] = PtrV([(True, an, 0)])
            else:
                if an not in k.scal:
                    raise Unsupported(f'contract of {fn.name} does not declare {an}')
                v = k.scal[an]
                kind, n, s = CT[a['type']]
                if kind == 'bool':
                    self.env[nm] = BoolV(v)
                elif kind == 'float':
                    self.env[nm] = FltV(v, n)
                else:
                    self.env[nm] = IntV(v, n, 's' if s else 'u')
        for p in k.pre:
            self.events.append(('pre', toz(p)))
        for n, ins in enumerate(fn.news()):
            # memory the function allocates for itself; its size is fixed where it is allocated
            r = Region(f'$new{n}', 'arr', 'int64_t', 8, z3.Int(f'len$new{n}'), local=True)
            self.regions[r.name] = r
            mem[r.name] = z3.Const('M_' + r.name, z3.ArraySort(I, r.sort()))
            self.range_axiom(mem[r.name], r.ct)
            self.events.append(('assume', z3.And(r.length >= 0, r.length <= 1 << 60)))
        return mem

    def range_axiom(self, m, ct):
        kind, n, s = CT[ct]
        if kind == 'float':
            return
        lo, hi = trange(ct)
        i = z3.Int('ri')
        self.events.append(('assume', z3.ForAll([i], z3.And(z3.Select(m, i) >= lo, z3.Select(m, i) <= hi), patterns=[z3.Select(m, i)])))

    # ---- values
    def val(self, op, ty):
        k = op[0]
        if k == 'v':
            return self.env[op[1]]
        if k == 'i':
            if ty.n == 1:
                return BoolV(bool(op[1] & 1))
            return IntV(op[1], ty.n, 's')
        if k == 'f':
            return FltV(dsl.fconst(parse_float(op[1], ty.n), ty.n), ty.n)
        if k == 'null':
            return PtrV([(True, None, 0)])
        if k == 'g':
            return PtrV([(True, ('g', op[1]), 0)])
        if k == 'zero':
            if ty.k == 'ptr':
                return PtrV([(True, None, 0)])
            if ty.k == 'int':
                return IntV(0, ty.n, 's')
        if k == 'undef':
            return self.havoc(ty, 'undef')
        if k == 'cgep':
            b = self.val(op[2][0][1], op[2][0][0])
            return b
        raise Unsupported(f'operand {op}')

    def havoc(self, ty, base, like=None):
        if ty.k == 'int':
            if ty.n == 1:
                return BoolV(self.fresh(base, B))
            r = 's'
            if isinstance(like, IntV) and like.lo >= 0 and like.hi > (1 << (ty.n - 1)) - 1:
                r = 'u'
            t = self.fresh(base)
            v = IntV(t, ty.n, r)
            self.assume(z3.And(t >= v.lo, t <= v.hi))
            return v
        if ty.k == 'float':
            return FltV(self.fresh(base, fsort(ty.n)), ty.n)
        if ty.k == 'ptr':
            if like is None:
                return PtrV([(True, ('undef',), 0)])
            alts = []
            for g, r, o in like.alts:
                if r is None or isinstance(r, tuple):
                    alts.append((g, r, o))
                else:
                    alts.append((g, r, self.fresh(base + '.off')))
            return PtrV(alts)
        raise Unsupported(f'havoc {ty}')

    def merge_vals(self, pairs):
        """pairs: [(guard, V)] -> V"""
        vs = [v for _, v in pairs]
        if all(v is vs[0] for v in vs):
            return vs[0]
        if isinstance(vs[0], BoolV):
            t = vs[-1].t
            for g, v in reversed(pairs[:-1]):
                if is_sym(v.t, t) or v.t != t:
                    t = dsl.If(g, toz(v.t), toz(t))
            return BoolV(t)
        if isinstance(vs[0], FltV):
            t = vs[-1].t
            for g, v in reversed(pairs[:-1]):
                t = v.t if v.t.eq(t) else dsl.If(g, v.t, t)
            return FltV(t, vs[0].n)
        if isinstance(vs[0], PtrV):
            alts = []
            for i, (g, v) in enumerate(pairs):
                for g2, r, o in v.alts:
                    alts.append((dsl.And(g, g2), r, o))
            # coalesce same region/offset
            out = []
            for g, r, o in alts:
                for n, (g2, r2, o2) in enumerate(out):
                    if r2 == r and (o2 is o or (isint(o) and isint(o2) and o == o2) or (is_sym(o) and is_sym(o2) and o.eq(o2))):
                        out[n] = (dsl.Or(g2, g), r2, o2)
                        break
                else:
                    out.append((g, r, o))
            if len(out) == 1:
                out = [(True, out[0][1], out[0][2])]
            return PtrV(out)
        if isinstance(vs[0], IntV):
            n = vs[0].n
            if all(isint(v.t) and v.t == vs[0].t for v in vs):
                return vs[0]
            if all(v.b is not None or (isint(v.t) and v.t in (0, 1)) for v in vs):
                t = self.merge_vals([(g, BoolV(v.b if v.b is not None else bool(v.t))) for g, v in pairs])
                return bool2int(t, n)
            hs = 1 << (n - 1)
            if all(-hs <= v.lo and v.hi < hs for v in vs):
                r, f = 's', lambda v: v.t
            elif all(0 <= v.lo and v.hi < (1 << n) for v in vs):
                r, f = 'u', lambda v: v.t
            else:
                r, f = 's', lambda v: v.S()
            t = f(vs[-1])
            lo = min((v.lo if f(v) is v.t else -hs) for v in vs)
            hi = max((v.hi if f(v) is v.t else hs - 1) for v in vs)
            for g, v in reversed(pairs[:-1]):
                x = f(v)
                if (isint(x) and isint(t) and x == t) or (is_sym(x) and is_sym(t) and x.eq(t)):
                    continue
                t = dsl.If(g, toz(x), toz(t))
            return IntV(t, n, r, lo, hi)
        raise Unsupported(f'merge {vs[0]}')

    def merge_mem(self, pairs):
        if len(pairs) == 1:
            m = pairs[0][1]
            return {k: (dict(v) if isinstance(v, dict) else v) for k, v in m.items()}
        out = {}
        for r in pairs[0][1]:
            vals = [(g, m[r]) for g, m in pairs if r in m]
            if isinstance(vals[0][1], dict):
                offs = set().union(*[set(d) for _, d in vals])
                cell = {}
                for o in offs:
                    have = [(g, d[o]) for g, d in vals if o in d]
                    try:
                        cell[o] = self.merge_vals(have)
                    except (AttributeError, Unsupported):
                        pass
                out[r] = cell
            else:
                t = vals[-1][1]
                for g, m in reversed(vals[:-1]):
                    if not m.eq(t):
                        t = z3.If(g, m, t)
                out[r] = t
        for _, m in pairs[1:]:
            for r in m:
                if r not in out:
                    out[r] = dict(m[r]) if isinstance(m[r], dict) else m[r]
        return out

    # ---- static: which regions a loop writes
    def roots(self, op, seen=None):
        seen = seen if seen is not None else set()
        if op[0] != 'v':
            return set()
        nm = op[1]
        if nm in seen:
            return set()
        seen.add(nm)
        d = self.defs.get(nm)
        if d is None:
            v = self.env.get(nm)
            return {r for _, r, _ in v.alts} if isinstance(v, PtrV) else set()
        if d.op == 'getelementptr' or d.op in ('freeze',):
            return self.roots(d.args[0], seen)
        if d.op == 'phi':
            return set().union(*[self.roots(v, seen) for v, _ in d.extra]) if d.extra else set()
        if d.op == 'select':
            return self.roots(d.args[1], seen) | self.roots(d.args[2], seen)
        if d.op == 'alloca':
            return {'$' + nm}
        if d.op == 'load':
            return self.roots(d.args[0], seen)
        v = self.env.get(nm)
        return {r for _, r, _ in v.alts if r is not None} if isinstance(v, PtrV) else set()

    def written(self, loop):
        out = set()
        for b in loop.body:
            blk = self.fn.blocks[b]
            for ins in blk.instrs + [blk.term]:
                if ins.op == 'store':
                    out |= self.roots(ins.args[1])
                elif ins.op in ('call', 'invoke'):
                    c = ins.extra['callee']
                    if c.startswith('@llvm.memcpy') or c.startswith('@llvm.memset') or c.startswith('@llvm.memmove'):
                        out |= self.roots(ins.args[0][1])
                    elif c.startswith('@llvm.lifetime') or c.startswith('@llvm.experimental') or c.startswith('@llvm.assume'):
                        pass
                    elif re.match('@"?' + build.SORTS, c):
                        out |= self.roots(ins.args[0][1])
                    else:
                        for t, v in ins.args:
                            if t.k == 'ptr':
                                out |= self.roots(v)
        return out

    def find_ivs(self, loop):
        """phis p with every latch value p (+|-) constant"""
        out = {}
        h = self.fn.blocks[loop.header]
        for ph in h.phis:
            steps = set()
            ok = True
            for v, l in ph.extra:
                if l in loop.latches:
                    s = self.step_of(v, ph.res)
                    if s is None and ph.ty.k == 'int':
                        s = self.sym_step(v, ph.res, loop)
                    if s is None:
                        ok = False
                        break
                    steps.add(s)
            if ok and len(steps) == 1:
                out[ph.res] = steps.pop()
        return out

    def sym_step(self, v, phi, loop):
        """v == phi + x with x defined outside the loop -> ('v', name)"""
        d = self.defs.get(v[1]) if v[0] == 'v' else None
        if d is None or d.op != 'add' or 'nsw' not in d.flags:
            return None
        for a, b in (d.args, d.args[::-1]):
            if a == ('v', phi) and b[0] == 'v' and b[1] in self.env and isinstance(self.env[b[1]], IntV):
                db = self.defs.get(b[1])
                if db is None or not any(db in self.fn.blocks[x].instrs or db in self.fn.blocks[x].phis for x in loop.body):
                    return b
        return None

    def step_of(self, v, phi, depth=0):
        """constant c with v == phi + c (integer, no-wrap adds only; pointers: gep, in bytes) -> c or None"""
        if v[0] != 'v' or depth > 6:
            return None
        if v[1] == phi:
            return 0
        d = self.defs.get(v[1])
        if d is None:
            return None
        if d.op in ('add', 'sub') and d.ty.k == 'int' and (('nsw' in d.flags) or d.ty.n == 64 and 'nsw' in d.flags):
            a, b = d.args
            if b[0] == 'i':
                s = self.step_of(a, phi, depth + 1)
                return None if s is None else s + (b[1] if d.op == 'add' else -b[1])
            if a[0] == 'i' and d.op == 'add':
                s = self.step_of(b, phi, depth + 1)
                return None if s is None else s + a[1]
        if d.op == 'getelementptr' and len(d.extra) == 1 and d.extra[0][1][0] == 'i':
            s = self.step_of(d.args[0], phi, depth + 1)
            return None if s is None else s + d.extra[0][1][1] * sizeof(self.mod, d.ty)
        if d.op == 'phi' and d.res != phi:
            ss = {self.step_of(x, phi, depth + 1) for x, _ in d.extra}
            if len(ss) == 1:
                return ss.pop()
        return None

    def unit_of(self, p):
        """bytes per step of the offset of a pointer, if all alternatives agree"""
        us = {1 if r is None or isinstance(r, tuple) or self.regions[r].kind == 'cells' else 8 if self.regions[r].kind == 'rows' and not isinstance(o, tuple) else self.regions[r].es
              for _, r, o in p.alts if r is not None or len(p.alts) == 1}
        return us.pop() if len(us) == 1 else None

    # ---- main pass
    def run(self, gen_cands):
        fn = self.fn
        self.defs = {}
        for b in fn.blocks.values():
            for ins in b.phis + b.instrs + [b.term]:
                if ins.res:
                    self.defs[ins.res] = ins
        mem0 = self.bind()
        self.edge = {}      # (pred, succ) -> (cond, mem)
        self.gen_cands = gen_cands
        for bname in fn.rpo:
            self.block(bname, mem0)
        if not self.returns:
            raise Unsupported('no return reached')
        return self.events

    def chain(self, bname):
        """loop records containing block, outermost first"""
        return sorted([lr for lr in self.loops.values() if bname in lr.loop.body], key=lambda lr: lr.loop.depth)

    def block(self, bname, mem0):
        fn = self.fn
        blk = fn.blocks[bname]
        loop = fn.loops.get(bname)
        if bname == fn.entry:
            if loop:
                raise Unsupported('loop at entry')
            self.cur, self.guard, self.mem = bname, self.entry_guard, mem0
        else:
            ins = []
            for p in dict.fromkeys(blk.preds):
                if loop and p in loop.latches:
                    continue
                if (p, bname) in self.edge:
                    c, m = self.edge[(p, bname)]
                    ins.append((p, c, m))
            if not ins:
                return          # unreachable
            if len(ins) == 1:
                g = ins[0][1]
            else:
                g = self.fresh('R', B)
                self.assume(g == z3.Or(*[c for _, c, _ in ins]))
            mem = self.merge_mem([(c, m) for _, c, m in ins])
            phivals = {}
            for ph in blk.phis:
                pairs = []
                for p, c, m in ins:
                    v = next(v for v, l in ph.extra if l == p)
                    pairs.append((c, self.val(v, ph.ty)))
                phivals[ph.res] = self.merge_vals(pairs)
            if loop:
                g, mem = self.header(loop, blk, g, mem, phivals)
            else:
                self.env.update(phivals)
            self.cur, self.guard, self.mem = bname, g, mem
        self.R[bname] = self.guard
        for ins in blk.instrs:
            self.instr(ins)
        self.term(blk)

    def header(self, loop, blk, E, emem, ephis):
        t = self.fresh('t')
        lr = LoopRec(loop, t)
        outer = [l for l in self.loops.values() if loop.header in l.loop.body and l.loop is not loop]
        outer.sort(key=lambda l: l.loop.depth)
        lr.chain = tuple(outer) + (lr,)
        lr.entry_guard, lr.entry_mem, lr.entry_phis = E, emem, ephis
        R = self.fresh('H', B)
        self.assume(z3.Implies(R, z3.And(E, t >= 0)))
        self.assume(t >= 0)
        lr.R = R
        ivs = self.find_ivs(loop)
        hphis = {}
        for ph in blk.phis:
            e = ephis[ph.res]
            if ph.res in ivs and isinstance(e, IntV):
                s = ivs[ph.res]
                if isinstance(s, tuple):
                    s = self.env[s[1]].S()
                term = zadd(e.S(), t if isint(s) and s == 1 else (0 if isint(s) and s == 0 else dsl.mul(t, s)))
                hphis[ph.res] = IntV(term, ph.ty.n, 's')
                lr.ivs[ph.res] = (e.S(), s)
                if not isint(term):
                    self.assume(z3.Implies(R, z3.And(term >= -(1 << (ph.ty.n - 1)), term < (1 << (ph.ty.n - 1)))))
            elif ph.res in ivs and isinstance(e, PtrV) and isint(ivs[ph.res]) and self.unit_of(e) and ivs[ph.res] % self.unit_of(e) == 0:
                s = ivs[ph.res] // self.unit_of(e)
                lr.pes[ph.res] = self.unit_of(e)
                alts = []
                for g, r, o in e.alts:
                    if r is None or isinstance(r, tuple):
                        alts.append((g, r, o))
                    else:
                        alts.append((g, r, zadd(o, s * t if s != 1 else t)))
                hphis[ph.res] = PtrV(alts)
                lr.pivs[ph.res] = s
            else:
                hphis[ph.res] = self.havoc(ph.ty, ph.res, e)
        wr = self.written(loop)
        hmem = {}
        for r, m in emem.items():
            if r in wr:
                if isinstance(m, dict):
                    hmem[r] = {}      # unknown cells; reading one is unsupported unless written again
                    for o, v in m.items():
                        hmem[r][o] = self.havoc_like(v)
                else:
                    a = self.fresh('M_' + r, m.sort())
                    reg = self.regions[r]
                    if reg.kind == 'arr':
                        self.range_axiom(a, reg.ct)
                    hmem[r] = a
            else:
                hmem[r] = dict(m) if isinstance(m, dict) else m
        lr.hmem, lr.hphis, lr.written = hmem, hphis, wr
        self.env.update(hphis)
        self.loops[loop.header] = lr
        # candidates
        lr.cands = self.gen_cands(self, lr)
        est = self.state(lr, [l.t for l in outer] + [z3.IntVal(0)], emem, ephis)
        hst = self.state(lr, [l.t for l in outer] + [t], hmem, hphis)
        lr.hst = hst
        for c in lr.cands:
            self.events.append(('inv', c, 'init', E, c.build(est, self.k), loop.header))
        for c in lr.cands:
            self.events.append(('hyp', c, R, c.build(hst, self.k), loop.header))
        return R, {r: (dict(m) if isinstance(m, dict) else m) for r, m in hmem.items()}

    def all_instrs(self, loop):
        for b in loop.body:
            yield from self.fn.blocks[b].instrs

    def havoc_like(self, v):
        if isinstance(v, IntV):
            return self.havoc(ir.T('int', v.n), 'cell', v)
        if isinstance(v, FltV):
            return FltV(self.fresh('cell', fsort(v.n)), v.n)
        if isinstance(v, BoolV):
            return BoolV(self.fresh('cell', B))
        return self.havoc(ir.T('ptr'), 'cell', v)

    def state(self, lr, ts, mem, phis):
        ph = {}
        for l in lr.chain[:-1]:
            for n, v in l.hphis.items():
                ph[(l.loop.header, n)] = v
        for n, v in phis.items():
            ph[(lr.loop.header, n)] = v
        return SymState(self, tuple(ts), mem, ph)

    # ---- terminators
    def go(self, succ, cond):
        """edge cur->succ under extra condition cond"""
        g = self.guard if cond is True else z3.And(self.guard, toz(cond))
        if z3.is_true(self.guard) and cond is not True:
            g = toz(cond)
        loop = self.fn.loops.get(succ)
        if loop and self.cur in loop.latches:
            self.backedge(loop, g)
            return
        key = (self.cur, succ)
        if key in self.edge:
            c, m = self.edge[key]
            self.edge[key] = (z3.Or(c, g), m)
        else:
            self.edge[key] = (g, self.mem)

    def backedge(self, loop, g):
        lr = self.loops[loop.header]
        blk = self.fn.blocks[loop.header]
        phis = {}
        for ph in blk.phis:
            v = next(v for v, l in ph.extra if l == self.cur)
            phis[ph.res] = self.val(v, ph.ty)
        for n, (e, s) in lr.ivs.items():
            # the induction variable equals entry + step*(t+1): by construction of find_ivs, re-checked
            self.oblige('loop', f'induction variable {n} of {loop.header} at {self.cur}', g,
                        [toz(phis[n].S()) == toz(zadd(lr.hphis[n].S(), s))], assume_after=False)
        for n, s in lr.pivs.items():
            for (g0, r0, o0), (g1, r1, o1) in zip(lr.hphis[n].alts, phis[n].alts):
                same = toz(zadd(o0, s)) == toz(o1) if r0 == r1 else z3.BoolVal(False)
                self.oblige('loop', f'induction pointer {n} of {loop.header} at {self.cur}', g if g0 is True else z3.And(g, g0), [same], assume_after=False)
            if len(lr.hphis[n].alts) != len(phis[n].alts):
                raise Unsupported('pointer induction')
        for r, m in self.mem.items():
            h = lr.hmem.get(r)
            if r in lr.written or h is None:
                continue
            if m is not h and not (all(m.get(o) is x for o, x in h.items()) and len(m) == len(h) if isinstance(m, dict) else z3.eq(m, h)):
                raise Unsupported(f'{r} is written in loop {loop.header} in a way that was not foreseen')
        st = self.state(lr, [l.t for l in lr.chain[:-1]] + [lr.t + 1], self.mem, phis)
        for c in lr.cands:
            self.events.append(('inv', c, f'kept from {self.cur}', g, c.build(st, self.k), loop.header))

    def term(self, blk):
        t = blk.term
        if t.op == 'br':
            if len(t.args) == 1:
                self.go(t.args[0], True)
            else:
                c = self.val(t.args[0], ir.T('int', 1)).t
                if is_sym(c):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        c = True
                    elif z3.is_false(c):
                        c = False
                if c is True or c is False:
                    self.go(t.args[1] if c else t.args[2], True)
                elif t.args[1] == t.args[2]:
                    self.go(t.args[1], True)
                else:
                    self.go(t.args[1], c)
                    self.go(t.args[2], z3.Not(c))
        elif t.op == 'switch':
            v = self.val(t.args[0], t.ty)
            x = v.S()
            conds = []
            byd = {}
            for c, l in t.extra[1]:
                cs = (c + (1 << (t.ty.n - 1))) % (1 << t.ty.n) - (1 << (t.ty.n - 1))
                byd.setdefault(l, []).append(simp(toz(x) == cs))
                conds.append(toz(x) == cs)
            for l, cs in byd.items():
                self.go(l, z3.Or(*cs))
            self.go(t.extra[0], z3.Not(z3.Or(*conds)))
        elif t.op == 'ret':
            self.returns += 1
            self.do_ret(t)
        elif t.op == 'unreachable':
            self.oblige('unreachable', f'{self.cur} is unreachable', self.guard, [z3.BoolVal(False)])
        else:
            raise Unsupported(f'terminator {t.line}')

    # ---- memory access
    def access(self, ptr, ty, ins, write):
        """-> list of (guard, region, index) after emitting bounds obligations"""
        out = []
        sz = sizeof(self.mod, ty)
        for g, r, o in ptr.alts:
            if r is None or isinstance(r, tuple):
                if r is not None and r[0] == 'g' and not write:
                    raise Unsupported('load from a global')
                self.oblige('memory', f'{"store" if write else "load"} through a valid pointer ({self.where(ins)})', self.guard, [dsl.Not(g) if g is not True else z3.BoolVal(False)])
                continue
            reg = self.regions[r]
            if reg.kind == 'cells':
                if not isint(o):
                    raise Unsupported('variable offset in a struct')
                out.append((g, r, o))
                continue
            if reg.kind == 'row':
                out.append((g, r, o))
                raise Unsupported('row')
            if (8 if reg.kind == 'rows' and not isinstance(o, tuple) else reg.es) != sz:
                raise Unsupported(f'access of {sz} bytes in {r} ({reg.es}-byte elements)')
            if write and not reg.writable:
                self.oblige('frame', f'{r} is never written ({self.where(ins)})', self.guard, [dsl.Not(g) if g is not True else z3.BoolVal(False)])
                continue
            if isinstance(o, tuple):
                row, off = o
                n = self.k.arrs[r].rowlen(row)
                nrows = reg.length
                c = z3.And(toz(row) >= 0, toz(row) < toz(nrows), toz(off) >= 0, toz(off) < toz(n))
            else:
                c = z3.And(toz(o) >= 0, toz(o) < toz(reg.length))
            self.oblige('memory', f'{"store to" if write else "load from"} {r} within its {reg_len_str(reg)} elements ({self.where(ins)})', self.guard if g is True else z3.And(self.guard, g), [c])
            out.append((g, r, o))
        return out

    def load(self, ins):
        p = self.val(ins.args[0], None)
        ty = ins.ty
        alts = self.access(p, ty, ins, False)
        vals = []
        for g, r, o in alts:
            reg = self.regions[r]
            if reg.kind == 'cells':
                v = self.mem[r].get(o)
                if v is None:
                    v = self.havoc(ty, 'uninit')
                elif isinstance(v, IntV) and ty.k == 'int' and v.n != ty.n:
                    raise Unsupported('cell of another width')
                vals.append((g, v))
                continue
            if reg.kind == 'rows' and not isinstance(o, tuple):
                # loading a T* from a T**: a pointer to row o
                vals.append((g, PtrV([(True, r, (o, 0))])))
                continue
            if isinstance(o, tuple):
                s = select_smart(select_smart(self.mem[r], toz(o[0])), toz(o[1]))
            else:
                s = select_smart(self.mem[r], toz(o))
            kind, n, sg = CT[reg.ct]
            if ty.k == 'float':
                if kind != 'float':
                    raise Unsupported('type punning')
                vals.append((g, FltV(s, n)))
            elif ty.k == 'int' and kind == 'float' and ty.n == n:
                self.need_bits(n)
                vals.append((g, IntV(dsl.f2bits(s, n), n, 'u')))
            elif ty.k == 'int':
                if kind == 'float':
                    raise Unsupported('type punning')
                lo, hi = trange(reg.ct)
                if is_sym(s):
                    self.assume(z3.And(s >= lo, s <= hi))
                if ty.n == 1:
                    vals.append((g, BoolV(s != 0)))
                else:
                    vals.append((g, IntV(s, n, 's' if sg else 'u', lo, hi)))
            else:
                raise Unsupported(f'load {ty}')
        if not vals:
            return self.havoc(ty, 'dead')
        return self.merge_vals(vals)

    def store(self, ins):
        v = self.val(ins.args[0], ins.ty)
        p = self.val(ins.args[1], None)
        for g, r, o in self.access(p, ins.ty, ins, True):
            self.put(g, r, o, v)

    def put(self, g, r, o, v):
        reg = self.regions[r]
        if reg.kind == 'cells':
            if g is True or o not in self.mem[r]:
                self.mem[r][o] = v
            else:
                self.mem[r][o] = self.merge_vals([(g, v), (True, self.mem[r][o])])
            return
        kind, n, sg = CT[reg.ct]
        if kind == 'float' and isinstance(v, IntV):
            self.need_bits(n)
            x = dsl.bits2f(toz(v.U()), n)
        elif kind == 'float':
            x = v.t
        elif isinstance(v, BoolV):
            x = dsl.If(v.t, 1, 0) if is_sym(v.t) else int(v.t)
        else:
            x = v.S() if sg else v.U()
        m = self.mem[r]
        if isinstance(o, tuple):
            new = z3.Store(m, toz(o[0]), z3.Store(select_smart(m, toz(o[0])), toz(o[1]), toz(x)))
        else:
            new = z3.Store(m, toz(o), toz(x))
        self.mem[r] = new if g is True else z3.If(g, new, m)

    def gep(self, ins):
        base = self.val(ins.args[0], None)
        ty = ins.ty
        idx = [(t, self.val(v, t)) for t, v in ins.extra]
        alts = []
        for g, r, o in base.alts:
            if r is None or isinstance(r, tuple):
                alts.append((g, r, o))
                continue
            reg = self.regions[r]
            if reg.kind == 'cells':
                off = o
                cur = ty
                for n, (t, v) in enumerate(idx):
                    if not isint(v.t):
                        raise Unsupported('variable struct index')
                    if n == 0:
                        off += v.t * sizeof(self.mod, cur)
                    elif cur.k == 'array':
                        off += v.t * sizeof(self.mod, cur.sub)
                        cur = cur.sub
                    else:
                        d, cur = fieldoff(self.mod, cur, v.t)
                        off += d
                alts.append((g, r, off))
                continue
            es = 8 if reg.kind == 'rows' and not isinstance(o, tuple) else reg.es
            delta = 0
            cur = ty
            for n, (t, v) in enumerate(idx):
                if n == 0:
                    sz = sizeof(self.mod, cur)
                    i = v.S()
                elif cur.k in ('array', 'vector'):
                    cur = cur.sub
                    sz = sizeof(self.mod, cur)
                    i = v.S()
                else:
                    d, cur = fieldoff(self.mod, cur, v.t)
                    sz, i = 1, d
                if isint(i):
                    b = i * sz
                    if b % es:
                        raise Unsupported('misaligned offset')
                    delta = zadd(delta, b // es)
                else:
                    if sz % es:
                        raise Unsupported(f'gep {sz} in {es}')
                    f = sz // es
                    delta = zadd(delta, i if f == 1 else i * f)
            if isinstance(o, tuple):
                alts.append((g, r, (o[0], zadd(o[1], delta))))
            else:
                alts.append((g, r, zadd(o, delta)))
        return PtrV(alts)

    # ---- instructions
    def instr(self, ins):
        op = ins.op
        if op == 'load':
            self.env[ins.res] = self.load(ins)
        elif op == 'store':
            self.store(ins)
        elif op == 'getelementptr':
            self.env[ins.res] = self.gep(ins)
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            self.env[ins.res] = self.arith(ins)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
            self.env[ins.res] = FltV(dsl.fop(op, ins.ty.n, a.t, b.t), ins.ty.n)
        elif op == 'fneg':
            a = self.val(ins.args[0], ins.ty)
            self.env[ins.res] = FltV(dsl.fneg(ins.ty.n, a.t), ins.ty.n)
        elif op == 'icmp':
            self.env[ins.res] = self.icmp(ins)
        elif op == 'fcmp':
            a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
            if ins.extra in ('true', 'false'):
                self.env[ins.res] = BoolV(ins.extra == 'true')
            else:
                self.env[ins.res] = BoolV(dsl.fcmp(ins.extra, ins.ty.n, a.t, b.t))
        elif op == 'select':
            c = self.val(ins.args[0], ir.T('int', 1)).t
            a, b = self.val(ins.args[1], ins.ty), self.val(ins.args[2], ins.ty)
            if not is_sym(c):
                self.env[ins.res] = a if c else b
            elif isinstance(a, BoolV):
                self.env[ins.res] = BoolV(dsl.Or(dsl.And(c, a.t), dsl.And(dsl.Not(c), b.t)))
            else:
                self.env[ins.res] = self.merge_vals([(c, a), (z3.Not(c), b)])
        elif op in ir.CAST:
            self.env[ins.res] = self.cast(ins)
        elif op == 'freeze':
            self.env[ins.res] = self.val(ins.args[0], ins.ty)
        elif op == 'extractvalue' and ins.args[0][0] == 'v' and isinstance(self.env.get(ins.args[0][1]), tuple) and len(ins.extra) == 1:
            self.env[ins.res] = self.env[ins.args[0][1]][ins.extra[0]]
        elif op == 'alloca':
            self.alloca(ins)
        elif op == 'call':
            self.call(ins)
        else:
            raise Unsupported(f'instruction {ins.line}')

    def alloca(self, ins):
        name = '$' + ins.res
        ty = ins.ty
        if ty.k in ('int', 'float') and ty.n >= 8 and ins.res in self.fn.pointed():
            ty = ir.T('array', 1, ty)
        if ty.k == 'array' and ty.sub.k in ('int', 'float'):
            n = ty.sub.n
            ct = {'int': {8: 'int8_t', 16: 'int16_t', 32: 'int32_t', 64: 'int64_t'}, 'float': {32: 'float', 64: 'double'}}[ty.sub.k][n]
            self.regions[name] = Region(name, 'arr', ct, n // 8, ty.n, local=True)
            a = self.fresh('L_' + ins.res, z3.ArraySort(I, self.regions[name].sort()))
            self.range_axiom(a, ct)
            self.mem[name] = a
        else:
            self.regions[name] = Region(name, 'cells', tysz=sizeof(self.mod, ty), local=True)
            self.mem[name] = {}
        self.env[ins.res] = PtrV([(True, name, 0)])

    def call(self, ins):
        c = ins.extra['callee'].lstrip('@').strip('"')
        if c.startswith('llvm.lifetime') or c.startswith('llvm.experimental.noalias') or c.startswith('llvm.dbg') or c.startswith('llvm.stack'):
            return
        if c.startswith('llvm.assume'):
            return
        if c.startswith('llvm.expect.'):
            self.env[ins.res] = self.val(ins.args[0][1], ins.args[0][0])
            return
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
            d, s, n = (self.val(v, t) for t, v in ins.args[:3])
            self.memcpy(ins, d, s, n)
            return
        if c.startswith('llvm.memset'):
            d, x, n = (self.val(v, t) for t, v in ins.args[:3])
            self.memset(ins, d, x, n)
            return
        if c in ('memcpy', 'memmove'):
            d, s, n = (self.val(v, t) for t, v in ins.args[:3])
            self.memcpy(ins, d, s, n)
            if ins.res:
                self.env[ins.res] = d
            return
        m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)$', c)
        if m:
            n = int(m.group(3))
            x, y = (self.val(v, t) for t, v in ins.args[:2])
            x, y = (x.S(), y.S()) if m.group(1) == 's' else (x.U(), y.U())
            t = zadd(x, y) if m.group(2) == 'add' else zadd(x, -y) if m.group(2) == 'sub' else pmul(x, y)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if m.group(1) == 's' else (0, (1 << n) - 1)
            self.env[ins.res] = (IntV(t, n, 'm'), BoolV(dsl.Or(t < lo, t > hi)))
            return
        if c.startswith('llvm.bswap.i'):
            n = ins.ty.n
            self.need_bits(n)
            self.env[ins.res] = IntV(dsl.bswap_u(toz(self.val(ins.args[0][1], ins.args[0][0]).U()), n), n, 'u')
            return
        if c.startswith('llvm.ceil.f'):
            v = self.val(ins.args[0][1], ins.args[0][0])
            self.env[ins.res] = FltV(dsl.fceil(v.t, v.n), v.n)
            return
        if c.startswith('llvm.fmuladd') or c.startswith('llvm.fma'):
            raise Unsupported(c)
        if c.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            a, b = (self.val(v, t) for t, v in ins.args[:2])
            n = ins.ty.n
            f = (lambda v: v.S()) if c[5] == 's' else (lambda v: v.U())
            lo = a if False else None
            x, y = f(a), f(b)
            cond = toz(x) >= toz(y) if 'max' in c else toz(x) <= toz(y)
            self.env[ins.res] = IntV(dsl.If(cond, x, y), n, 's' if c[5] == 's' else 'u')
            return
        if c.startswith('llvm.abs'):
            a = self.val(ins.args[0][1], ins.args[0][0])
            x = a.S()
            self.env[ins.res] = IntV(dsl.If(toz(x) < 0, -x, x), ins.ty.n, 'm', 0, 1 << (ins.ty.n - 1))
            return
        if c == '_Znwm':
            n = next(n for n, i in enumerate(self.fn.news()) if i is ins)
            if self.inloop():
                raise Unsupported('allocation in a loop')
            r, b = f'$new{n}', self.val(ins.args[0][1], ins.args[0][0])
            ne = self.bytes_to_elems(b, 8)
            self.oblige('memory', f'size of the allocation at {self.where(ins)}', self.guard, [z3.And(toz(ne) >= 0, toz(ne) <= 1 << 60)])
            self.assume(z3.Implies(self.guard, self.regions[r].length == toz(ne)))
            self.env[ins.res] = PtrV([(True, r, 0)])
            return
        if c in ('_ZdlPv', '_ZdlPvm'):
            return
        if c.startswith('_ZSt') and '__throw_' in c:
            return              # followed by an `unreachable`, which is an obligation
        if re.match(build.SORTS, c):
            self.sort(ins, c)
            return
        h = self.k.callees.get(c) or self.k.callees.get('*')
        if h is not None:
            r = h(self, ins, c)
            if r is not None:
                self.env[ins.res] = r
            return
        if c in ('__mulsc3', '__muldc3'):
            self.call_mulc(ins, c)
            return
        raise Unsupported(f'call of {c}')

    def sort(self, ins, c):
        """std::sort and std::stable_sort of integers, by their contract: for a comparison that is the order the contract states
        (obligation), the range is rearranged, in order, and (stable_sort) without exchanging equivalent elements"""
        if self.k.order is None:
            raise Unsupported('sort without a stated order')
        first, last = (self.val(v, t) for t, v in ins.args[:2])
        rs = {r for _, r, _ in first.alts + last.alts if r is not None}
        if len(rs) != 1:
            raise Unsupported('sort of a range in more than one object')
        R = rs.pop()
        reg = self.regions[R] if not isinstance(R, tuple) else None
        if reg is None or reg.kind != 'arr' or reg.ct != 'int64_t':
            raise Unsupported('sort of other elements')
        inr = lambda p: dsl.Or(*[g for g, r, o in p.alts if r == R])
        off = lambda p: merged([(g, o) for g, r, o in p.alts if r == R])
        f, l, g1 = toz(off(first)), toz(off(last)), toz(inr(first))
        self.oblige('memory', f'ends of the range sorted at {self.where(ins)}', self.guard, [g1 == toz(inr(last))])
        G = z3.And(self.guard, g1)
        self.oblige('memory', f'range sorted at {self.where(ins)}', G, [z3.And(f >= 0, f <= l, l <= toz(reg.length))])
        if not reg.writable:
            self.oblige('frame', f'{R} is not sorted in place', G, [f == l])
        M = self.mem[R]
        # the comparison, at any two elements of the range
        pa, pb = self.fresh('pa'), self.fresh('pb')
        a, b = z3.Select(M, pa), z3.Select(M, pb)
        cmp = sorted(build.compared_by(self.mod.calls(), c))
        if len(cmp) != 1:
            raise Unsupported('comparison handed to sort')
        fn, callee = self.mod.function(cmp[0]), self.mod.head(c)
        this = []
        if len(fn.params) == 3:
            if 'byval' in callee:
                this = [self.val(ins.args[2][1], ins.args[2][0])]
            else:
                nm = f'$this{self.nfresh}'
                self.regions[nm] = Region(nm, 'cells', tysz=8 * len(ins.args), local=True)
                self.mem[nm] = {8 * j: self.val(v, t) for j, (t, v) in enumerate(ins.args[2:])}
                this = [PtrV([(True, nm, 0)])]
        byref = lambda j: 'ptr' in str(fn.params[len(this) + j][0])
        elem = [PtrV([(True, R, p)]) if byref(j) else IntV(v, 64, 's') for j, (p, v) in enumerate(((pa, a), (pb, b)))]
        got = self.evaluate(fn, this + elem, z3.And(G, pa >= f, pa < l, pb >= f, pb < l))
        for g, v in got:
            self.oblige('post', f'{c[3:16].strip("1")}... compares as the stated order', g, [toz(v.t) == toz(self.k.order(a, b))], assume_after=False)
        if this:
            self.mem.pop(this[0].alts[0][1], None) if 'byval' not in callee else None
        # what it does
        N = self.fresh('M_' + R, M.sort())
        self.range_axiom(N, reg.ct)
        self.mem = dict(self.mem)
        self.mem[R] = N
        pi = z3.Function(f'pi!{self.nfresh}', I, I)
        ip = z3.Function(f'ip!{self.nfresh}', I, I)
        q, r = z3.Ints('q r')
        self.assume(z3.Implies(z3.And(self.guard, z3.Not(g1)), N == M))
        at = lambda i: z3.Select(N, i)
        self.assume(z3.Implies(G, z3.ForAll([q], z3.Implies(z3.Or(q < f, q >= l), at(q) == z3.Select(M, q)), patterns=[at(q)])))
        self.assume(z3.Implies(G, z3.ForAll([q], z3.Implies(z3.And(q >= f, q < l), z3.And(pi(q) >= f, pi(q) < l, ip(pi(q)) == q, at(q) == z3.Select(M, pi(q)))), patterns=[at(q)])))
        rng = z3.And(r >= f, r < q, q < l)
        self.assume(z3.Implies(G, z3.ForAll([r, q], z3.Implies(rng, z3.Not(toz(self.k.order(at(q), at(r))))), patterns=[z3.MultiPattern(at(q), at(r))])))
        if 'stable_sort' in c:
            self.assume(z3.Implies(G, z3.ForAll([r, q], z3.Implies(z3.And(rng, z3.Not(toz(self.k.order(at(r), at(q))))), pi(r) < pi(q)), patterns=[z3.MultiPattern(at(q), at(r))])))

    def evaluate(self, fn, args, guard):
        """results of a loop-free function of the module that writes nothing: [(guard, value)]"""
        if fn.loops or any(i.op == 'store' or (i.op == 'call' and not i.extra['callee'].startswith('@llvm.')) for b in fn.blocks.values() for i in b.instrs):
            raise Unsupported(f'{fn.name} has loops or effects')
        ch = Executor.__new__(Executor)
        ch.__dict__.update(self.__dict__)
        ch.fn, ch.entry_guard, ch.rets, ch.edge, ch.R = fn, guard, [], {}, {}
        ch.env = {nm: v for (ty, nm, at), v in zip(fn.params, args)}
        ch.defs = {i.res: i for b in fn.blocks.values() for i in b.phis + b.instrs + [b.term] if i.res}
        for b in fn.rpo:
            ch.block(b, self.mem)
        self.nfresh, self.nob = ch.nfresh, ch.nob
        return ch.rets

    def call_mulc(self, ins, c):
        raise Unsupported(c)

    def bytes_to_elems(self, n, es):
        """n (IntV, bytes) -> element count term"""
        if n.pd and n.pd[1] % es == 0:
            c = n.pd[0] if n.pd[1] == es else n.pd[0] * (n.pd[1] // es)
            self.oblige('memory', 'byte count is not negative', self.guard, [toz(c) >= 0])
            return c
        x = n.U() if n.lo >= 0 else n.S()
        if isint(x):
            if x % es:
                raise Unsupported('partial element copy')
            return x // es
        if es == 1:
            if n.lo < 0:
                self.oblige('memory', 'byte count is not negative', self.guard, [toz(x) >= 0])
            return x
        c = self.fresh('cnt')
        y = n.S()
        self.assume(c == toz(y) / es)
        self.oblige('memory', f'byte count is a whole number of {es}-byte elements', self.guard, [toz(y) % es == 0, toz(y) >= 0])
        return c

    def memcpy(self, ins, d, s, n):
        if any(r is None for _, r, _ in d.alts + s.alts) and any(r is not None for _, r, _ in d.alts) and any(r is not None for _, r, _ in s.alts):
            # a null end is only for copying nothing
            null = [g for p in (d, s) for g, r, _ in p.alts if r is None]
            self.oblige('memory', f'nothing is copied through a null pointer ({self.where(ins)})', z3.And(self.guard, toz(dsl.Or(*null))), [toz(n.t) == 0])
            d, s = (PtrV([a for a in p.alts if a[1] is not None]) for p in (d, s))
            d, s = (PtrV([(True,) + tuple(p.alts[0][1:])]) if len(p.alts) == 1 else p for p in (d, s))
        if len(d.alts) != 1 or len(s.alts) != 1:
            if len(d.alts) > 4 or len(s.alts) > 4 or any(r is None or self.regions[r].kind != 'arr' or isinstance(o, tuple) for _, r, o in d.alts + s.alts):
                raise Unsupported('memcpy through merged pointers')
            # one copy per possible pair of buffers
            g0, done = self.guard, []
            for gd, r1, o1 in d.alts:
                for gs, r2, o2 in s.alts:
                    g = dsl.And(gd, gs)
                    c = g if not done else dsl.And(g, dsl.Not(dsl.Or(*done)))
                    done.append(g)
                    before = self.mem[r1]
                    self.guard = g0 if c is True else z3.And(g0, toz(c))
                    self.memcpy(ins, PtrV([(True, r1, o1)]), PtrV([(True, r2, o2)]), n)
                    if c is not True:
                        self.mem[r1] = z3.If(toz(c), self.mem[r1], before)
            self.guard = g0
            return
        (_, dr, do), (_, sr, so) = d.alts[0], s.alts[0]
        rd, rs = self.regions.get(dr), self.regions.get(sr)
        if rd is None or rs is None:
            raise Unsupported('memcpy of unknown memory')
        if rd.kind == 'cells' and rs.kind == 'cells':
            if not isint(n.t):
                raise Unsupported('struct copy of variable size')
            src = {o - so: v for o, v in self.mem[sr].items() if so <= o < so + n.t}
            for o in [o for o in self.mem[dr] if do <= o < do + n.t]:
                del self.mem[dr][o]
            for o, v in src.items():
                self.mem[dr][do + o] = v
            return
        src, slen = self.mem[sr], rs.length
        if rs.kind == 'rows' and isinstance(so, tuple):
            src, slen, so = z3.Select(src, toz(so[0])), self.k.arrs[sr].rowlen(so[0]), so[1]
        elif rs.kind != 'arr':
            raise Unsupported('memcpy between different kinds')
        if rd.kind != 'arr' or rd.es != rs.es or (CT[rd.ct][0] == 'float') != (CT[rs.ct][0] == 'float'):
            raise Unsupported('memcpy between different kinds')
        cnt = self.bytes_to_elems(n, rd.es)
        self.oblige('memory', f'memcpy reads {sr} within bounds ({self.where(ins)})', self.guard, [z3.Implies(toz(cnt) > 0, z3.And(toz(so) >= 0, toz(so) + cnt <= toz(slen)))])
        self.oblige('memory', f'memcpy writes {dr} within bounds ({self.where(ins)})', self.guard, [z3.Implies(toz(cnt) > 0, z3.And(toz(do) >= 0, toz(do) + cnt <= toz(rd.length)))])
        if not rd.writable:
            self.oblige('frame', f'{dr} is never written ({self.where(ins)})', self.guard, [z3.BoolVal(False)])
        old = self.mem[dr]
        new = self.fresh('M_' + dr, old.sort())
        i = z3.Int('ci')
        same = CT[rd.ct][2] == CT[rs.ct][2] or CT[rd.ct][0] == 'float'
        v = z3.Select(src, i - do + so)
        if not same:
            v = dsl.wrap(v, rd.ct)
        self.range_axiom(new, rd.ct)
        self.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(i >= toz(do), i < toz(do) + cnt), v, z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        self.mem[dr] = new

    def memset(self, ins, d, x, n):
        if len(d.alts) != 1:
            raise Unsupported('memset through merged pointers')
        _, dr, do = d.alts[0]
        rd = self.regions.get(dr)
        if rd is None:
            raise Unsupported('memset of unknown memory')
        if rd.kind == 'cells':
            self.mem[dr] = {}
            return
        cnt = self.bytes_to_elems(n, rd.es)
        if not isint(x.t) and rd.es != 1:
            raise Unsupported('memset of a variable byte')
        if rd.es == 1:
            v = x.S() if CT[rd.ct][2] else x.U()
        elif x.t == 0:
            v = dsl.fconst(0.0, CT[rd.ct][1]) if CT[rd.ct][0] == 'float' else 0
        else:
            b = x.t & 255
            u = int.from_bytes(bytes([b]) * rd.es, 'little')
            if CT[rd.ct][0] == 'float':
                raise Unsupported('memset pattern in floats')
            v = dsl.wrap(u, rd.ct)
        if not rd.writable:
            self.oblige('frame', f'{dr} is never written ({self.where(ins)})', self.guard, [z3.BoolVal(False)])
        self.oblige('memory', f'memset writes {dr} within bounds ({self.where(ins)})', self.guard, [z3.Implies(toz(cnt) > 0, z3.And(toz(do) >= 0, toz(do) + cnt <= toz(rd.length)))])
        old = self.mem[dr]
        new = self.fresh('M_' + dr, old.sort())
        i = z3.Int('ci')
        self.range_axiom(new, rd.ct)
        self.assume(z3.ForAll([i], z3.Select(new, i) == z3.If(z3.And(i >= toz(do), i < toz(do) + cnt), toz(v), z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        self.mem[dr] = new

    def arith(self, ins):
        op, n = ins.op, ins.ty.n
        a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
        if n == 1:
            x, y = a.t, b.t
            if op == 'and':
                return BoolV(dsl.And(x, y))
            if op == 'or':
                return BoolV(dsl.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return BoolV(dsl.Not(dsl.Iff(x, y)))
            raise Unsupported(f'i1 {op}')
        if op == 'sub' and a.pa and b.pa and a.pa[0] == b.pa[0]:
            es, d = a.pa[2], zadd(a.pa[1], -b.pa[1])
            r = IntV(d if es == 1 else d * es, n, 's', -(1 << 62), 1 << 62)
            r.pd = (d, es)
            return r
        if op in ('sdiv', 'udiv', 'ashr', 'lshr') and a.pd and 'exact' in ins.flags and isint(b.t):
            f = 1 << b.t if op in ('ashr', 'lshr') else b.t
            if op in ('sdiv', 'ashr') and f > 0 and a.pd[1] % f == 0:
                r = IntV(a.pd[0] if a.pd[1] == f else a.pd[0] * (a.pd[1] // f), n, 's', -(1 << 62), 1 << 62)
                r.pd = (a.pd[0], a.pd[1] // f)
                return r
        pa = None
        if op == 'add' and n == 64 and bool(a.pa) != bool(b.pa):
            x, y = (a, b) if a.pa else (b, a)
            es, d = x.pa[2], y.S()
            if es == 1 or isint(d) and d % es == 0:
                pa = (x.pa[0], zadd(x.pa[1], d // es if es != 1 else d), es)
        if pa:
            r = IntV(simp(toz(x.t) + toz(d)), 64, 'm')
            r.pa = pa
            return r
        if op in ('add', 'sub', 'mul'):
            nsw = 'nsw' in ins.flags
            useu = not nsw and (a.r == 'u' or b.r == 'u') and not (isint(a.t) and a.t < 0) and not (isint(b.t) and b.t < 0)
            if useu:
                x, y = a.U(), b.U()
                (al, ah), (bl, bh) = a.urange(), b.urange()
            elif a.r == 'm' or b.r == 'm' and not nsw:
                x, y = a.t, b.t
                (al, ah), (bl, bh) = (a.lo, a.hi), (b.lo, b.hi)
                if nsw or op == 'mul':
                    x, y = a.S(), b.S()
                    (al, ah), (bl, bh) = a.srange(), b.srange()
            else:
                x, y = a.S(), b.S()
                (al, ah), (bl, bh) = a.srange(), b.srange()
            if op == 'add':
                t, lo, hi = zadd(x, y), al + bl, ah + bh
            elif op == 'sub':
                t, lo, hi = zadd(x, -y), al - bh, ah - bl
            else:
                t = pmul(x, y)
                c = [al * bl, al * bh, ah * bl, ah * bh]
                lo, hi = min(c), max(c)
            mn, mx = -(1 << (n - 1)), (1 << (n - 1)) - 1
            if nsw and not (self.wrap_ok):
                if not (mn <= lo and hi <= mx):
                    if isint(t):
                        if not mn <= t <= mx:
                            self.oblige('overflow', f'no signed overflow ({self.where(ins)})', self.guard, [z3.BoolVal(False)])
                    else:
                        self.oblige('overflow', f'no signed overflow ({self.where(ins)})', self.guard, [z3.And(t >= mn, t <= mx)])
                return IntV(t, n, 's', max(lo, mn), min(hi, mx))
            if mn <= lo and hi <= mx:
                return IntV(t, n, 's', lo, hi)
            if 0 <= lo and hi < (1 << n):
                return IntV(t, n, 'u', lo, hi)
            return IntV(t, n, 'm', lo, hi)
        if op in ('sdiv', 'srem'):
            x, y = a.S(), b.S()
            if not isint(y):
                self.oblige('overflow', f'divisor is not zero ({self.where(ins)})', self.guard, [toz(y) != 0])
                self.oblige('overflow', f'no division overflow ({self.where(ins)})', self.guard, [z3.Not(z3.And(toz(x) == -(1 << (n - 1)), toz(y) == -1))])
                q, r = divmod_uf(self, x, y)
                return IntV(q if op == 'sdiv' else r, n, 's')
            if y == 0:
                self.oblige('overflow', 'division by zero', self.guard, [z3.BoolVal(False)])
                return self.havoc(ins.ty, 'div0')
            if isint(x):
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1)
                return IntV(q if op == 'sdiv' else x - q * y, n, 's')
            q = z3.If(x >= 0, x / y, -((-x) / y))
            if a.srange()[0] >= 0:
                q = x / y
            if op == 'sdiv':
                return IntV(q, n, 's')
            return IntV(x - q * y if a.srange()[0] < 0 else x % y, n, 's')
        if op in ('udiv', 'urem'):
            x, y = a.U(), b.U()
            if not isint(y):
                self.oblige('overflow', f'divisor is not zero ({self.where(ins)})', self.guard, [toz(y) != 0])
                q, r = divmod_uf(self, x, y)
                return IntV(q if op == 'udiv' else r, n, 'u')
            if isint(x):
                return IntV(x // y if op == 'udiv' else x % y, n, 'u')
            return IntV(x / y if op == 'udiv' else x % y, n, 'u', 0, (a.urange()[1] // y if op == 'udiv' else y - 1))
        return self.bits(op, n, a, b, ins)

    def inloop(self):
        return any(self.cur in l.body for l in self.fn.loops.values())

    def intv(self, t, n):
        return IntV(t, n, 's')

    def ptrv(self, r):
        return PtrV([(True, r, 0)])

    def need_bits(self, n):
        if n not in self.bitax:
            self.bitax.add(n)
            for f in dsl.bits_axioms(n):
                self.assume(f)

    def bytes_of(self, v):
        """the value byte by byte, lowest first: 0, or (t, n, i) for byte i of the unsigned n-bit number t"""
        if v.by is not None:
            return v.by
        if isint(v.t):
            u = v.U()
            return [0] * (v.n // 8) if u == 0 else None
        u = v.U()
        k = (v.urange()[1].bit_length() + 7) // 8
        return [(u, v.n, i) if i < k else 0 for i in range(v.n // 8)]

    def from_bytes(self, by, n):
        real = [x for x in by if x != 0]
        if not real:
            return IntV(0, n, 's')
        r = None
        t0, n0 = real[0][0], real[0][1]
        if len(real) * 8 == n and n0 == n and all(x != 0 and x[0].eq(t0) and x[1] == n and x[2] == n // 8 - 1 - j for j, x in enumerate(by)):
            self.need_bits(n)
            r = IntV(dsl.bswap_u(t0, n), n, 'u')
        elif len(real) >= 2 and all(x == 0 for x in by[len(real):]) and all(x[0].eq(t0) and x[2] == len(real) - 1 - j for j, x in enumerate(by[:len(real)])) and len(real) in (2, 4):
            # a narrower number widened first
            self.need_bits(8 * len(real))
            u = dsl.bswap_u(t0, 8 * len(real))
            r = IntV(u, n, 'u', 0, (1 << (8 * len(real))) - 1)
        else:
            t = sum(((x[0] / (1 << (8 * x[2]))) % 256) * (1 << (8 * j)) for j, x in enumerate(by) if x != 0)
            top = max(j for j, x in enumerate(by) if x != 0)
            r = IntV(t, n, 'u', 0, (1 << (8 * top + 8)) - 1)
        r.by = by
        return r

    def bytewise(self, op, n, a, b):
        """shifts and masks by whole bytes; None where that is not what happens"""
        if n % 8 or n < 16:
            return None
        if op in ('shl', 'lshr', 'ashr') and isint(b.t) and b.t % 8 == 0 and 0 < b.t < n and not isint(a.t):
            by = self.bytes_of(a)
            if by is None or op == 'ashr' and by[-1] != 0:
                return None
            k = b.t // 8
            return [0] * k + by[:-k] if op == 'shl' else by[k:] + [0] * k
        if op == 'and' and isint(b.t) and not isint(a.t):
            m = b.U().to_bytes(n // 8, 'little')
            by = self.bytes_of(a)
            if by is None or not all(c in (0, 255) for c in m) or a.by is None and (b.U() & (b.U() + 1)) == 0:
                return None
            return [x if c else 0 for x, c in zip(by, m)]
        if op == 'or' and a.by is not None and b.by is not None and not any(x != 0 and y != 0 for x, y in zip(a.by, b.by)):
            return [x if x != 0 else y for x, y in zip(a.by, b.by)]
        return None

    def bits(self, op, n, a, b, ins):
        by = self.bytewise(op, n, a, b)
        if by is not None and (a.by is not None or op == 'and'):
            return self.from_bytes(by, n)
        r = self.bits_(op, n, a, b, ins)
        if by is not None:
            r.by = by
        return r

    def bits_(self, op, n, a, b, ins):
        if isint(a.t) and isint(b.t):
            x, y = a.U(), b.U()
            if op in ('and', 'or', 'xor'):
                r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
                return IntV(r if r < (1 << (n - 1)) else r - (1 << n), n, 's')
        if op == 'shl' and isint(b.t):
            x = a.U() if a.lo >= 0 else a.S()
            lo, hi = (a.urange() if a.lo >= 0 else a.srange())
            f = 1 << b.t
            t, lo, hi = x * f, lo * f, hi * f
            if 0 <= lo and hi < (1 << n):
                return IntV(t, n, 'u', lo, hi)
            if 'nsw' in ins.flags:
                mn, mx = -(1 << (n - 1)), (1 << (n - 1)) - 1
                if not (mn <= lo and hi <= mx):
                    self.oblige('overflow', f'no signed overflow ({self.where(ins)})', self.guard, [z3.And(toz(t) >= mn, toz(t) <= mx)])
                return IntV(t, n, 's', max(lo, mn), min(hi, mx))
            return IntV(t, n, 'm', lo, hi)
        if op == 'lshr' and isint(b.t):
            x = a.U()
            if isint(x):
                return IntV(x >> b.t, n, 'u')
            return IntV(x / (1 << b.t), n, 'u', a.urange()[0] >> b.t, a.urange()[1] >> b.t)
        if op == 'ashr' and isint(b.t):
            x = a.S()
            if isint(x):
                return IntV(x >> b.t, n, 's')
            return IntV(x / (1 << b.t), n, 's', a.srange()[0] >> b.t, a.srange()[1] >> b.t)
        if op == 'and':
            if isint(a.t):
                a, b = b, a
            if isint(b.t):
                m = b.U()
                if m == (1 << n) - 1:
                    return a
                if m & (m + 1) == 0:          # low mask
                    x = a.t
                    return IntV(x % (m + 1), n, 's', 0, m)
                if m & (m - 1) == 0:          # one bit
                    k = m.bit_length() - 1
                    x = a.U()
                    return IntV(((x / m) % 2) * m, n, 'u', 0, m)
                inv = (1 << n) - 1 - m
                if inv & (inv + 1) == 0:      # clears low bits
                    x = a.S()
                    return IntV(x - x % (inv + 1), n, 's', a.srange()[0] - inv, a.srange()[1])
            w = max(a.urange()[1].bit_length(), b.urange()[1].bit_length())
        if op in ('and', 'or', 'xor'):
            (al, ah), (bl, bh) = a.urange(), b.urange()
            x, y = a.U(), b.U()
            if isint(x) and x == 0 or isint(y) and y == 0:
                if op == 'and':
                    return IntV(0, n, 's')
                return b if isint(x) and x == 0 else a
            if op == 'xor' and (isint(y) and y == (1 << n) - 1):
                return IntV(-1 - a.S(), n, 's')
            # bit by bit on the narrow operand
            w = max(ah.bit_length(), bh.bit_length())
            wn = min(ah.bit_length(), bh.bit_length())
            if wn > 8:
                raise Unsupported(f'bitwise {op} on {wn} bits')
            if ah.bit_length() > bh.bit_length():
                x, y, ah, bh = y, x, bh, ah     # x narrow
            tot = 0
            for j in range(wn):
                xb, yb = (toz(x) / (1 << j)) % 2, (toz(y) / (1 << j)) % 2
                bit = {'and': z3.If(z3.And(xb == 1, yb == 1), 1, 0), 'or': z3.If(z3.Or(xb == 1, yb == 1), 1, 0), 'xor': z3.If(xb != yb, 1, 0)}[op]
                tot = tot + bit * (1 << j)
            if op != 'and':
                hi = toz(y) - toz(y) % (1 << wn)
                tot = hi + tot
                return IntV(tot, n, 'u', 0, (1 << w) - 1)
            return IntV(tot, n, 'u', 0, (1 << wn) - 1)
        raise Unsupported(f'{op} {ins.line}')

    def icmp(self, ins):
        pred = ins.extra
        a, b = self.val(ins.args[0], ins.ty), self.val(ins.args[1], ins.ty)
        if isinstance(a, PtrV):
            return BoolV(self.ptrcmp(pred, a, b))
        if isinstance(a, BoolV):
            if pred == 'eq':
                return BoolV(dsl.Iff(a.t, b.t))
            if pred == 'ne':
                return BoolV(dsl.Not(dsl.Iff(a.t, b.t)))
            a, b = bool2int(a, 8), bool2int(b, 8)
        if pred in ('eq', 'ne'):
            r = None
            if a.b is not None and b.b is not None:
                r = dsl.Iff(a.b, b.b)
            elif a.b is not None and isint(b.t):
                r = a.b if b.t == 1 else (dsl.Not(a.b) if b.t == 0 else False)
            elif b.b is not None and isint(a.t):
                r = b.b if a.t == 1 else (dsl.Not(b.b) if a.t == 0 else False)
            if r is None:
                if a.r == 'u' and b.lo >= 0 or b.r == 'u' and a.lo >= 0:
                    x, y = a.U(), b.U()
                else:
                    x, y = a.S(), b.S()
                r = (x == y)
            return BoolV(r if pred == 'eq' else dsl.Not(r))
        if pred[0] == 's':
            x, y = a.S(), b.S()
        else:
            x, y = a.U(), b.U()
        p = pred[1:]
        r = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p]()
        return BoolV(r)

    def ptrcmp(self, pred, a, b):
        if pred not in ('eq', 'ne'):
            out = []
            for g1, r1, o1 in a.alts:
                for g2, r2, o2 in b.alts:
                    if r1 is None or r1 != r2 or isinstance(r1, tuple) or isinstance(o1, tuple) or isinstance(o2, tuple):
                        raise Unsupported('order of pointers into different objects')
                    e = {'lt': lambda: o1 < o2, 'le': lambda: o1 <= o2, 'gt': lambda: o1 > o2, 'ge': lambda: o1 >= o2}[pred[1:]]()
                    out.append(dsl.And(g1, g2, e))
            return dsl.Or(*out)
        out = []
        for g1, r1, o1 in a.alts:
            for g2, r2, o2 in b.alts:
                g = dsl.And(g1, g2)
                if r1 is None and r2 is None:
                    e = True
                elif r1 is None or r2 is None:
                    e = False
                elif r1 == r2:
                    if isinstance(o1, tuple) or isinstance(o2, tuple):
                        raise Unsupported('row pointer comparison')
                    e = (o1 == o2)
                else:
                    e = False
                out.append(dsl.And(g, e))
        r = dsl.Or(*out)
        return r if pred == 'eq' else dsl.Not(r)

    def cast(self, ins):
        op, ty, src = ins.op, ins.ty, ins.extra
        v = self.val(ins.args[0], src)
        if op in ('sext', 'zext'):
            if isinstance(v, BoolV):
                if op == 'zext':
                    return bool2int(v, ty.n)
                return IntV(dsl.If(v.t, -1, 0), ty.n, 's', -1, 0)
            if op == 'sext':
                lo, hi = v.srange()
                return IntV(v.S(), ty.n, 's', lo, hi)
            lo, hi = v.urange()
            return IntV(v.U(), ty.n, 's', lo, hi, b=v.b)
        if op == 'trunc':
            if ty.n == 1:
                if v.b is not None:
                    return BoolV(v.b)
                if v.lo >= 0 and v.hi <= 1:
                    return BoolV(v.t != 0)
                return BoolV((v.t % 2) == 1)
            if isint(v.t):
                x = v.t % (1 << ty.n)
                return IntV(x - (1 << ty.n) if x >= 1 << (ty.n - 1) else x, ty.n, 's')
            if -(1 << (ty.n - 1)) <= v.lo and v.hi < (1 << (ty.n - 1)):
                return IntV(v.t, ty.n, 's', v.lo, v.hi, b=v.b)
            if v.lo >= 0 and v.hi < (1 << ty.n):
                return IntV(v.t, ty.n, 'u', v.lo, v.hi)
            return IntV(v.t, ty.n, 'm', v.lo, v.hi)
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, BoolV):
                v = bool2int(v, 8)
            return FltV(dsl.i2f(toz(v.S() if op == 'sitofp' else v.U()), 0, ty.n), ty.n)
        if op in ('fptosi', 'fptoui'):
            ct = ('int' if op == 'fptosi' else 'uint') + f'{ty.n}_t'
            t = dsl.f2i(v.t, src.n, ct)
            r = IntV(t, ty.n, 's' if op == 'fptosi' else 'u')
            self.assume(z3.And(t >= r.lo, t <= r.hi))
            return r
        if op in ('fpext', 'fptrunc'):
            return FltV(dsl.f2f(v.t, src.n, ty.n), ty.n)
        if op == 'bitcast' and src.k == ty.k:
            return v
        if op == 'bitcast' and src.k == 'float' and ty.k == 'int':
            t = dsl.f2bits(v.t, src.n)
            self.assume(z3.And(t >= 0, t < (1 << ty.n)))
            return IntV(t, ty.n, 'u')
        if op == 'bitcast' and src.k == 'int' and ty.k == 'float':
            return FltV(dsl.bits2f(toz(v.U()), ty.n), ty.n)
        if op == 'ptrtoint' and ty.n == 64 and len(v.alts) == 1:
            _, r, o = v.alts[0]
            reg = self.regions.get(r) if isinstance(r, str) else None
            if reg is not None and reg.kind == 'arr' and not isinstance(o, tuple):
                self.base_of(r, reg)
                self.oblige('memory', f'pointer stays near {r} ({self.where(ins)})', self.guard, [z3.And(toz(o) >= -(1 << 57), toz(o) <= (1 << 57))])
                x = IntV(simp(self.bases[r] + toz(o) * reg.es), 64, 's', -(1 << 62), 1 << 62)
                x.pa = (r, o, reg.es)
                return x
        if op == 'ptrtoint' and ty.n == 64 and len(v.alts) > 1:
            t = None
            for g, r, o in reversed(v.alts):
                reg = self.regions.get(r) if isinstance(r, str) else None
                if r is not None and (reg is None or reg.kind != 'arr' or isinstance(o, tuple)):
                    raise Unsupported(f'{op} {ins.line}')
                if r is not None:
                    self.base_of(r, reg)
                    self.oblige('memory', f'pointer stays near {r} ({self.where(ins)})', self.guard, [dsl.Implies(g, z3.And(toz(o) >= -(1 << 57), toz(o) <= (1 << 57)))])
                x = z3.IntVal(0) if r is None else simp(self.bases[r] + toz(o) * reg.es)
                t = x if t is None else z3.If(toz(g), x, t)
            return IntV(t, 64, 's', -(1 << 62), 1 << 62)
        if op == 'inttoptr' and isinstance(v, IntV) and v.pa:
            return PtrV([(True, v.pa[0], v.pa[1])])
        raise Unsupported(f'{op} {ins.line}')

    def base_of(self, r, reg):
        if r not in self.bases:
            b = self.bases[r] = self.fresh('addr_' + r)
            self.assume(z3.And(b > 0, b < (1 << 61), b % reg.es == 0))

    # ---- postcondition
    def do_ret(self, t):
        if self.rets is not None:
            self.rets.append((self.guard, self.val(t.args[0], t.ty)))
            return
        k = self.k
        g = self.guard
        st = SymState(self, (), self.mem, {})
        if self.sret:
            c = self.mem['$ret']
            s = c.get(0)
            if s is None:
                raise Unsupported('error string not set')
            ok = self.ptrcmp('eq', s, PtrV([(True, None, 0)]))
            ident, att = c.get(16), c.get(24)
        else:
            ok, ident, att = True, None, None
        self.ret_ok = ok
        gok = g if ok is True else z3.And(g, toz(ok))
        gbad = None if ok is True else z3.And(g, z3.Not(toz(ok)))
        if ok is False:
            gok = None
        post = Post(self, st, k)
        if gok is not None:
            for nm, it in post.success():
                self.oblige('post', nm, gok, it, assume_after=False)
            if ident is not None and (k.fails is not None):
                pass
            if t.args:
                v = self.val(t.args[0], t.ty)
                if k.retspec is not None:
                    if isinstance(v, BoolV):
                        self.oblige('post', 'return value', gok, [dsl.Iff(v.t, k.retspec)], assume_after=False)
                    elif isinstance(v, FltV):
                        self.oblige('post', 'return value', gok, [v.t == toz(k.retspec)], assume_after=False)
                    else:
                        x = v.S() if CT[self.sig.get('ret', 'int64_t')][2] else v.U()
                        self.oblige('post', 'return value', gok, [toz(x) == toz(k.retspec)], assume_after=False)
        if gbad is not None and ident is not None:
            it = post.failure(ident.S(), att.S())
            self.oblige('post', 'an error is reported only for a failing element, and for the first one', gbad, it, assume_after=False)


class Post:
    def __init__(self, ex, st, k):
        self.ex, self.st, self.k = ex, st, k

    def success(self):
        k, st = self.k, self.st
        for n, f in enumerate(k.fails):
            if not f.dims:
                yield f'success implies no error condition #{n}', [dsl.Not(f.cond())]
            else:
                yield f'success implies no error condition #{n} at any element', [FA(f.dims, (lambda *v, f=f: dsl.Not(f.cond(*v))))]
        for o in k.outs:
            yield f'{o.tag} holds the specified values', [out_formula(o, st, [] if o.final is None else [lambda *v, o=o: o.final()])]
        for f, name in k.posts:
            r = f(st)
            yield name, r if isinstance(r, list) else [r]

    def failure(self, ident, att):
        """some failing event matches, and nothing fails earlier"""
        k, ex = self.k, self.ex
        if not k.fails:
            return [z3.BoolVal(False)]
        disj = []
        lrs = sorted(ex.loops.values(), key=lambda l: (l.loop.depth))
        for f in k.fails:
            for w in self.witnesses(f, lrs, ident, att):
                if len(w) != len(f.dims):
                    continue
                conj = []
                for d, x in enumerate(w):
                    lo, hi = dsl.dimrange(f.dims[d], w[:d])
                    conj += [toz(x) >= toz(lo), toz(x) < toz(hi)]
                conj += [toz(f.cond(*w)), toz(f.ident(*w)) == toz(ident), toz(f.att(*w)) == toz(att)]
                # nothing fails earlier
                for f2 in k.fails:
                    if f2.phase > f.phase:
                        continue
                    if not f2.dims:
                        if f2.phase < f.phase:
                            conj.append(dsl.Not(f2.cond()))
                        continue
                    if f2.phase < f.phase:
                        sk = [ex.fresh('sk') for _ in f2.dims]
                        conj.append(FA(f2.dims, lambda *v, f2=f2: dsl.Not(f2.cond(*v))).inst(*sk))
                        ex.failsk.append((sk, f2))
                    elif f.dims:
                        sk = [ex.fresh('sk') for _ in f2.dims]
                        ex.failsk.append((sk, f2))
                        d0 = (f2.dims[0][0], w[0])
                        conj.append(z3.Implies(toz(sk[0]) < toz(dsl.dimrange(f2.dims[0], ())[1]), FA([d0] + list(f2.dims[1:]), lambda *v, f2=f2: dsl.Not(f2.cond(*v))).inst(*sk)))
                        if len(f2.dims) == 2 and len(f.dims) == 2:
                            sk1 = ex.fresh('sk')
                            ex.failsk.append(([sk1], f2))
                            lo, hi = dsl.dimrange(f2.dims[1], [w[0]])
                            conj.append(z3.Implies(z3.And(sk1 >= toz(lo), sk1 < toz(hi), sk1 < toz(w[1])), toz(dsl.Not(f2.cond(w[0], sk1)))))
                disj.append(dsl.And(*[toz(c) for c in conj]))
        return [dsl.Or(*disj)]

    def witnesses(self, f, lrs, ident, att):
        nd = len(f.dims)
        if nd == 0:
            return [()]
        out = []
        seen = set()

        def add(w):
            key = tuple(str(x) for x in w)
            if key not in seen:
                seen.add(key)
                out.append(w)
        base1 = []
        lo0 = dsl.dimrange(f.dims[0], ())[0]
        for l in lrs:
            base1.append(zadd(lo0, l.t))
            for n, (e, s) in l.ivs.items():
                base1.append(l.hphis[n].S())
        base1.append(ident)
        if nd == 1:
            for x in base1:
                add((toz(x),))
        else:
            for x in base1:
                lo1 = dsl.dimrange(f.dims[1], (toz(x),))[0]
                for l in lrs:
                    add((toz(x), toz(zadd(lo1, l.t))))
                    for n, (e, s) in l.ivs.items():
                        add((toz(x), toz(l.hphis[n].S())))
        return out


def out_formula(o, st, clip, val=None, extra=None):
    """forall v in dims (clipped): when(v) -> region[at(v)] == val(v)
    clip: list of functions (v...)->bool conditions"""
    val = val or o.val
    region = o.region
    if st.mode == 'con':
        def rec(d, vs):
            if d == len(o.dims):
                for c in clip:
                    if not c(*vs):
                        return True
                if o.when is not None and not o.when(*vs):
                    return True
                a = o.at(*vs) if o.at else (vs[0] if vs else 0)
                return dsl.eq(st.mem(region, a), val(*vs))
            lo, hi = dsl.dimrange(o.dims[d], vs)
            if hi - lo > dsl.CONMAX:
                raise dsl.TooBig('range')
            return all(rec(d + 1, vs + (i,)) for i in range(lo, hi))
        return rec(0, ())

    def at(*v):
        return o.at(*v) if o.at else (v[0] if v else 0)

    def body(*v):
        pre = []
        if o.when is not None:
            pre.append(o.when(*v))
        pre += [c(*v) for c in clip]
        a = at(*v)
        e = toz(st.mem(region, a)) == toz(val(*v))
        return dsl.Implies(dsl.And(*pre), e) if pre else e
    if not o.dims:
        return body()
    if len(o.dims) == 1:
        x = z3.Int('probe!')
        c = z3.simplify(toz(at(x)) - x)
        if not mentions(c, x):
            # reindex so that the trigger is region[u]
            lo, hi = o.dims[0]

            def body2(u):
                return body(simp(u - c))
            if z3.is_int_value(c) and c.as_long() == 0:
                body2 = body
            return FA([(simp(toz(lo) + c), simp(toz(hi) + c))], body2, pat=lambda u: z3.Select(st.arr(region), u) if is_plain(st.arr(region)) else None)
    return FA(o.dims, body)


def is_plain(m):
    return m.decl().kind() == z3.Z3_OP_UNINTERPRETED


_ment = {}


def mentions(e, x):
    if e.eq(x):
        return True
    return any(mentions(c, x) for c in e.children())


def bool2int(v, n):
    if not is_sym(v.t):
        return IntV(int(v.t), n, 's')
    return IntV(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), n, 's', 0, 1, b=v.t)


def parse_float(s, n):
    if s.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(s[2:], 16)))[0]
    return float(s)


def divmod_uf(ex, x, y):
    """truncating division by a variable: q,r fresh-by-function with defining facts"""
    x, y = toz(x), toz(y)
    q = uf('tdiv', I, I, I)(x, y)
    r = uf('trem', I, I, I)(x, y)
    ex.assume(z3.Implies(y != 0, x == dsl.mul(q, y) + r))
    ex.assume(z3.Implies(z3.And(x >= 0, y > 0), z3.And(r >= 0, r < y, q >= 0, q <= x)))
    ex.assume(z3.Implies(z3.And(x < 0, y > 0), z3.And(r <= 0, r > -y, q <= 0, q >= x)))
    ex.assume(z3.Implies(y == 1, z3.And(q == x, r == 0)))
    ex.assume(z3.Implies(y != 0, z3.And(r < z3.If(y > 0, y, -y), r > z3.If(y > 0, -y, y))))
    ch = ex.chain(ex.cur)
    for f in ex.k.quots:
        if len(inspect.signature(f).parameters) == len(ch):
            b = toz(f(*[l.t for l in ch]))
            for fact in ((y > 0, b < q, dsl.mul(b, y) + y <= dsl.mul(q, y)), (y > 0, q < b, dsl.mul(q, y) + y <= dsl.mul(b, y))):
                ex.assume(z3.Implies(z3.And(*fact[:2]), fact[2]))
    return q, r


def merged(alts):
    t = alts[-1][1]
    for g, o in alts[:-1]:
        t = dsl.If(g, o, t)
    return t


def reg_len_str(reg):
    s = str(reg.length)
    return s if len(s) < 40 else 'declared'


pmul = dsl.mul
