"""Invariant candidates, generated from the contract and the loop structure only.

None of them is trusted: a candidate is dropped when an example run refutes it or
when it cannot be proved inductive; what remains is proved.
"""
import inspect
import z3
from . import dsl
from .dsl import toz, is_sym, dimrange
from .sem import FA, out_formula, IntV, BoolV, FltV, PtrV, is_plain, merged


class Cand:
    def __init__(self, name, f):
        self.name, self.f = name, f
        self.alive = True
        self.bound = False      # bounds the loop's iteration count by something the loop does not change

    def build(self, st, k):
        r = self.f(st, k)
        return r if isinstance(r, list) else [r]

    def con(self, st, k):
        """True/False on a concrete state"""
        r = self.f(st, k)
        if isinstance(r, list):
            return all(con_eval(x) for x in r)
        return con_eval(r)


def con_eval(x):
    return bool(x)


def fa(st, ranges, body, pat=None):
    """forall in either mode"""
    if st.mode == 'con':
        def rec(d, vs):
            if d == len(ranges):
                return body(*vs)
            lo, hi = dimrange(ranges[d], vs)
            if hi - lo > dsl.CONMAX:
                raise dsl.TooBig('range')
            return all(rec(d + 1, vs + (i,)) for i in range(lo, hi))
        return rec(0, ())
    return FA(ranges, body, pat)


def pt(st, region):
    """pattern: any read of the region's current contents"""
    if st.mode == 'con' or not is_plain(st.arr(region)):
        return None
    a = st.arr(region)
    return lambda v: z3.Select(a, v)


def poff(p):
    """offset of a pointer into one object (or null)"""
    a = [(g, o) for g, r, o in p.alts if r is not None]
    if not a or len({r for _, r, _ in p.alts if r is not None}) != 1 or any(isinstance(o, tuple) for _, o in a) or any(isinstance(r, tuple) for _, r, _ in p.alts):
        return None
    return merged(a)


def num(st, v):
    """numeric value of a phi in either mode"""
    if isinstance(v, IntV):
        return v.S()
    if isinstance(v, BoolV):
        return v.t
    if isinstance(v, FltV):
        return v.t
    return v


class Bound:
    """a progress term: iteration counter or induction variable of an enclosing loop, plus a constant"""
    def __init__(self, kind, level, name, c):
        self.kind, self.level, self.name, self.c = kind, level, name, c

    def __call__(self, st):
        if self.kind == 't':
            x = st.ts[self.level]
        else:
            x = num(st, st.phi(*self.name))
        return x if self.c == 0 else x + self.c

    def __repr__(self):
        s = f't{self.level}' if self.kind == 't' else self.name[1]
        return s if self.c == 0 else f'{s}{self.c:+d}'


def bounds(ex, lr):
    out = []
    for lv, l in enumerate(lr.chain):
        base = [('t', lv, None)]
        for n, (e, s) in l.ivs.items():
            if not (isinstance(s, int) and s == 1 and isinstance(e, int) and e == 0):
                base.append(('phi', lv, (l.loop.header, n)))
        for b in base:
            out.append(Bound(*b, 0))
            out.append(Bound(*b, 1))
    return out


def mn(st, a, b):
    if st.mode == 'con':
        return min(a, b)
    return z3.If(toz(a) < toz(b), toz(a), toz(b))


def mx(st, a, b):
    if st.mode == 'con':
        return max(a, b)
    return z3.If(toz(a) > toz(b), toz(a), toz(b))


def nargs(f):
    if isinstance(f, dsl.Rec):
        return f.np + 1
    return len(inspect.signature(f).parameters)



def stay_tests(ex, cond, want, depth=0):
    """integer comparisons that hold whenever the branch condition has the value that stays in the loop: (icmp, predicate)"""
    if cond[0] != 'v' or depth > 4:
        return
    d = ex.defs.get(cond[1])
    if d is None:
        return
    if d.op == 'icmp':
        if d.ty.k in ('int', 'ptr'):
            p = d.extra
            if not want:
                p = {'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt', 'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult'}[p]
            yield d, p
    elif d.op == 'xor' and d.ty.k == 'int' and d.ty.n == 1 and d.args[1][0] == 'i':
        yield from stay_tests(ex, d.args[0], not want if d.args[1][1] % 2 else want, depth + 1)
    elif d.op == 'freeze':
        yield from stay_tests(ex, d.args[0], want, depth + 1)
    elif d.op in ('and', 'or') and d.ty.k == 'int' and d.ty.n == 1 and want == (d.op == 'and'):
        for a in d.args:
            yield from stay_tests(ex, a, want, depth + 1)
    elif d.op == 'select' and d.ty.k == 'int' and d.ty.n == 1:
        if want and d.args[2][0] == 'i' and d.args[2][1] % 2 == 0:
            yield from stay_tests(ex, d.args[0], True, depth + 1)
            yield from stay_tests(ex, d.args[1], True, depth + 1)
        if not want and d.args[1][0] == 'i' and d.args[1][1] % 2 == 1:
            yield from stay_tests(ex, d.args[0], False, depth + 1)
            yield from stay_tests(ex, d.args[2], False, depth + 1)


def generate(ex, lr):
    k = ex.k
    C = []
    bs = bounds(ex, lr)
    depth = len(lr.chain)
    lv = depth - 1
    inner = [b for b in bs if b.level == lv]
    outer = [b for b in bs if b.level < lv]

    def add(name, f, bound=False):
        c = Cand(name, f)
        c.bound = bound
        C.append(c)

    # --- trip bounds from the loop's own exit tests
    hdr = lr.loop.header
    for b in sorted(lr.loop.body):
        blk = ex.fn.blocks[b]
        t = blk.term
        if t.op != 'br' or len(t.args) != 3:
            continue
        ins_ = [s in lr.loop.body for s in t.args[1:]]
        if all(ins_) or not any(ins_):
            continue
        for cmp_, pred in stay_tests(ex, t.args[0], ins_[0]):
            for side in (0, 1):
                a, o = cmp_.args[side], cmp_.args[1 - side]
                p = pred if side == 0 else {'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}.get(pred, pred)
                for n, s in list(lr.pivs.items()) if cmp_.ty.k == 'ptr' else ():
                    c = ex.step_of(a, n)
                    if c is not None:
                        c = c // lr.pes[n] if c % lr.pes[n] == 0 else None
                    ov = ex.env.get(o[1]) if o[0] == 'v' and o[1] not in lr.hphis else None
                    if c is None or not isinstance(ov, PtrV) or poff(ov) is None or poff(lr.hphis[n]) is None:
                        continue

                    def pv(st, v):
                        return (v[1] if v else 0) if st.mode == 'con' else poff(v)

                    def pbound(st, o=o):
                        return (st.env[o[1]] or (0, 0))[1] if st.mode == 'con' else poff(ex.env[o[1]])
                    if p in ('ult', 'ule', 'ne') and s > 0:
                        d = -c + s - 1 + (1 if p == 'ule' else 0)
                        add(f'{n} <= {o[1]}{d:+d}', lambda st, k, n=n, pbound=pbound, d=d: dsl.Or(st.ts[-1] == 0, pv(st, st.phi(hdr, n)) <= pbound(st) + d), True)
                    if p in ('ugt', 'uge', 'ne') and s < 0:
                        d = -c + s + 1 - (1 if p == 'uge' else 0)
                        add(f'{n} >= {o[1]}{d:+d}', lambda st, k, n=n, pbound=pbound, d=d: dsl.Or(st.ts[-1] == 0, pv(st, st.phi(hdr, n)) >= pbound(st) + d), True)
                for n, (e, s) in lr.ivs.items() if cmp_.ty.k == 'int' else ():
                    c = ex.step_of(a, n)
                    if not isinstance(s, int):
                        continue
                    if c is None:
                        continue
                    if not (o[0] == 'i' or (o[0] == 'v' and o[1] in ex.env and isinstance(ex.env[o[1]], IntV) and o[1] not in lr.hphis)):
                        continue
                    oname = o

                    def bval(st, o=oname, ty=cmp_.ty):
                        if o[0] == 'i':
                            return o[1]
                        if st.mode == 'con':
                            return st.env[o[1]]
                        return ex.env[o[1]].S()
                    if p in ('slt', 'ult', 'ne', 'sle', 'ule') and s > 0:
                        d = -c + s - 1 + (1 if p in ('sle', 'ule') else 0)
                        add(f'{n} <= {oname[1]}{d:+d}', lambda st, k, n=n, bval=bval, d=d: dsl.Or(st.ts[-1] == 0, num(st, st.phi(hdr, n)) <= bval(st) + d), True)
                    if p in ('sgt', 'ugt', 'ne', 'sge', 'uge') and s < 0:
                        d = -c + s + 1 - (1 if p in ('sge', 'uge') else 0)
                        add(f'{n} >= {oname[1]}{d:+d}', lambda st, k, n=n, bval=bval, d=d: dsl.Or(st.ts[-1] == 0, num(st, st.phi(hdr, n)) >= bval(st) + d), True)
                # a value that grows by at least one per iteration until it reaches a bound
                for n, e in lr.entry_phis.items() if cmp_.ty.k == 'int' and not lr.ivs and not lr.pivs else ():
                    late = any(a == v for ph in ex.fn.blocks[hdr].phis if ph.res == n for v, l in ph.extra if l in lr.loop.latches)
                    if (a != ('v', n) and not late) or not isinstance(e, IntV) or o[0] != 'v' or not isinstance(ex.env.get(o[1]), IntV) or o[1] in lr.hphis or p not in ('slt', 'sle'):
                        continue

                    def sym(f):
                        return lambda st, k: True if st.mode == 'con' else f(st)
                    lo, hi, d = e.S(), ex.env[o[1]].S(), 1 if p == 'sle' else 0
                    add(f'{n} grows', sym(lambda st, n=n, lo=lo: num(st, st.phi(hdr, n)) >= lo + st.ts[-1]))
                    add(f'{n} is moderate', sym(lambda st, n=n: num(st, st.phi(hdr, n)) <= dsl.LMAX))
                    if late:
                        add(f'{n} is below {o[1]}', sym(lambda st, n=n, lo=lo, hi=hi, d=d: dsl.Or(num(st, st.phi(hdr, n)) == lo, num(st, st.phi(hdr, n)) < hi + d)))
                    add(f'{n} grows up to {o[1]}', sym(lambda st, lo=lo, hi=hi, d=d: dsl.Or(st.ts[-1] == 0, st.ts[-1] <= hi - lo + d)), True)
    # --- trip bounds from the contract's index ranges
    dimsets = [o.dims for o in k.outs] + [f.dims for f in k.fails] + [d for d in k.tmaxes]

    def dims_of(kk, idx):
        return ([o.dims for o in kk.outs] + [f.dims for f in kk.fails] + [d for d in kk.tmaxes])[idx]
    for idx, ds in enumerate(dimsets):
        if len(ds) >= 1:
            def f1(st, kk, idx=idx):
                lo, hi = dimrange(dims_of(kk, idx)[0], ())
                return dsl.Or(st.ts[-1] == 0, st.ts[-1] <= hi - lo)
            add(f't <= range {idx}', f1, True)
        if len(ds) >= 2 and depth >= 2:
            for b in outer:
                def f2(st, kk, idx=idx, b=b):
                    d = dims_of(kk, idx)
                    lo0, hi0 = dimrange(d[0], ())
                    row = lo0 + b(st) if b.kind == 't' else b(st)
                    if st.mode == 'con' and not (lo0 <= row < hi0):
                        return st.ts[-1] == 0
                    lo, hi = dimrange(d[1], (row,))
                    return dsl.Or(st.ts[-1] == 0, st.ts[-1] <= hi - lo)
                add(f't <= inner range {idx} at {b}', f2, True)
    # --- no error so far
    for i, f in enumerate(k.fails):
        if len(f.dims) == 1:
            for b in bs:
                def g(st, kk, i=i, b=b):
                    f = kk.fails[i]
                    lo, hi = f.dims[0]
                    up = mn(st, hi, lo + b(st) if b.kind == 't' else b(st))
                    return fa(st, [(lo, up)], lambda v: dsl.Not(f.cond(v)))
                add(f'no error {i} below {b}', g)
        elif len(f.dims) == 2:
            for b in bs:
                def g(st, kk, i=i, b=b):
                    f = kk.fails[i]
                    lo, hi = f.dims[0]
                    up = mn(st, hi, lo + b(st) if b.kind == 't' else b(st))
                    return fa(st, [(lo, up), f.dims[1]], lambda u, v: dsl.Not(f.cond(u, v)))
                add(f'no error {i} in rows below {b}', g)
            if depth >= 2:
                for b in outer:
                    for b2 in inner:
                        def g(st, kk, i=i, b=b, b2=b2):
                            f = kk.fails[i]
                            lo, hi = f.dims[0]
                            row = lo + b(st) if b.kind == 't' else b(st)
                            if st.mode == 'con' and not lo <= row < hi:
                                return True
                            l2, h2 = dimrange(f.dims[1], (row,))
                            up = mn(st, h2, l2 + b2(st) if b2.kind == 't' else b2(st))
                            return fa(st, [(l2, up)], lambda v: dsl.Not(f.cond(row, v)))
                        add(f'no error {i} in row {b} below {b2}', g)
    # --- outputs
    for i, o in enumerate(k.outs):
        if o.region not in lr.written:
            continue
        nd = len(o.dims)
        if nd >= 1:
            for b in bs:
                def g(st, kk, i=i, b=b):
                    o = kk.outs[i]
                    lo = o.dims[0][0]
                    x = lo + b(st) if b.kind == 't' else b(st)
                    return out_formula(o, st, [lambda *v: v[0] < x])
                add(f'{o.tag} done below {b}', g)

                def g(st, kk, i=i, b=b):
                    o = kk.outs[i]
                    hi = o.dims[0][1]
                    x = hi - b(st) if b.kind == 't' else b(st)
                    return out_formula(o, st, [lambda *v: v[0] >= x])
                add(f'{o.tag} done from {b} up', g)
        add(f'{o.tag} done', lambda st, kk, i=i: out_formula(kk.outs[i], st, []))
        if nd >= 2 and depth >= 2:
            for b in outer:
                for b2 in inner if nd == 2 else [x for x in bs if x.level > b.level]:
                    def g(st, kk, i=i, b=b, b2=b2):
                        o = kk.outs[i]
                        lo, hi = o.dims[0]
                        row = lo + b(st) if b.kind == 't' else b(st)
                        if st.mode == 'con' and not lo <= row < hi:
                            return True
                        l2 = dimrange(o.dims[1], (row,))[0]
                        x = l2 + b2(st) if b2.kind == 't' else b2(st)
                        return out_formula(o, st, [lambda *v: v[0] == row, lambda *v: v[1] < x])
                    add(f'{o.tag} row {b} done below {b2}', g)
        if nd == 2 and ex.ext:
            for b in bs:
                def g(st, kk, i=i, b=b):
                    o = kk.outs[i]
                    lo = dimrange(o.dims[1], (o.dims[0][0],))[0]
                    x = lo + b(st) if b.kind == 't' else b(st)
                    return out_formula(o, st, [lambda *v: v[1] < x])
                add(f'{o.tag} columns below {b} done', g)
            for b in outer:
                for b2 in inner:
                    def g(st, kk, i=i, b=b, b2=b2):
                        o = kk.outs[i]
                        y = o.dims[0][0] + b2(st) if b2.kind == 't' else b2(st)
                        x = dimrange(o.dims[1], (o.dims[0][0],))[0] + b(st) if b.kind == 't' else b(st)
                        return out_formula(o, st, [lambda *v: dsl.Or(v[1] < x, dsl.And(v[1] == x, v[0] < y))])
                    add(f'{o.tag} columns below {b} and rows below {b2} of it done', g)
        if nd == 3 and depth >= 3:
            m1 = [b for b in bs if b.level == 0]
            m2 = [b for b in bs if b.level == 1]
            m3 = [b for b in bs if b.level == 2]
            for b in m1:
                for b2 in m2:
                    for b3 in m3:
                        def g(st, kk, i=i, b=b, b2=b2, b3=b3):
                            o = kk.outs[i]
                            lo, hi = o.dims[0]
                            r1 = lo + b(st) if b.kind == 't' else b(st)
                            if st.mode == 'con' and not lo <= r1 < hi:
                                return True
                            l2, h2 = dimrange(o.dims[1], (r1,))
                            r2 = l2 + b2(st) if b2.kind == 't' else b2(st)
                            if st.mode == 'con' and not l2 <= r2 < h2:
                                return True
                            l3 = dimrange(o.dims[2], (r1, r2))[0]
                            x = l3 + b3(st) if b3.kind == 't' else b3(st)
                            return out_formula(o, st, [lambda *v: v[0] == r1, lambda *v: v[1] == r2, lambda *v: v[2] < x])
                        add(f'{o.tag} row {b},{b2} done below {b3}', g)
        for pi, pf in enumerate(o.prog):
            for name, targs in tuples(bs, nargs(pf)):
                def g(st, kk, i=i, pi=pi, targs=targs):
                    o = kk.outs[i]
                    x = o.prog[pi](*targs(st))
                    return out_formula(o, st, [lambda *v: v[0] < x])
                add(f'{o.tag} done below progress{pi}({name})', g)
        for ri, run in enumerate(o.running):
            na = nargs(run) - nd
            for name, targs in tuples(bs, na):
                def g(st, kk, i=i, targs=targs, ri=ri):
                    o = kk.outs[i]
                    ts = targs(st)
                    return out_formula(o, st, [], val=lambda *v: o.running[ri](*ts, *v))
                add(f'{o.tag} running at {name}', g)
            if nd >= 1:
                for b in bs:
                    def g(st, kk, i=i, b=b, na=na, ri=ri):
                        o = kk.outs[i]
                        lo = o.dims[0][0]
                        x = lo + b(st) if b.kind == 't' else b(st)
                        z = (0,) * na
                        return out_formula(o, st, [lambda *v: v[0] < x], val=lambda *v: o.running[ri](*z, *v))
                    add(f'{o.tag} initialised below {b}', g)
                    if na == 1:
                        # value after the last step below b, start value from b on
                        for b2 in bs:
                            if b2.level == b.level:
                                continue
                            def g(st, kk, i=i, b=b, b2=b2, ri=ri):
                                o = kk.outs[i]
                                lo = o.dims[0][0]
                                x = lo + b(st) if b.kind == 't' else b(st)
                                return out_formula(o, st, [lambda *v: v[0] == x], val=lambda *v: o.running[ri](b2(st), *v))
                            add(f'{o.tag} at {b} running at {b2}', g)
        if o.region in k.inout:
            for b in bs:
                def g(st, kk, i=i, b=b):
                    o = kk.outs[i]
                    a0 = kk.arrs[o.region]
                    x = b(st)
                    return fa(st, [(x, a0.len)], lambda v: dsl.eq(st.mem(o.region, v), a0[v]), pat=(lambda v: z3.Select(st.arr(o.region), v)) if st.mode == 'sym' and is_plain(st.arr(o.region)) else None)
                add(f'{o.region} untouched from {b}', g)
                def g(st, kk, i=i, b=b):
                    o = kk.outs[i]
                    a0 = kk.arrs[o.region]
                    x = mn(st, b(st), a0.len)
                    return fa(st, [(0, x)], lambda v: dsl.eq(st.mem(o.region, v), a0[v]), pat=(lambda v: z3.Select(st.arr(o.region), v)) if st.mode == 'sym' and is_plain(st.arr(o.region)) else None)
                add(f'{o.region} untouched below {b}', g)
    # --- loop-carried scalars
    cellrun = [(i, ri, o, r) for i, o in enumerate(k.outs) if not o.dims for ri, r in enumerate(o.running)]
    for ph in ex.fn.blocks[hdr].phis:
        if ph.res in lr.ivs or ph.ty.k == 'ptr':
            continue
        nm = ph.res
        isb = ph.ty.k == 'int' and ph.ty.n == 1

        def eqv(st, v, e, isb=isb, ty=ph.ty):
            x = num(st, v)
            if isb:
                if st.mode == 'con':
                    return bool(x) == bool(e)
                e = toz(e)
                if e.sort() == dsl.I:
                    e = e != 0
                return toz(x) == e
            if st.mode == 'con':
                if ty.k == 'int':
                    if isinstance(e, float):
                        return False
                    return (int(x) - int(e)) % (1 << ty.n) == 0
                return isinstance(e, float) and dsl.eq(x, e)
            e = toz(e)
            if e.sort() == dsl.B:
                e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
            if toz(x).sort() != e.sort():
                return z3.BoolVal(False)
            if ty.k == 'int' and isinstance(v, IntV) and v.r == 'u' and False:
                return toz(v.U()) == e
            return toz(x) == e
        if ph.ty.k == 'int' and not isb:
            e = lr.entry_phis[nm]
            ent = e.S()
            if isinstance(ent, int) or z3.is_int_value(ent):
                e0 = ent if isinstance(ent, int) else ent.as_long()
                add(f'{nm} == {e0} + t', lambda st, kk, nm=nm, e0=e0: num(st, st.phi(hdr, nm)) == st.ts[-1] + e0)
                if ph.ty.n < 64 and e0 >= 0:
                    add(f'(unsigned) {nm} == {e0} + t', lambda st, kk, nm=nm, e0=e0, w=ph.ty.n: ((st.phi(hdr, nm) % (1 << w)) if st.mode == 'con' else st.phi(hdr, nm).U()) == st.ts[-1] + e0)
                add(f'{nm} == {e0}', lambda st, kk, nm=nm, e0=e0: num(st, st.phi(hdr, nm)) == e0)
            # equals the entry value of the phi (loop does not change it along this path)
            for b in inner:
                if b.kind == 't':
                    continue
            add(f'{nm} >= 0', lambda st, kk, nm=nm: num(st, st.phi(hdr, nm)) >= 0)
            for lvl in range(depth):
                add(f'{nm} <= t{lvl}', lambda st, kk, nm=nm, lvl=lvl: num(st, st.phi(hdr, nm)) <= st.ts[lvl])
            # a running output position: the index of the first cell of the row reached
            for i, o in enumerate(k.outs):
                if ex.ext and len(o.dims) == 2 and o.at is not None:
                    for b in bs:
                        def g(st, kk, nm=nm, i=i, b=b):
                            o = kk.outs[i]
                            row = o.dims[0][0] + b(st) if b.kind == 't' else b(st)
                            return num(st, st.phi(hdr, nm)) == o.at(row, dimrange(o.dims[1], (row,))[0])
                        add(f'{nm} == start of {o.tag} row {b}', g)
        for j, f in enumerate(k.exprs):
            for name, targs in tuples(bs, nargs(f)):
                add(f'{nm} == expr{j}({name})', lambda st, kk, nm=nm, j=j, targs=targs, eqv=eqv: eqv(st, st.phi(hdr, nm), kk.exprs[j](*targs(st))))
                if ph.ty.k == 'int' and 1 < ph.ty.n < 64:
                    add(f'(unsigned) {nm} == expr{j}({name})', lambda st, kk, nm=nm, j=j, targs=targs, w=ph.ty.n: ((st.phi(hdr, nm) % (1 << w)) if st.mode == 'con' else toz(st.phi(hdr, nm).U())) == kk.exprs[j](*targs(st)))
        for i, ri, o, run in cellrun:
            for name, targs in tuples(bs, nargs(run)):
                add(f'{nm} == running {o.tag}({name})', lambda st, kk, nm=nm, i=i, ri=ri, targs=targs, eqv=eqv: eqv(st, st.phi(hdr, nm), kk.outs[i].running[ri](*targs(st))))
        # copies of other loop-carried values
        for l in lr.chain:
            for other in l.hphis:
                if other != nm and isinstance(l.hphis[other], type(lr.hphis[nm])) and (not isinstance(lr.hphis[nm], IntV) or l.hphis[other].n == lr.hphis[nm].n):
                    if l is lr and other > nm and other not in lr.ivs:
                        continue
                    add(f'{nm} == {other}', lambda st, kk, nm=nm, h2=l.loop.header, other=other: dsl.eq(num(st, st.phi(hdr, nm)), num(st, st.phi(h2, other))))
    for j, (f, name) in enumerate(k.invs):
        n = nargs(f) - 1
        if n <= depth:
            add(name, lambda st, kk, j=j, n=n: kk.invs[j][0](st, *st.ts[:n] if n <= depth else ()))
    # dedupe on the header state
    seen, out = set(), []
    hst = ex.state(lr, [l.t for l in lr.chain], lr.hmem, lr.hphis)
    for c in C:
        try:
            items = c.build(hst, k)
        except (dsl.Reject, z3.Z3Exception) as e:
            continue
        key = []
        for it in items:
            if isinstance(it, FA):
                vs = [z3.Int(f'dd!{d}') for d in range(len(it.ranges))]
                x = z3.simplify(it.inst(*vs))
                key.append(x.get_id())
                seen_keep.append(x)
            elif is_sym(it):
                s = z3.simplify(it)
                if z3.is_true(s):
                    key.append('T')
                else:
                    key.append(s.get_id())
                    seen_keep.append(s)
            else:
                key.append('T' if it else 'F')
        key = tuple(key)
        if all(x == 'T' for x in key) or key in seen:
            continue
        seen.add(key)
        out.append(c)
    return out


seen_keep = []


def tuples(bs, n):
    if n == 0:
        return [('', lambda st: ())]
    if n == 1:
        return [(repr(b), lambda st, b=b: (b(st),)) for b in bs]
    if n == 2:
        return [(f'{b},{c}', lambda st, b=b, c=c: (b(st), c(st))) for b in bs for c in bs if b.level < c.level]
    if n == 3:
        return [(f'{b},{c},{d}', lambda st, b=b, c=c, d=d: (b(st), c(st), d(st))) for b in bs for c in bs for d in bs if b.level < c.level < d.level]
    return []
