"""GrowableBuffer (P26), entered through units/growable.cpp."""
from ..registry import contract, unit
from ..dsl import *
from .c_forth import arg, scalar, grown, CTYPES, CAP


def state(ct):
    return [arg('buf', ct, 1), arg('fresh', ct, 1), arg('requested', 'int64_t', 1), arg('length', 'int64_t', 1), arg('reserved', 'int64_t'),
            arg('initial', 'int64_t'), arg('resize', 'double'), arg('state', 'int64_t', 1)]


def new(ct):
    return [arg('fresh', ct, 1), arg('requested', 'int64_t', 1), arg('initial', 'int64_t'), arg('resize', 'double'), arg('state', 'int64_t', 1)]


def i(n):
    return arg(n, 'int64_t')


for N, C in CTYPES.items():
    for f, a in dict(append=[arg('datum', C)], setreserved=[i('minreserved')], setlength=[i('newlength')], clear=[], getitem=[i('at'), arg('out', C, 1)]).items():
        unit(f'unit_growable_{N}_{f}', state(C) + a, family='unit_growable_' + f)
    for f, a in dict(new=[], empty=[i('minreserve')], full=[arg('value', C), i('length')], arange=[i('length')]).items():
        unit(f'unit_growable_{N}_{f}', new(C) + a, family='unit_growable_' + f)


def options(k):
    return k.size('initial', hi=CAP), k._scalar('resize', lambda: k.rng.choice([1.0, 1.5, 2.0, 1.1, 3.0, 0.5]))


class Buf:
    """a buffer of L elements in memory for R"""

    def __init__(self, k, moved, size=None):
        """moved(L, R): does the call allocate, and size(L, R): how many elements"""
        self.k = k
        self.initial, self.z = options(k)
        R = self.R = k.size('reserved', hi=CAP)
        L = self.L = k.out_arr('length', 1, inout=True, gen=lambda i: k.rng.choice([R, R, k.rng.randint(0, R)]))[0]
        k.req(And(L >= 0, L <= R))
        self.old = k.out_arr('buf', R, inout=True)
        self.moved = moved(L, R)
        if k.mode == 'sym':
            r = z3.Int('gr')
            k.axioms.append(z3.ForAll([r], Implies(And(r >= 0, r <= CAP), grown(r, self.z) <= LMAX), patterns=[i2f(r, 0, 64)]))
        self.n, self.es = k.alloc('fresh', 'requested', gen=lambda: size(L, R) if self.moved else 0)
        k.out_arr('state', 2)

    def grow(self, R):
        g = grown(R, self.z)
        return If(g > R, g, R + 1)

    def result(self, length, val, upto):
        """the buffer has `length` elements; the first upto(old length) are val(i)"""
        k = self.k
        k.cell('length', length)
        k.out('buf', upto, val=val, when=lambda i: Not(self.moved))
        k.out('fresh', upto, val=val, when=lambda i: self.moved)
        k.out('state', None, val=lambda: If(self.moved, 1, 0), at=1)
        k.post(lambda st: st.mem('state', 0) >= length, 'no more elements than reserved')
        k.post(lambda st: If(self.moved, st.mem('requested', 0) == st.mem('state', 0) * self.es, st.mem('state', 0) == self.R),
               'what is called reserved is what was allocated')


@contract('unit_growable_append', prop='P26')
def _(k):
    b = Buf(k, lambda L, R: L == R, lambda L, R: max(R + 1, grown(R, b_z(k))))
    v = scalar(k, 'datum')
    if k.ct('buf') == 'bool':
        v = If(v, 1, 0)
    b.result(b.L + 1, lambda i: ite(i < b.L, lambda: b.old[i], lambda: v), b.L + 1)


def b_z(k):
    return k.inputs['resize'] if 'resize' in k.inputs else k.scalars['resize']


@contract('unit_growable_setreserved', prop='P26')
def _(k):
    n = k.int('minreserved', gen=lambda: k.rng.randint(-3, 12))
    k.req(n <= CAP)
    b = Buf(k, lambda L, R: n > R, lambda L, R: n)
    b.result(b.L, lambda i: b.old[i], b.L)
    k.out('state', None, val=lambda: If(n > b.R, n, b.R), at=0)


@contract('unit_growable_setlength', prop='P26')
def _(k):
    n = k.size('newlength', hi=CAP)
    b = Buf(k, lambda L, R: n > R, lambda L, R: n)
    b.result(n, lambda i: b.old[i], If(n < b.L, n, b.L))


@contract('unit_growable_clear', prop='P26')
def _(k):
    b = Buf(k, lambda L, R: True, lambda L, R: k.inputs['initial'])
    b.result(0, lambda i: b.old[i], 0)


@contract('unit_growable_getitem', prop='P26')
def _(k):
    b = Buf(k, lambda L, R: False)
    at = k.int('at', gen=lambda: k.rng.randint(0, max(0, b.L - 1)))
    k.req(And(at >= 0, at < b.L))
    k.out_arr('out', 1)
    k.cell('out', b.old[at])
    b.result(b.L, lambda i: b.old[i], b.L)


def made(k, least):
    """a new buffer with room for the initial size and at least `least` elements"""
    a, z = options(k)
    n, es = k.alloc('fresh', 'requested', gen=lambda: max(a, least))
    k.out_arr('state', 3)
    k.out('state', None, val=lambda: 1, at=2)
    k.post(lambda st: And(st.mem('state', 1) >= a, st.mem('state', 1) >= least, st.mem('requested', 0) == st.mem('state', 1) * es), 'room for the initial size and for every element')


@contract('unit_growable_new', prop='P26')
def _(k):
    made(k, 0)
    k.out('state', None, val=lambda: 0, at=0)


@contract('unit_growable_empty', prop='P26')
def _(k):
    n = k.size('minreserve', hi=CAP)
    made(k, n)
    k.out('state', None, val=lambda: 0, at=0)


@contract('unit_growable_full', prop='P26')
def _(k):
    n = k.size('length', hi=CAP)
    made(k, n)
    v = scalar(k, 'value')
    if k.ct('fresh') == 'bool':
        v = If(v, 1, 0)
    k.out('state', None, val=lambda: n, at=0)
    k.out('fresh', n, val=lambda i: v)


@contract('unit_growable_arange', prop='P26')
def _(k):
    n = k.size('length', hi=CAP)
    made(k, n)
    k.out('state', None, val=lambda: n, at=0)
    k.out('fresh', n, val=lambda i: cast(i, 'int64_t', k.ct('fresh')))
