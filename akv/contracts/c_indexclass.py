"""IndexOf<T> (P19), entered through units/index.cpp."""
from ..registry import contract, unit
from ..dsl import *
from .c_forth import arg
from .c_list import cmax
from .c_slice import pyslice

for N in ('int8', 'uint8', 'int32', 'uint32', 'int64'):
    C = N + '_t'
    S = [arg('buf', C, 1), arg('offset', 'int64_t'), arg('length', 'int64_t'), arg('raised', 'int64_t', 1)]
    i, st = (lambda n: arg(n, 'int64_t')), arg('state', 'int64_t', 1)
    for f, a in dict(getitem=[i('at'), arg('out', C, 1)], getnowrap=[i('at'), arg('out', C, 1)], setitem=[i('at'), arg('value', C)],
                     range=[i('start'), i('stop'), st], rangenowrap=[i('start'), i('stop'), st], contiguous=[arg('out', 'int64_t', 1)],
                     copy=[arg('fresh', C, 1), arg('requested', 'int64_t', 1), st],
                     to64=[arg('fresh', 'int64_t', 1), arg('requested', 'int64_t', 1), st]).items():
        unit(f'unit_index_{N}_{f}', S + a, family='unit_index_' + f)
    if '8' not in N:
        for f in ('starts', 'stops'):
            unit(f'unit_index_{N}_{f}', S + [st], family='unit_index_' + f)


def index(k, hi=None, gen=None):
    """an index of n elements from `offset` in a buffer: element i"""
    off = k.size('offset', gen=lambda: k.rng.randint(0, 3))
    n = k.size('length', hi=hi) if hi is not None else k.size('length')
    m = k.ghost_len('buf', lambda: off + n + k.rng.randint(0, 2))
    a = k.out_arr('buf', m, inout=True, gen=gen and gen(off))
    k.req(off + n <= m)
    k.out_arr('raised', 1)
    return off, n, m, a


def near(k, n):
    return lambda: k.rng.choice([k.rng.randint(-n - 3, n + 3), -n, n, n - 1, -n - 1, 1 << 62, -(1 << 62), KNONE])


@contract('unit_index_getitem', prop='P19')
def _(k):
    off, n, m, a = index(k)
    at = k.int('at', gen=near(k, n))
    k.out_arr('out', 1)
    ok = And(at >= -n, at < n)
    k.cell('raised', If(ok, 0, 1))
    k.out('out', None, val=lambda: a[off + If(at < 0, at + n, at)], when=lambda: ok)
    k.keep('buf', m)


@contract('unit_index_getnowrap', prop='P19')
def _(k):
    off, n, m, a = index(k)
    at = k.int('at', lo=0, hi=LMAX, gen=lambda: k.rng.randint(0, n))
    k.req(at < n)
    k.out_arr('out', 1)
    k.cell('raised', 0)
    k.cell('out', a[off + at])
    k.keep('buf', m)


@contract('unit_index_setitem', prop='P19')
def _(k):
    off, n, m, a = index(k)
    at = k.int('at', lo=0, hi=LMAX, gen=lambda: k.rng.randint(0, n))
    k.req(at < n)
    v = k.int('value')
    k.cell('raised', 0)
    k.out('buf', m, val=lambda i: If(i == off + at, v, a[i]))


def made(k, ok, offset, length, same):
    """the index made starts at `offset` (unless it is empty), in the same buffer or not"""
    k.out_arr('state', 3)
    k.cell('raised', If(ok, 0, 1))
    k.out('state', None, at=0, val=lambda: offset, when=lambda: And(ok, length != 0))
    k.out('state', None, at=1, val=lambda: length, when=lambda: ok)
    k.out('state', None, at=2, val=lambda: same, when=lambda: And(ok, length != 0))


@contract('unit_index_range', prop='P19')
def _(k):
    off, n, m, a = index(k)
    s, e = k.int('start', gen=near(k, n)), k.int('stop', gen=near(k, n))
    x, y = pyslice(s, e, True, s != KNONE, e != KNONE, n)
    made(k, True, off + x, y - x, 1)
    k.keep('buf', m)


@contract('unit_index_rangenowrap', prop='P19')
def _(k):
    off, n, m, a = index(k)
    s, e = k.int('start', gen=near(k, n)), k.int('stop', gen=near(k, n))
    k.req(s <= e)
    made(k, Or(s == e, And(s >= 0, e <= n)), off + s, e - s, 1)
    k.keep('buf', m)


@contract('unit_index_contiguous', prop='P19')
def _(k):
    off, n, m, a = index(k, hi=cmax(k, 'buf'), gen=lambda off: lambda i: i - off if k.rng.random() < .95 else 1)
    bad = k.count('mismatches', lambda i: a[off + i] != i)
    k.out_arr('out', 1)
    k.cell('raised', 0)
    k.cell('out', If(bad(n) == 0, 1, 0))
    k.inv(lambda mem, t: bad(t) == 0, 'no mismatch so far')
    k.keep('buf', m)


@contract('unit_index_copy', prop='P19')
def _(k):
    off, n, m, a = index(k)
    f, es = k.alloc('fresh', 'requested', gen=lambda: n)
    made(k, True, 0, n, 0)
    k.out('fresh', n, val=lambda i: a[off + i])
    k.keep('buf', m)


@contract('unit_index_to64', prop='P19')
def _(k):
    off, n, m, a = index(k)
    own = k.ct('buf') == 'int64_t'
    f, es = k.alloc('fresh', 'requested', gen=lambda: 0 if own else n)
    made(k, True, off if own else 0, n, 1 if own else 0)
    if not own:
        k.out('fresh', n, val=lambda i: a[off + i])
    k.keep('buf', m)


@contract('unit_index_starts', prop='P19')
def _(k):
    off, n, m, a = index(k)
    k.req(n >= 1)
    made(k, True, off, n - 1, 1)
    k.keep('buf', m)


@contract('unit_index_stops', prop='P19')
def _(k):
    off, n, m, a = index(k)
    k.req(n >= 1)
    made(k, True, off + 1, n - 1, 1)
    k.keep('buf', m)
