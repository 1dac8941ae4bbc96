"""Forth machine buffers (P24, P25), entered through units/."""
from ..registry import contract, unit
from ..dsl import *

BIG = 1 << 61
NONE, READ, SEEK, SKIP, REWIND = 0, 7, 8, 9, 10


def arg(name, ty, ptr=0, const=False):
    return dict(name=name, type=ty, ptr=ptr, const=const)


IN = [arg('base', 'uint8_t', 1, True), arg('offset', 'int64_t'), arg('length', 'int64_t')]
POS = [arg('pos', 'int64_t', 1)]


def buffer(k, pos=True):
    off = k.size('offset', gen=lambda: k.rng.randint(0, 3))
    n = k.size('length')
    m = k.ghost_len('base', lambda: off + n + k.rng.randint(0, 2))
    k.arr('base', m)
    k.req(off + n <= m)
    if not pos:
        return off, n
    p = k.out_arr('pos', 1, inout=True, gen=lambda i: k.rng.randint(0, n))
    p0 = p[0]
    k.req(And(p0 >= 0, p0 <= n))
    return off, n, p0


def amount(k, name, n):
    return k.int(name, gen=lambda: k.rng.choice([k.rng.randint(-3, n + 3), -n, n, n + 1, -1, -(1 << 62), (1 << 63) - 1, -(1 << 63)]))


unit('unit_forthinput_new', IN + [arg('state', 'int64_t', 1)])
unit('unit_forthinput_read', IN + POS + [arg('num_bytes', 'int64_t'), arg('err', 'int64_t', 1), arg('out', 'int64_t', 1)])
unit('unit_forthinput_seek', IN + POS + [arg('to', 'int64_t'), arg('err', 'int64_t', 1)])
unit('unit_forthinput_skip', IN + POS + [arg('num_bytes', 'int64_t'), arg('err', 'int64_t', 1)])
unit('unit_forthinput_query', IN + POS + [arg('state', 'int64_t', 1)])


@contract('unit_forthinput_new', prop='P24')
def _(k):
    off, n = buffer(k, pos=False)
    k.out_arr('state', 4)
    for i, v in enumerate((0, n, off, 0)):
        k.out('state', None, val=lambda v=v: v, at=i)


@contract('unit_forthinput_read', prop='P24')
def _(k):
    off, n, p = buffer(k)
    b = amount(k, 'num_bytes', n)
    ok = And(b >= 0, b <= n - p)
    k.out_arr('err', 1); k.out_arr('out', 1)
    k.cell('err', If(ok, NONE, READ))
    k.cell('out', If(ok, off + p, -1))
    k.cell('pos', If(ok, p + b, p))


@contract('unit_forthinput_seek', prop='P24')
def _(k):
    off, n, p = buffer(k)
    t = amount(k, 'to', n)
    ok = And(t >= 0, t <= n)
    k.out_arr('err', 1)
    k.cell('err', If(ok, NONE, SEEK))
    k.cell('pos', If(ok, t, p))


@contract('unit_forthinput_skip', prop='P24')
def _(k):
    off, n, p = buffer(k)
    b = amount(k, 'num_bytes', n)
    ok = And(p + b >= 0, p + b <= n)
    k.out_arr('err', 1)
    k.cell('err', If(ok, NONE, SKIP))
    k.cell('pos', If(ok, p + b, p))


@contract('unit_forthinput_query', prop='P24')
def _(k):
    off, n, p = buffer(k)
    k.out_arr('state', 3)
    for i, v in enumerate((If(p == n, 1, 0), p, n)):
        k.out('state', None, val=lambda v=v: v, at=i)
    k.cell('pos', p)


# ---------------------------------------------------------------- output buffers (P25)
CTYPES = dict(bool='bool', int8='int8_t', int16='int16_t', int32='int32_t', int64='int64_t', uint8='uint8_t', uint16='uint16_t',
              uint32='uint32_t', uint64='uint64_t', float32='float', float64='double')
KINDS = dict(CTYPES, intp='int64_t', uintp='uint64_t')
CAP = 1 << 40


def state(ct):
    return [arg('buf', ct, 1), arg('fresh', ct, 1), arg('requested', 'int64_t', 1), arg('length', 'int64_t', 1), arg('reserved', 'int64_t'),
            arg('resize', 'double'), arg('state', 'int64_t', 1)]


def grown(r, z):
    """the next reservation after r: ceil(r * resize), at least one more"""
    return f2i(fceil(fop('fmul', 64, i2f(r, 0, 64), z), 64), 64, 'int64_t')


class Out:
    def __init__(self, k, more):
        """more(L): how many elements the call adds to a buffer of L elements"""
        self.k = k
        R = self.R = k.size('reserved', hi=CAP)
        z = k._scalar('resize', lambda: k.rng.choice([1.0, 1.5, 2.0, 1.1, 3.0, 0.5]))
        L = k.out_arr('length', 1, inout=True, gen=lambda i: k.rng.choice([R, R, k.rng.randint(0, R)]))[0]
        k.req(And(L >= 0, L <= R))
        self.L = L
        self.old = k.out_arr('buf', R, inout=True)
        m = more(L)
        self.next = L + m
        k.req(self.next <= CAP)
        if k.mode == 'sym':
            r = z3.Int('gr')
            g = grown(r, z)
            # the factor does not make reservations absurdly large
            k.axioms.append(z3.ForAll([r], Implies(And(r >= 0, r <= CAP), g <= LMAX), patterns=[i2f(r, 0, 64)]))
            size = lambda: 0
        else:
            def size():
                n = R
                while n < self.next:
                    n = max(n + 1, grown(n, z))
                    if n > 1 << 16:
                        raise Reject('large')
                return n if self.next > R else 0
            size()
        self.n, self.es = k.alloc('fresh', 'requested', gen=size)
        k.out_arr('state', 2)
        self.moved = self.next > R

    def result(self, val, upto=None, running=()):
        """the buffer holds val(i) for i < upto (the elements before and those written)"""
        k, n = self.k, self.next if upto is None else upto
        self.final = n
        k.cell('length', n)
        for region, when in (('buf', Not(self.moved)), ('fresh', self.moved)):
            k.out(region, n, val=val, when=lambda i, when=when: when, prog=[lambda t: self.L + t], running=list(running))
        k.out('state', None, val=lambda: If(self.moved, 1, 0), at=1)
        k.post(lambda st: st.mem('state', 0) >= n, 'no more elements than reserved')
        k.post(lambda st: If(self.moved, st.mem('requested', 0) == st.mem('state', 0) * self.es, st.mem('state', 0) == self.R),
               'what is called reserved is what was allocated')


for N, C in CTYPES.items():
    for K, V in KINDS.items():
        unit(f'unit_forthoutput_{N}_one_{K}', state(C) + [arg('value', V), arg('byteswap', 'bool')], family='unit_forthoutput_one')
        unit(f'unit_forthoutput_{N}_many_{K}', state(C) + [arg('num_items', 'int64_t'), arg('values', V, 1), arg('byteswap', 'bool')], family='unit_forthoutput_many')
    for K in ('int32', 'int64'):
        unit(f'unit_forthoutput_{N}_add_{K}', state(C) + [arg('value', KINDS[K])], family='unit_forthoutput_add')
    unit(f'unit_forthoutput_{N}_dup', state(C) + [arg('num_times', 'int64_t'), arg('err', 'int64_t', 1)], family='unit_forthoutput_dup')
    unit(f'unit_forthoutput_{N}_rewind', state(C) + [arg('num_items', 'int64_t'), arg('err', 'int64_t', 1)], family='unit_forthoutput_rewind')


def swapping(k, ct, sw):
    if k.mode == 'sym':
        n = CT[ct][1]
        if n in (16, 32, 64):
            k.axioms += bits_axioms(n)
    return lambda x: ite(sw, lambda: byteswapped(x, ct), lambda: x)


def scalar(k, name):
    ct = k.ct(name)
    return k.float(name) if CT[ct][0] == 'float' else k.bool(name) if ct == 'bool' else k.int(name)


@contract('unit_forthoutput_one', prop='P25')
def _(k):
    o = Out(k, lambda L: 1)
    ct = k.ct('value')
    v = scalar(k, 'value')
    sw = k.bool('byteswap')
    if ct == 'bool':
        v = If(v, 1, 0)
    w = cast(swapping(k, ct, sw)(v), ct, k.ct('buf'))
    o.result(lambda i: ite(i < o.L, lambda: o.old[i], lambda: w))


@contract('unit_forthoutput_many', prop='P25')
def _(k):
    n = k.size('num_items', hi=CAP)
    o = Out(k, lambda L: n)
    ct = k.ct('values')
    v = k.out_arr('values', n, inout=True)
    sw = k.bool('byteswap')
    to = k.ct('buf')
    swap = swapping(k, ct, sw)
    x = lambda i: If(v[i] != 0, 1, 0) if ct == 'bool' else v[i]
    kind, bits, sg = CT[ct]
    if k.mode == 'sym' and sg and bits > 8 and kind == 'int':
        j = z3.Int('sj')
        u = If(v[j] < 0, v[j] + (1 << bits), v[j])
        # an instance of the axiom that swapping twice changes nothing
        k.axioms.append(z3.ForAll([j], Implies(And(u >= 0, u < (1 << bits)), bswap_u(bswap_u(u, bits), bits) == u), patterns=[v[j]]))
    # the values read are swapped in place and back
    k.out('values', n, val=lambda i: v[i], running=[lambda t, i: ite(i < t, lambda: swap(v[i]), lambda: v[i]), lambda t, i: ite(i < t, lambda: v[i], lambda: swap(v[i])), lambda i: swap(v[i])])
    new = lambda i: cast(swap(x(i - o.L)), ct, to)
    raw = lambda i: cast(x(i - o.L), ct, to)
    before = lambda i, f: ite(i < o.L, lambda: o.old[i], f)
    o.result(lambda i: before(i, lambda: new(i)), running=[lambda t, i: before(i, lambda: ite(i < o.L + t, lambda: new(i), lambda: raw(i))), lambda i: before(i, lambda: raw(i))])


def same(o):
    return lambda i: o.old[i]


@contract('unit_forthoutput_add', prop='P25')  # the sum of the last element and the value must fit
def _(k):
    o = Out(k, lambda L: 1)
    v = scalar(k, 'value')
    to = k.ct('buf')
    kind, bits, sg = CT[to]
    zero = 0 if kind != 'float' else fconst(0.0, bits) if k.mode == 'sym' else 0.0
    p = ite(o.L > 0, lambda: o.old[o.L - 1], lambda: zero)
    c = cast(v, k.ct('value'), to)
    if kind == 'float':
        w = fop('fadd', bits, p, c)
    elif kind == 'bool':
        w = If(Or(p != 0, c != 0), 1, 0)
    else:
        w = wrap(p + c, to)
        if sg and bits >= 32:
            k.req(w == p + c)
    o.result(lambda i: ite(i < o.L, lambda: o.old[i], lambda: w))


@contract('unit_forthoutput_dup', prop='P25')
def _(k):
    n = k.int('num_times', gen=lambda: k.rng.choice([0, 1, 2, 3, 7, -1, -(1 << 63)]))
    m = If(n > 0, n, 0)
    o = Out(k, lambda L: If(L > 0, m, 0))
    k.out_arr('err', 1)
    k.cell('err', If(o.L == 0, REWIND, NONE))
    o.result(lambda i: ite(i < o.L, lambda: o.old[i], lambda: o.old[o.L - 1]))


@contract('unit_forthoutput_rewind', prop='P25')
def _(k):
    o = Out(k, lambda L: 0)
    n = k.int('num_items', gen=lambda: k.rng.choice([0, 1, o.L, o.L + 1, k.rng.randint(0, o.L), -1, -3, -(1 << 63), (1 << 63) - 1]))
    ok = And(n >= 0, n <= o.L)
    k.out_arr('err', 1)
    k.cell('err', If(ok, NONE, REWIND))
    k.cell('length', If(ok, o.L - n, o.L))
    k.out('buf', o.L, val=same(o))
    k.out('state', None, val=lambda: o.R, at=0)
    k.out('state', None, val=lambda: 0, at=1)
