"""Rectilinear (strided) data: contiguous copies, multidimensional slicing, boolean masks."""
from ..registry import contract
from ..dsl import *
from .c_list import sizes


@contract('NumpyArray_getitem_at0', prop='P16')
def _(k):
    p = k.arr('ptr', 1)
    k.ret(p[0])


@contract('NumpyArray_copy', prop='P16')
def _(k):
    n = k.size('len'); f = k.arr('fromptr', n)
    k.out_arr('toptr', n)
    k.out('toptr', n, val=lambda i: f[i])


@contract('NumpyArray_contiguous_init', prop='P16')
def _(k):
    n = k.size('skip'); st = k.int('stride', lo=-VMAX, hi=VMAX)
    k.req(And(mul(n, st) <= VMAX, mul(n, st) >= -VMAX))
    k.out_arr('toptr', n)
    k.out('toptr', n, val=lambda i: mul(i, st))


@contract('NumpyArray_contiguous_next', prop='P16')
def _(k):
    n, m = sizes(k, 'length', 'skip'); st = k.int('stride', lo=-VMAX, hi=VMAX)
    k.req(mul(n, m) <= LMAX)
    k.req(And(mul(m, st) <= VMAX, mul(m, st) >= -VMAX))
    f = k.arr('frompos', n, lo=-VMAX, hi=VMAX)
    k.out_arr('topos', mul(n, m))
    k.out('topos', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: f[i] + mul(j, st))


@contract('NumpyArray_contiguous_copy', prop='P16')
def _(k):
    n, w = sizes(k, 'len', 'stride')
    k.req(mul(n, w) <= LMAX)
    L = k.ghost_len('fromptr', lambda: w + k.rng.randint(0, 9))
    p = k.arr('pos', n, lo=0, hi=LMAX, gen=(lambda i: k.rng.randint(0, L - w)))
    k.req(k.forall(0, n, lambda i: p[i] + w <= L, pat=lambda i: p[i]))
    f = k.arr('fromptr', L)
    k.out_arr('toptr', mul(n, w))
    k.out('toptr', dims=[(0, n), (0, w)], at=lambda i, j: mul(i, w) + j, val=lambda i, j: f[p[i] + j])


@contract('NumpyArray_getitem_next_null', prop='P16')
def _(k):
    n, w = sizes(k, 'len', 'stride')
    k.req(mul(n, w) <= LMAX)
    M = k.ghost('items', lambda: len(k.inputs['fromptr']) // max(1, w) if k.mode == 'con' else k.rng.randint(1, 5))
    k.req(mul(M, w) <= LMAX)
    p = k.arr('pos', n, lo=0, hi=M if not (k.mode == 'con' and w == 0) else LMAX)
    f = k.arr('fromptr', mul(M, w))
    k.out_arr('toptr', mul(n, w))
    k.out('toptr', dims=[(0, n), (0, w)], at=lambda i, j: mul(i, w) + j, val=lambda i, j: f[mul(p[i], w) + j])


def skips(k, n, carry='carryptr'):
    """item size of the axis and positions below a bound M whose product fits"""
    s = k.size('skip', gen=lambda: k.rng.randint(1, 4))
    M = k.ghost('items', lambda: max(list(k.inputs[carry]) + [0]) + 1 if k.mode == 'con' else k.rng.randint(1, 5))
    k.req(mul(M, s) <= LMAX)
    c = k.arr(carry, n, lo=0, hi=M)
    return s, c


@contract('NumpyArray_getitem_next_array', prop='P16')
def _(k):
    n, m = sizes(k, 'lencarry', 'lenflathead')
    s, c = skips(k, n)
    k.req(mul(n, m) <= LMAX)
    h = k.arr('flatheadptr', m, lo=-VMAX, hi=VMAX)
    k.out_arr('nextcarryptr', mul(n, m)); k.out_arr('nextadvancedptr', mul(n, m))
    k.out('nextcarryptr', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: mul(s, c[i]) + h[j])
    k.out('nextadvancedptr', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: j)


@contract('NumpyArray_getitem_next_array_advanced', prop='P16')
def _(k):
    n = k.size('lencarry')
    s, c = skips(k, n)
    H = k.ghost_len('flatheadptr', lambda: k.rng.randint(1, 4))
    h = k.arr('flatheadptr', H, lo=-VMAX, hi=VMAX); a = k.arr('advancedptr', n, lo=0, hi=H)
    k.out_arr('nextcarryptr', n)
    k.out('nextcarryptr', n, val=lambda i: mul(s, c[i]) + h[a[i]])


@contract('NumpyArray_getitem_next_at', prop='P16')
def _(k):
    n = k.size('lencarry')
    s, c = skips(k, n)
    a = k.int('at', lo=-VMAX, hi=VMAX)
    k.out_arr('nextcarryptr', n)
    k.out('nextcarryptr', n, val=lambda i: mul(s, c[i]) + a)


@contract('NumpyArray_getitem_next_range', 'NumpyArray_getitem_next_range_advanced', prop='P16')
def _(k):
    n, m = sizes(k, 'lencarry', 'lenhead')
    s, c = skips(k, n)
    a = k.int('start', lo=-VMAX, hi=VMAX); st = k.int('step', lo=-VMAX, hi=VMAX)
    k.req(mul(n, m) <= LMAX); k.req(And(mul(m, st) <= VMAX, mul(m, st) >= -VMAX))
    k.out_arr('nextcarryptr', mul(n, m))
    k.out('nextcarryptr', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: mul(s, c[i]) + a + mul(j, st))
    if 'advancedptr' in k.types:
        v = k.arr('advancedptr', n)
        k.out_arr('nextadvancedptr', mul(n, m))
        k.out('nextadvancedptr', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: v[i])


def strided(k):
    n = k.size('length'); st = k.int('stride', lo=1, hi=LMAX, gen=(1, 3))
    T = k.ghost('steps', lambda: -(-n // st))
    k.req(And(mul(T, st) >= n, Or(T == 0, mul(T - 1, st) < n), Implies(n == 0, T == 0)))
    f = k.arr('fromptr', n, gen=lambda i: k.rng.choice([0, 0, 1, 2, -1]))
    # v(q): the q-th entry of the mask
    cnt = k.rec('cnt', 0, lambda q, v: v + ite(q < T, lambda: If(f[mul(q, st)] != 0, 1, 0), lambda: 0))
    k.mono(cnt)
    k.lemma('cnt in [0,t]', lambda t: And(cnt(t) >= 0, cnt(t) <= t), pat=lambda t: cnt(t))
    return n, st, T, f, cnt


@contract('NumpyArray_getitem_boolean_numtrue', prop='P16')
def _(k):
    n, st, T, f, cnt = strided(k)
    k.out_arr('numtrue', 1)
    k.cell('numtrue', cnt(T), running=lambda t: cnt(t))
    k.trips((0, T))


@contract('NumpyArray_getitem_boolean_nonzero', prop='P16')
def _(k):
    n, st, T, f, cnt = strided(k)
    k.out_arr('toptr', cnt(T))
    k.out('toptr', T, at=lambda q: cnt(q), when=lambda q: f[mul(q, st)] != 0, val=lambda q: mul(q, st))
    k.expr(cnt)


@contract('NumpyArray_contiguous_copy_from_many', prop='P16')
def _(k):
    # item i comes from buffer row(i), at the position listed at col(i); buffer b supplies fromlens[b] items
    n, w = sizes(k, 'len', 'stride')
    k.req(mul(n, w) <= LMAX)
    nb = k.ghost_len('fromlens', lambda: k.rng.randint(1, 4))
    l = k.arr('fromlens', nb, lo=1, hi=LMAX, gen=(1, 3))
    lb = lambda b: ite(And(b >= 0, b < nb), lambda: l[b], lambda: 1)
    P = k.rec('before', 0, lambda b, v: v + lb(b))
    k.mono(P)
    R = {}
    R[0] = k.rec('row', 0, lambda i, v: v + If(R[1](i) + 1 >= lb(v), 1, 0))
    R[1] = k.rec('col', 0, lambda i, v: If(v + 1 >= lb(R[0](i)), 0, v + 1))
    row, col = R[0], R[1]
    P.also.append(lambda t: row(t))
    k.lemma('row>=0', lambda t: row(t) >= 0, pat=lambda t: row(t))
    k.lemma('0<=col<=t', lambda t: And(col(t) >= 0, col(t) <= t), pat=lambda t: col(t))
    k.lemma('row<=t', lambda t: row(t) <= t, pat=lambda t: row(t))
    k.lemma('col<fromlens[row]', lambda t: col(t) < lb(row(t)), pat=lambda t: col(t))
    k.lemma('row and col add up', lambda t: P(row(t)) + col(t) == t, pat=lambda t: row(t))
    k.req(n <= P(nb))
    np_ = k.ghost_len('pos', lambda: max(list(k.inputs['fromlens']) + [0]))
    k.req(k.forall(0, nb, lambda b: l[b] <= np_, pat=lambda b: l[b]))
    p = k.arr('pos', np_, lo=0, hi=LMAX, gen=(0, 3))
    f = k.arr2('fromptrs', nb, gen=lambda r, m: [k.rng.randint(0, 255) for _ in range(m)], rowlen=(lambda r: 4 + w) if k.mode == 'gen' else None)
    k.req(k.forall(0, n, lambda i: p[col(i)] + w <= f.rowlen(row(i)), pat=lambda i: row(i)))
    k.out_arr('toptr', mul(n, w))
    k.out('toptr', dims=[(0, n), (0, w)], at=lambda i, j: mul(i, w) + j, val=lambda i, j: f(row(i), p[col(i)] + j))
    k.expr(row, col)
