"""Option types: byte masks, bit masks, option indexes."""
from ..registry import contract
from ..dsl import *


def wide(k, name):
    """largest length for which every position fits the element type of `name`"""
    return min(LMAX, trange(k.ct(name))[1])


@contract('ByteMaskedArray_getitem_carry', prop='P07')
def _(k):
    n = k.size('lenmask'); m = k.size('lencarry')
    f = k.arr('frommask', n); c = k.arr('fromcarry', m, lo=0, gen=(0, 7))
    k.out_arr('tomask', m)
    k.fail(lambda i: c[i] >= n, ident=lambda i: i, att=lambda i: c[i], n=m)
    k.out('tomask', m, val=lambda i: f[c[i]])


def bytevalid(k, n, m, v):
    return lambda i: Iff(m[i] != 0, v)


@contract('ByteMaskedArray_getitem_nextcarry', prop='P07')
def _(k):
    n = k.size('length'); m = k.arr('mask', n); v = k.bool('validwhen')
    sel = bytevalid(k, n, m, v)
    cnt = k.count('cnt', sel)
    k.out_arr('tocarry', cnt(n))
    k.out('tocarry', n, at=lambda i: cnt(i), val=lambda i: i, when=sel)
    k.expr(cnt)


@contract('ByteMaskedArray_getitem_nextcarry_outindex', prop='P07')
def _(k):
    n = k.size('length'); m = k.arr('mask', n); v = k.bool('validwhen')
    sel = bytevalid(k, n, m, v)
    cnt = k.count('cnt', sel)
    k.out_arr('tocarry', cnt(n)); k.out_arr('outindex', n)
    k.out('tocarry', n, at=lambda i: cnt(i), val=lambda i: i, when=sel)
    k.out('outindex', n, val=lambda i: If(sel(i), cnt(i), -1))
    k.expr(cnt)


@contract('ByteMaskedArray_mask', prop='P07')
def _(k):
    n = k.size('length'); m = k.arr('frommask', n); v = k.bool('validwhen')
    k.out_arr('tomask', n)
    k.out('tomask', n, val=lambda i: If(Iff(m[i] != 0, v), 0, 1))


@contract('ByteMaskedArray_numnull', prop='P07')
def _(k):
    n = k.size('length'); m = k.arr('mask', n); v = k.bool('validwhen')
    cnt = k.count('cnt', lambda i: Not(Iff(m[i] != 0, v)))
    k.out_arr('numnull', 1)
    k.cell('numnull', cnt(n), running=lambda t: cnt(t))


@contract('ByteMaskedArray_overlay_mask', prop='P07')
def _(k):
    n = k.size('length'); a = k.arr('theirmask', n); m = k.arr('mymask', n); v = k.bool('validwhen')
    k.out_arr('tomask', n)
    k.out('tomask', n, val=lambda i: If(Or(a[i] != 0, Not(Iff(m[i] != 0, v))), 1, 0))


@contract('ByteMaskedArray_reduce_next_64', prop='P06')
def _(k):
    n = k.size('length'); m = k.arr('mask', n); v = k.bool('validwhen'); p = k.arr('parents', n)
    sel = bytevalid(k, n, m, v)
    cnt = k.count('cnt', sel)
    k.out_arr('nextcarry', cnt(n)); k.out_arr('nextparents', cnt(n)); k.out_arr('outindex', n)
    k.out('nextcarry', n, at=lambda i: cnt(i), val=lambda i: i, when=sel)
    k.out('nextparents', n, at=lambda i: cnt(i), val=lambda i: p[i], when=sel)
    k.out('outindex', n, val=lambda i: If(sel(i), cnt(i), -1))
    k.expr(cnt)


@contract('ByteMaskedArray_reduce_next_nonlocal_nextshifts_64', prop='P06')
def _(k):
    n = k.size('length'); m = k.arr('mask', n); v = k.bool('valid_when')
    sel = bytevalid(k, n, m, v)
    cnt = k.count('cnt', sel)
    k.out_arr('nextshifts', cnt(n))
    k.out('nextshifts', n, at=lambda i: cnt(i), val=lambda i: i - cnt(i), when=sel)
    k.expr(cnt, lambda t: t - cnt(t))


@contract('ByteMaskedArray_reduce_next_nonlocal_nextshifts_fromshifts_64', prop='P06')
def _(k):
    n = k.size('length'); m = k.arr('mask', n); v = k.bool('valid_when'); s = k.arr('shifts', n, lo=-VMAX, hi=VMAX)
    sel = bytevalid(k, n, m, v)
    cnt = k.count('cnt', sel)
    k.out_arr('nextshifts', cnt(n))
    k.out('nextshifts', n, at=lambda i: cnt(i), val=lambda i: s[i] + i - cnt(i), when=sel)
    k.expr(cnt, lambda t: t - cnt(t))


@contract('ByteMaskedArray_toIndexedOptionArray', prop='P07')
def _(k):
    n = k.size('length'); m = k.arr('mask', n); v = k.bool('validwhen')
    k.out_arr('toindex', n)
    k.out('toindex', n, val=lambda i: If(Iff(m[i] != 0, v), i, -1))


def bit(byte, b):
    """bit b (0 = least significant) of a byte"""
    return (byte / (1 << b) if is_sym(byte) else byte >> b) % 2


@contract('BitMaskedArray_to_ByteMaskedArray', prop='P07')
def _(k):
    n = k.size('bitmasklength', hi=LMAX // 8); f = k.arr('frombitmask', n); v = k.bool('validwhen'); lsb = k.bool('lsb_order')
    k.out_arr('tobytemask', n * 8)
    for b in range(8):
        k.out('tobytemask', n, at=lambda i, b=b: i * 8 + b, tag=f'bit{b}',
              val=lambda i, b=b: If(Iff(If(lsb, bit(f[i], b), bit(f[i], 7 - b)) != 0, v), 0, 1))


@contract('BitMaskedArray_to_IndexedOptionArray', prop='P07')
def _(k):
    n = k.size('bitmasklength', hi=LMAX // 8); f = k.arr('frombitmask', n); v = k.bool('validwhen'); lsb = k.bool('lsb_order')
    k.out_arr('toindex', n * 8)
    for b in range(8):
        k.out('toindex', n, at=lambda i, b=b: i * 8 + b, tag=f'bit{b}',
              val=lambda i, b=b: If(Iff(If(lsb, bit(f[i], b), bit(f[i], 7 - b)) != 0, v), i * 8 + b, -1))


@contract('IndexedOptionArray_rpad_and_clip_mask_axis1', prop='P12')
def _(k):
    n = k.size('length'); m = k.arr('frommask', n)
    cnt = k.count('cnt', lambda i: m[i] == 0)
    k.out_arr('toindex', n)
    k.out('toindex', n, val=lambda i: If(m[i] == 0, cnt(i), -1))
    k.expr(cnt)


@contract('MaskedArray_getitem_next_jagged_project', prop='P04')
def _(k):
    n = k.size('length'); x = k.arr('index', n); s = k.arr('starts_in', n); e = k.arr('stops_in', n)
    cnt = k.count('cnt', lambda i: x[i] >= 0, const=1 if k.unsigned('index') else None)
    k.out_arr('starts_out', cnt(n)); k.out_arr('stops_out', cnt(n))
    k.out('starts_out', n, at=lambda i: cnt(i), val=lambda i: s[i], when=lambda i: x[i] >= 0)
    k.out('stops_out', n, at=lambda i: cnt(i), val=lambda i: e[i], when=lambda i: x[i] >= 0)
    k.expr(cnt)


@contract('NumpyArray_reduce_mask_ByteMaskedArray_64', prop='P06')
def _(k):
    n = k.size('lenparents'); m = k.size('outlength'); p = k.arr('parents', n, lo=0, hi=m)
    k.out_arr('toptr', m)
    R = k.rec('masked', lambda q: 1, lambda q, i, v: If(p[i] == q, 0, v), params=1)
    k.out('toptr', m, val=lambda q: R(q, n), running=lambda t, q: R(q, t))


@contract('zero_mask', prop='P07')
def _(k):
    n = k.size('length'); k.out_arr('tomask', n); k.out('tomask', n, val=lambda i: 0)


@contract('one_mask', prop='P07')
def _(k):
    n = k.size('length'); k.out_arr('tomask', n); k.out('tomask', n, val=lambda i: 1)
