"""Indexed arrays (with and without missing values)."""
from ..registry import contract
from ..dsl import *


@contract('IndexedArray_fill', prop='P08')
def _(k):
    n = k.size('length'); o = k.int('toindexoffset', lo=0, hi=LMAX, gen=(0, 4)); b = k.int('base', lo=0, hi=VMAX, gen=(0, 9))
    f = k.arr('fromindex', n, hi=VMAX)
    k.out_arr('toindex', o + n)
    k.keep('toindex', o)
    k.out('toindex', n, at=lambda i: o + i, val=lambda i: If(f[i] < 0, -1, f[i] + b))


@contract('IndexedArray_fill_count', prop='P08')
def _(k):
    n = k.size('length'); o = k.int('toindexoffset', lo=0, hi=LMAX, gen=(0, 4)); b = k.int('base', lo=0, hi=VMAX, gen=(0, 9))
    k.out_arr('toindex', o + n)
    k.keep('toindex', o)
    k.out('toindex', n, at=lambda i: o + i, val=lambda i: i + b)


def lo_gen(k, hi):
    return (-2, 6)


@contract('IndexedArray_flatten_nextcarry', prop='P08')
def _(k):
    n = k.size('lenindex'); m = k.size('lencontent'); x = k.arr('fromindex', n, gen=(-2, 5))
    sel = lambda i: x[i] >= 0
    cnt = k.count('cnt', sel, const=1 if k.unsigned('index' if 'index' in k.types else 'fromindex') else None)
    k.out_arr('tocarry', cnt(n))
    k.fail(lambda i: x[i] >= m, ident=lambda i: i, att=lambda i: x[i], n=n)
    k.out('tocarry', n, at=lambda i: cnt(i), val=lambda i: x[i], when=sel)
    k.expr(cnt)


@contract('IndexedArray_flatten_none2empty', prop='P08')
def _(k):
    n = k.size('outindexlength'); m = k.size('offsetslength', lo=1)
    x = k.arr('outindex', n, gen=(-2, 4), hi=min(VMAX, trange(k.ct('outindex'))[1])); o = k.offsets('offsets', m)
    k.out_arr('outoffsets', n + 1)
    bad = lambda i: x[i] + 1 >= m
    def step(i, v):
        if k.symbolic:
            return If(Or(x[i] < 0, bad(i)), v, v + (o[x[i] + 1] - o[x[i]]))
        return v if x[i] < 0 or bad(i) else v + (o[x[i] + 1] - o[x[i]])
    R = k.rec('off', lambda: o[0], step)
    k.mono(R, upto=n)
    k.lemma('off>=0', lambda t: R(t) >= 0, pat=lambda t: R(t), upto=n)
    k.req(R(n) <= VMAX)                  # the flattened offsets are representable
    k.fail(bad, ident=lambda i: i, att=KNONE, n=n)
    k.out('outoffsets', n + 1, val=lambda i: R(i))
    k.expr(R)


@contract('IndexedArray_getitem_adjust_outindex', prop='P08')
def _(k):
    n = k.size('fromindexlength'); m = k.size('nonzerolength')
    x = k.arr('fromindex', n, lo=-VMAX, hi=VMAX, gen=(-1, 4)); nz = k.arr('nonzero', m, gen=(0, 4))
    def match(i, j): return And(x[i] >= 0, j < m, x[i] == nz[j]) if k.symbolic else (x[i] >= 0 and j < m and x[i] == nz[j])
    J = k.rec('j', 0, lambda i, v: v + If(match(i, v), 1, 0))
    k.mono(J)
    k.lemma('0<=j<=t', lambda t: And(J(t) >= 0, J(t) <= t, Implies(m >= 0, J(t) <= m)), pat=lambda t: J(t))
    C = k.count('k', lambda i: Or(x[i] < 0, match(i, J(i))))
    k.out_arr('tomask', n); k.out_arr('toindex', C(n)); k.out_arr('tononzero', J(n))
    k.out('tomask', n, val=lambda i: If(x[i] < 0, 1, 0))
    k.out('toindex', n, at=lambda i: C(i), when=lambda i: Or(x[i] < 0, match(i, J(i))), val=lambda i: If(x[i] < 0, -1, J(i)))
    k.out('tononzero', n, at=lambda i: J(i), when=lambda i: match(i, J(i)), val=lambda i: x[i] + (C(i) - J(i)))
    k.expr(J, C)


@contract('IndexedArray_getitem_carry', prop='P08')
def _(k):
    n = k.size('lenindex'); m = k.size('lencarry')
    f = k.arr('fromindex', n); c = k.arr('fromcarry', m, lo=0, gen=(0, 7))
    k.out_arr('toindex', m)
    k.fail(lambda i: c[i] >= n, ident=lambda i: i, att=lambda i: c[i], n=m)
    k.out('toindex', m, val=lambda i: f[c[i]])


@contract('IndexedArray_getitem_nextcarry', prop='P08')
def _(k):
    n = k.size('lenindex'); m = k.size('lencontent', gen=lambda: k.rng.randint(0, 9)); x = k.arr('fromindex', n, gen=(-1, 8))
    k.out_arr('tocarry', n)
    k.fail(lambda i: Or(x[i] < 0, x[i] >= m), ident=lambda i: i, att=lambda i: x[i], n=n)
    k.out('tocarry', n, val=lambda i: x[i])


@contract('IndexedArray_getitem_nextcarry_outindex', 'IndexedArray_getitem_nextcarry_outindex_mask', prop='P08')
def _(k):
    n = k.size('lenindex', hi=min(LMAX, trange(k.ct('toindex'))[1])); m = k.size('lencontent', gen=lambda: k.rng.randint(0, 9)); x = k.arr('fromindex', n, gen=(-2, 7))
    sel = lambda i: x[i] >= 0
    cnt = k.count('cnt', sel, const=1 if k.unsigned('index' if 'index' in k.types else 'fromindex') else None)
    k.out_arr('tocarry', cnt(n)); k.out_arr('toindex', n)
    k.fail(lambda i: x[i] >= m, ident=lambda i: i, att=lambda i: x[i], n=n)
    k.out('tocarry', n, at=lambda i: cnt(i), val=lambda i: x[i], when=sel)
    k.out('toindex', n, val=lambda i: If(sel(i), cnt(i), -1))
    k.expr(cnt)


@contract('IndexedArray_local_preparenext_64', prop='P06')
def _(k):
    n = k.size('parentslength'); m = k.size('nextlen')
    p = k.arr('parents', n, gen=(0, 2), lo=0, hi=VMAX); np = k.arr('nextparents', m, gen=(0, 2))
    k.arr('starts', 8)
    def match(i, j): return And(j < m, p[i] == np[j]) if k.symbolic else (j < m and p[i] == np[j])
    J = k.rec('j', 0, lambda i, v: v + If(match(i, v), 1, 0))
    k.mono(J)
    k.lemma('0<=j<=t', lambda t: And(J(t) >= 0, J(t) <= t, Implies(m >= 0, J(t) <= m)), pat=lambda t: J(t))
    k.out_arr('tocarry', n)
    k.out('tocarry', n, val=lambda i: If(match(i, J(i)), J(i), -1))
    k.expr(J)


@contract('IndexedArray_mask', prop='P08')
def _(k):
    n = k.size('length'); x = k.arr('fromindex', n)
    k.out_arr('tomask', n)
    k.out('tomask', n, val=lambda i: If(x[i] < 0, 1, 0))


@contract('IndexedArray_numnull', prop='P08')
def _(k):
    n = k.size('lenindex'); x = k.arr('fromindex', n)
    cnt = k.count('cnt', lambda i: x[i] < 0, const=0 if k.unsigned('fromindex') else None)
    k.out_arr('numnull', 1)
    k.cell('numnull', cnt(n), running=lambda t: cnt(t))


@contract('IndexedArray_overlay_mask', prop='P08')
def _(k):
    n = k.size('length'); x = k.arr('fromindex', n); m = k.arr('mask', n)
    k.out_arr('toindex', n)
    k.out('toindex', n, val=lambda i: If(m[i] != 0, -1, x[i]))


def ranges_common(k):
    n = k.size('length')
    s, e = k.startstops('fromstarts', 'fromstops', n)
    if k.mode == 'gen':
        L = max([0] + [e[i] for i in range(n)])
    else:
        L = None
    if k.symbolic:
        L = z3.Int('lenindex')
        k.req(And(L >= 0, L <= LMAX))
        k.req(k.forall(0, n, lambda i: e[i] <= L, pat=lambda i: e[i]))
    elif L is None:
        L = len(k.inputs['index'])
        k.req(all(e[i] <= L for i in range(n)))
    x = k.arr('index', L, gen=(-2, 5))
    row = k.rec('inrow', lambda i: 0, lambda i, j, v: v + If(x[s[i] + j] >= 0, 1, 0), params=1)
    k.lemma2('inrow in [0,j]', lambda i, j: And(row(i, j) >= 0, row(i, j) <= j), pat=lambda i, j: row(i, j), plo=0, phi=None)
    k.mono2(row)
    if k.unsigned('index'):
        k.lemma2('inrow is constant', lambda i, j: row(i, j) == j, pat=lambda i, j: row(i, j), plo=0, phi=None)
    tot = k.rec('total', 0, lambda i, v: v + row(i, e[i] - s[i]))
    k.mono(tot, upto=n)
    k.lemma('total>=0', lambda t: tot(t) >= 0, pat=lambda t: tot(t), upto=n)
    k.req(tot(n) <= LMAX)
    return n, s, e, x, row, tot


@contract('IndexedArray_ranges_carry_next_64', prop='P08')
def _(k):
    n, s, e, x, row, tot = ranges_common(k)
    k.out_arr('tocarry', tot(n))
    k.out('tocarry', dims=[(0, n), (0, lambda i: e[i] - s[i])], at=lambda i, j: tot(i) + row(i, j),
          when=lambda i, j: x[s[i] + j] >= 0, val=lambda i, j: x[s[i] + j])
    k.expr(tot, lambda i, j: tot(i) + row(i, j))


@contract('IndexedArray_ranges_next_64', prop='P08')
def _(k):
    n, s, e, x, row, tot = ranges_common(k)
    k.out_arr('tostarts', n); k.out_arr('tostops', n); k.out_arr('tolength', 1)
    k.out('tostarts', n, val=lambda i: tot(i))
    k.out('tostops', n, val=lambda i: tot(i + 1))
    k.cell('tolength', tot(n))
    k.expr(tot, lambda i, j: tot(i) + row(i, j))


@contract('IndexedArray_reduce_next_64', prop='P06')
def _(k):
    n = k.size('length'); x = k.arr('index', n); p = k.arr('parents', n)
    sel = lambda i: x[i] >= 0
    cnt = k.count('cnt', sel, const=1 if k.unsigned('index' if 'index' in k.types else 'fromindex') else None)
    k.out_arr('nextcarry', cnt(n)); k.out_arr('nextparents', cnt(n)); k.out_arr('outindex', n)
    k.out('nextcarry', n, at=lambda i: cnt(i), val=lambda i: x[i], when=sel)
    k.out('nextparents', n, at=lambda i: cnt(i), val=lambda i: p[i], when=sel)
    k.out('outindex', n, val=lambda i: If(sel(i), cnt(i), -1))
    k.expr(cnt)


@contract('IndexedArray_reduce_next_fix_offsets_64', prop='P06')
def _(k):
    n = k.size('startslength'); s = k.arr('starts', n); m = k.int('outindexlength')
    k.out_arr('outoffsets', n + 1)
    k.out('outoffsets', n, val=lambda i: s[i])
    k.out('outoffsets', val=lambda: m, at=n, tag='last')


@contract('IndexedArray_reduce_next_nonlocal_nextshifts_64', prop='P06')
def _(k):
    n = k.size('length'); x = k.arr('index', n)
    sel = lambda i: x[i] >= 0
    cnt = k.count('cnt', sel, const=1 if k.unsigned('index' if 'index' in k.types else 'fromindex') else None)
    k.out_arr('nextshifts', cnt(n))
    k.out('nextshifts', n, at=lambda i: cnt(i), val=lambda i: i - cnt(i), when=sel)
    k.expr(cnt, lambda t: t - cnt(t))


@contract('IndexedArray_reduce_next_nonlocal_nextshifts_fromshifts_64', prop='P06')
def _(k):
    n = k.size('length'); x = k.arr('index', n); s = k.arr('shifts', n, lo=-VMAX, hi=VMAX)
    sel = lambda i: x[i] >= 0
    cnt = k.count('cnt', sel, const=1 if k.unsigned('index' if 'index' in k.types else 'fromindex') else None)
    k.out_arr('nextshifts', cnt(n))
    k.out('nextshifts', n, at=lambda i: cnt(i), val=lambda i: s[i] + i - cnt(i), when=sel)
    k.expr(cnt, lambda t: t - cnt(t))


@contract('IndexedArray_simplify', prop='P08')
def _(k):
    n = k.size('outerlength'); m = k.size('innerlength')
    a = k.arr('outerindex', n, gen=(-2, 5)); b = k.arr('innerindex', m)
    k.out_arr('toindex', n)
    k.fail(lambda i: a[i] >= m, ident=lambda i: i, att=lambda i: a[i], n=n)
    k.out('toindex', n, val=lambda i: If(a[i] < 0, -1, b[a[i]]) if k.symbolic else (-1 if a[i] < 0 else b[a[i]]))


@contract('IndexedArray_validity', prop=['P08', 'P14'])
def _(k):
    n = k.size('length'); x = k.arr('index', n, gen=(-1, 6)); m = k.size('lencontent', gen=lambda: k.rng.randint(0, 9)); o = k.bool('isoption')
    k.fail(lambda i: Or(And(Not(o), x[i] < 0), x[i] >= m), ident=lambda i: i, att=KNONE, n=n)
