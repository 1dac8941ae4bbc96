"""Range slices, jagged slices, missing slices, carries."""
from ..registry import contract
from ..dsl import *
from .c_list import cmax, sizes


def clamp(x, lo, hi):
    return If(x < lo, lo, If(x > hi, hi, x))


def pyslice(start, stop, posstep, hasstart, hasstop, n):
    """start and stop of Python's slice(start, stop, step).indices(n), with an empty range normalised to start == stop"""
    sp = If(hasstart, clamp(If(start < 0, start + n, start), 0, n), 0)
    ep0 = If(hasstop, clamp(If(stop < 0, stop + n, stop), 0, n), n)
    ep = If(ep0 < sp, sp, ep0)
    sn = If(hasstart, clamp(If(start < 0, start + n, start), -1, n - 1), n - 1)
    en0 = If(hasstop, clamp(If(stop < 0, stop + n, stop), -1, n - 1), -1)
    en = If(en0 > sn, sn, en0)
    if not is_sym(start, stop, posstep, hasstart, hasstop, n):
        step = 1 if posstep else -1
        a, b, _ = slice(start if hasstart else None, stop if hasstop else None, step).indices(n)
        assert list(range(a, b, step)) == list(range(sp if posstep else sn, ep if posstep else en, step))
    return If(posstep, sp, sn), If(posstep, ep, en)


@contract('regularize_rangeslice', prop='P03')
def _(k):
    n = k.size('length')
    a = k.out_arr('start', 1, inout=True, gen=(-9, 9)); b = k.out_arr('stop', 1, inout=True, gen=(-9, 9))
    p = k.bool('posstep'); hs = k.bool('hasstart'); he = k.bool('hasstop')
    x, y = pyslice(a[0], b[0], p, hs, he, n)
    k.cell('start', x)
    k.cell('stop', y)


def range_common(k):
    n = k.size('lenstarts'); s, e = k.startstops('fromstarts', 'fromstops', n, maxcount=5)
    def gen():
        return k.rng.choice([KNONE, k.rng.randint(-7, 7), k.rng.randint(-7, 7)])
    a = k.int('start', gen=gen); b = k.int('stop', gen=gen)
    st = k.int('step', lo=-VMAX, hi=VMAX, gen=lambda: k.rng.choice([1, 2, 3, -1, -2, -3, 1, -1, VMAX, -VMAX]))
    k.req(st != 0)
    R = lambda i: pyslice(a, b, st > 0, a != KNONE, b != KNONE, e[i] - s[i])
    if k.symbolic:
        N = k.define('numsel', None, lambda N, i: [
            N(i) >= 0,
            Implies(st > 0, And(R(i)[0] + mul(N(i), st) >= R(i)[1], Or(N(i) == 0, R(i)[0] + mul(N(i), st) - st < R(i)[1]))),
            Implies(st < 0, And(R(i)[0] + mul(N(i), st) <= R(i)[1], Or(N(i) == 0, R(i)[0] + mul(N(i), st) - st > R(i)[1])))],
            dom=lambda i: And(i >= 0, i < n))
    else:
        N = lambda i: len(range(*R(i), st))
    P = k.psum('selected', lambda i: N(i), upto=n)
    return n, s, e, st, R, N, P


@contract('ListArray_getitem_next_range', prop='P03')
def _(k):
    n, s, e, st, R, N, P = range_common(k)
    k.req(P(n) <= cmax(k, 'tooffsets'))
    k.out_arr('tooffsets', n + 1); k.out_arr('tocarry', P(n))
    k.out('tooffsets', n + 1, val=lambda i: P(i))
    k.out('tocarry', dims=[(0, n), (0, lambda i: N(i))], at=lambda i, j: P(i) + j, val=lambda i, j: s[i] + R(i)[0] + mul(j, st))
    k.expr(P, lambda i, j: P(i) + j, lambda i, j: R(i)[0] + mul(j, st))


@contract('ListArray_getitem_next_range_carrylength', prop='P03')
def _(k):
    n, s, e, st, R, N, P = range_common(k)
    k.req(P(n) <= LMAX)
    k.out_arr('carrylength', 1)
    k.trips((0, n), (0, lambda i: N(i)))
    k.cell('carrylength', P(n), running=(lambda t: P(t), lambda i, j: P(i) + j))
    k.expr(lambda i, j: R(i)[0] + mul(j, st))


@contract('ListArray_getitem_next_range_counts', prop='P03')
def _(k):
    n = k.size('lenstarts'); o = k.offsets('fromoffsets', n + 1)
    k.out_arr('total', 1)
    k.cell('total', o[n] - o[0], running=lambda t: o[t] - o[0])


@contract('ListArray_getitem_next_range_spreadadvanced', prop='P03')
def _(k):
    n = k.size('lenstarts'); o = k.offsets('fromoffsets', n + 1); v = k.arr('fromadvanced', n)
    k.out_arr('toadvanced', o[n])
    k.out('toadvanced', dims=[(0, n), (0, lambda i: o[i + 1] - o[i])], at=lambda i, j: o[i] + j, val=lambda i, j: v[i])


# ---------------------------------------------------------------- jagged
def jag_slices(k, n, valid=False, inner=None):
    ss = k.arr('slicestarts', n, lo=0, hi=LMAX + 1, gen=(0, 3))
    se = k.arr('slicestops', n, lo=0, hi=LMAX + 1, gen=lambda i: max(0, ss[i] + (k.rng.randint(0, 3) if valid or k.rng.random() < .97 else -1)))
    if valid:
        k.req(k.forall(0, n, lambda i: ss[i] <= se[i], pat=lambda i: ss[i]))
        if k.mode == 'sym':
            k.req(k.forall(0, n, lambda i: ss[i] <= se[i], pat=lambda i: se[i]))
    return ss, se


@contract('ListArray_getitem_jagged_apply', prop='P04')
def _(k):
    n = k.size('sliceouterlen'); m = k.size('sliceinnerlen', gen=lambda: k.rng.randint(3, 8)); L = k.size('contentlen', gen=lambda: k.rng.randint(6, 12))
    ss, se = jag_slices(k, n)
    x = k.arr('sliceindex', m, gen=(-2, 1)); big = cmax(k, 'fromstarts')
    s = k.arr('fromstarts', n, lo=0, hi=big + 1, gen=(0, 3)); e = k.arr('fromstops', n, lo=0, hi=big + 1, gen=lambda i: max(0, s[i] + (k.rng.randint(2, 4) if k.rng.random() < .95 else k.rng.randint(-1, 1))))
    pos = k.rec('pos', 0, lambda i, v: v + If(se[i] < ss[i], 0, se[i] - ss[i]))
    k.mono(pos, upto=n); k.lemma('pos>=0', lambda t: pos(t) >= 0, pat=lambda t: pos(t), upto=n)
    k.out_arr('tooffsets', n + 1); k.out_arr('tocarry', pos(n))
    cnt = lambda i: e[i] - s[i]
    ne = lambda i: ss[i] != se[i]
    k.fail(lambda i: And(ne(i), Or(se[i] < ss[i], e[i] < s[i], And(s[i] != e[i], e[i] > L))), ident=lambda i: i, att=KNONE, n=n)
    k.fail(lambda i: And(ne(i), se[i] > m), ident=lambda i: i, att=lambda i: se[i], n=n)
    def bad(i, j):
        if not k.symbolic and not 0 <= j < m:
            return False
        r = If(x[j] < 0, x[j] + cnt(i), x[j])
        return Not(And(r >= 0, r < cnt(i)))
    k.fail(bad, ident=lambda i, j: i, att=lambda i, j: x[j], dims=[(0, n), (lambda i: ss[i], lambda i: se[i])])
    k.out('tooffsets', n + 1, val=lambda i: pos(i)) if False else None
    k.out('tooffsets', n, val=lambda i: pos(i), tag='offsets')
    k.out('tooffsets', n, at=lambda i: i + 1, val=lambda i: pos(i + 1), tag='offsets_next')
    k.out('tocarry', dims=[(0, n), (lambda i: ss[i], lambda i: se[i])], at=lambda i, j: pos(i) + (j - ss[i]),
          val=lambda i, j: s[i] + If(x[j] < 0, x[j] + cnt(i), x[j]))
    k.expr(pos, lambda i, j: pos(i) + j)


@contract('ListArray_getitem_jagged_carrylen', prop='P04')
def _(k):
    n = k.size('sliceouterlen'); ss, se = jag_slices(k, n, True)
    P = k.psum('len', lambda i: se[i] - ss[i], upto=n)
    k.req(P(n) <= LMAX)
    k.out_arr('carrylen', 1)
    k.cell('carrylen', P(n), running=lambda t: P(t))


@contract('ListArray_getitem_jagged_descend', prop='P04')
def _(k):
    n = k.size('sliceouterlen'); ss, se = jag_slices(k, n, True)
    big = cmax(k, 'fromstarts')
    s = k.arr('fromstarts', n, lo=0, hi=big + 1, gen=(0, 3)); e = k.arr('fromstops', n, lo=0, hi=big + 1, gen=lambda i: s[i] + se[i] - ss[i] + (k.rng.random() < .05))
    k.req(k.forall(0, n, lambda i: s[i] <= e[i], pat=lambda i: e[i]))
    R = k.rec('off', lambda: If(n == 0, 0, ss[0]) if k.symbolic else (0 if n == 0 else ss[0]), lambda i, v: v + (e[i] - s[i]))
    k.mono(R, upto=n); k.lemma('off>=0', lambda t: R(t) >= 0, pat=lambda t: R(t), upto=n)
    k.req(R(n) <= VMAX)
    k.out_arr('tooffsets', n + 1)
    k.fail(lambda i: se[i] - ss[i] != e[i] - s[i], ident=lambda i: i, att=KNONE, n=n)
    k.out('tooffsets', n + 1, val=lambda i: R(i))
    k.expr(R)


@contract('ListArray_getitem_jagged_expand', prop='P04')
def _(k):
    n = k.size('length'); w = k.size('jaggedsize', gen=lambda: k.rng.randint(0, 3))
    big = cmax(k, 'fromstarts')
    s = k.arr('fromstarts', n, lo=0, hi=big + 1, gen=(0, 3)); e = k.arr('fromstops', n, lo=0, hi=big + 1, gen=lambda i: max(0, s[i] + w + (k.rng.choice([-1, 1]) if k.rng.random() < .04 else 0)))
    o = k.arr('singleoffsets', w + 1)
    k.req(mul(n, w) <= LMAX)
    for r in ('multistarts', 'multistops', 'tocarry'):
        k.out_arr(r, mul(n, w))
    k.fail(lambda i: Or(e[i] < s[i], e[i] - s[i] != w), ident=lambda i: i, att=KNONE, n=n)
    at = lambda i, j: mul(i, w) + j
    k.out('multistarts', dims=[(0, n), (0, w)], at=at, val=lambda i, j: o[j])
    k.out('multistops', dims=[(0, n), (0, w)], at=at, val=lambda i, j: o[j + 1])
    k.out('tocarry', dims=[(0, n), (0, w)], at=at, val=lambda i, j: s[i] + j)


@contract('RegularArray_getitem_jagged_expand', prop='P04')
def _(k):
    n = k.size('regularlength'); w = k.size('regularsize'); o = k.arr('singleoffsets', w + 1)
    k.req(mul(n, w) <= LMAX)
    for r in ('multistarts', 'multistops'):
        k.out_arr(r, mul(n, w))
    at = lambda i, j: mul(i, w) + j
    k.out('multistarts', dims=[(0, n), (0, w)], at=at, val=lambda i, j: o[j])
    k.out('multistops', dims=[(0, n), (0, w)], at=at, val=lambda i, j: o[j + 1])


def valid_rows(k, n, ss, se, m, x):
    """row(i,j): how many of missing[ss[i] .. ss[i]+j) are >= 0; tot(i): over all rows before i"""
    def sel(i, j):
        if not k.symbolic and not 0 <= ss[i] + j < m:
            return False
        return x[ss[i] + j] >= 0
    row = k.rec('inrow', lambda i: 0, lambda i, j, v: v + If(sel(i, j), 1, 0), params=1)
    k.lemma2('inrow in [0,j]', lambda i, j: And(row(i, j) >= 0, row(i, j) <= j), pat=lambda i, j: row(i, j), plo=0, phi=None)
    k.mono2(row)
    ln = lambda i: If(se[i] < ss[i], 0, se[i] - ss[i])
    tot = k.rec('total', 0, lambda i, v: v + row(i, ln(i)))
    k.mono(tot, upto=n)
    k.lemma('total>=0', lambda t: tot(t) >= 0, pat=lambda t: tot(t), upto=n)
    k.req(tot(n) <= LMAX)
    return sel, row, tot


@contract('ListArray_getitem_jagged_numvalid', prop='P04')
def _(k):
    n = k.size('length'); ss, se = jag_slices(k, n); m = k.size('missinglength', gen=lambda: k.rng.randint(4, 7)); x = k.arr('missing', m, gen=(-2, 4))
    sel, row, tot = valid_rows(k, n, ss, se, m, x)
    k.out_arr('numvalid', 1)
    k.fail(lambda i: And(ss[i] != se[i], se[i] < ss[i]), ident=lambda i: i, att=KNONE, n=n)
    k.fail(lambda i: And(ss[i] != se[i], se[i] > m), ident=lambda i: i, att=lambda i: se[i], n=n)
    k.trips((0, n), (0, lambda i: se[i] - ss[i]))
    k.cell('numvalid', tot(n), running=(lambda t: tot(t), lambda i, j: tot(i) + row(i, j)))


@contract('ListArray_getitem_jagged_shrink', prop='P04')
def _(k):
    n = k.size('length'); ss, se = jag_slices(k, n, True)
    m = k.ghost_len('missing', lambda: max([0] + [se[i] for i in range(n)]))
    k.req(k.forall(0, n, lambda i: se[i] <= m, pat=lambda i: se[i]))
    x = k.arr('missing', m, gen=(-2, 4))
    sel, row, tot = valid_rows(k, n, ss, se, m, x)
    base = If(n == 0, 0, ss[0]) if k.symbolic else (0 if n == 0 else ss[0])
    P = k.psum('len', lambda i: se[i] - ss[i], upto=n)
    k.req(P(n) <= LMAX)
    k.out_arr('tocarry', tot(n)); k.out_arr('tosmalloffsets', n + 1); k.out_arr('tolargeoffsets', n + 1)
    k.out('tosmalloffsets', n + 1, val=lambda i: base + tot(i))
    k.out('tolargeoffsets', n + 1, val=lambda i: base + P(i))
    k.out('tocarry', dims=[(0, n), (0, lambda i: se[i] - ss[i])], at=lambda i, j: tot(i) + row(i, j), when=sel, val=lambda i, j: ss[i] + j)
    k.expr(tot, row, lambda i, j: tot(i) + row(i, j))


@contract('Content_getitem_next_missing_jagged_getmaskstartstop', prop='P04')
def _(k):
    n = k.size('length'); x = k.arr('index_in', n)
    cnt = k.count('cnt', lambda i: x[i] >= 0)
    o = k.arr('offsets_in', cnt(n) + 1)
    for r in ('mask_out', 'starts_out', 'stops_out'):
        k.out_arr(r, n)
    k.out('starts_out', n, val=lambda i: o[cnt(i)])
    k.out('stops_out', n, val=lambda i: o[cnt(i + 1)])
    k.out('mask_out', n, val=lambda i: If(x[i] < 0, -1, i))
    k.expr(cnt)


@contract('SliceVarNewAxis_to_SliceJagged64', prop='P04')
def _(k):
    n = k.size('length'); o = k.offsets('fromoffsets', n + 1)
    k.out_arr('tocarry', o[n])
    k.out('tocarry', dims=[(0, n), (0, lambda i: o[i + 1] - o[i])], at=lambda i, j: o[i] + j, val=lambda i, j: i)


def carry_offsets(k):
    n = k.size('carrylen')
    no = k.ghost_len('fromoffsets', lambda: k.rng.randint(2, 5))
    k.req(no >= 2)
    o = k.offsets('fromoffsets', no); c = k.arr('fromcarry', n, lo=0, hi=no - 1)
    P = k.psum('len', lambda i: o[c[i] + 1] - o[c[i]], upto=n)
    k.req(P(n) <= LMAX)
    return n, o, c, P


@contract('carry_SliceJagged64_nextcarry', prop='P04')
def _(k):
    n, o, c, P = carry_offsets(k)
    k.out_arr('tocarry', P(n))
    k.out('tocarry', dims=[(0, n), (0, lambda i: o[c[i] + 1] - o[c[i]])], at=lambda i, j: P(i) + j, val=lambda i, j: o[c[i]] + j)
    k.expr(P, lambda i, j: P(i) + j)


@contract('carry_SliceJagged64_offsets', prop='P04')
def _(k):
    n, o, c, P = carry_offsets(k)
    k.out_arr('tooffsets', n + 1)
    k.out('tooffsets', n + 1, val=lambda i: P(i))
    k.expr(P)


@contract('carry_SliceMissing64_outindex', prop='P04')
def _(k):
    n = k.size('length'); x = k.arr('fromindex', n)
    cnt = k.count('cnt', lambda i: x[i] >= 0)
    k.out_arr('toindex', n)
    k.out('toindex', n, val=lambda i: If(x[i] < 0, -1, cnt(i)))
    k.expr(cnt)


@contract('carry_arange', prop='P02')
def _(k):
    n = k.size('length', hi=cmax(k, 'toptr')); k.out_arr('toptr', n); k.out('toptr', n, val=lambda i: i)


@contract('localindex', prop='P11')
def _(k):
    n = k.size('length'); k.out_arr('toindex', n); k.out('toindex', n, val=lambda i: i)


@contract('index_carry', prop='P02')
def _(k):
    n = k.size('lenfromindex'); m = k.size('length'); f = k.arr('fromindex', n); c = k.arr('carry', m, lo=0, gen=(0, 6))
    k.out_arr('toindex', m)
    k.fail(lambda i: c[i] >= n, ident=KNONE, att=lambda i: c[i], n=m)
    k.out('toindex', m, val=lambda i: f[c[i]])


@contract('index_carry_nocheck', prop='P02')
def _(k):
    m = k.size('length'); n = k.ghost_len('fromindex', lambda: k.rng.randint(0, 6)); f = k.arr('fromindex', n); c = k.arr('carry', m, lo=0, hi=n)
    k.out_arr('toindex', m)
    k.out('toindex', m, val=lambda i: f[c[i]])


@contract('Index_iscontiguous', prop='P19')
def _(k):
    n = k.size('length', hi=cmax(k, 'fromindex')); x = k.arr('fromindex', n, gen=lambda i: i if k.rng.random() < .95 else 1)
    bad = k.count('mismatches', lambda i: x[i] != i)
    k.out_arr('result', 1)
    k.cell('result', If(bad(n) == 0, 1, 0), running=lambda t: If(bad(t) == 0, 1, 0))
    k.inv(lambda mem, t: bad(t) == 0, 'no mismatch so far')


@contract('Index_to_Index64', prop='P10')
def _(k):
    n = k.size('length'); x = k.arr('fromptr', n); k.out_arr('toptr', n)
    k.out('toptr', n, val=lambda i: x[i])


@contract('slicemissing_check_same', prop='P04')
def _(k):
    n = k.size('length'); b = k.arr('bytemask', n, gen=(0, 1)); x = k.arr('missingindex', n, gen=lambda i: -1 if (b[i] != 0) ^ (k.rng.random() < .05) else i)
    bad = k.count('mismatches', lambda i: Not(Iff(b[i] != 0, x[i] < 0)))
    k.out_arr('same', 1)
    k.cell('same', If(bad(n) == 0, 1, 0), running=lambda t: If(bad(t) == 0, 1, 0))
    k.inv(lambda mem, t: bad(t) == 0, 'no mismatch so far')


@contract('missing_repeat', prop='P04')
def _(k):
    m, r, w = sizes(k, 'indexlength', 'repetitions', 'regularsize')
    x = k.arr('index', m, lo=-VMAX, hi=VMAX, gen=(-1, 4))
    k.req(mul(r, m) <= LMAX); k.req(mul(r, w) <= LMAX)
    k.out_arr('outindex', mul(r, m))
    k.out('outindex', dims=[(0, r), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: If(x[j] >= 0, x[j] + mul(i, w), x[j]))


@contract('index_rpad_and_clip_axis0', prop='P12')
def _(k):
    tg, n = sizes(k, 'target', 'length')
    sh = If(tg < n, tg, n)
    k.out_arr('toindex', tg)
    k.out('toindex', sh, val=lambda i: i, tag='kept')
    k.out('toindex', tg, lo=sh, val=lambda i: -1, tag='padding')


@contract('index_rpad_and_clip_axis1', prop='P12')
def _(k):
    tg, n = sizes(k, 'target', 'length')
    k.req(mul(n, tg) <= LMAX)
    k.out_arr('tostarts', n); k.out_arr('tostops', n)
    k.out('tostarts', n, val=lambda i: mul(i, tg))
    k.out('tostops', n, val=lambda i: mul(i, tg) + tg)
    k.expr(lambda i: mul(i, tg))
