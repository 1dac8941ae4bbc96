"""List and regular arrays: carry, integer and array getitem, offsets, padding, broadcasting, validity."""
from ..registry import contract
from ..dsl import *


def cmax(k, name):
    return min(LMAX, trange(k.ct(name))[1])


def sizes(k, *names):
    return [k.size(n) for n in names]


# ---------------------------------------------------------------- offsets
@contract('ListArray_broadcast_tooffsets', prop='P11')
def _(k):
    no = k.size('offsetslength', lo=1); n = no - 1; m = k.size('lencontent', gen=lambda: k.rng.randint(0, 12))
    big = cmax(k, 'fromstarts')
    o = k.arr('fromoffsets', no, lo=0, hi=LMAX + 1, gen=(lambda i: k.rng.choice([i * 2, i * 2, i, 0])))
    s = k.arr('fromstarts', n, lo=0, hi=big + 1, gen=(0, 4))
    e = k.arr('fromstops', n, lo=0, hi=big + 1, gen=lambda i: s[i] + (max(0, o[i + 1] - o[i]) if k.rng.random() < .9 else k.rng.randint(0, 3)))
    L = k.ghost_len('tocarry', lambda: max(o[i] for i in range(no)))
    k.req(o[0] == 0)
    k.req(k.forall(0, no, lambda i: o[i] <= L, pat=lambda i: o[i]))
    k.out_arr('tocarry', L)
    cnt = lambda i: o[i + 1] - o[i]
    k.fail(lambda i: And(s[i] != e[i], e[i] > m), ident=lambda i: i, att=lambda i: e[i], n=n)
    k.fail(lambda i: Or(cnt(i) < 0, e[i] - s[i] != cnt(i)), ident=lambda i: i, att=KNONE, n=n)
    pos = k.rec('pos', 0, lambda i, v: v + If(e[i] < s[i], 0, e[i] - s[i]))
    k.mono(pos, upto=n)
    k.out('tocarry', dims=[(0, n), (0, lambda i: e[i] - s[i])], at=lambda i, j: pos(i) + j, val=lambda i, j: s[i] + j)
    k.expr(pos, lambda i, j: pos(i) + j, lambda i, j: s[i] + j)
    k.inv(lambda mem, t: pos(t) == o[t], 'position equals offset')


def scan_gen(k):
    pass


@contract('ListArray_compact_offsets', prop='P11')
def _(k):
    n = k.size('length'); big = cmax(k, 'fromstarts')
    s = k.arr('fromstarts', n, lo=0, hi=big + 1, gen=(0, 3)); e = k.arr('fromstops', n, lo=0, hi=big + 1, gen=lambda i: s[i] + k.rng.choice([0, 1, 2, 3, 2, 1, -1]) if k.rng.random() < .3 else s[i] + 1)
    R = k.rec('off', 0, lambda i, v: v + If(e[i] < s[i], 0, e[i] - s[i]))
    k.mono(R, upto=n); k.lemma('off>=0', lambda t: R(t) >= 0, pat=lambda t: R(t), upto=n)
    k.req(R(n) <= VMAX)
    k.out_arr('tooffsets', n + 1)
    k.fail(lambda i: e[i] < s[i], ident=lambda i: i, att=KNONE, n=n)
    k.out('tooffsets', n + 1, val=lambda i: R(i))
    k.expr(R)


@contract('ListArray_fill', prop='P10')
def _(k):
    n = k.size('length'); a = k.int('tostartsoffset', lo=0, hi=LMAX, gen=(0, 4)); b = k.int('tostopsoffset', lo=0, hi=LMAX, gen=(0, 4))
    base = k.int('base', lo=0, hi=VMAX, gen=(0, 9))
    s = k.arr('fromstarts', n, lo=-VMAX, hi=VMAX); e = k.arr('fromstops', n, lo=-VMAX, hi=VMAX)
    k.out_arr('tostarts', a + n); k.out_arr('tostops', b + n)
    k.keep('tostarts', a); k.keep('tostops', b)
    k.out('tostarts', n, at=lambda i: a + i, val=lambda i: s[i] + base)
    k.out('tostops', n, at=lambda i: b + i, val=lambda i: e[i] + base)


@contract('ListArray_getitem_carry', prop='P02')
def _(k):
    n = k.size('lenstarts'); m = k.size('lencarry')
    s = k.arr('fromstarts', n); e = k.arr('fromstops', n); c = k.arr('fromcarry', m, lo=0, gen=(0, 5))
    k.out_arr('tostarts', m); k.out_arr('tostops', m)
    k.fail(lambda i: c[i] >= n, ident=lambda i: i, att=lambda i: c[i], n=m)
    k.out('tostarts', m, val=lambda i: s[c[i]])
    k.out('tostops', m, val=lambda i: e[c[i]])


def anyss(k, n):
    """starts/stops from an untrusted list: non-negative, not necessarily ordered"""
    big = cmax(k, 'fromstarts')
    s = k.arr('fromstarts', n, lo=0, hi=big + 1, gen=(0, 4))
    e = k.arr('fromstops', n, lo=0, hi=big + 1, gen=lambda i: max(0, s[i] + k.rng.choice([1, 2, 3, 4] if k.rng.random() < .93 else [0, -1])))
    return s, e


@contract('ListArray_getitem_next_array', prop='P02')
def _(k):
    n, m = sizes(k, 'lenstarts', 'lenarray'); L = k.size('lencontent', gen=lambda: k.rng.randint(4, 12))
    s, e = anyss(k, n); a = k.arr('fromarray', m, gen=(-2, 2))
    k.req(mul(n, m) <= LMAX)
    k.out_arr('tocarry', mul(n, m)); k.out_arr('toadvanced', mul(n, m))
    ln = lambda i: e[i] - s[i]
    reg = lambda i, j: If(a[j] < 0, a[j] + ln(i), a[j])
    k.fail(lambda i: Or(e[i] < s[i], And(s[i] != e[i], e[i] > L)), ident=lambda i: i, att=KNONE, n=n)
    k.fail(lambda i, j: Not(And(reg(i, j) >= 0, reg(i, j) < ln(i))), ident=lambda i, j: i, att=lambda i, j: a[j], dims=[(0, n), (0, m)])
    k.out('tocarry', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: s[i] + reg(i, j))
    k.out('toadvanced', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: j)


@contract('ListArray_getitem_next_array_advanced', prop='P02')
def _(k):
    n, m = sizes(k, 'lenstarts', 'lenarray'); L = k.size('lencontent', gen=lambda: k.rng.randint(4, 12))
    s, e = anyss(k, n); a = k.arr('fromarray', m, gen=(-2, 2)); v = k.arr('fromadvanced', n, lo=0, hi=m)
    k.out_arr('tocarry', n); k.out_arr('toadvanced', n)
    ln = lambda i: e[i] - s[i]
    reg = lambda i: If(a[v[i]] < 0, a[v[i]] + ln(i), a[v[i]])
    k.fail(lambda i: Or(e[i] < s[i], And(s[i] != e[i], e[i] > L)), ident=lambda i: i, att=KNONE, n=n)
    k.fail(lambda i: Not(And(reg(i) >= 0, reg(i) < ln(i))), ident=lambda i: i, att=lambda i: a[v[i]], n=n)
    k.out('tocarry', n, val=lambda i: s[i] + reg(i))
    k.out('toadvanced', n, val=lambda i: i)


@contract('ListArray_getitem_next_at', prop='P02')
def _(k):
    n = k.size('lenstarts')
    s, e = k.startstops('fromstarts', 'fromstops', n)
    at = k.int('at', gen=None)
    k.out_arr('tocarry', n)
    reg = lambda i: If(at < 0, at + e[i] - s[i], at)
    k.fail(lambda i: Not(And(reg(i) >= 0, reg(i) < e[i] - s[i])), ident=lambda i: i, att=lambda i: at, n=n)
    k.out('tocarry', n, val=lambda i: s[i] + reg(i))


@contract('ListArray_localindex', prop='P11')
def _(k):
    n = k.size('length'); o = k.offsets('offsets', n + 1)
    k.out_arr('toindex', o[n])
    k.out('toindex', dims=[(0, n), (0, lambda i: o[i + 1] - o[i])], at=lambda i, j: o[i] + j, val=lambda i, j: j)


@contract('ListArray_min_range', prop='P12')
def _(k):
    n = k.size('lenstarts', lo=1); s, e = k.startstops('fromstarts', 'fromstops', n)
    ln = lambda i: e[i] - s[i]
    R = k.rec('min', lambda: ln(0), lambda i, v: If(ln(i + 1) < v, ln(i + 1), v))
    k.out_arr('tomin', 1)
    k.cell('tomin', R(n - 1), running=lambda t: R(t))


@contract('ListArray_num', prop='P11')
def _(k):
    n = k.size('length'); s, e = k.startstops('fromstarts', 'fromstops', n)
    k.out_arr('tonum', n)
    k.out('tonum', n, val=lambda i: e[i] - s[i])


@contract('ListArray_rpad_and_clip_length_axis1', prop='P12')
def _(k):
    n = k.size('lenstarts'); s, e = k.startstops('fromstarts', 'fromstops', n); t = k.int('target', lo=0, hi=LMAX, gen=(0, 4))
    P = k.psum('padded', lambda i: If(t > e[i] - s[i], t, e[i] - s[i]), upto=n)
    k.req(P(n) <= LMAX)
    k.out_arr('tomin', 1)
    k.cell('tomin', P(n), running=lambda t: P(t))


@contract('ListArray_rpad_axis1', prop='P12')
def _(k):
    n = k.size('length'); s, e = k.startstops('fromstarts', 'fromstops', n); tg = k.int('target', lo=0, hi=LMAX, gen=(0, 4))
    ln = lambda i: e[i] - s[i]
    P = k.psum('padded', lambda i: If(tg > ln(i), tg, ln(i)), upto=n)
    k.req(P(n) <= cmax(k, 'tostarts'))
    k.out_arr('toindex', P(n)); k.out_arr('tostarts', n); k.out_arr('tostops', n)
    k.out('tostarts', n, val=lambda i: P(i))
    k.out('tostops', n, val=lambda i: P(i + 1))
    k.out('toindex', dims=[(0, n), (0, ln)], at=lambda i, j: P(i) + j, val=lambda i, j: s[i] + j, tag='kept')
    k.out('toindex', dims=[(0, n), (ln, tg)], at=lambda i, j: P(i) + j, val=lambda i, j: -1, tag='padding')
    k.expr(P)


@contract('ListArray_validity', prop='P14')
def _(k):
    n = k.size('length'); L = k.size('lencontent', gen=lambda: k.rng.randint(0, 9))
    s = k.arr('starts', n, gen=(-1, 4)); e = k.arr('stops', n, gen=lambda i: max(0, s[i] + k.rng.randint(-1, 3)))
    k.fail(lambda i: And(s[i] != e[i], Or(s[i] > e[i], s[i] < 0, e[i] > L)), ident=lambda i: i, att=KNONE, n=n)


@contract('ListOffsetArray_compact_offsets', prop='P11')
def _(k):
    n = k.size('length'); o = k.offsets('fromoffsets', n + 1)
    k.out_arr('tooffsets', n + 1)
    k.out('tooffsets', n + 1, val=lambda i: o[i] - o[0])


@contract('ListOffsetArray_flatten_offsets', prop='P11')
def _(k):
    n, m = sizes(k, 'outeroffsetslen', 'inneroffsetslen')
    x = k.arr('outeroffsets', n, lo=0, hi=m); y = k.arr('inneroffsets', m)
    k.out_arr('tooffsets', n)
    k.out('tooffsets', n, val=lambda i: y[x[i]])


@contract('ListOffsetArray_getitem_adjust_offsets', prop='P04')
def _(k):
    n, m = sizes(k, 'length', 'nonzerolength')
    o = k.offsets('fromoffsets', n + 1)
    if k.mode == 'gen':
        cells = list(range(o[0], o[n] + 2))
        k.rng.shuffle(cells)
        m = k.scal['nonzerolength'] = k.inputs['nonzerolength'] = min(m, len(cells))
        cells = sorted(cells[:m])
    z = k.arr('nonzero', m, gen=(lambda i: cells[i]), lo=0, hi=LMAX)
    k.req(k.forall(0, m - 1, lambda i: z[i] <= z[i + 1], pat=lambda i: z[i + 1]))
    if k.mode == 'sym':
        i, j = z3.Ints('zi zj')
        k.pre.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < m), z[i] <= z[j]), patterns=[z3.MultiPattern(z[i], z[j])]))
    k.req(Implies(m > 0, z[0] >= o[0]) if k.symbolic else (m <= 0 or z[0] >= o[0]))
    # J(i): number of selected positions before the i-th offset
    J = k.define('below', lambda i: sum(1 for j in range(m) if z[j] < o[i]),
                 lambda J, i: [And(J(i) >= 0, J(i) <= m), Or(J(i) == m, J(i) > m, z[J(i)] >= o[i]) if k.symbolic else (J(i) == m or z[J(i)] >= o[i]),
                               Implies(J(i) > 0, z[J(i) - 1] < o[i]) if k.symbolic else (J(i) == 0 or z[J(i) - 1] < o[i])],
                 dom=lambda i: And(i >= 0, i <= n))
    k.out_arr('tooffsets', n + 1); k.out_arr('tononzero', m)
    k.out('tooffsets', n + 1, val=lambda i: o[0] + J(i))
    k.out('tononzero', dims=[(0, n), (J, lambda i: J(i + 1))], at=lambda i, j: j, val=lambda i, j: z[j] - o[i])
    k.expr(lambda t: J(t))


@contract('ListOffsetArray_rpad_and_clip_axis1', prop='P12')
def _(k):
    n = k.size('length'); tg = k.size('target'); o = k.offsets('fromoffsets', n + 1)
    k.req(mul(n, tg) <= LMAX)
    ln = lambda i: o[i + 1] - o[i]
    sh = lambda i: If(tg < ln(i), tg, ln(i))
    k.out_arr('toindex', mul(n, tg))
    k.out('toindex', dims=[(0, n), (0, sh)], at=lambda i, j: mul(i, tg) + j, val=lambda i, j: o[i] + j, tag='kept')
    k.out('toindex', dims=[(0, n), (sh, tg)], at=lambda i, j: mul(i, tg) + j, val=lambda i, j: -1, tag='padding')


def rpad_common(k, n, tg, o, big):
    ln = lambda i: o[i + 1] - o[i]
    P = k.psum('padded', lambda i: If(tg > ln(i), tg, ln(i)), upto=n)
    k.req(P(n) <= big)
    return ln, P


@contract('ListOffsetArray_rpad_axis1', prop='P12')
def _(k):
    n = k.size('fromlength'); tg = k.int('target', lo=0, hi=LMAX, gen=(0, 4)); o = k.offsets('fromoffsets', n + 1)
    ln, P = rpad_common(k, n, tg, o, LMAX)
    k.out_arr('toindex', P(n))
    k.out('toindex', dims=[(0, n), (0, ln)], at=lambda i, j: P(i) + j, val=lambda i, j: o[i] + j, tag='kept')
    k.out('toindex', dims=[(0, n), (ln, tg)], at=lambda i, j: P(i) + j, val=lambda i, j: -1, tag='padding')
    k.expr(P, lambda i, j: P(i) + j, lambda i, j: P(i) + ln(i) + j)


@contract('ListOffsetArray_rpad_length_axis1', prop='P12')
def _(k):
    n = k.size('fromlength'); tg = k.int('target', lo=0, hi=LMAX, gen=(0, 4)); o = k.offsets('fromoffsets', n + 1)
    ln, P = rpad_common(k, n, tg, o, cmax(k, 'tooffsets'))
    k.out_arr('tooffsets', n + 1); k.out_arr('tolength', 1)
    k.out('tooffsets', n + 1, val=lambda i: P(i))
    k.cell('tolength', P(n))
    k.expr(P)


@contract('ListOffsetArray_toRegularArray', prop='P11')
def _(k):
    no = k.size('offsetslength', lo=1); n = no - 1
    reg = k.rng.randint(0, 2) if k.mode == 'gen' else 0
    o = k.arr('fromoffsets', no, lo=0, hi=cmax(k, 'fromoffsets') + 1, gen=lambda i: i * reg + (k.rng.random() < .03))
    c = lambda i: o[i + 1] - o[i]
    k.out_arr('size', 1)
    k.fail(lambda i: Or(c(i) < 0, c(i) != c(0)), ident=lambda i: i, att=KNONE, n=n)
    k.extra_index.append(0)
    fin = (lambda t: If(t == 0, -1, c(0))) if k.symbolic else (lambda t: -1 if t == 0 else c(0))
    k.cell('size', If(n <= 0, 0, c(0)) if k.symbolic else (0 if n <= 0 else c(0)), running=fin)


# ---------------------------------------------------------------- regular arrays
@contract('RegularArray_broadcast_tooffsets', prop='P11')
def _(k):
    no = k.size('offsetslength', lo=1); n = no - 1; w = k.size('size', gen=lambda: k.rng.randint(0, 3))
    o = k.arr('fromoffsets', no, lo=0, hi=LMAX, gen=lambda i: max(0, i * w + (k.rng.choice([-1, 1]) if k.rng.random() < .03 else 0)))
    k.fail(lambda i: Or(o[i + 1] - o[i] < 0, o[i + 1] - o[i] != w), ident=lambda i: i, att=KNONE, n=n)


@contract('RegularArray_broadcast_tooffsets_size1', prop='P11')
def _(k):
    no = k.size('offsetslength', lo=1); n = no - 1
    o = k.arr('fromoffsets', no, lo=0, hi=LMAX + 1, gen=lambda i: max(0, i * 2 + (k.rng.choice([-3, 1]) if k.rng.random() < .03 else 0)) if i else 0)
    L = k.ghost_len('tocarry', lambda: max(o[i] for i in range(no)))
    k.req(o[0] == 0)
    k.req(k.forall(0, no, lambda i: o[i] <= L, pat=lambda i: o[i]))
    k.out_arr('tocarry', L)
    c = lambda i: o[i + 1] - o[i]
    k.fail(lambda i: c(i) < 0, ident=lambda i: i, att=KNONE, n=n)
    pos = k.rec('pos', 0, lambda i, v: v + If(c(i) < 0, 0, c(i)))
    k.mono(pos, upto=n)
    k.out('tocarry', dims=[(0, n), (0, c)], at=lambda i, j: pos(i) + j, val=lambda i, j: i)
    k.expr(pos, lambda i, j: pos(i) + j)
    k.inv(lambda mem, t: pos(t) == o[t], 'position equals offset')


@contract('RegularArray_compact_offsets', prop='P11')
def _(k):
    n, w = sizes(k, 'length', 'size')
    k.req(mul(n, w) <= LMAX)
    k.out_arr('tooffsets', n + 1)
    k.out('tooffsets', n + 1, val=lambda i: mul(i, w))


@contract('RegularArray_getitem_carry', prop='P02')
def _(k):
    n, w = sizes(k, 'lencarry', 'size')
    G = k.ghost('lenarray', lambda: 1 + max([0] + list(k.inputs['fromcarry'])) if k.mode == 'con' else 6)
    c = k.arr('fromcarry', n, lo=0, hi=G)
    k.req(mul(n, w) <= LMAX); k.req(mul(G, w) <= LMAX)
    k.out_arr('tocarry', mul(n, w))
    k.out('tocarry', dims=[(0, n), (0, w)], at=lambda i, j: mul(i, w) + j, val=lambda i, j: mul(c[i], w) + j)


@contract('RegularArray_getitem_next_array', prop='P02')
def _(k):
    n, m, w = sizes(k, 'length', 'lenarray', 'size')
    a = k.arr('fromarray', m, lo=0, hi=w)
    k.req(mul(n, m) <= LMAX); k.req(mul(n, w) <= LMAX)
    k.out_arr('tocarry', mul(n, m)); k.out_arr('toadvanced', mul(n, m))
    k.out('tocarry', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: mul(i, w) + a[j])
    k.out('toadvanced', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: j)


@contract('RegularArray_getitem_next_array_advanced', prop='P02')
def _(k):
    n, m, w = sizes(k, 'length', 'lenarray', 'size')
    a = k.arr('fromarray', m, lo=0, hi=w); v = k.arr('fromadvanced', n, lo=0, hi=m)
    k.req(mul(n, w) <= LMAX)
    k.out_arr('tocarry', n); k.out_arr('toadvanced', n)
    k.out('tocarry', n, val=lambda i: mul(i, w) + a[v[i]])
    k.out('toadvanced', n, val=lambda i: i)


@contract('RegularArray_getitem_next_array_regularize', prop='P02')
def _(k):
    m, w = sizes(k, 'lenarray', 'size'); a = k.arr('fromarray', m, gen=lambda i: k.rng.randint(-w, w - 1) if w and k.rng.random() < .95 else k.rng.randint(-5, 5))
    reg = lambda j: If(a[j] < 0, a[j] + w, a[j])
    k.out_arr('toarray', m)
    k.fail(lambda j: Not(And(reg(j) >= 0, reg(j) < w)), ident=KNONE, att=lambda j: a[j], n=m)
    k.out('toarray', m, val=reg)


@contract('RegularArray_getitem_next_at', prop='P02')
def _(k):
    n, w = sizes(k, 'length', 'size'); at = k.int('at')
    reg = If(at < 0, at + w, at)
    k.req(mul(n, w) <= LMAX)
    k.out_arr('tocarry', n)
    k.fail(Not(And(reg >= 0, reg < w)), ident=KNONE, att=at)
    k.out('tocarry', n, val=lambda i: mul(i, w) + reg)


@contract('RegularArray_getitem_next_range', prop='P03')
def _(k):
    n, w, m = sizes(k, 'length', 'size', 'nextsize'); a = k.int('regular_start', lo=-VMAX, hi=VMAX); st = k.int('step', lo=-VMAX, hi=VMAX)
    k.req(mul(n, w) <= LMAX); k.req(mul(n, m) <= LMAX)
    k.req(And(mul(m, st) <= VMAX, mul(m, st) >= -VMAX))
    k.out_arr('tocarry', mul(n, m))
    k.out('tocarry', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: mul(i, w) + a + mul(j, st))


@contract('RegularArray_getitem_next_range_spreadadvanced', prop='P03')
def _(k):
    n, m = sizes(k, 'length', 'nextsize'); v = k.arr('fromadvanced', n)
    k.req(mul(n, m) <= LMAX)
    k.out_arr('toadvanced', mul(n, m))
    k.out('toadvanced', dims=[(0, n), (0, m)], at=lambda i, j: mul(i, m) + j, val=lambda i, j: v[i])


@contract('RegularArray_localindex', prop='P11')
def _(k):
    n, w = sizes(k, 'length', 'size')
    k.req(mul(n, w) <= LMAX)
    k.out_arr('toindex', mul(n, w))
    k.out('toindex', dims=[(0, n), (0, w)], at=lambda i, j: mul(i, w) + j, val=lambda i, j: j)


@contract('RegularArray_num', prop='P11')
def _(k):
    n, w = sizes(k, 'length', 'size')
    k.out_arr('tonum', n); k.out('tonum', n, val=lambda i: w)


@contract('RegularArray_rpad_and_clip_axis1', prop='P12')
def _(k):
    n, w, tg = sizes(k, 'length', 'size', 'target')
    k.req(mul(n, w) <= LMAX); k.req(mul(n, tg) <= LMAX)
    sh = If(tg < w, tg, w)
    k.out_arr('toindex', mul(n, tg))
    k.out('toindex', dims=[(0, n), (0, sh)], at=lambda i, j: mul(i, tg) + j, val=lambda i, j: mul(i, w) + j, tag='kept')
    k.out('toindex', dims=[(0, n), (sh, tg)], at=lambda i, j: mul(i, tg) + j, val=lambda i, j: -1, tag='padding')


@contract('regularize_arrayslice', prop='P02')
def _(k):
    m = k.size('lenflathead'); w = k.size('length'); a = k.out_arr('flatheadptr', m, inout=True, gen=lambda i: k.rng.randint(-w, w - 1) if w and k.rng.random() < .95 else k.rng.randint(-5, 5))
    reg = lambda j: If(a[j] < 0, a[j] + w, a[j])
    k.fail(lambda j: Or(reg(j) < 0, reg(j) >= w), ident=KNONE, att=lambda j: a[j], n=m)
    k.out('flatheadptr', m, val=reg)
