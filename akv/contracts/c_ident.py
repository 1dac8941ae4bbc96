"""Identities: the row identity of every element of a content follows its place in the outer array."""
from ..registry import contract
from ..dsl import *
from ..cands import fa, pt


def cmax(k, name):
    return min(LMAX, trange(k.ct(name))[1])


@contract('Identities32_to_Identities64', prop='P17')
def _(k):
    n, w = k.size('length'), k.size('width'); k.req(mul(n, w) <= LMAX)
    f = k.arr('fromptr', mul(n, w)); k.out_arr('toptr', mul(n, w))
    k.out('toptr', mul(n, w), val=lambda i: f[i])


@contract('Identities_extend', prop='P17')
def _(k):
    n, m = k.size('fromlength'), k.size('tolength')
    f = k.arr('fromptr', n); k.out_arr('toptr', If(n < m, m, n))
    k.out('toptr', n, val=lambda i: f[i], tag='kept')
    k.out('toptr', m, lo=n, val=lambda i: -1, tag='new')


@contract('new_Identities', prop='P17')
def _(k):
    n = k.size('length', hi=cmax(k, 'toptr')); k.out_arr('toptr', n)
    k.out('toptr', n, val=lambda i: i)


@contract('Identities_getitem_carry', prop='P17')
def _(k):
    n, m, w = k.size('length'), k.size('lencarry'), k.size('width')
    k.req(mul(n, w) <= LMAX); k.req(mul(m, w) <= LMAX)
    f = k.arr('identitiesptr', mul(n, w)); c = k.arr('carryptr', m, lo=0, gen=(0, 5))
    k.out_arr('newidentitiesptr', mul(m, w))
    k.fail(lambda i: c[i] >= n, ident=KNONE, att=lambda i: c[i], n=m)
    k.out('newidentitiesptr', dims=[(0, m), (0, w)], at=lambda i, j: mul(i, w) + j, val=lambda i, j: f[mul(c[i], w) + j])


def unique_by_index(k, valid, x, fails, n, m, w):
    f = k.arr('fromptr', mul(n, w), lo=0, gen=(0, 4))
    own = k.rec('owner', -1, lambda c, i, v: If(And(valid(i), x[i] == c), i, v), params=1)
    k.lemma2('-1<=owner<t', lambda c, t: And(own(c, t) >= -1, own(c, t) < t), pat=lambda c, t: own(c, t), plo=0, phi=None)
    def dup(i):
        if k.symbolic:
            return And(valid(i), x[i] >= 0, x[i] < m, own(x[i], i) >= 0)
        return bool(valid(i) and 0 <= x[i] < m and own(x[i], i) >= 0)
    D = k.rec('dup', 0, lambda i, v: If(dup(i), 1, v))
    k.lemma('dup in 0..1', lambda t: And(D(t) >= 0, D(t) <= 1), pat=lambda t: D(t)); k.mono(D)
    for bad in fails:
        k.fail(lambda i, bad=bad: And(D(i) == 0, valid(i), bad(i)), ident=lambda i: i, att=lambda i: x[i], n=n)
    k.out_arr('uniquecontents', 1); k.out_arr('toptr', mul(m, w))
    k.cell('uniquecontents', If(D(n) == 0, 1, 0))
    val = lambda t: (lambda c, j: ite(own(c, t) < 0, lambda: -1, lambda: f[mul(own(c, t), w) + j]))
    def part(t, l, c, j):
        return If(And(c == x[t], j < l), f[mul(t, w) + j], val(t)(c, j)) if k.symbolic else (f[t * w + j] if c == x[t] and j < l else val(t)(c, j))
    k.out('toptr', dims=[(0, m), (0, w)], at=lambda c, j: mul(c, w) + j, final=lambda: D(n) == 0, val=val(n),
          running=[lambda t, c, j: val(t)(c, j), part])
    k.inv(lambda st, t: D(t) == 0, 'no duplicate so far')
    k.hint(lambda t: (x[t], 0))
    k.trips((0, mul(m, w)))
    k.inv(lambda st, t: fa(st, [(0, If(t < mul(m, w), t, mul(m, w)))], lambda v: st.mem('toptr', v) == -1, pt(st, 'toptr')), 'cleared below t')


@contract('Identities_from_IndexedArray', prop='P17')
def _(k):
    m = k.size('tolength'); n = k.size('fromlength'); w = k.size('fromwidth', lo=1, gen=lambda: k.rng.randint(1, 3))
    k.req(mul(m, w) <= LMAX); k.req(mul(n, w) <= LMAX)
    x = k.arr('fromindex', n, gen=lambda i: k.rng.randint(-1, 9) if k.rng.random() < .4 else i)
    unique_by_index(k, lambda i: True, x, [lambda i: x[i] >= m], n, m, w)


@contract('Identities_from_UnionArray', prop='P17')
def _(k):
    m = k.size('tolength'); n = k.size('fromlength'); w = k.size('fromwidth', lo=1, gen=lambda: k.rng.randint(1, 3))
    k.req(mul(m, w) <= LMAX); k.req(mul(n, w) <= LMAX); wh = k.int('which', lo=0, hi=127, gen=(0, 1))
    t = k.arr('fromtags', n, gen=(0, 1))
    x = k.arr('fromindex', n, gen=lambda i: k.rng.randint(-1, 9) if k.rng.random() < .4 else i)
    unique_by_index(k, lambda i: t[i] == wh, x, [lambda i: x[i] >= m, lambda i: x[i] < 0], n, m, w)


def jagged(k, starts, n, m, w, s, e, unique):
    """list i gives content elements s[i] <= c < e[i] its own identity followed by the position in the list"""
    W = w + 1
    f = k.arr('fromptr', mul(n, w), lo=0, gen=(0, 4))
    own = k.rec('owner', -1, lambda c, i, v: If(And(s(i) <= c, c < e(i)), i, v), params=1)
    k.lemma2('-1<=owner<t', lambda c, t: And(own(c, t) >= -1, own(c, t) < t), pat=lambda c, t: own(c, t), plo=0, phi=None)
    k.lemma2('owner covers', lambda c, t: Implies(own(c, t) >= 0, And(s(own(c, t)) <= c, c < e(own(c, t)))), pat=lambda c, t: own(c, t), plo=0, phi=None)
    def from_row(i, c, j):
        return ite(j == w, lambda: c - s(i), lambda: f[mul(i, w) + j])
    def val(t, c, j):
        return ite(own(c, t) < 0, lambda: -1, lambda: from_row(own(c, t), c, j))
    def part(t, r, c, j):
        return ite(And(s(t) <= c, c < s(t) + r), lambda: from_row(t, c, j), lambda: val(t, c, j))
    def part2(t, r, l, c, j):
        return ite(And(c == s(t) + r, j < l), lambda: from_row(t, c, j), lambda: part(t, r, c, j))
    return W, f, own, val, part, part2


@contract('Identities_from_ListArray', prop='P17', prover=dict(ms_h=8000))
def _(k):
    m = k.size('tolength', hi=cmax(k, 'toptr')); n = k.size('fromlength'); w = k.size('fromwidth', gen=lambda: k.rng.randint(0, 2))
    k.req(mul(m, w + 1) <= LMAX); k.req(mul(n, w) <= LMAX); big = cmax(k, 'fromstarts')
    g = [0]
    def gs(i):
        if i == 0 or k.rng.random() < .1:
            g[0] = k.rng.randint(0, 2)
        return g[0]
    S = k.arr('fromstarts', n, lo=0, hi=big + 1, gen=lambda i: gs(i))
    def ge(i):
        return S[i] + k.rng.randint(0, 2)
    if k.mode == 'gen':
        pos = k.rng.randint(0, 2)
        for i in range(n):
            k.inputs['fromstarts'][i] = pos if k.rng.random() < .9 else k.rng.randint(0, 4)
            pos += k.rng.randint(0, 2)
    E = k.arr('fromstops', n, lo=0, hi=big + 1, gen=lambda i: max(0, (S[i + 1] if i + 1 < n else S[i] + 2) - (k.rng.random() < .1)) if k.rng.random() < .95 else S[i] + 1)
    s, e = (lambda i: S[i]), (lambda i: E[i])
    W, f, own, val, part, part2 = jagged(k, 'fromstarts', n, m, w, s, e, True)
    C = k.rec('taken', 0, lambda i, r, v: v + If(own(s(i) + r, i) >= 0, 1, 0), params=1)
    k.mono2(C); k.lemma2('taken>=0', lambda i, r: C(i, r) >= 0, pat=lambda i, r: C(i, r), plo=0, phi=None)
    ln = lambda i: If(S[i] < E[i], E[i] - S[i], 0)
    D = k.rec('dup', 0, lambda i, v: If(C(i, ln(i)) > 0, 1, v))
    k.lemma('dup in 0..1', lambda t: And(D(t) >= 0, D(t) <= 1), pat=lambda t: D(t)); k.mono(D)
    k.fail(lambda i: And(D(i) == 0, S[i] != E[i], E[i] > m), ident=lambda i: i, att=KNONE, n=n)
    k.out_arr('uniquecontents', 1); k.out_arr('toptr', mul(m, W))
    k.cell('uniquecontents', If(D(n) == 0, 1, 0))
    k.out('toptr', dims=[(0, m), (0, W)], at=lambda c, j: mul(c, W) + j, final=lambda: D(n) == 0, val=lambda c, j: val(n, c, j), running=[val, part, part2])
    k.inv(lambda st, t: D(t) == 0, 'no duplicate so far')
    k.inv(lambda st, t, r: C(t, r) == 0, 'no duplicate in this list so far')
    k.inv(lambda st, t: fa(st, [(0, If(t < mul(m, W), t, mul(m, W)))], lambda v: st.mem('toptr', v) == -1, pt(st, 'toptr')), 'cleared below t')
    k.trips((0, mul(m, W))); k.trips((0, n), (0, ln)); k.trips((0, n), (0, ln), (0, w))
    k.hint(lambda t, r: (s(t) + r, w))
    k.mulrows(w, loop=[lambda t, r: s(t) + r], sk=[lambda c: c], consts=[m])


@contract('Identities_from_ListOffsetArray', prop='P17', prover=dict(ms_h=8000))
def _(k):
    m = k.size('tolength', hi=cmax(k, 'toptr'), gen=lambda: k.rng.randint(0, 9)); n = k.size('fromlength'); w = k.size('fromwidth', gen=lambda: k.rng.randint(0, 2))
    k.req(mul(m, w + 1) <= LMAX); k.req(mul(n, w) <= LMAX)
    o = k.offsets('fromoffsets', n + 1)
    s, e = (lambda i: o[i]), (lambda i: o[i + 1])
    k.req(mul(o[n], w + 1) <= VMAX)
    W, f, own, val, part, part2 = jagged(k, 'fromoffsets', n, m, w, s, e, False)
    k.lemma2('outside the lists', lambda c, t: Implies(Or(c < o[0], c >= o[t]), own(c, t) == -1), pat=lambda c, t: own(c, t), plo=0, phi=None, upto=n)
    k.fail(lambda i: And(o[i] != o[i + 1], o[i + 1] > m), ident=lambda i: i, att=KNONE, n=n)
    k.out_arr('toptr', mul(m, W))
    dims = [(0, m), (0, W)]; at = lambda c, j: mul(c, W) + j
    k.out('toptr', dims=dims, at=at, val=lambda c, j: val(n, c, j))
    lo = If(o[0] < m, o[0], m)
    out = lambda c: Or(c < o[0], c >= o[n])
    for nm, r in (('at t', lambda t, c, j: val(t, c, j)), ('in list', part), ('in element', part2)):
        na = {'at t': 1, 'in list': 2, 'in element': 3}[nm]
        def mk(r=r, na=na):
            def body(st, *ts):
                top = lambda c: out(c)
                return fa(st, dims, lambda c, j: Implies(Or(out(c), c < o[ts[0]] + (ts[1] + (1 if na == 3 else 0) if na > 1 else 0)) if na < 3 else Or(out(c), c < o[ts[0]] + ts[1], And(c == o[ts[0]] + ts[1], j < ts[2])), eq(st.mem('toptr', at(c, j)), r(*ts, c, j))))
            return {1: lambda st, t: body(st, t), 2: lambda st, t, u: body(st, t, u), 3: lambda st, t, u, v: body(st, t, u, v)}[na]
        k.inv(mk(), 'toptr filled ' + nm)
    k.inv(lambda st, t: fa(st, [(0, If(t < mul(m, W), t, mul(m, W)))], lambda v: st.mem('toptr', v) == -1, pt(st, 'toptr')), 'cleared below t')
    k.inv(lambda st, t: fa(st, [(0, mul(lo, W))], lambda v: st.mem('toptr', v) == -1, pt(st, 'toptr')), 'cleared before the lists')
    k.inv(lambda st, t: fa(st, [(mul(o[n], W), If(mul(o[n], W) + t < mul(m, W), mul(o[n], W) + t, mul(m, W)))], lambda v: st.mem('toptr', v) == -1, pt(st, 'toptr')), 'cleared after the lists')
    k.trips((0, mul(m, W))); k.trips((0, n), (0, lambda i: o[i + 1] - o[i])); k.trips((0, n), (0, lambda i: o[i + 1] - o[i]), (0, w))
    k.mulrows(w, loop=[lambda t, r: s(t) + r], sk=[lambda c: c], consts=[m, o[0], o[n]])


@contract('Identities_from_RegularArray', prop='P17')
def _(k):
    z = k.size('size', hi=cmax(k, 'toptr')); n = k.size('fromlength'); w = k.size('fromwidth', gen=lambda: k.rng.randint(0, 2))
    m = k.size('tolength', gen=lambda: n * z + k.rng.randint(0, 3)); W = w + 1
    k.req(mul(n, z) <= m); k.req(mul(m, W) <= LMAX); k.req(mul(n, w) <= LMAX)
    f = k.arr('fromptr', mul(n, w)); k.out_arr('toptr', mul(m, W))
    k.req(mul(mul(n, z), W) <= mul(m, W))
    k.out('toptr', dims=[(0, n), (0, z), (0, W)], at=lambda i, j, l: mul(mul(i, z) + j, W) + l, val=lambda i, j, l: ite(l == w, lambda: j, lambda: f[mul(i, w) + l]))
    k.mulrows(w, loop=[lambda i, j: mul(i, z) + j], sk=[lambda i, j: mul(i, z) + j], consts=[m, mul(n, z)])
    k.out('toptr', mul(m, W), lo=mul(mul(n, z), W), val=lambda v: -1, tag='content beyond the last row')
