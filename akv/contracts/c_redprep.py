"""Preparation of reductions: parents, offsets, gaps, shifts."""
from ..registry import contract
from ..dsl import *
from ..cands import fa, pt
from .c_list import cmax, sizes


def sorted_req(k, a, n):
    """a[0..n) is non-decreasing"""
    if k.mode == 'sym':
        i, j = z3.Ints('si sj')
        k.pre.append(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), a[i] <= a[j]), patterns=[z3.MultiPattern(a[i], a[j])]))
    else:
        k.req(all(a[i] <= a[i + 1] for i in range(n - 1)))


def sgen(k, hi):
    """generator of a non-decreasing sequence in [0, hi)"""
    st = [0]

    def g(i):
        if i == 0:
            st[0] = 0
        st[0] = min(hi - 1, st[0] + k.rng.choice([0, 0, 1, 1, 2]))
        if hi <= 0:
            raise Reject('empty')
        return st[0]
    return g


@contract('content_reduce_zeroparents_64', prop='P06')
def _(k):
    n = k.size('length')
    k.out_arr('toparents', n)
    k.out('toparents', n, val=lambda i: 0)


@contract('ListOffsetArray_reduce_global_startstop_64', prop='P06')
def _(k):
    n = k.size('length'); o = k.offsets('offsets', n + 1)
    k.out_arr('globalstart', 1); k.out_arr('globalstop', 1)
    k.cell('globalstart', o[0]); k.cell('globalstop', o[n])


@contract('ListOffsetArray_reduce_local_nextparents_64', prop='P06')
def _(k):
    n = k.size('length'); o = k.offsets('offsets', n + 1)
    k.out_arr('nextparents', o[n] - o[0])
    k.out('nextparents', dims=[(0, n), (0, lambda i: o[i + 1] - o[i])], at=lambda i, j: o[i] - o[0] + j, val=lambda i, j: i)


@contract('ListOffsetArray_reduce_local_outoffsets_64', prop='P06')
def _(k):
    n = k.size('lenparents'); m = k.size('outlength')
    p = k.arr('parents', n, lo=0, hi=m, gen=sgen(k, m) if k.mode == 'gen' else None)
    sorted_req(k, p, n)
    B_ = k.define('below', lambda q: sum(1 for i in range(n) if p[i] < q),
                  lambda B, q: [And(B(q) >= 0, B(q) <= n), Or(B(q) == n, p[B(q)] >= q) if k.symbolic else (B(q) == n or p[B(q)] >= q),
                                Implies(B(q) > 0, p[B(q) - 1] < q) if k.symbolic else (B(q) == 0 or p[B(q) - 1] < q)], dom=lambda q: And(q >= 0, q <= m))
    K = lambda t: ite(t == 0, lambda: 0, lambda: p[t - 1] + 1)
    k.out_arr('outoffsets', m + 1)
    k.out('outoffsets', m + 1, val=lambda q: B_(q), prog=[K, lambda t, u: K(t) + u])
    k.trips((0, n), (0, lambda t: K(t + 1) - K(t)))
    k.expr(K, lambda t: K(t) - 1, lambda t, u: K(t) + u, lambda t, u: K(t) + u - 1)


@contract('ListOffsetArray_reduce_nonlocal_findgaps_64', prop='P06')
def _(k):
    n = k.size('lenparents')
    p = k.arr('parents', n, lo=0, hi=LMAX, gen=lambda i: k.rng.randint(0, 2) + i)
    M = k.rec('max', -1, lambda i, v: If(p[i] > v, p[i], v))
    k.lemma('max>=-1', lambda t: M(t) >= -1, pat=lambda t: M(t), upto=n)
    C = k.count('cnt', lambda i: M(i) < p[i])
    k.out_arr('gaps', C(n))
    k.out('gaps', n, at=lambda i: C(i), when=lambda i: M(i) < p[i], val=lambda i: p[i] - M(i))
    k.expr(M, C)


@contract('ListOffsetArray_reduce_nonlocal_maxcount_offsetscopy_64', prop='P06')
def _(k):
    n = k.size('length'); o = k.offsets('offsets', n + 1)
    c = lambda i: o[i + 1] - o[i]
    M = k.rec('max', 0, lambda i, v: If(v < c(i), c(i), v))
    k.out_arr('maxcount', 1); k.out_arr('offsetscopy', n + 1)
    k.cell('maxcount', M(n), running=lambda t: M(t))
    k.out('offsetscopy', n + 1, val=lambda i: o[i])


@contract('ListOffsetArray_reduce_nonlocal_nextshifts_64', prop='P06')
def _(k):
    n = k.size('length'); mc = k.size('maxcount', gen=lambda: 3); nl = k.size('nextlen')
    o = k.offsets('offsets', n + 1)
    c = lambda i: o[i + 1] - o[i]
    k.req(k.forall(0, n, lambda i: c(i) <= mc, pat=lambda i: o[i]))
    S = k.ghost_len('starts', lambda: k.rng.randint(1, 3))
    p = k.arr('parents', n, lo=0, hi=S, gen=sgen(k, S) if k.mode == 'gen' else None)
    s = k.arr('starts', S, gen=(0, 3))
    ncy = k.arr('nextcarry', nl, lo=0, hi=o[n])
    NM = k.out_arr('nummissing', mc, inout=True, lo=0, hi=LMAX); MS = k.out_arr('missing', o[n], inout=True); k.out_arr('nextshifts', nl)
    # N(q, i): lists among the current parent's first lists (before list i) that are too short to have position q
    N = k.rec('N', lambda q: NM[q], lambda q, i, v: If(s[p[i]] == i, 0, v) + If(c(i) <= q, 1, 0), params=1)
    k.lemma2('0<=N<=LMAX+t', lambda q, t: And(N(q, t) >= 0, N(q, t) <= LMAX + t), pat=lambda q, t: N(q, t), plo=0, phi=mc)
    k.out('nummissing', mc, val=lambda q: N(q, n), running=(lambda t, q: N(q, t), lambda t, q: If(s[p[t]] == t, 0, N(q, t)), lambda t, q: N(q, t + 1),
                                                            lambda t, u, q: If(q < c(t) + u, N(q, t + 1), If(s[p[t]] == t, 0, N(q, t))),
                                                            lambda t, u, q: If(q < u, 0, N(q, t))))
    k.out('missing', dims=[(0, n), (0, c)], at=lambda i, j: o[i] + j, val=lambda i, j: N(j, i + 1))
    k.inv(lambda mem, t: fa(mem, [(0, If(t < nl, t, nl))], lambda j: eq(mem.mem('nextshifts', j), mem.mem('missing', ncy[j]))), 'nextshifts so far')
    k.post(lambda mem: fa(mem, [(0, nl)], lambda j: eq(mem.mem('nextshifts', j), mem.mem('missing', ncy[j]))), 'nextshifts[j] is the shift of the carried element')


@contract('ListOffsetArray_reduce_nonlocal_nextstarts_64', prop='P06')
def _(k):
    n = k.size('nextlen'); L = k.ghost_len('nextstarts', lambda: 5)
    p = k.arr('nextparents', n, lo=0, hi=L)
    old = k.out_arr('nextstarts', L, inout=True)
    new = lambda i: ite(i == 0, lambda: True, lambda: p[i] != p[i - 1])
    R = k.rec('start', lambda q: old[q], lambda q, i, v: If(And(p[i] == q, new(i)), i, v), params=1)
    k.out('nextstarts', L, val=lambda q: R(q, n), running=lambda t, q: R(q, t))
    k.expr(lambda t: ite(t == 0, lambda: -1, lambda: p[t - 1]))


@contract('NumpyArray_reduce_adjust_starts_64', prop='P06')
def _(k):
    n = k.size('outlength'); L = k.ghost_len('parents', lambda: k.rng.randint(1, 5)); S = k.ghost_len('starts', lambda: k.rng.randint(1, 3))
    p = k.arr('parents', L, lo=0, hi=S); s = k.arr('starts', S, lo=0, hi=LMAX)
    x = k.out_arr('toptr', n, inout=True, hi=L, gen=lambda i: k.rng.randint(-1, L - 1))
    k.out('toptr', n, val=lambda i: ite(x[i] >= 0, lambda: x[i] - s[p[x[i]]], lambda: x[i]))


@contract('NumpyArray_reduce_adjust_starts_shifts_64', prop='P06')
def _(k):
    n = k.size('outlength'); L = k.ghost_len('parents', lambda: k.rng.randint(1, 5)); S = k.ghost_len('starts', lambda: k.rng.randint(1, 3))
    p = k.arr('parents', L, lo=0, hi=S); s = k.arr('starts', S, lo=0, hi=LMAX); h = k.arr('shifts', L, lo=-LMAX, hi=LMAX)
    x = k.out_arr('toptr', n, inout=True, hi=L, gen=lambda i: k.rng.randint(-1, L - 1))
    k.out('toptr', n, val=lambda i: ite(x[i] >= 0, lambda: x[i] + h[x[i]] - s[p[x[i]]], lambda: x[i]))


@contract('ListOffsetArray_reduce_nonlocal_preparenext_64', prop='P06', prover=dict(ms_h=15000))
def _(k):
    n = k.size('length')
    o = k.offsets('offsets', n + 1)
    c = lambda i: o[i + 1] - o[i]
    mc = k.int('maxcount', lo=0, hi=LMAX, gen=lambda: max([0] + [c(i) for i in range(n)]))
    nl = k.int('nextlen', lo=0, hi=LMAX, gen=lambda: o[n] - o[0])
    OL = k.ghost('outlength', lambda: max([-1] + list(k.inputs['parents'])) + 1 if k.mode == 'con' else k.rng.randint(0, 3), hi=LMAX)
    if k.mode == 'con' and k.inputs['maxcount'] > 0:
        OL = k.inputs['distinctslen'] // k.inputs['maxcount']
    p = k.arr('parents', n, lo=0, hi=OL, gen=sgen(k, OL) if k.mode == 'gen' else None)
    k.req(k.forall(0, n, lambda i: c(i) <= mc, pat=lambda i: o[i]))
    dl = k.int('distinctslen', lo=0, hi=LMAX, gen=lambda: OL * mc)
    k.req(dl == mul(OL, mc))
    act = lambda d, i: c(i) > d
    cnt = k.rec('cnt', 0, lambda d, i, v: v + If(act(d, i), 1, 0), params=1)
    k.mono2(cnt)
    k.lemma2('0<=cnt<=t', lambda d, t: And(cnt(d, t) >= 0, cnt(d, t) <= t), pat=lambda d, t: cnt(d, t), plo=0, phi=None)
    w = k.ghost('longest', lambda: next((i for i in range(n) if c(i) == mc), 0))
    k.req(Or(mc == 0, And(w >= 0, w < n, ite(w < n, lambda: c(w) == mc, lambda: False))))
    k.lemma2('some list reaches every depth', lambda d, t: cnt(d, t) >= If(w < t, 1, 0), pat=lambda d, t: cnt(d, t), plo=0, phi=mc)
    tot = k.rec('tot', 0, lambda d, v: v + cnt(d, n))
    k.mono(tot)
    k.lemma('tot is increasing', lambda d: Implies(And(d > 0, d <= mc), tot(d - 1) < tot(d)), pat=lambda d: tot(d))
    k.lemma('tot>=0', lambda d: tot(d) >= 0, pat=lambda d: tot(d))
    k.req(tot(mc) == nl)
    pos = lambda d, i: tot(d) + cnt(d, i)
    OC = k.out_arr('offsetscopy', n + 1, inout=True, gen=lambda i: o[i])
    k.req(k.forall(0, n + 1, lambda i: OC[i] == o[i], pat=lambda i: OC[i]))
    k.out_arr('nextcarry', nl); k.out_arr('nextparents', nl); k.out_arr('maxnextparents', 1); k.out_arr('distincts', dl)
    npar = lambda d, i: mul(p[i], mc) + d
    k.out('nextcarry', dims=[(0, mc), (0, n)], at=pos, when=act, val=lambda d, i: o[i] + d)
    k.out('nextparents', dims=[(0, mc), (0, n)], at=pos, when=act, val=npar)
    mn_ = lambda a, b: If(a < b, a, b)
    k.out('offsetscopy', n, val=lambda i: o[i + 1], running=(lambda t, i: mn_(o[i] + t, o[i + 1]), lambda t, u, i: mn_(o[i] + t + If(i < u, 1, 0), o[i + 1])))
    MX = {}
    MX[0] = k.rec('Mtot', 0, lambda d, v: MX[1](d, n))
    MX[1] = k.rec('Mrow', lambda d: MX[0](d), lambda d, i, v: If(And(act(d, i), v < npar(d, i)), npar(d, i), v), params=1)
    k.cell('maxnextparents', MX[0](mc), running=(lambda t: MX[0](t), lambda t, u: MX[1](t, u)))
    S = {}
    S[0] = k.rec('S', lambda d, q: -1, lambda d, q, i, v: If(And(act(d, i), p[i] == q, v == -1), S[1](d, i), v), params=2)
    S[1] = k.rec('J', 0, lambda d, i, v: v + If(And(act(d, i), S[0](d, p[i], i) == -1), 1, 0), params=1)
    k.lemma2('0<=J<=t', lambda d, t: And(S[1](d, t) >= 0, S[1](d, t) <= t), pat=lambda d, t: S[1](d, t), plo=0, phi=None)
    k.out('distincts', dims=[(0, OL), (0, mc)], at=lambda q, d: mul(q, mc) + d, val=lambda q, d: S[0](d, q, n),
          running=(lambda t, q, d: If(d < t, S[0](d, q, n), -1), lambda t, u, q, d: If(d < t, S[0](d, q, n), If(d == t, S[0](d, q, u), -1))))
    k.trips((0, mc))
    k.expr(tot, pos, lambda t, u: S[1](t, u))
    k.inv(lambda mem, t: fa(mem, [(0, If(t < dl, t, dl))], lambda j: mem.mem('distincts', j) == -1, pat=pt(mem, 'distincts')), 'distincts cleared so far')
    k.hint(lambda t, u: (p[u], t))
